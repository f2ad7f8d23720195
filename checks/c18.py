"""C18: the two parties' SPFSS outputs are shares of the point functions.

Both batched methods are verified, per party, against ghost sums over the outputs of the all-but-one random OT (C17)."""
from protocommon import *

H = '''#include "ring.h"
#include "distributed_vector_ole/spfss_known_index.h"
using namespace distributed_vector_ole;
template mpc_utils::Status SPFSSKnownIndex::RunValueProviderBatched<ring::R>(absl::Span<const ring::R>, absl::Span<absl::Span<ring::R>>);
template mpc_utils::Status SPFSSKnownIndex::RunIndexProviderBatched<ring::R>(absl::Span<const ring::R>, absl::Span<const int64_t>, absl::Span<absl::Span<ring::R>>);
template mpc_utils::Status SPFSSKnownIndex::RunValueProvider<ring::R>(ring::R, absl::Span<ring::R>);
template mpc_utils::StatusOr<std::vector<ring::R>> SPFSSKnownIndex::RunValueProvider<ring::R>(ring::R, int64_t);
template mpc_utils::Status SPFSSKnownIndex::RunIndexProvider<ring::R>(ring::R, int64_t, absl::Span<ring::R>);
template mpc_utils::StatusOr<std::vector<ring::R>> SPFSSKnownIndex::RunIndexProvider<ring::R>(ring::R, int64_t, int64_t);
'''
PAR = ['-DNDEBUG', '-fopenmp', '-fstandalone-debug', '-I' + VERIF + '/stubs']
FUNCTIONS = ['SPFSSKnownIndex::RunValueProviderBatched<T> and RunIndexProviderBatched<T> with their parallel regions', 'RunValueProvider, RunIndexProvider (span and vector)']
ASSUMPTIONS = RING + OMPASSUME + ['AllButOneRandomOT by its contract (C17): the sender gets arbitrary r[j], the receiver the same except at indices[j]', 'both parties call with the same number and sizes of outputs',
                                  'mpc_utils::comm_channel delivers the values sent, in order', 'at most 2^31 - 1 outputs']
A2 = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), RS))
RR = z3.Const('r', A2)                                            # output of the all-but-one random OT, sender's side
RX = z3.Const('r_at_index', z3.ArraySort(z3.IntSort(), RS))       # what the receiver has at its index
NN = z3.Const('len', z3.ArraySort(z3.IntSort(), z3.IntSort()))
IX = z3.Const('index', z3.ArraySort(z3.IntSort(), z3.IntSort()))
VA, VB = z3.Const('val_a', z3.ArraySort(z3.IntSort(), RS)), z3.Const('val_b', z3.ArraySort(z3.IntSort(), RS))
SR = z3.Function('sum', z3.IntSort(), z3.IntSort(), RS)           # of r[j][0..i-1]
EX = z3.Function('sum_without', z3.IntSort(), z3.IntSort(), RS)   # the same without position index[j]
J, X, n = I('jj'), I('xx'), I('n')


def at(A, *ix):
    for i in ix:
        A = select(A, i)
    return A


def sum_lemmas(fs):
    out, seen, todo, done = [], set(), [f for f in fs if z3.is_expr(f)], set()
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        todo += x.children()
        if x.decl().eq(SR) or x.decl().eq(EX):
            F = x.decl()
            j, i = x.children()
            if (F.name(), j.get_id(), i.get_id()) in seen:
                continue
            seen.add((F.name(), j.get_id(), i.get_id()))
            p = z3.simplify(i - 1)
            t = z3.Select(z3.Select(RR, j), p)
            if F.eq(EX):
                t = z3.If(p == z3.Select(IX, j), z3.RealVal(0), t)
            out += [z3.Implies(i == 0, x == 0), z3.Implies(i >= 1, x == F(j, p) + t)]
    return out


def lemmas(ctx):
    ex = ctx.exec(ctx.module, 'int')
    j, i = I('j'), I('i')
    st = State()
    st.pc += [i >= 0, SR(j, 0) == 0, EX(j, 0) == 0]
    g = lambda i: SR(j, i) == EX(j, i) + z3.If(i > z3.Select(IX, j), z3.Select(z3.Select(RR, j), z3.Select(IX, j)), z3.RealVal(0))
    st.pc.append(z3.Select(IX, j) >= 0)
    ctx.prove(ex, 'lemma: the sum is the sum without the index and the element at the index, for no elements', st, g(z3.IntVal(0)), kind='lemma')
    r = z3.Select(z3.Select(RR, j), i)
    st.pc += [g(i), SR(j, i + 1) == SR(j, i) + r, EX(j, i + 1) == EX(j, i) + z3.If(i == z3.Select(IX, j), z3.RealVal(0), r)]
    ctx.prove(ex, 'lemma: the sum is the sum without the index and the element at the index, step', st, g(i + 1), kind='lemma')
    # the two parties' outputs: what the checks of the parties prove, put together
    st = State()
    v = lambda A: z3.Select(A, j)
    m, x = v(NN), I('x')
    st.pc += [m >= 0, v(IX) >= 0, v(IX) < m, x >= 0, x < m, SR(j, m) == EX(j, m) + z3.Select(z3.Select(RR, j), v(IX))]
    oa = -z3.Select(z3.Select(RR, j), x)
    ob = z3.If(x == v(IX), v(VB) - EX(j, m) + (v(VA) + SR(j, m)), z3.Select(z3.Select(RR, j), x))
    ctx.prove(ex, "the two outputs add up to the sum of the value shares at the index and to zero elsewhere", st, oa + ob == z3.If(x == v(IX), v(VA) + v(VB), z3.RealVal(0)), kind='lemma')
    ctx.absorb(ex)


class Party:
    def __init__(self, ctx, receiver):
        self.ctx, self.receiver = ctx, receiver
        self.m = m = ctx.par
        self.ex, self.C, self.L = ex, C, L = setup_p(ctx, m)
        self.st = st = State()
        mem = m.members('SPFSSKnownIndex')
        self.p = Ptr(ex.new_obj('spfss'))
        self.chan, self.rot = Ptr(ex.new_obj('channel')), Ptr(ex.new_obj('all_but_one_rot'))
        ex.store(st, self.p.field(mem['channel_']), 64, self.chan)
        ex.store(st, self.p.field(mem['all_but_one_rot_']), 64, self.rot)
        self.nv, self.ni, self.no = I('num_values'), I('num_indices'), I('num_outputs')
        self.V = VB if receiver else VA
        self.inside, self.row = False, None
        VS, IS = Ptr(ex.new_obj('val_shares')), Ptr(ex.new_obj('indices'))
        C.set_size(st, VS, self.nv)
        C.set_arrays(st, VS, 'ring::R', [self.V])
        C.set_size(st, IS, self.ni)
        C.set_arrays(st, IS, 'long', [IX])
        self.OUT0 = ex.fresh('outputs', A2)
        self.OS, self.O = span_array(ex, C, st, 'outputs', self.no, NN, self.OUT0)
        self.VS, self.IS = C.elem(st, VS, 0, 'ring::R'), C.elem(st, IS, 0, 'long')
        for c in (self.nv, self.ni, self.no):
            st.pc += [c >= 0, c < 2 ** 31]
        k = I('k')
        st.pc.append(z3.ForAll([k], z3.And(z3.Select(NN, k) >= 0, z3.Select(NN, k) < 2 ** 56), patterns=[z3.Select(NN, k)]))
        st.pc += [J >= 0, J < self.nv, X >= 0, X < z3.Select(NN, J)]
        if receiver:
            st.pc.append(z3.ForAll([k], z3.And(z3.Select(IX, k) >= -2 ** 63, z3.Select(IX, k) < 2 ** 63), patterns=[z3.Select(IX, k)]))
        st.ghost.update(sent=[], flushed=0, received=0, rot=0)
        CLOSURES[:] = [sum_lemmas]
        ex.on(r'AllButOneRandomOT::Run(Sender|Receiver)Batched<', self.run_rot)
        ex.on(r'mpc_utils::comm_channel::send<', self.send)
        ex.on(r'mpc_utils::comm_channel::recv<', self.recv)
        ex.on(r'mpc_utils::comm_channel::flush\(', self.flush)
        self.code = z3.Int('rot_status')
        ex.facts += [self.code >= 0, self.code <= 16]
        self.Par = Par(ctx, ex, C, self.nv, self.enter, self.post, self.leave)

    # ------------------------------------------------ contracts
    def rr(self):
        if not self.receiver:
            return RR
        j, x = I('rr_j'), I('rr_x')
        return z3.Lambda([j], z3.Lambda([x], z3.If(x == z3.Select(IX, j), z3.Select(RX, j), z3.Select(z3.Select(RR, j), x))))

    def run_rot(self, e, s, a, d):
        want = 'Receiver' if self.receiver else 'Sender'
        i = 1 if not self.receiver else 3
        o, n_ = a[i], a[i + 1]
        same = lambda p, q: isinstance(p, Ptr) and isinstance(q, Ptr) and p.same(q)
        ok = [z3.BoolVal(want in d and same(a[0], self.rot) and same(o, self.O)), to_int(n_, 64) == self.no]
        if self.receiver:
            ok += [z3.BoolVal(same(a[1], self.IS)), to_int(a[2], 64) == self.ni]
        e.oblige('the all-but-one random OT runs once, with the indices and outputs of the caller', s, z3.And(z3.BoolVal(s.ghost['rot'] == 0), *ok), kind='pre')
        s.ghost['rot'] = 1
        self.C.set_arrays(s, self.OS, SPAN + '<ring::R>', [NN, self.rr()])
        k = I('k')
        if self.receiver:
            s.pc.append(z3.Implies(self.code == 0, z3.And(self.ni == self.no, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.ni), z3.And(z3.Select(IX, k) >= 0, z3.Or(z3.Select(NN, k) == 0, z3.Select(IX, k) < z3.Select(NN, k)))), patterns=[z3.Select(IX, k)]))))
        return self.code

    def send(self, e, s, a, d):
        if not isinstance(a[1], Ptr) or 'std::vector<ring::R' not in d:
            raise Unsupported('message')
        s.ghost['sent'] = s.ghost['sent'] + [(self.C.size(s, a[1]), self.C.arrays(s, a[1], 'ring::R')[0], a[0])]
        s.ghost['flushed'] = 0

    def flush(self, e, s, a, d):
        s.ghost['flushed'] = 1

    def recv(self, e, s, a, d):
        if not isinstance(a[1], Ptr) or 'std::vector<ring::R' not in d:
            raise Unsupported('message')
        s.ghost['received'] += 1
        j = I('rv_j')
        self.C.set_size(s, a[1], self.no)
        self.C.set_arrays(s, a[1], 'ring::R', [z3.Lambda([j], z3.Select(VA, j) + SR(j, z3.Select(NN, j)))])

    # ------------------------------------------------ rows
    def sums(self, e, s):
        """the vector with one sum per row"""
        c = []
        for (o, sh), reg in s.mem.items():
            r = s.mem.get((o, (0,)), {}).get(0)
            if e.objs[o].get('alloca') and not sh and ('sz', 0) in reg and r is not None and z3.is_expr(r[1]) and r[1].sort() == z3.ArraySort(z3.IntSort(), RS):
                c.append(o)
        c = [Ptr(o) for o in c if e.check(e.zpc(s) + [to_int(self.C.size(s, Ptr(o)), 64) != self.nv], 5000) == z3.unsat]
        if len(c) != 1:
            raise Unsupported('the sums')
        return c[0]

    def S(self, s):
        return self.C.arrays(s, self.sv, 'ring::R')[0]

    def outs(self, s):
        return self.C.arrays(s, self.OS, SPAN + '<ring::R>')[1]

    def row_sum(self, i):
        return -EX(J, i) if self.receiver else SR(J, i)

    def enter(self, e, s, lb, ub):
        self.sv = self.sums(e, s)
        self.inside, self.row = True, None
        self.init = (self.S(s), self.outs(s))
        S, O = e.fresh('sums', self.S(s).sort()), e.fresh('outs', A2)
        s.pc.append(z3.Implies(z3.And(lb <= J, J < ub), z3.And(at(S, J) == at(self.init[0], J))))
        x = I('x')
        s.pc.append(z3.Implies(z3.And(lb <= J, J < ub), z3.Select(O, J) == at(self.init[1], J)) if not self.receiver else
                    z3.Implies(z3.And(lb <= J, J < ub), z3.ForAll([x], z3.Select(z3.Select(O, J), x) == at(self.init[1], J, x))))
        self.C.set_arrays(s, self.sv, 'ring::R', [S])
        self.C.set_arrays(s, self.OS, SPAN + '<ring::R>', [NN, O])

    def done(self, s, S0, O0):
        """row J after the loop, given its values before"""
        want = at(O0, J, X) if self.receiver else -at(O0, J, X)
        return [('the sum of the row', at(self.S(s), J) == at(S0, J) + self.row_sum(z3.Select(NN, J))), ('the outputs of the row', at(self.outs(s), J, X) == want)]

    def todo(self, s, S0, O0):
        return [('the sums of other rows are untouched', at(self.S(s), J) == at(S0, J)), ('the outputs of other rows are untouched', at(self.outs(s), J, X) == at(O0, J, X))]

    def post(self, e, s, s0, lb, ub):
        S0, O0 = self.S(s0), self.outs(s0)
        mine = z3.And(lb <= J, J < ub)
        return [(nm, z3.Implies(mine, g)) for nm, g in self.done(s, S0, O0)] + [(nm, z3.Implies(z3.Not(mine), g)) for nm, g in self.todo(s, S0, O0)] + \
            [('the lengths stay', z3.And(to_int(self.C.size(s, self.sv), 64) == self.nv, to_int(self.C.size(s, self.OS), 64) == self.no, arr_unchanged(self.C.arrays(s, self.OS, SPAN + '<ring::R>')[0], NN)))]

    def leave(self, e, s):
        self.inside, self.row = False, None
        S0, O0 = self.S(s), self.outs(s)
        S, O = e.fresh('sums', S0.sort()), e.fresh('outs', A2)
        self.C.set_arrays(s, self.sv, 'ring::R', [S])
        self.C.set_arrays(s, self.OS, SPAN + '<ring::R>', [NN, O])
        s.pc += [g for _, g in self.done(s, S0, O0)]

    # ------------------------------------------------ loops
    def hint(self, auto, fr, bb, s):
        fn, ex = fr.fn, self.ex
        body = fn.loops[bb]
        var = header_vars(fn, bb)
        if not var:
            return None
        ld = lambda s, nm, b: position(ex.load(s, local(ex, fn, nm), b), b)
        bits = lambda nm: var_width(fn, bb, nm)
        nested = any(x in body and x != bb for x in fn.loops)
        if self.receiver and s.ghost['received']:
            # outputs[j][index[j]] for the rows up to j
            O0 = self.outs(s)

            def inv(down, auto, s, k, st0):
                j = ld(s, var[0], bits(var[0]))
                O = self.outs(s)
                done = J > j if down else J < j
                return [('the row number', z3.And(j >= -1, j < self.nv) if down else z3.And(j >= 0, j <= self.nv)),
                        ('the rows so far have their value at the index', z3.If(done, at(O, J, X) == z3.If(X == z3.Select(IX, J), self.final(s, J), at(O0, J, X)), at(O, J, X) == at(O0, J, X)))]
            return dict(inv=[partial(inv, d) for d in (False, True)], open='all', trip='unknown')
        if nested and any('dispatch_next' in str((i.a, i.x)) for b in body for i in fn.blocks[b]):
            return dict(unroll=True)
        if not self.inside:
            return None
        if nested:
            S0, O0 = self.S(s), self.outs(s)
            lo = ld(s, var[0], bits(var[0]))
            hi = self.Par.UB if 'omp_outlined' in fn.name else self.nv
            self.row = (fn, var[0], bits(var[0]))

            def inv(auto, s, k, st0):
                j = ld(s, var[0], bits(var[0]))
                d, t = z3.And(*[g for _, g in self.done(s, S0, O0)]), z3.And(*[g for _, g in self.todo(s, S0, O0)])
                x = I('x')
                return [('the row number', z3.And(j >= lo, j <= hi)), ('rows of the chunk so far are done', z3.Implies(z3.And(lo <= J, J < j), d)), ('other rows are untouched', z3.Implies(z3.Not(z3.And(lo <= J, J < j)), t)),
                        ('rows to come are untouched', z3.Implies(J >= j, z3.ForAll([x], z3.Select(z3.Select(self.outs(s), J), x) == at(O0, J, x))))]
            return dict(inv=inv, open='all', trip='unknown')
        S0, O0 = self.S(s), self.outs(s)
        if self.row is None:
            return None
        fn_, v_, b_ = self.row
        first = ld(s, var[0], bits(var[0]))
        j = to_int(ex.load(s, local(ex, fn_, v_), b_), b_)

        ends = [[]]
        if len(var) > 1:
            try:
                ends.append([ld(s, var[1], bits(var[1]))])
            except (Unsupported, AttributeError, z3.Z3Exception):
                pass

        def inv(acc, end, auto, s, k, st0):
            i = ld(s, var[0], bits(var[0]))
            x = I('x')
            here = at(self.S(s), J) if acc is None else ex.load(s, acc, 192)
            rest = [] if acc is None else [('the sums are untouched', at(self.S(s), J) == at(S0, J))]
            old, new = at(O0, J, x), z3.Select(z3.Select(self.outs(s), J), x)
            o = z3.ForAll([x], new == old) if self.receiver else z3.ForAll([x], new == z3.If(z3.And(j == J, x >= 0, x < i), -old, old))
            more = self.row_sum(i) if z3.is_int_value(z3.simplify(first)) else self.row_sum(i) - self.row_sum(first)
            return [('the position', z3.And(i >= 0, i >= first, z3.Or(i == first, z3.And(i <= select(NN, j), *[i <= x for x in end])))), ('the sum so far', z3.If(j == J, here == at(S0, J) + more, at(self.S(s), J) == at(S0, J))), ('the outputs so far', o)] + rest
        # the sum is collected in its place, or in a local variable
        accs = [Ptr(o) for o, v in ex.objs.items() if v.get('fn') == fn.name and 'ring::R' in str(v.get('ty')) and self.stored(fn, body, v['alloca'])]
        return dict(inv=[partial(inv, a, e) for e in ends[::-1] for a in [None] + accs], open='all', trip='unknown')

    def stored(self, fn, body, nm):
        """the loop passes the address of this variable on (operators on elements are calls)"""
        return any("'%s'" % nm in str((i.a, i.x)) for b in body for i in fn.blocks[b])

    def final(self, s, j):
        return at(VB, j) - EX(j, z3.Select(NN, j)) + (z3.Select(VA, j) + SR(j, z3.Select(NN, j)))


def batched(ctx, receiver):
    P = Party(ctx, receiver)
    ex, C, st = P.ex, P.C, P.st
    nm = 'RunIndexProviderBatched' if receiver else 'RunValueProviderBatched'
    main = [f for f in ctx.par.find('SPFSSKnownIndex::%s<ring::R>' % nm) if 'omp_outlined' not in f][0]
    P.L.hints.append((r'SPFSSKnownIndex::', P.hint))
    args = [P.p, P.VS, P.nv] + ([P.IS, P.ni] if receiver else []) + [P.O, P.no]
    if receiver:
        bp = Ptr(ex.new_obj('outputs_arg'))
        ex.store(st, bp, 64, P.O)
        ex.store(st, bp.field(8), 64, P.no)
        if ctx.par.functions[main].parse().byval:
            args = args[:-2] + [bp]
    res = ex.call_fn(main, args, st)
    same = P.nv == P.no
    if receiver:
        same = z3.And(same, P.nv == P.ni)
    ctx.cover(nm + ' returns', len(res) > 0)
    good = False
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, 'the result is OK, the error of the OT, or an argument error', s, z3.Or(code == z3.If(same, P.code, z3.IntVal(3)), z3.And(z3.Not(same), code == 3)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        O, n_ = P.outs(s), C.arrays(s, P.OS, SPAN + '<ring::R>')[0]
        ctx.prove(ex, 'outputs keep their place and length', s, z3.And(to_int(C.size(s, P.OS), 64) == P.no, arr_unchanged(n_, NN)))
        ctx.prove(ex, 'all-but-one random OT has run', s, z3.BoolVal(s.ghost['rot'] == 1))
        if receiver:
            ctx.prove(ex, "one message was received", s, z3.BoolVal(s.ghost['received'] == 1 and not s.ghost['sent']))
            ctx.prove(ex, "the output is r, and at the index the value share without the other elements, and the sender's sum", s, at(O, J, X) == z3.If(X == z3.Select(IX, J), P.final(s, J), z3.Select(z3.Select(RR, J), X)))
        else:
            ms = s.ghost['sent']
            ctx.prove(ex, 'one message was sent and flushed', s, z3.BoolVal(len(ms) == 1 and s.ghost['flushed'] == 1 and s.ghost['received'] == 0))
            if ms:
                ctx.prove(ex, 'the message has one sum per output', s, to_int(ms[0][0], 64) == P.no)
                ctx.prove(ex, 'the message has the value share plus the sum of r', s, at(ms[0][1], J) == z3.Select(VA, J) + SR(J, z3.Select(NN, J)))
            ctx.prove(ex, 'the output is minus r', s, at(O, J, X) == -z3.Select(z3.Select(RR, J), X))
    ctx.cover(nm + ' succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def single(ctx, receiver, vector):
    """the methods for one output call the batched one with exactly their arguments"""
    m = ctx.par
    ex, C, L = setup_p(ctx, m)
    st = State()
    p = Ptr(ex.new_obj('spfss'))
    vs, out = Ptr(ex.new_obj('val_share')), Ptr(ex.new_obj('output'))
    v, ix, size = RC('val_share'), I('index'), I('size')
    ex.store(st, vs, 192, v)
    st.pc += [ix >= -2 ** 63, ix < 2 ** 63, size >= 0, size < 2 ** 40]
    C.set_size(st, out, size)
    o0, o1 = ex.fresh('out_before', z3.ArraySort(z3.IntSort(), RS)), ex.fresh('out_after', z3.ArraySort(z3.IntSort(), RS))
    C.set_arrays(st, out, 'ring::R', [o0])
    code = I('batched_status')
    ex.facts += [code >= 0, code <= 16]
    st.ghost['runs'] = 0

    def batched_(e, s, a, d):
        ok = 'RunIndexProviderBatched' in d if receiver else 'RunValueProviderBatched' in d
        gs = [z3.BoolVal(ok and a[0].same(p)), to_int(a[2], 64) == 1, e.load(s, a[1], 192) == v]
        b = list(a[3:])
        if receiver:
            gs += [to_int(b[1], 64) == 1, to_int(e.load(s, b[0], 64), 64) == ix]
            b = b[2:]
        if len(b) == 1:
            b = [e.load(s, b[0], 64), e.load(s, b[0].field(8), 64)]
        q, ln = e.load(s, b[0], 64), e.load(s, b[0].field(8), 64)
        gs += [to_int(b[1], 64) == 1, to_int(ln, 64) == size]
        e.oblige('the batched method is called once with the arguments', s, z3.And(z3.BoolVal(s.ghost['runs'] == 0), *gs), kind='pre')
        s.ghost['runs'] = 1
        if not isinstance(q, Ptr) or not q.steps or not (isinstance(q.steps[-1][1], int) and q.steps[-1][1] == 0):
            raise Unsupported('the output span')
        c = Ptr(q.obj, q.steps[:-1], q.steps[-1][0])
        C.set_arrays(s, c, 'ring::R', [o1])
        return code
    ex.on(r'SPFSSKnownIndex::Run\w+ProviderBatched<', batched_)
    pat = 'SPFSSKnownIndex::Run%sProvider<ring::R>' % ('Index' if receiver else 'Value')
    fn = [f for f in m.find(pat) if ('StatusOr<' in m.dem(f)) == vector][0]
    args = [p, vs] + ([ix] if receiver else [])
    if vector:
        r = Ptr(ex.new_obj('result_'))
        args = [r] + args + [size]
    else:
        args += [C.elem(st, out, 0, 'ring::R'), size]
    res = ex.call_fn(fn, args, st)
    nm = 'Run%sProvider (%s)' % ('Index' if receiver else 'Value', 'vector' if vector else 'span')
    ctx.cover(nm + ' returns', len(res) > 0)
    for s, cd in res:
        ctx.prove(ex, nm + ': the batched method runs once', s, z3.BoolVal(s.ghost['runs'] == 1))
        if vector:
            got = to_int(ex.load(s, r, 32), 32)
            ctx.prove(ex, nm + ': the status is that of the batched method', s, got == code)
            s = s.copy()
            s.pc.append(code == 0)
            w = r.field(8)
        else:
            ctx.prove(ex, nm + ': the status is that of the batched method', s, to_int(cd, 32) == code)
            w = out
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        ctx.feasible(ex, nm + ' succeeds', s)
        ctx.prove(ex, nm + ': the output is that of the batched method', s, z3.And(to_int(C.size(s, w), 64) == size, C.arrays(s, w, 'ring::R')[0] == o1))
    ctx.absorb(ex)


def create(ctx):
    """Create: a channel, a non-negative statistical security, both passed on"""
    m = ctx.create
    ex, C, L = setup_p(ctx, m)
    st = State()
    sec = RC('security')
    r, ch = Ptr(ex.new_obj('result_')), Ptr(ex.new_obj('channel'))
    rot, code = Ptr(ex.new_obj('rot')), I('create_status')
    ex.facts += [code >= 0, code <= 16]

    def mk(e, s, a, d):
        e.oblige('the all-but-one random OT is created for the channel and security of the caller', s, z3.And(z3.BoolVal(a[1].same(ch)), (a[2] if z3.is_expr(a[2]) else z3.RealVal(a[2])) == sec), kind='pre')
        e.store(s, a[0], 32, code)
        e.store(s, a[0].field(8), 64, rot)
    ex.on(r'AllButOneRandomOT::Create\(', mk)
    ex.on(r'AllButOneRandomOT>::~?unique_ptr|default_delete', lambda e, s, a, d: NotImplemented)
    fn = m.find('SPFSSKnownIndex::Create')[0]
    res = ex.call_fn(fn, [r, NULL, sec], st.copy())
    ctx.cover('Create rejects a null channel', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'Create: a null channel is an argument error', s, to_int(ex.load(s, r, 32), 32) == 3)
    mem = m.members('SPFSSKnownIndex')
    res = ex.call_fn(fn, [r, ch, sec], st.copy())
    ctx.cover('Create returns', len(res) > 0)
    good = False
    for s, _ in res:
        got = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'Create: negative statistical security is an argument error, otherwise the status is that of the random OT', s, got == z3.If(sec < 0, z3.IntVal(3), code))
        s = s.copy()
        s.pc.append(got == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        q = ex.load(s, r.field(8), 64)
        ok = isinstance(q, Ptr) and q.obj is not None
        f = lambda k: ex.load(s, q.field(mem[k]), 64)
        ctx.prove(ex, 'Create: the instance has the channel and the random OT', s, z3.BoolVal(ok and f('channel_').same(ch) and f('all_but_one_rot_').same(rot)))
    ctx.cover('Create succeeds', good)
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.par = ctx.ir(None, PAR, name='spfss', text=H)
    ctx.create = ctx.ir('spfss_known_index.cpp', PAR, name='spfss_create')
    ctx.parallel([('lemmas', lemmas), ('RunValueProviderBatched', batched, False), ('RunIndexProviderBatched', batched, True), ('Create', create)] +
                 [('Run%sProvider (%s)' % ('Index' if x else 'Value', 'vector' if y else 'span'), single, x, y) for x in (False, True) for y in (False, True)])


def native(ctx):
    proto_native(ctx, 18)
