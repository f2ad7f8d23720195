"""C19: Gilboa product: the outputs of the two parties are additive shares of x*y.

One group of obligations per size of the scalar type (1 to 16 bytes; larger ones are rejected): the size fixes the number
of bits and how many elements share one oblivious transfer."""
from protocommon import *
from functools import partial
from c17 import elem0, real
from ggmcommon import at, depth

H = '''#include "ring.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.cpp"
namespace distributed_vector_ole {
template mpc_utils::Status ScalarVectorGilboaProduct::RunVectorProvider<ring::R>(absl::Span<const ring::R>, absl::Span<ring::R>);
template mpc_utils::StatusOr<std::vector<ring::R>> ScalarVectorGilboaProduct::RunVectorProvider<ring::R>(absl::Span<const ring::R>);
template mpc_utils::Status ScalarVectorGilboaProduct::RunValueProvider<ring::R>(ring::R, absl::Span<ring::R>);
template mpc_utils::StatusOr<std::vector<ring::R>> ScalarVectorGilboaProduct::RunValueProvider<ring::R>(ring::R, int64_t);
template std::vector<emp::block> gilboa_internal::RunOTSenderCorrelated<ring::R>(absl::Span<const emp::block>, emp::SHOTExtension<mpc_utils::CommChannelEMPAdapter>*);
template std::vector<emp::block> gilboa_internal::RunOTSender1of2<ring::R>(absl::Span<const emp::block>, emp::SHOTExtension<mpc_utils::CommChannelEMPAdapter>*);
}
'''
PAR = ['-DNDEBUG', '-fstandalone-debug', '-DBOOST_CONTAINER_DISABLE_FORCEINLINE', '-I' + VERIF + '/stubs']
FUNCTIONS = ['ScalarVectorGilboaProduct::RunVectorProvider, RunValueProvider (span and vector), UseCorrelatedOT, RunOTSender, RunOTReceiver, Create', 'gilboa_internal::RunOTSenderCorrelated and its correlation function, RunOTSender1of2, GetBits']
ASSUMPTIONS = RING + ['SpanToEMPBlock, EMPBlockToSpan by the contract proved in C23 (what is packed is unpacked again)', 'GetBit, SetBit by the contract proved in C06 (the bits times the powers of two add up to the value)',
                      'ideal oblivious transfer: the receiver gets, per transfer, the message of its choice bit; correlated transfers draw the first message and compute the second with the correlation function',
                      'fewer than 2^31 oblivious transfers in one run (the interface of EMP counts them in an int)', 'CanBeHashedInto and log2 are functions']
Z = z3.IntSort()
BVS = z3.BitVecSort(128)
EMPB = 'long long __vector(2)'
UNP = z3.Function('unpacked', BVS, Z, RS)
P2 = z3.Function('power_of_two', Z, RS)
SUM = z3.Function('sum_of_messages', Z, RS)        # of position J, over the first levels
CBH = z3.Function('can_be_hashed_into', RS, Z, z3.BoolSort())
LOG2 = z3.Function('log2', RS, RS)
YV = z3.Const('y', z3.ArraySort(Z, RS))
OTV = z3.Const('messages', z3.ArraySort(Z, BVS))   # what the party has from the transfers
BITS = z3.Const('bits', z3.ArraySort(Z, Z))
DV = z3.Const('deltas', z3.ArraySort(Z, BVS))
B, K, JJ, LEN_, SEC, XV, T = I('block'), I('place'), I('level'), I('y_len'), RC('security'), RC('x'), I('transfer')


def apps(fs, decl):
    out, done, todo = {}, set(), [f for f in fs if z3.is_expr(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        todo += x.children()
        if x.decl().eq(decl):
            k = z3.simplify(x.arg(0))
            out[k.get_id()] = k
    return list(out.values())


def nest(fn, bb):
    """the loop variables from the outermost loop inwards"""
    hs = sorted([h for h, body in fn.loops.items() if bb in body], key=lambda h: depth(fn, h))
    r = [header_vars(fn, h) for h in hs]
    if not all(r):
        raise Unsupported('loop variables')
    return [(x[0], var_width(fn, h, x[0])) for h, x in zip(hs, r)]



class G:
    def __init__(self, ctx, size):
        self.ctx, self.size = ctx, size
        self.bw, self.stride = 8 * size, 16 // size if size <= 16 else 0
        m = self.m = ctx.module
        ex, C, L = self.ex, self.C, self.L = setup_p(ctx, m)
        C.layouts[EMPB] = (16, [((), 0, 16, BVS, z3.BitVecVal(0, 128))])
        ex.on(r'ScalarHelper<ring::R.*>::SizeOf\(', lambda e, s, a, d: size)
        ex.on(r'ScalarHelper<ring::R.*>::CanBeHashedInto\(', lambda e, s, a, d: CBH(real(a[0]), to_int(a[1], 32)))
        ex.on(r'(^|\s)(std::)?log2(<|$)', lambda e, s, a, d: LOG2(real(a[0])))
        ex.on(r'ScalarHelper<ring::R.*>::SetBit\(', lambda e, s, a, d: e.store(s, a[0], 192, P2(to_int(a[1], 32))))
        ex.on(r'ScalarHelper<ring::R.*>::Randomize\(', self.randomize)
        ex.on(r'SpanToEMPBlock<ring::R>', self.pack)
        ex.on(r'EMPBlockToSpan<ring::R>', self.unpack)
        ex.on(r'^void std::fill<ring::R', self.fill)
        ex.on(r'CommChannelEMPAdapter::flush\(', lambda e, s, a, d: s.ghost.__setitem__('flushed', 1))
        ex.on(r'ThrowStd', self.throws)
        st = self.st = State()
        mem = m.members('ScalarVectorGilboaProduct')
        p = self.p = Ptr(ex.new_obj('product'))
        self.adapter = Ptr(ex.new_obj('adapter'))
        ex.store(st, p.field(mem['channel_adapter_']), 64, self.adapter)
        ex.store(st, p.field(mem['statistical_security_']), 64, SEC)
        self.ot = p.field(mem['ot_'])
        k = I('k')
        st.pc.append(z3.ForAll([k], z3.And(z3.Select(BITS, k) >= 0, z3.Select(BITS, k) <= 1), patterns=[z3.Select(BITS, k)]))
        if size <= 16:
            self.J = B * self.stride + K
            self.nt = self.bw * ((LEN_ + self.stride - 1) / self.stride)
            st.pc += [LEN_ >= 0, B >= 0, K >= 0, K < self.stride, self.J < LEN_, JJ >= 0, JJ < self.bw, self.nt < 2 ** 31]
        else:
            st.pc += [LEN_ >= 0, LEN_ < 2 ** 40]
        st.ghost.update(ot=0, flushed=0)
        CLOSURES[:] = [self.sums]
        self.variant = CBH(LOG2(z3.ToReal(LEN_)) + SEC, z3.IntVal(self.bw))

    def throws(self, e, s, a, d):
        e.oblige('no exception is thrown', s, z3.BoolVal(False), kind='safety')
        raise PathEnd('exception')

    def sums(self, fs):
        out = []
        for t in apps(fs, SUM):
            p = z3.simplify(t - 1)
            msg = lambda j: UNP(z3.Select(OTV, z3.simplify(B * self.bw + j)), K)
            out += [z3.Implies(t == 0, SUM(t) == 0), z3.Implies(z3.And(t >= 1, t <= self.bw), SUM(t) == SUM(p) + msg(p)), z3.Implies(z3.And(t >= 0, t < self.bw), SUM(z3.simplify(t + 1)) == SUM(t) + msg(t))]
        return out

    # ------------------------------------------------ contracts
    def place(self, p):
        """container and position of an element pointer"""
        if not isinstance(p, Ptr) or not p.steps or p.off != 0:
            raise Unsupported('element pointer')
        return Ptr(p.obj, p.steps[:-1], p.steps[-1][0]), to_int(p.steps[-1][1], 64)

    def pack(self, e, s, a, d):
        c, i = self.place(a[0])
        n_, mu = to_int(a[1], 64), e.load(s, a[2], 192)
        e.oblige('no more elements are packed than fit', s, z3.And(n_ >= 0, n_ <= self.stride), kind='pre')
        b = e.fresh('packed', BVS)
        v = select(self.C.arrays(s, c, 'ring::R')[0], z3.simplify(i + K))
        s.pc.append(z3.Implies(K < n_, UNP(b, K) == v * (z3.RealVal(mu) if isinstance(mu, int) else mu)))
        return b

    def unpack(self, e, s, a, d):
        c, i = self.place(a[1])
        e.oblige('a whole block is unpacked', s, to_int(a[2], 64) == self.stride, kind='pre')
        b, j = bv(a[0], 128), I('up_j')
        old = self.C.arrays(s, c, 'ring::R')[0]
        self.C.set_arrays(s, c, 'ring::R', [z3.Lambda([j], z3.If(z3.And(j >= i, j < i + self.stride), UNP(b, z3.simplify(j - i)), z3.Select(old, j)))])

    def fill(self, e, s, a, d):
        f, l = a[0], a[1]
        c, i, n_ = self.C.rng(s, f, l)
        v = e.load(s, a[2], 192)
        v = z3.RealVal(v) if isinstance(v, int) else v
        if c is None:
            return
        j, i, n_ = I('fl_j'), to_int(i, 64), to_int(n_, 64)
        old = self.C.arrays(s, c, 'ring::R')[0]
        self.C.set_arrays(s, c, 'ring::R', [z3.Lambda([j], z3.If(z3.And(j >= i, j < i + n_), v, z3.Select(old, j)))])

    def randomize(self, e, s, a, d):
        c, i = self.place(a[0])
        A = self.C.arrays(s, c, 'ring::R')[0]
        self.C.set_arrays(s, c, 'ring::R', [e.fresh('random', A.sort())])

    def out(self, s):
        return select(self.C.arrays(s, self.OUT, 'ring::R')[0], z3.simplify(self.J))

    def output(self):
        ex, C, st = self.ex, self.C, self.st
        self.OUT = Ptr(ex.new_obj('output'))
        self.no = I('output_len')
        st.pc += [self.no >= 0, self.no < 2 ** 40]
        C.set_size(st, self.OUT, self.no)
        C.set_arrays(st, self.OUT, 'ring::R', [ex.fresh('out_before', z3.ArraySort(Z, RS))])
        return C.elem(st, self.OUT, 0, 'ring::R')

    # ------------------------------------------------ loops
    def hints(self, main, name, prop, sign):
        """loops of the two Run methods: `name` is the list of what goes into the transfers, `prop` what holds of it for
        block B, level JJ; afterwards the messages are added up"""
        ex, C = self.ex, self.C

        def hint(auto, fr, bb, s):
            fn = fr.fn
            if fn.name != main:
                return None
            body = fn.loops[bb]
            d, vs = depth(fn, bb), nest(fn, bb)
            val = lambda s, q: to_int(ex.load(s, local(ex, fn, vs[q][0]), vs[q][1]), vs[q][1])
            # the blocks are counted by the position of their first element, or by their number
            element = dict(range=lambda i: z3.And(i >= 0, i % self.stride == 0, i < LEN_ + self.stride), done=lambda i: self.J < i, here=lambda i: i / self.stride == B)
            number = dict(range=lambda i: z3.And(i >= 0, i * self.stride < LEN_ + self.stride), done=lambda i: B < i, here=lambda i: i == B)

            def outer(f):
                def inv(mode, auto, s, k, st0):
                    self.mode = mode
                    i = val(s, 0)
                    return [('the position', mode['range'](i))] + f(mode['done'](i), s)
                return dict(inv=[partial(inv, m) for m in (element, number)], open='all', trip='unknown')
            mode = self.mode or element
            if not s.ghost['ot']:
                if d == 0 and not any(x in body and x != bb for x in fn.loops):
                    return None
                P = prop
                row = lambda s: P(s)[0]
                if d == 0:
                    return outer(lambda done, s: [('the number of transfers', P(s)[1]), ('the transfers so far', z3.Implies(done, row(s)))])
                v0 = P(s)[2]

                def inv(auto, s, k, st0):
                    i, j = val(s, 0), val(s, 1)
                    return [('the level', z3.And(j >= 0, j <= self.bw)), ('the number of transfers', P(s)[1]), ('the transfers so far', z3.If(mode['here'](i), z3.Implies(JJ < j, row(s)), P(s)[2] == v0))]
                return dict(inv=inv, open='all', trip='unknown')
            o0 = self.out(s)
            acc = lambda j: sign * SUM(j)
            if d == 0:
                return outer(lambda done, s: [('the outputs so far', self.out(s) == z3.If(done, acc(z3.IntVal(self.bw)), o0))])
            if d == 1:
                def inv(auto, s, k, st0):
                    i, j = val(s, 0), val(s, 1)
                    return [('the level', z3.And(j >= 0, j <= self.bw)), ('the messages so far', self.out(s) == z3.If(mode['here'](i), acc(j), o0))]

                def zero(auto, s, k, st0):
                    i, q = val(s, 0), val(s, 1)
                    return [('the place', z3.And(q >= 0, q <= self.stride)), ('the zeros so far', self.out(s) == z3.If(z3.And(mode['here'](i), K < q), z3.RealVal(0), o0))]
                return dict(inv=[inv, zero], open='all', trip='unknown')
            i, j = val(s, 0), val(s, 1)

            def inv(auto, s, k, st0):
                q = val(s, 2)
                return [('the place', z3.And(q >= 0, q <= self.stride)), ('the message so far', self.out(s) == z3.If(z3.And(mode['here'](i), K < q), acc(z3.simplify(j + 1)), o0))]
            return dict(inv=inv, open='all', trip='unknown')
        self.mode = None
        self.L.hints.append((r'ScalarVectorGilboaProduct::', hint))


def rejected(ctx, g, nm, res):
    for s, code in res:
        ctx.prove(g.ex, nm + ': scalars of more than 16 bytes are rejected', s, to_int(code, 32) == 3)


def vector_provider(ctx, size):
    g = G(ctx, size)
    ex, C, st, m = g.ex, g.C, g.st, g.m
    o0 = g.output()
    Y = Ptr(ex.new_obj('y'))
    C.set_size(st, Y, LEN_)
    C.set_arrays(st, Y, 'ring::R', [YV])
    main = [f for f in m.find('ScalarVectorGilboaProduct::RunVectorProvider<ring::R>') if 'StatusOr' not in m.dem(f)][0]
    fn = m.functions[main]

    def sent(A):
        return UNP(select(A, z3.simplify(B * g.bw + JJ)), K) == z3.Select(YV, z3.simplify(g.J)) * P2(JJ)

    def prop(s):
        v = local(ex, fn, 'deltas')
        A = C.arrays(s, v, EMPB)[0]
        return sent(A), to_int(C.size(s, v), 64) == g.nt, select(A, z3.simplify(B * g.bw + JJ))
    g.hints(main, 'deltas', prop, -1)

    def ot(e, s, a, d):
        c, i = g.place(a[1])
        A = C.arrays(s, c, EMPB)[0]
        e.oblige('the transfers run once, over the channel of the instance', s, z3.And(z3.BoolVal(s.ghost['ot'] == 0 and a[3].same(g.ot)), i == 0, to_int(a[2], 64) == g.nt), kind='pre')
        e.oblige('correlated transfers are used when hashes can be used as scalars, for the length of the vectors', s, g.variant if 'Correlated' in d else z3.Not(g.variant), kind='post')
        e.oblige('the difference of the messages is the element times the power of two of the level', s, sent(A), kind='post')
        C.set_size(s, a[0], to_int(a[2], 64))
        C.set_arrays(s, a[0], EMPB, [OTV])
        s.ghost['ot'] = 1
        s.ghost['flushed'] = 0
    ex.on(r'gilboa_internal::RunOTSender(Correlated|1of2)<ring::R>', ot)
    res = ex.call_fn(main, [g.p, C.elem(st, Y, 0, 'ring::R'), LEN_, o0, g.no], st)
    finish(ctx, g, 'RunVectorProvider', res, -1, g.no == LEN_)


def finish(ctx, g, nm, res, sign, same):
    ex = g.ex
    ctx.cover(nm + ' returns', len(res) > 0)
    if g.size > 16:
        rejected(ctx, g, nm, res)
        ctx.absorb(ex)
        CLOSURES[:] = []
        return
    good = False
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, nm + ': vectors of different lengths are rejected, others are not', s, code == z3.If(same, z3.IntVal(0), z3.IntVal(3)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        ctx.feasible(ex, nm + ' succeeds', s)
        ctx.prove(ex, nm + ': the transfers have run and were flushed', s, z3.BoolVal(s.ghost['ot'] == 1 and s.ghost['flushed'] == 1))
        ctx.prove(ex, nm + ': the output is %sthe sum of the messages' % ('minus ' if sign < 0 else ''), s, g.out(s) == sign * SUM(z3.IntVal(g.bw)))
    ctx.cover(nm + ' succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def value_provider(ctx, size):
    g = G(ctx, size)
    ex, C, st, m = g.ex, g.C, g.st, g.m
    o0 = g.output()
    main = [f for f in m.find('ScalarVectorGilboaProduct::RunValueProvider<ring::R>') if 'StatusOr' not in m.dem(f)][0]
    fn = m.functions[main]
    st.pc.append(g.no == LEN_)

    def bits(e, s, a, d):
        e.oblige('the bits are those of x', s, e.load(s, a[1], 192) == XV, kind='pre')
        C.set_size(s, a[0], g.bw)
        C.set_arrays(s, a[0], 'bool', [BITS])
    ex.on(r'gilboa_internal::GetBits<ring::R>', bits)

    def prop(s):
        v = local(ex, fn, 'choices')
        A = C.arrays(s, v, 'bool')[0]
        x = select(A, z3.simplify(B * g.bw + JJ))
        return x == z3.Select(BITS, JJ), to_int(C.size(s, v), 64) == g.nt, x
    g.hints(main, 'choices', prop, 1)

    def recv(e, s, a, d):
        (v, i), (c, j) = g.place(a[1]), g.place(a[2])
        A = C.arrays(s, c, 'bool')[0]
        e.oblige('the transfers run once, over the channel of the instance', s, z3.And(z3.BoolVal(s.ghost['ot'] == 0 and a[0].same(g.ot)), i == 0, j == 0, to_int(a[3], 32) == g.nt, to_int(C.size(s, v), 64) == g.nt), kind='pre')
        e.oblige('correlated transfers are used when hashes can be used as scalars, for the length of the vectors', s, g.variant if 'recv_cot' in d else z3.Not(g.variant), kind='post')
        e.oblige('the choices are the bits of x, for every block', s, select(A, z3.simplify(B * g.bw + JJ)) == z3.Select(BITS, JJ), kind='post')
        C.set_arrays(s, v, EMPB, [OTV])
        s.ghost['ot'] = 1
        s.ghost['flushed'] = 0
    ex.on(r'emp::SHOTExtension<.*>::recv(_cot)?\(', recv)
    x = Ptr(ex.new_obj('x'))
    ex.store(st, x, 192, XV)
    res = ex.call_fn(main, [g.p, x, o0, g.no], st)
    finish(ctx, g, 'RunValueProvider', res, 1, z3.BoolVal(True))


def transfers(ctx, size, correlated):
    """RunOTSenderCorrelated, RunOTSender1of2: the second message is the first plus the difference, element by element;
    the first ones are returned"""
    g = G(ctx, size)
    ex, C, st, m = g.ex, g.C, g.st, g.m
    nm = 'RunOTSenderCorrelated' if correlated else 'RunOTSender1of2'
    D = Ptr(ex.new_obj('deltas'))
    nd = I('num_transfers')
    C.set_size(st, D, nd)
    C.set_arrays(st, D, EMPB, [DV])
    st.pc += [nd >= 0, nd < 2 ** 31, T >= 0, T < nd]
    main = m.find('gilboa_internal::%s<ring::R>' % nm)
    main = [f for f in main if 'lambda' not in m.dem(f) and 'send_cot' not in m.dem(f)][0]
    fn = m.functions[main]
    rel = lambda m0, m1, t: UNP(m1, K) == UNP(m0, K) + UNP(z3.Select(DV, t), K)

    def cot(e, s, a, d):
        c, i = g.place(a[1])
        e.oblige('the transfers run once, over the given channel', s, z3.And(z3.BoolVal(s.ghost['ot'] == 0 and a[0].same(g.ot)), i == 0, to_int(a[3], 32) == nd, to_int(C.size(s, c), 64) == nd), kind='pre')
        lam = [f for f in m.find(r'RunOTSenderCorrelated<ring::R>.*::\{lambda') if 'operator()' in m.dem(f) and 'send_cot' not in m.dem(f)]
        if len(lam) != 1:
            raise Unsupported('the correlation function')
        m0, s1 = e.fresh('first_message', BVS), s.copy()
        out = e.call_fn(lam[0], [a[2], m0, T], s1)
        ctx.cover('the correlation function returns', len(out) > 0)
        for s2, v in out:
            e.oblige('the second message is the first plus the difference', s2, rel(m0, bv(v, 128), T), kind='post')
        C.set_arrays(s, c, EMPB, [OTV])
        s.ghost['ot'] = 1
    ex.on(r'emp::SHOTExtension<.*>::send_cot_ft<', cot)

    def send(e, s, a, d):
        (c0, i0), (c1, i1) = g.place(a[1]), g.place(a[2])
        A0, A1 = C.arrays(s, c0, EMPB)[0], C.arrays(s, c1, EMPB)[0]
        e.oblige('the transfers run once, over the given channel', s, z3.And(z3.BoolVal(s.ghost['ot'] == 0 and a[0].same(g.ot)), i0 == 0, i1 == 0, to_int(a[3], 32) == nd, to_int(C.size(s, c0), 64) == nd, to_int(C.size(s, c1), 64) == nd), kind='pre')
        e.oblige('the second message is the first plus the difference', s, rel(select(A0, T), select(A1, T), T), kind='post')
        s.ghost['ot'] = 1
        s.ghost['first'] = select(A0, T)
    ex.on(r'emp::SHOTExtension<.*>::send\(', send)

    def hint(auto, fr, bb, s):
        fn = fr.fn
        if fn.name != main or depth(fn, bb) or not any('Randomize' in str((i.a, i.x)) for b in fn.loops[bb] for i in fn.blocks[b]):
            return None
        var = nest(fn, bb)[0]
        def lst(x):
            try:
                return local(ex, fn, x)
            except Unsupported:
                return r        # the one returned is built in place
        lists = [lst('opt0'), lst('opt1')]
        i = lambda s: to_int(ex.load(s, local(ex, fn, var[0]), var[1]), var[1])

        def inv(auto, s, k, st0):
            A0, A1 = [C.arrays(s, v, EMPB)[0] for v in lists]
            return [('the transfer', z3.And(i(s) >= 0, i(s) <= nd)), ('the messages so far', z3.Implies(T < i(s), rel(select(A0, T), select(A1, T), T)))]
        return dict(inv=inv, open='all', trip='unknown')
    L = g.L
    L.hints.append((r'RunOTSender1of2', hint))
    r = Ptr(ex.new_obj('result_'))
    res = ex.call_fn(main, [r, C.elem(st, D, 0, EMPB), nd, g.ot], st)
    ctx.cover(nm + ' returns', len(res) > 0)
    for s, _ in res:
        ctx.feasible(ex, nm + ' returns', s)
        ctx.prove(ex, nm + ': the first messages are returned', s, z3.And(z3.BoolVal(s.ghost['ot'] == 1), to_int(C.size(s, r), 64) == nd, select(C.arrays(s, r, EMPB)[0], T) == (z3.Select(OTV, T) if correlated else s.ghost['first'])))
    ctx.absorb(ex)
    CLOSURES[:] = []


def get_bits(ctx, size):
    g = G(ctx, size)
    ex, C, st, m = g.ex, g.C, g.st, g.m
    BIT = z3.Function('bit', Z, z3.BoolSort())
    x = Ptr(ex.new_obj('x'))
    ex.store(st, x, 192, XV)

    def bit(e, s, a, d):
        e.oblige('the bits are those of x', s, z3.And(e.load(s, a[0], 192) == XV, to_int(a[1], 32) >= 0, to_int(a[1], 32) < g.bw), kind='pre')
        return BIT(to_int(a[1], 32))
    ex.on(r'ScalarHelper<ring::R.*>::GetBit\(', bit)
    r = Ptr(ex.new_obj('result_'))
    res = ex.call_fn(m.find('gilboa_internal::GetBits<ring::R>')[0], [r, x], st)
    ctx.cover('GetBits returns', len(res) > 0)
    for s, _ in res:
        ctx.feasible(ex, 'GetBits returns', s)
        ctx.prove(ex, 'GetBits: all bits in order', s, z3.And(to_int(C.size(s, r), 64) == g.bw, select(C.arrays(s, r, 'bool')[0], JJ) == z3.If(BIT(JJ), z3.IntVal(1), z3.IntVal(0))))
    ctx.absorb(ex)
    CLOSURES[:] = []


def lemmas(ctx):
    ex = ctx.exec(ctx.module, 'int')
    y, p, bs, bs1, r, r1, v, v1, rm, vm, x = [RC(k) for k in 'y p bs bs1 sent sent1 got got1 first message x'.split()]
    b = z3.Bool('bit')
    st = State()
    # one more level: the sender adds its first message, the receiver the one it chose, the decomposition one more bit
    st.pc += [v == r + bs * y, r1 == r + rm, v1 == v + vm, vm == z3.If(b, rm + y * p, rm), bs1 == z3.If(b, bs + p, bs)]
    ctx.prove(ex, 'lemma: what the receiver adds up is what the sender adds up and the bits so far times y (step)', st, v1 == r1 + bs1 * y, kind='lemma')
    st = State()
    st.pc += [v == r + bs * y, bs == x]
    ctx.prove(ex, 'lemma: the outputs add up to x * y', st, -r + v == x * y, kind='lemma')
    ctx.absorb(ex)


def vectors(ctx, receiver):
    """the methods that return a vector call the others with exactly their arguments"""
    g = G(ctx, 4)
    ex, C, m = g.ex, g.C, g.m
    st = State()
    code, size = I('status'), I('size')
    ex.facts += [code >= 0, code <= 16]
    o1 = ex.fresh('out_after', z3.ArraySort(Z, RS))
    st.pc += [size >= -2 ** 63, size < 2 ** 40]
    st.ghost['runs'] = 0
    x, Y = Ptr(ex.new_obj('x')), Ptr(ex.new_obj('y'))
    ex.store(st, x, 192, XV)
    C.set_size(st, Y, size)
    C.set_arrays(st, Y, 'ring::R', [YV])
    nm = 'RunValueProvider' if receiver else 'RunVectorProvider'
    yp = C.elem(st, Y, 0, 'ring::R')

    def run(e, s, a, d):
        if 'StatusOr' in d:
            return NotImplemented
        gs = [z3.BoolVal(a[0].same(g.p) and nm + '<' in d and s.ghost['runs'] == 0)]
        gs += [e.load(s, a[1], 192) == XV] if receiver else [z3.BoolVal(a[1].same(yp)), to_int(a[2], 64) == size]
        q, ln = a[-2], to_int(a[-1], 64)
        e.oblige('the other method is called once with the arguments', s, z3.And(ln == size, *gs), kind='pre')
        s.ghost['runs'] = 1
        c, i = g.place(q)
        C.set_arrays(s, c, 'ring::R', [o1])
        return code
    ex.on(r'ScalarVectorGilboaProduct::Run(Value|Vector)Provider<', run)
    fn = [f for f in m.find('ScalarVectorGilboaProduct::%s<ring::R>' % nm) if 'StatusOr' in m.dem(f)][0]
    r = Ptr(ex.new_obj('result_'))
    if not receiver:
        st.pc.append(size >= 0)
    res = ex.run_fn(m.functions[fn], [r, g.p] + ([x, size] if receiver else [yp, size]), st, 0)
    ctx.cover(nm + ' (vector) returns', len(res) > 0)
    for s, _ in res:
        got = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, nm + ' (vector): a negative length is rejected, otherwise the status is that of the other method', s, got == z3.If(size < 0, z3.IntVal(3), code))
        s = s.copy()
        s.pc.append(got == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        ctx.feasible(ex, nm + ' (vector) succeeds', s)
        w = r.field(8)
        ctx.prove(ex, nm + ' (vector): the output is that of the other method', s, z3.And(z3.BoolVal(s.ghost['runs'] == 1), to_int(C.size(s, w), 64) == size, C.arrays(s, w, 'ring::R')[0] == o1))
    ctx.absorb(ex)
    CLOSURES[:] = []


def create(ctx):
    """Create: a channel, a non-negative statistical security, both kept"""
    m = ctx.module
    ex, C, L = setup_p(ctx, m)
    st = State()
    sec = RC('security')
    r, ch = Ptr(ex.new_obj('result_')), Ptr(ex.new_obj('channel'))
    ad, code = Ptr(ex.new_obj('adapter')), I('create_status')
    ex.facts += [code >= 0, code <= 16]

    def mk(e, s, a, d):
        e.oblige('the adapter is made for the channel of the caller', s, z3.BoolVal(a[1].same(ch)), kind='pre')
        e.store(s, a[0], 32, code)
        e.store(s, a[0].field(8), 64, ad)
    ex.on(r'CommChannelEMPAdapter::Create\(', mk)
    ex.on(r'comm_channel::(sync|is_measured)\(', lambda e, s, a, d: e.fresh('measured', z3.BoolSort()) if 'measured' in d else None)
    ex.on(r'SHOTExtension<.*>::~?SHOTExtension\(', lambda e, s, a, d: s.ghost.__setitem__('ot', a) if '~' not in d else None)
    fn = m.find('ScalarVectorGilboaProduct::Create')[0]
    res = ex.call_fn(fn, [r, NULL, sec], st.copy())
    ctx.cover('Create rejects a null channel', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'Create: a null channel is an argument error', s, to_int(ex.load(s, r, 32), 32) == 3)
    mem = m.members('ScalarVectorGilboaProduct')
    res = ex.call_fn(fn, [r, ch, sec], st.copy())
    ctx.cover('Create returns', len(res) > 0)
    good = False
    for s, _ in res:
        got = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'Create: negative statistical security is an argument error, otherwise the status is that of the adapter', s, got == z3.If(sec < 0, z3.IntVal(3), code))
        s = s.copy()
        s.pc.append(got == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        q = ex.load(s, r.field(8), 64)
        ok = isinstance(q, Ptr) and q.obj is not None
        f = lambda k, b=64: ex.load(s, q.field(mem[k]), b)
        ctx.prove(ex, 'Create: the instance has the adapter and the security', s, z3.And(z3.BoolVal(ok and f('channel_adapter_').same(ad) and s.ghost['ot'][0].same(q.field(mem['ot_'])) and s.ghost['ot'][1].same(ad)), f('statistical_security_') == sec))
    ctx.cover('Create succeeds', good)
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.par = ctx.ir(None, PAR, name='gilboa', text=H)
    jobs = [('lemmas', lemmas), ('Create', create), ('RunVectorProvider (vector)', vectors, False), ('RunValueProvider (vector)', vectors, True)]
    for size in list(range(1, 17)) + [17, 24]:
        jobs += [('RunVectorProvider, %d bytes' % size, vector_provider, size), ('RunValueProvider, %d bytes' % size, value_provider, size)]
        if size <= 16:
            jobs += [('RunOTSenderCorrelated, %d bytes' % size, transfers, size, True), ('RunOTSender1of2, %d bytes' % size, transfers, size, False), ('GetBits, %d bytes' % size, get_bits, size)]
    ctx.parallel(jobs)


def native(ctx):
    proto_native(ctx, 19)
