"""C20: the two parties' MPFSS outputs are shares of y*x at the indices and of zero elsewhere.

Per party the output is a ghost sum over the outputs of the SPFSS for the buckets (C18); the buckets are those of simple
hashing (C15), the places of the indices those of cuckoo hashing (C16)."""
from protocommon import *
from functools import partial
from c17 import elem0, real
from ggmcommon import at, depth

H = '''#include "ring.h"
#include "distributed_vector_ole/mpfss_known_indices.cpp"
namespace distributed_vector_ole {
template mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE<ring::R>(ring::R, int, absl::Span<const ring::R>, absl::Span<ring::R>);
template mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE<ring::R>(absl::Span<const ring::R>, absl::Span<const int64_t>, absl::Span<const ring::R>, absl::Span<const ring::R>, absl::Span<ring::R>);
mpc_utils::StatusOr<int> num_buckets(MPFSSKnownIndices *p, int n) { return p->NumBuckets(n); }
}
'''
PAR = ['-DNDEBUG', '-fopenmp', '-fstandalone-debug', '-DBOOST_CONTAINER_DISABLE_FORCEINLINE'] + EFLAGS + ['-I' + VERIF + '/stubs']
FUNCTIONS = ['MPFSSKnownIndices::RunValueProviderVectorOLE<T>, RunIndexProviderVectorOLE<T> with its parallel region, UpdateBuckets, NumBuckets, Create']
ASSUMPTIONS = RING + OMPASSUME + EIGEN + ['CuckooHasher by its contracts: HashSimple lists, per bucket in ascending order, the inputs that hash to it (C15); HashCuckoo puts every input into one bucket it hashes to (C16); the number of buckets is a function of the number of indices',
                                          'SPFSSKnownIndex by its contract (C18): per bucket the outputs add up to the sum of the value shares at the index and to zero elsewhere', 'mpc_utils::comm_channel delivers the values sent, in order',
                                          'at most 2^31 - 1 indices, buckets and positions per bucket', 'w, u and v have one element per bucket, as documented', 'std::lower_bound, std::iota, absl::flat_hash_set by contracts']
Z = z3.IntSort()
A1, AI = z3.ArraySort(Z, RS), z3.ArraySort(Z, Z)
A2, AI2 = z3.ArraySort(Z, A1), z3.ArraySort(Z, AI)
SPR = SPAN + '<ring::R>'
VL = 'std::vector<long, std::allocator<long> >'
BSZ, BK = z3.Const('bucket_size', AI), z3.Const('bucket', AI2)
NB, N, NI, GB, P, YLEN = I('num_buckets'), I('output_len'), I('num_indices'), I('gb'), I('position'), I('y_len')
OUTS = z3.Const('spfss_outputs', A2)               # of this party
GS = z3.Function('sum', Z, Z, RS)                  # of the outputs for position P before place (bucket, q)
HI = z3.Const('hashed_inputs', AI)
POS = z3.Function('place_in_bucket', Z, Z)         # of the index in bucket b
IDX, YV, UV, VV, WV, YM, XV = z3.Const('indices', AI), z3.Const('y', A1), z3.Const('u', A1), z3.Const('v', A1), z3.Const('w', A1), z3.Const('message', A1), RC('x')
UCODE, SCODE, HCODE = I('buckets_status'), I('spfss_status'), I('cuckoo_status')


def s1(A, i):
    return z3.Select(A, i)


def s2(A, i, j):
    return z3.Select(z3.Select(A, i), j)


def apps2(fs, decl):
    out, done, todo = {}, set(), [f for f in fs if z3.is_expr(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        todo += x.children()
        if x.decl().eq(decl):
            k = tuple(z3.simplify(c) for c in x.children())
            out[tuple(c.get_id() for c in k)] = k
    return list(out.values())


def hit(b, q):
    return z3.If(s2(BK, b, q) == P, s2(OUTS, b, q), z3.RealVal(0))


def sums(fs):
    out = [GS(0, 0) == 0]
    for b, q in apps2(fs, GS):
        p, c = z3.simplify(q - 1), z3.simplify(b - 1)
        out += [z3.Implies(q >= 1, GS(b, q) == GS(b, p) + hit(b, p)), z3.Implies(z3.And(b >= 1, q == 0), GS(b, q) == GS(c, s1(BSZ, c)))]
        out += [z3.Implies(z3.And(b >= 0, q == s1(BSZ, b)), GS(z3.simplify(b + 1), 0) == GS(b, q))]
    return out


class M:
    """the state of an instance and the contracts of what it uses"""

    def __init__(self, ctx, receiver):
        self.ctx, self.index_side = ctx, receiver
        m = self.m = ctx.par
        ex, C, L = self.ex, self.C, self.L = setup_p(ctx, m)
        C.layouts[SPR] = (16, [((), 0, 8, Z, z3.IntVal(-1)), ((), 8, 8, Z, z3.IntVal(0))])     # row number, size
        eigen(ex, C)
        fill_contract(ex, C)
        self.st = st = State()
        mem = m.members('MPFSSKnownIndices')
        p = self.p = Ptr(ex.new_obj('mpfss'))
        self.hasher, self.spfss, self.chan = [Ptr(ex.new_obj(k)) for k in ('hasher', 'spfss', 'channel')]
        for k, v in (('hasher_', self.hasher), ('spfss_', self.spfss), ('channel_', self.chan)):
            ex.store(st, p.field(mem[k]), 64, v)
        self.bk = p.field(mem['buckets_'])
        C.fill(st, self.bk, VL, 0)
        k, q = I('k'), I('q')
        st.pc += [NB >= 0, NB < 2 ** 31, N >= 0, N < 2 ** 40, GB >= 0, GB < NB, P >= 0, P < N,
                  z3.ForAll([k], z3.And(s1(BSZ, k) >= 0, s1(BSZ, k) < 2 ** 31), patterns=[s1(BSZ, k)]),
                  z3.ForAll([k, q], z3.Implies(z3.And(k >= 0, k < NB, q >= 0, q < s1(BSZ, k)), z3.And(s2(BK, k, q) >= 0, s2(BK, k, q) < N)), patterns=[s2(BK, k, q)])]
        for c in (UCODE, SCODE, HCODE):
            ex.facts += [c >= 0, c <= 16]
        st.ghost.update(spfss=0, buckets=0, cuckoo=0, sent=None, flushed=0, received=0)
        CLOSURES[:] = [sums]
        self.OUT = Ptr(ex.new_obj('output'))
        C.set_size(st, self.OUT, N)
        C.set_arrays(st, self.OUT, 'ring::R', [ex.fresh('out_before', A1)])
        self.out0 = C.elem(st, self.OUT, 0, 'ring::R')
        ex.memcpy_hook = self.copy_span
        C.readers = {SPR: self.read_span}
        ex.on(r'MPFSSKnownIndices::UpdateBuckets\(', self.update)
        ex.on(r'SPFSSKnownIndex::Run\w+Batched<', self.run_spfss)
        ex.on(r'mpc_utils::comm_channel::send<', self.send)
        ex.on(r'mpc_utils::comm_channel::recv<', self.recv)
        ex.on(r'mpc_utils::comm_channel::flush\(', lambda e, s, a, d: s.ghost.__setitem__('flushed', 1))

    def vec(self, name, n, arr, t='ring::R'):
        v = Ptr(self.ex.new_obj(name))
        self.C.set_size(self.st, v, n)
        self.C.set_arrays(self.st, v, t, [arr])
        return self.C.elem(self.st, v, 0, t)

    # ------------------------------------------------ spans of rows
    def copy_span(self, e, st, d, s, n):
        if n != 16 or not d.steps or d.off != 0 or s.steps:
            return False
        p, ln = e.load(st, s, 64), e.load(st, s.field(8), 64)
        row = z3.IntVal(-1)
        if isinstance(p, Ptr) and p.obj is not None:
            c, i = place(p)
            if not c.steps or c.off != 0:
                return False
            e.oblige('the span of a bucket starts at its first output', st, i == 0, kind='pre')
            if not Ptr(c.obj, c.steps[:-1], c.steps[-1][0]).same(self.rw):
                raise Unsupported('rows of outputs')
            row = to_int(c.steps[-1][1], 64)
        self.C.write(st, d, SPR, [row, to_int(ln, 64)])
        return True

    def read_span(self, st, s, t):
        """the row and length of a span that is appended to a list of spans"""
        e = self.ex
        p, ln = e.load(st, s, 64), e.load(st, s.field(8), 64)
        c, i = place(p)
        e.oblige('the span of a bucket starts at its first output', st, i == 0, kind='pre')
        if not c.steps or c.off != 0 or not Ptr(c.obj, c.steps[:-1], c.steps[-1][0]).same(self.rw):
            raise Unsupported('rows of outputs')
        return [to_int(c.steps[-1][1], 64), to_int(ln, 64)]

    # ------------------------------------------------ contracts
    def update(self, e, s, a, d):
        e.oblige('the buckets are for the length of the output and the number of indices', s, z3.And(z3.BoolVal(a[0].same(self.p)), to_int(a[1], 64) == N, to_int(a[2], 32) == (NI if self.index_side else YLEN)), kind='pre')
        s.ghost['buckets'] += 1
        self.C.set_size(s, self.bk, NB)
        self.C.set_arrays(s, self.bk, VL, [BSZ, BK])
        return UCODE

    def span_args(self, e, s, a):
        a = list(a)
        if len(a) == 1:
            a = [e.load(s, a[0], 64), e.load(s, a[0].field(8), 64)]
        return a

    def run_spfss(self, e, s, a, d):
        C = self.C
        want = 'RunIndexProviderBatched<' if self.index_side else 'RunValueProviderBatched<'
        cv, iv = place(a[1])
        spans = self.span_args(e, s, a[5 if self.index_side else 3:])
        cs, si = place(spans[0])
        e.oblige('the SPFSS runs once, with one value share, index and output per bucket', s, z3.And(z3.BoolVal(want in d and a[0].same(self.spfss) and s.ghost['spfss'] == 0), to_int(a[2], 64) == NB, to_int(spans[1], 64) == NB, iv == 0, si == 0), kind='pre')
        v = select(C.arrays(s, cv, 'ring::R')[0], GB)
        row, size = [select(x, GB) for x in C.arrays(s, cs, SPR)]
        rows = self.rw
        e.oblige('the output of a bucket has one element per position of the bucket', s, size == s1(BSZ, GB), kind='post')
        e.oblige('every bucket has an output of its own', s, z3.Implies(s1(BSZ, GB) > 0, row == GB), kind='post')
        if self.index_side:
            e.oblige('the value shares are v', s, v == s1(VV, GB), kind='post')
            ci, ii = place(a[3])
            x = select(C.arrays(s, ci, 'long')[0], GB)
            e.oblige('there is one index per bucket', s, z3.And(ii == 0, to_int(a[4], 64) == NB), kind='post')
            e.oblige('the index is inside the bucket', s, z3.And(x >= 0, z3.Or(s1(BSZ, GB) == 0, x < s1(BSZ, GB))), kind='post')
            e.oblige('the index is the place of the input that cuckoo hashing put into the bucket', s, z3.Implies(s1(HI, GB) != -1, s2(BK, GB, x) == s1(IDX, s1(HI, GB))), kind='post')
        else:
            e.oblige('the value shares are the message times x, minus w', s, v == s1(YM, GB) * XV - s1(WV, GB), kind='post')
        s.ghost['spfss'] = 1
        # the sizes were shown for an arbitrary bucket
        n_ = select(C.arrays(s, rows, VR)[0], GB)
        e.oblige('there is an output for every bucket', s, z3.And(to_int(C.size(s, rows), 64) == NB, n_ == s1(BSZ, GB)), kind='post')
        C.set_arrays(s, rows, VR, [BSZ, OUTS])
        return SCODE

    def send(self, e, s, a, d):
        if 'Eigen::Matrix<ring::R' not in d and 'std::vector<ring::R' not in d:
            raise Unsupported('message')
        e.oblige('one message over the channel of the instance', s, z3.BoolVal(a[0].same(self.chan) and s.ghost['sent'] is None and self.index_side), kind='post')
        s.ghost['sent'] = (to_int(self.C.size(s, a[1]), 64), self.C.arrays(s, a[1], 'ring::R')[0])
        s.ghost['flushed'] = 0

    def recv(self, e, s, a, d):
        if 'Eigen::Matrix<ring::R' not in d and 'std::vector<ring::R' not in d:
            raise Unsupported('message')
        e.oblige('one message over the channel of the instance', s, z3.BoolVal(a[0].same(self.chan) and not s.ghost['received'] and not self.index_side), kind='post')
        s.ghost['received'] = 1
        self.C.set_size(s, a[1], NB)
        self.C.set_arrays(s, a[1], 'ring::R', [YM])

    # ------------------------------------------------ loops
    def outp(self, s):
        return select(self.C.arrays(s, self.OUT, 'ring::R')[0], P)

    def var(self, fn, bb):
        f = loop_pos(self.ex, fn, bb)
        if f is None:
            raise Unsupported('loop variables')
        return f

    def accumulate(self, fn, bb):
        """the loops that add the outputs of the buckets up"""
        i = self.var(fn, bb)
        if depth(fn, bb) == 0:
            self.bucket = i

            def inv(auto, s, k, st0):
                return [('the bucket', z3.And(i(s) >= 0, i(s) <= NB)), ('the sum over the buckets so far', self.outp(s) == GS(i(s), 0))]
        else:
            def inv(auto, s, k, st0):
                b = self.bucket(s)
                return [('the place in the bucket', z3.And(i(s) >= 0, i(s) <= s1(BSZ, b))), ('the sum over the places so far', self.outp(s) == GS(b, i(s)))]
        return dict(inv=inv, open='all', trip='unknown')

    def row(self, s):
        """size and row number of the span, size of the output of bucket GB"""
        sp, rw = self.sp, self.rw
        a, b = [select(x, GB) for x in self.C.arrays(s, sp, SPR)]
        return a, b, select(self.C.arrays(s, rw, VR)[0], GB)


def value_provider(ctx):
    g = M(ctx, False)
    ex, C, st, m = g.ex, g.C, g.st, g.m
    st.pc += [YLEN >= -2 ** 31, YLEN < 2 ** 31]
    main = m.find('MPFSSKnownIndices::RunValueProviderVectorOLE<ring::R>')[0]
    fn = m.functions[main]

    def hint(auto, fr, bb, s):
        if s.ghost['spfss']:
            return g.accumulate(fr.fn, bb)
        if fr.fn.name != main:
            return None
        g.sp, g.rw = local(ex, fn, 'bucket_output_spans'), local(ex, fn, 'bucket_outputs')
        i = g.var(fn, bb)

        def inv(grow, auto, s, k, st0):
            r, n_, m_ = g.row(s)
            size = [('one output and span per bucket so far', z3.And(*[to_int(C.size(s, v), 64) == i(s) for v in (g.sp, g.rw)]))] if grow else []
            return size + [('the bucket', z3.And(i(s) >= 0, i(s) <= NB)), ('the spans so far', z3.Implies(GB < i(s), z3.And(r == GB, n_ == s1(BSZ, GB), m_ == s1(BSZ, GB))))]
        return dict(inv=[partial(inv, g_) for g_ in (False, True)], open='all', trip='unknown')
    g.L.hints.append((r'MPFSSKnownIndices::', hint))
    x = Ptr(ex.new_obj('x'))
    ex.store(st, x, 192, XV)
    res = ex.call_fn(main, [g.p, x, YLEN, g.vec('w', NB, WV), NB, g.out0, N], st)
    nm = 'RunValueProviderVectorOLE'
    ctx.cover(nm + ' returns', len(res) > 0)
    good = False
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, nm + ': no indices are rejected, errors of hashing and SPFSS are passed on', s, code == z3.If(YLEN < 1, z3.IntVal(3), z3.If(UCODE != 0, UCODE, SCODE)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        ctx.feasible(ex, nm + ' succeeds', s)
        ctx.prove(ex, nm + ': the message was received and SPFSS has run', s, z3.BoolVal(s.ghost['received'] == 1 and s.ghost['spfss'] == 1 and s.ghost['buckets'] == 1))
        ctx.prove(ex, nm + ': an output is the sum of the outputs of all buckets for its position', s, g.outp(s) == GS(NB, 0))
    ctx.cover(nm + ' succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def index_provider(ctx):
    g = M(ctx, True)
    ex, C, st, m = g.ex, g.C, g.st, g.m
    main = [f for f in m.find('MPFSSKnownIndices::RunIndexProviderVectorOLE<ring::R>') if 'omp_outlined' not in f][0]
    fn = m.functions[main]
    ylen, K = I('y_size'), I('k0')
    st.pc += [ylen >= 0, ylen < 2 ** 31, NI >= 0, NI < 2 ** 31, K >= 0, K < NI]
    k, q = I('k'), I('q')
    inr = lambda i: z3.And(s1(IDX, i) >= 0, s1(IDX, i) < N)
    st.pc.append(z3.ForAll([k], z3.And(s1(IDX, k) >= -2 ** 63, s1(IDX, k) < 2 ** 63), patterns=[s1(IDX, k)]))

    def cuckoo(e, s, a, d):
        r = a[0]
        ci, i = place(a[2])
        e.oblige('cuckoo hashing runs once, on all indices, after the buckets are there', s, z3.And(z3.BoolVal(a[1].same(g.hasher) and s.ghost['cuckoo'] == 0 and s.ghost['buckets'] == 1), i == 0, C.arrays(s, ci, 'long')[0] == IDX, to_int(a[3], 64) == NI, to_int(a[4], 64) == NB), kind='pre')
        e.oblige('all indices are positions of the output', s, inr(K), kind='pre')
        s.ghost['cuckoo'] = 1
        e.store(s, r, 32, HCODE)
        C.set_size(s, r.field(8), NB)
        C.set_arrays(s, r.field(8), 'long', [HI])
        # C16 and C15: a bucket that has an input lists its index
        s.pc += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NB), z3.And(s1(HI, k) >= -1, s1(HI, k) < NI, z3.Implies(s1(HI, k) != -1, z3.And(POS(k) >= 0, POS(k) < s1(BSZ, k), s2(BK, k, POS(k)) == s1(IDX, s1(HI, k)))))), patterns=[s1(HI, k)])]
    ex.on(r'CuckooHasher::HashCuckoo<long>', cuckoo)
    ex.on(r'^bool .*operator==.*string_view|^absl::debian3::operator==\(absl::debian3::string_view|^std::operator==.*basic_string_view|operator==<char', lambda e, s, a, d: e.fresh('same_message', z3.BoolSort()))
    ex.on(r'absl::debian3::flat_hash_set<|raw_hash_set<', lambda e, s, a, d: e.fresh('set_size', Z) if d.split('(')[0].endswith('::size') else None)

    def lower(e, s, a, d):
        c, i, n_ = C.rng(s, a[0], a[1])
        if not c.steps:
            raise Unsupported('lower_bound')
        b, n_ = to_int(c.steps[-1][1], 64), to_int(n_, 64)
        e.oblige('the whole bucket is searched', s, z3.And(z3.BoolVal(Ptr(c.obj, c.steps[:-1], c.steps[-1][0]).same(g.bk)), to_int(i, 64) == 0, n_ == s1(BSZ, b)), kind='pre')
        v = to_int(e.load(s, a[2], 64), 64)
        r = e.fresh('lower_bound', Z)
        p = POS(b)
        s.pc += [r >= 0, r <= n_, z3.Implies(r < n_, s2(BK, b, r) >= v), z3.Implies(z3.And(p >= 0, p < r), s2(BK, b, p) < v),
                 z3.Implies(z3.And(r >= 0, r <= p, p < n_), s2(BK, b, r) <= s2(BK, b, p))]     # the bucket is sorted
        return C.elem(s, c, r, 'long')
    ex.on(r'std::lower_bound<', lower)

    lo = lambda nm: local(ex, fn, nm)

    def idx(s):
        return select(C.arrays(s, g.ib, 'long')[0], GB)

    def done(s):
        r, n_, m_ = g.row(s)
        x = idx(s)
        return z3.If(s1(BSZ, GB) == 0, z3.And(n_ == 0, m_ == 0, x == 0),
                     z3.And(r == GB, n_ == s1(BSZ, GB), m_ == s1(BSZ, GB), x >= 0, x < s1(BSZ, GB), z3.If(s1(HI, GB) == -1, x == 0, s2(BK, GB, x) == s1(IDX, s1(HI, GB)))))

    def cells(s):
        return C.arrays(s, g.sp, SPR) + C.arrays(s, g.rw, VR)[:1] + C.arrays(s, g.ib, 'long')

    def same(s, s0):
        return z3.And(*[select(a, GB) == select(b, GB) for a, b in zip(cells(s), cells(s0))])

    def havoc(e, s):
        for v, t in ((g.sp, SPR), (g.rw, VR), (g.ib, 'long')):
            C.set_arrays(s, v, t, [e.fresh('shared', a.sort()) for a in C.arrays(s, v, t)])

    def enter(e, s, lb, ub):
        g.sp, g.rw, g.ib = lo('bucket_output_spans'), lo('bucket_outputs'), lo('index_in_bucket')
        e.oblige('there is a place for the output of every bucket', s, z3.And(*[to_int(C.size(s, v), 64) == NB for v in (g.sp, g.rw, g.ib)]), kind='pre')
        s0 = s.copy()
        havoc(e, s)
        s.pc.append(z3.Implies(z3.And(lb <= GB, GB < ub), same(s, s0)))

    def post(e, s, s0, lb, ub):
        mine = z3.And(lb <= GB, GB < ub)
        sizes = z3.And(*[to_int(C.size(s, v), 64) == NB for v in (g.sp, g.rw, g.ib)])
        return [('every bucket has its output and the place of its index', z3.Implies(mine, done(s))), ('other buckets are untouched', z3.Implies(z3.Not(mine), same(s, s0))), ('the number of buckets stays', sizes)]

    def leave(e, s):
        havoc(e, s)
        s.pc.append(done(s))
    par = Par(ctx, ex, C, NB, enter, post, leave)

    def hint(auto, fr, bb, s):
        f, body = fr.fn, fr.fn.loops[bb]
        if any('dispatch_next' in str((i.a, i.x)) for b in body for i in f.blocks[b]):
            return dict(unroll=True)
        if s.ghost['spfss']:
            return g.accumulate(f, bb)
        if f.name != main and 'omp_outlined' not in f.name:
            return None
        i = g.var(f, bb)
        if 'omp_outlined' in f.name:
            s0, l0 = s.copy(), i(s)

            def inv(auto, s, k, st0):
                return [('the bucket', z3.And(i(s) >= l0, i(s) <= par.UB)), ('the buckets so far', z3.If(z3.And(l0 <= GB, GB < i(s)), done(s), same(s, s0)))]
        elif not s.ghost['cuckoo']:
            def inv(auto, s, k, st0):
                return [('the index', z3.And(i(s) >= 0, i(s) <= NI)), ('the indices so far are in range', z3.Implies(K < i(s), inr(K)))]
        else:
            yp = lo('y_permuted')
            y0 = select(C.arrays(s, yp, 'ring::R')[0], GB)

            def inv(auto, s, k, st0):
                return [('the bucket', z3.And(i(s) >= 0, i(s) <= NB)), ('the permuted y so far', select(C.arrays(s, yp, 'ring::R')[0], GB) == z3.If(GB < i(s), ypv(GB), y0)), ('its length', to_int(C.size(s, yp), 64) == NB)]
        return dict(inv=inv, open='all', trip='unknown')
    g.L.hints.append((r'MPFSSKnownIndices::', hint))
    args = [g.p, g.vec('y', ylen, YV), ylen, g.vec('indices', NI, IDX, 'long'), NI, g.vec('u', NB, UV), NB, g.vec('v', NB, VV), NB, g.out0, N]
    args = spans_by_pointer(ex, st, fn, args)
    res = ex.call_fn(main, args, st)
    nm = 'RunIndexProviderVectorOLE'
    ctx.cover(nm + ' returns', len(res) > 0)
    good = False
    for s, code in res:
        code = to_int(code, 32)
        wrong = z3.Or(ylen != NI, N < NI, ylen == 0, z3.Not(inr(K)))
        ctx.prove(ex, nm + ': sizes that do not match, no indices and indices out of range are rejected', s, z3.Implies(wrong, code == 3))
        ctx.prove(ex, nm + ': errors of hashing and SPFSS are passed on', s, z3.Implies(code == 0, z3.And(UCODE == 0, HCODE == 0, SCODE == 0)))
        ctx.prove(ex, nm + ': without an error of hashing or SPFSS, only wrong arguments are rejected', s, z3.Implies(z3.And(UCODE == 0, HCODE == 0, SCODE == 0, code != 0), code == 3))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        ctx.feasible(ex, nm + ' succeeds', s)
        gh = s.ghost
        ctx.prove(ex, nm + ': one message was sent and flushed, SPFSS has run', s, z3.BoolVal(gh['sent'] is not None and gh['flushed'] == 1 and gh['spfss'] == 1 and gh['buckets'] == 1))
        if gh['sent']:
            ctx.prove(ex, nm + ': the message has one element per bucket', s, gh['sent'][0] == NB)
            ctx.prove(ex, nm + ': the message is the permuted y plus u', s, select(gh['sent'][1], GB) == ypv(GB) + s1(UV, GB))
        ctx.prove(ex, nm + ': an output is the sum of the outputs of all buckets for its position', s, g.outp(s) == GS(NB, 0))
    ctx.cover(nm + ' succeeds', good)
    ctx.cover('the parallel region is reached', par.regions > 0)
    ctx.absorb(ex)
    CLOSURES[:] = []


def ypv(b):
    return z3.If(s1(HI, b) == -1, z3.RealVal(0), s1(YV, s1(HI, b)))


def spans_by_pointer(ex, st, fn, args):
    """spans beyond the registers are passed in memory"""
    fn.parse()
    out, i = [], 0
    for ty, nm in fn.params:
        if nm in fn.byval:
            bp = Ptr(ex.new_obj('span_arg'))
            ex.store(st, bp, 64, args[i])
            ex.store(st, bp.field(8), 64, args[i + 1])
            out.append(bp)
            i += 2
        else:
            out.append(args[i])
            i += 1
    if i != len(args):
        raise Unsupported('arguments of ' + fn.name)
    return out


# ---------------------------------------------------------------- buckets: the cache, for any history
NBF = z3.Function('optimal_number_of_buckets', Z, Z)
SZF, BKF = z3.Function('bucket_sizes', Z, Z, AI), z3.Function('buckets', Z, Z, AI2)       # of the interval, for a number of buckets
NCODE, SICODE = z3.Function('number_status', Z, Z), z3.Function('simple_status', Z, Z, Z)


def update_buckets(ctx):
    """UpdateBuckets: afterwards the buckets are those of the requested sizes, whatever was asked for before; an error
    leaves an instance whose cached sizes are not those of other buckets"""
    m = ctx.par
    ex, C, L = setup_p(ctx, m)
    st = State()
    mem = m.members('MPFSSKnownIndices')
    p, hasher = Ptr(ex.new_obj('mpfss')), Ptr(ex.new_obj('hasher'))
    ex.store(st, p.field(mem['hasher_']), 64, hasher)
    cs, cn = p.field(mem['cached_output_size_']), p.field(mem['cached_num_indices_'])
    h1, h2, c1, c2 = I('has_size'), I('has_num'), I('cached_size'), I('cached_num')
    st.pc += [h1 >= 0, h1 <= 1, h2 >= 0, h2 <= 1, c1 >= -2 ** 63, c1 < 2 ** 63, c2 >= -2 ** 31, c2 < 2 ** 31]
    ex.store(st, cs.field(8), 64, c1)
    ex.store(st, cs, 8, h1)
    ex.store(st, cn.field(4), 32, c2)
    ex.store(st, cn, 8, h2)
    bk = p.field(mem['buckets_'])
    nb0 = I('old_number')
    C.set_size(st, bk, nb0)
    S0, B0 = z3.Const('old_sizes', AI), z3.Const('old_buckets', AI2)
    C.set_arrays(st, bk, VL, [S0, B0])

    def of(s, os, ni):
        sz, V = C.arrays(s, bk, VL)
        return z3.And(to_int(C.size(s, bk), 64) == NBF(ni), sz == SZF(os, NBF(ni)), V == BKF(os, NBF(ni)))

    def inv(s):
        a, b = to_int(ex.load(s, cs, 8), 8), to_int(ex.load(s, cn, 8), 8)
        return z3.Implies(z3.And(a == 1, b == 1), of(s, to_int(ex.load(s, cs.field(8), 64), 64), to_int(ex.load(s, cn.field(4), 32), 32)))
    K = I('k0')
    size, num = I('output_size'), I('num_indices')
    st.pc += [inv(st), nb0 >= 0, nb0 < 2 ** 40, size >= 0, size < 2 ** 40, num >= -2 ** 31, num < 2 ** 31, K >= 0]
    ex.facts += [NBF(num) >= 0, NBF(num) < 2 ** 31, NCODE(num) >= 0, NCODE(num) <= 16, SICODE(size, NBF(num)) >= 0, SICODE(size, NBF(num)) <= 16]

    def number(e, s, a, d):
        e.oblige('the number of buckets is that for the number of indices', s, z3.And(z3.BoolVal(a[1].same(hasher)), to_int(a[2], 64) == num), kind='pre')
        e.store(s, a[0], 32, NCODE(num))
        e.store(s, a[0].field(8), 64, NBF(num))
    ex.on(r'CuckooHasher::GetOptimalNumberOfBuckets\(', number)

    def simple(e, s, a, d):
        c, i = place(a[2])
        e.oblige('all positions are hashed, in ascending order, into the optimal number of buckets', s, z3.And(z3.BoolVal(a[1].same(hasher)), i == 0, z3.Implies(K < size, select(C.arrays(s, c, 'long')[0], K) == K), to_int(a[3], 64) == size, to_int(a[4], 64) == NBF(num)), kind='pre')
        e.store(s, a[0], 32, SICODE(size, NBF(num)))
        w = a[0].field(8)
        C.set_size(s, w, NBF(num))
        C.set_arrays(s, w, VL, [SZF(size, NBF(num)), BKF(size, NBF(num))])
    ex.on(r'CuckooHasher::HashSimple<long>', simple)

    def iota(e, s, a, d):
        c, i, n_ = C.rng(s, a[0], a[1])
        if c is None:
            return
        j, v = I('iota_j'), to_int(a[2], 32)
        old = C.arrays(s, c, 'long')[0]
        i, n_ = to_int(i, 64), to_int(n_, 64)
        C.set_arrays(s, c, 'long', [z3.Lambda([j], z3.If(z3.And(j >= i, j < i + n_), v + j - i, select(old, j)))])
    ex.on(r'^void std::iota<', iota)
    fn = m.find('MPFSSKnownIndices::UpdateBuckets')[0]
    res = ex.call_fn(fn, [p, size, num], st.copy())
    ctx.cover('UpdateBuckets returns', len(res) > 0)
    good = False
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, 'UpdateBuckets: errors of hashing are passed on', s, z3.Or(code == 0, code == NCODE(num), code == SICODE(size, NBF(num))))
        ctx.prove(ex, 'UpdateBuckets: the cached sizes are those of the buckets, also after an error', s, inv(s))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        ctx.feasible(ex, 'UpdateBuckets succeeds', s)
        ctx.prove(ex, 'UpdateBuckets: the buckets are those of the requested sizes', s, of(s, size, num))
    ctx.cover('UpdateBuckets succeeds', good)
    # NumBuckets: that of the hasher
    r = Ptr(ex.new_obj('result_'))
    fn = m.find('MPFSSKnownIndices::NumBuckets')[0]
    res = ex.call_fn(fn, [r, p, num], st.copy())
    ctx.cover('NumBuckets returns', len(res) > 0)
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'NumBuckets: the status is that of the hasher', s, code == NCODE(num))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) != z3.unsat:
            ctx.prove(ex, 'NumBuckets: the number is the one UpdateBuckets uses', s, to_int(ex.load(s, r.field(4), 32), 32) == NBF(num))
    ctx.absorb(ex)


def create(ctx):
    """Create: a channel, a non-negative statistical security; both parties get the same hash functions"""
    m = ctx.par
    ex, C, L = setup_p(ctx, m)
    U128 = z3.BitVecSort(128)
    C.layouts['absl::debian3::uint128'] = (16, [((), 0, 16, U128, z3.BitVecVal(0, 128))])
    st = State()
    sec, me, peer = RC('security'), I('id'), I('peer_id')
    r, ch = Ptr(ex.new_obj('result_')), Ptr(ex.new_obj('channel'))
    spfss, hasher, sc, hc = Ptr(ex.new_obj('spfss')), Ptr(ex.new_obj('hasher')), I('spfss_status'), I('hasher_status')
    got = z3.Const('received_seed', U128)
    ex.facts += [sc >= 0, sc <= 16, hc >= 0, hc <= 16]
    st.pc += [me >= 0, me < 2 ** 31, peer >= 0, peer < 2 ** 31, me != peer]
    st.ghost.update(seed=None, sent=None, flushed=0, recv=0)
    num = lambda v: v if z3.is_expr(v) else z3.RealVal(v)

    def mk_spfss(e, s, a, d):
        e.oblige('the SPFSS is for the channel of the caller and half the failure probability', s, z3.And(z3.BoolVal(a[1].same(ch)), num(a[2]) == sec + 1), kind='pre')
        e.store(s, a[0], 32, sc)
        e.store(s, a[0].field(8), 64, spfss)
    ex.on(r'SPFSSKnownIndex::Create\(', mk_spfss)

    def rnd(e, s, a, d):
        e.oblige('one seed is drawn', s, to_int(a[1], 64) == 1, kind='pre')
        s.ghost['seed'] = e.fresh('seed', U128)
        e.store(s, a[0], 128, s.ghost['seed'])
    ex.on(r'ScalarHelper<absl::debian3::uint128.*>::Randomize\(', rnd)

    def send(e, s, a, d):
        s.ghost['sent'], s.ghost['flushed'] = bv(e.load(s, a[1], 128), 128), 0
    ex.on(r'comm_channel::send<', send)
    ex.on(r'comm_channel::flush\(', lambda e, s, a, d: s.ghost.__setitem__('flushed', 1))

    def recv(e, s, a, d):
        s.ghost['recv'] += 1
        e.store(s, a[1], 128, got)
    ex.on(r'comm_channel::recv<', recv)
    ex.on(r'comm_channel::sync\(', lambda e, s, a, d: None)
    ex.on(r'comm_channel::get_id\(', lambda e, s, a, d: me)
    ex.on(r'comm_channel::get_peer_id\(', lambda e, s, a, d: peer)

    def mk_hasher(e, s, a, d):
        seed = z3.simplify(z3.Concat(bv(a[2], 64), bv(a[1], 64)))
        gh = s.ghost
        one = z3.BoolVal(False)
        if gh['recv'] == 1 and gh['seed'] is None and gh['sent'] is None:
            one = z3.And(me > peer, seed == got)
        elif gh['recv'] == 0 and gh['seed'] is not None and gh['sent'] is not None and gh['flushed']:
            one = z3.And(me < peer, seed == gh['seed'], seed == gh['sent'])
        e.oblige('the party with the lower number draws and sends the seed of the hash functions, the other one receives it', s, one, kind='post')
        e.oblige('three hash functions, half the failure probability', s, z3.And(to_int(a[3], 32) == 3, num(a[4]) == sec + 1), kind='pre')
        e.store(s, a[0], 32, hc)
        e.store(s, a[0].field(8), 64, hasher)
    ex.on(r'CuckooHasher::Create\(', mk_hasher)
    ex.on(r'optional_data_dtor_base<.*>::optional_data_dtor_base\(\)$', lambda e, s, a, d: e.store(s, a[0], 8, 0))     # a new optional is empty
    fn = m.find('MPFSSKnownIndices::Create')[0]
    res = ex.call_fn(fn, [r, NULL, sec], st.copy())
    ctx.cover('Create rejects a null channel', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'Create: a null channel is an argument error', s, to_int(ex.load(s, r, 32), 32) == 3)
    mem = m.members('MPFSSKnownIndices')
    res = ex.call_fn(fn, [r, ch, sec], st.copy())
    ctx.cover('Create returns', len(res) > 0)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'Create: negative statistical security is an argument error, otherwise the status is that of SPFSS and hasher', s, code == z3.If(sec < 0, z3.IntVal(3), z3.If(sc != 0, sc, hc)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        q = ex.load(s, r.field(8), 64)
        ok = isinstance(q, Ptr) and q.obj is not None
        f = lambda k: ex.load(s, q.field(mem[k]), 64)
        ctx.prove(ex, 'Create: the instance has the channel, the SPFSS and the hasher', s, z3.BoolVal(ok and f('channel_').same(ch) and f('spfss_').same(spfss) and f('hasher_').same(hasher)))
        e1, e2 = [to_int(ex.load(s, q.field(mem[k]).field(o), 8), 8) for k, o in (('cached_output_size_', 0), ('cached_num_indices_', 0))]
        ctx.prove(ex, 'Create: no buckets are cached yet', s, z3.And(e1 == 0, e2 == 0))
    ctx.cover('Create succeeds', good)
    ctx.absorb(ex)


def lemmas(ctx):
    """what the two parties add up, together"""
    ex = ctx.exec(ctx.module, 'int')
    OA, OB = z3.Const('outputs_a', A2), z3.Const('outputs_b', A2)
    ix = z3.Const('index_in_bucket', AI)
    b, q, i, bi = I('b'), I('q'), I('i'), I('bucket_of_i')
    ga, gb, ga1, gb1, t, x = [RC(k) for k in 'sum_a sum_b next_a next_b total x'.split()]
    U, V, W, Mm = UV, VV, WV, YM
    yp = ypv(b)
    st = State()
    # the shares of one bucket: message = permuted y + u, w = u x + v
    st.pc += [s1(Mm, b) == yp + s1(U, b), s1(W, b) == s1(U, b) * XV + s1(V, b)]
    ctx.prove(ex, 'lemma: the value shares of a bucket add up to x times the y of the bucket', st, (s1(Mm, b) * XV - s1(W, b)) + s1(V, b) == yp * XV, kind='lemma')
    # one place more: contract of the SPFSS for the two parties
    va, vb = RC('value_a'), RC('value_b')
    pt = lambda q: z3.If(q == s1(ix, b), va + vb, z3.RealVal(0))
    in_ = lambda q: z3.If(z3.And(s1(ix, b) < q, s2(BK, b, s1(ix, b)) == P), va + vb, z3.RealVal(0))
    st = State()
    st.pc += [q >= 0, q < s1(BSZ, b), s1(ix, b) >= 0, s2(OA, b, q) + s2(OB, b, q) == pt(q), ga + gb == t + in_(q),
              ga1 == ga + z3.If(s2(BK, b, q) == P, s2(OA, b, q), z3.RealVal(0)), gb1 == gb + z3.If(s2(BK, b, q) == P, s2(OB, b, q), z3.RealVal(0))]
    ctx.prove(ex, 'lemma: within a bucket the two sums grow by the value of the bucket at the place of its index, for that position (step)', st, ga1 + gb1 == t + in_(q + 1), kind='lemma')
    # one bucket more
    yi = s1(YV, i)
    tot = lambda b: z3.If(bi < b, yi * XV, z3.RealVal(0))
    st = State()
    st.pc += [b >= 0, b < NB, i >= 0, i < NI, P == s1(IDX, i), s1(HI, bi) == i, bi >= 0, bi < NB, s1(HI, b) >= -1, s1(HI, b) < NI,
              z3.Implies(s1(HI, b) == i, b == bi),                                                     # C16: every index is in one bucket
              z3.Implies(z3.And(s1(HI, b) != -1, s1(IDX, s1(HI, b)) == s1(IDX, i)), s1(HI, b) == i),   # indices are distinct
              z3.Implies(s1(HI, b) != -1, z3.And(s1(ix, b) >= 0, s1(ix, b) < s1(BSZ, b), s2(BK, b, s1(ix, b)) == s1(IDX, s1(HI, b)))), s1(ix, b) >= 0,
              ga + gb == tot(b), va + vb == yp * XV, ga1 + gb1 == ga + gb + in_(s1(BSZ, b))]
    ctx.prove(ex, 'lemma: after a bucket the sums for an index are x times its y if its bucket is behind (step)', st, ga1 + gb1 == tot(b + 1), kind='lemma')
    ctx.feasible(ex, 'the hypotheses of the lemma', st)
    st2 = State()
    st2.pc += [b >= 0, b < NB, s1(HI, b) >= -1, z3.Implies(s1(HI, b) != -1, s1(IDX, s1(HI, b)) != P), z3.Implies(s1(HI, b) != -1, s2(BK, b, s1(ix, b)) == s1(IDX, s1(HI, b))), ga + gb == 0, va + vb == yp * XV, ga1 + gb1 == ga + gb + in_(s1(BSZ, b))]
    ctx.prove(ex, 'lemma: after a bucket the sums for a position that is no index are zero (step)', st2, ga1 + gb1 == 0, kind='lemma')
    ctx.feasible(ex, 'the hypotheses of the second lemma', st2)
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.par = ctx.ir(None, PAR, name='mpfss', text=H)
    ctx.parallel([('lemmas', lemmas), ('RunValueProviderVectorOLE', value_provider), ('RunIndexProviderVectorOLE', index_provider), ('UpdateBuckets', update_buckets), ('Create', create)])


def native(ctx):
    proto_native(ctx, 20)
