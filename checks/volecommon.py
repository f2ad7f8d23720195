"""C21, C22: Vector OLE.

Every correlation generated is a position of a batch: batch 0 is the Gilboa product, the others are expansions.  The methods
of the two parties have contracts that say, in closed form and with the same formulas for both parties, which positions of
which batch become the cache, the two seeds and the result, so that the parties stay in step; the rest is lemmas."""
from protocommon import *
from ggmcommon import at, depth

H = '''#include "ring.h"
#include "distributed_vector_ole/distributed_vector_ole.cpp"
namespace distributed_vector_ole {
template class DistributedVectorOLE<ring::R>;
}
'''
PAR = ['-DNDEBUG', '-fopenmp', '-fstandalone-debug', '-DBOOST_CONTAINER_DISABLE_FORCEINLINE'] + EFLAGS + ['-I' + VERIF + '/stubs']
FUNCTIONS = ['DistributedVectorOLE<T>::GetSenderCached, GetReceiverCached, ExpandSender, ExpandReceiver, RunSender, RunReceiver, PrecomputeSender, PrecomputeReceiver']
ASSUMPTIONS = RING + EIGEN + ['the product of a row vector and a sparse matrix is the vector of the products with the columns', 'std::uniform_int_distribution gives a value of its interval that is a function of the state of the generator',
                              'absl::flat_hash_set: the elements of a set are distinct, insert adds at most one', 'the two parties were created with the same statistical security (so that the number of buckets is the same)',
                              'MPFSSKnownIndices by its contract (C20), ScalarVectorGilboaProduct by its contract (C19)', 'after a call that returns an error nothing is claimed about later calls']
Z = z3.IntSort()
A1, AI = z3.ArraySort(Z, RS), z3.ArraySort(Z, Z)
A2 = z3.ArraySort(Z, A1)
CLS = 'DistributedVectorOLE<ring::R>'
lim = lambda *x: [c for v in x for c in (v >= 0, v < 2 ** 40)]


def s1(A, i):
    return select(A, i)


def cat(n, old, new):
    """select of old followed by new"""
    return lambda k: z3.If(k < n, s1(old, k), s1(new, z3.simplify(k - n)))


class V:
    """the state of an instance; the parts of a party are u and v (sender) or w (receiver)"""

    def __init__(self, ctx, side):
        self.ctx, self.side = ctx, side
        m = self.m = ctx.par
        ex, C, L = self.ex, self.C, self.L = setup_p(ctx, m)
        C.layouts['int'] = (4, [((), 0, 4, Z, z3.IntVal(0))])
        eigen(ex, C)
        fill_contract(ex, C)
        self.st = st = State()
        self.mem = mem = m.members(CLS)
        self.p = p = Ptr(ex.new_obj('vole'))
        self.names = ('u', 'v') if side == 'sender' else ('w',)
        self.cls = 'SenderResult' if side == 'sender' else 'ReceiverResult'
        self.fields = m.members(self.cls)
        self.R = 'Sender' if side == 'sender' else 'Receiver'
        self.obj = {k: p.field(mem['%s_%s_' % (side, k)]) for k in ('cached', 'vole_seed', 'mpfss_seed')}
        self.mpfss, self.gilboa, self.chan = [Ptr(ex.new_obj(k)) for k in ('mpfss', 'gilboa', 'channel')]
        for k, v in (('mpfss_', self.mpfss), ('gilboa_', self.gilboa), ('channel_', self.chan)):
            ex.store(st, p.field(mem[k]), 64, v)
        self.gen = p.field(mem['code_generator_'])
        self.GP = I('position')
        self.delta = RC('delta')
        st.ghost.update(gets=0)
        self.status = {}

    # ------------------------------------------------ state
    def vec(self, what, x):
        o = self.obj[what] if isinstance(what, str) else what
        return o.field(self.fields[x])

    def size(self, s, what, x=None):
        return to_int(self.C.size(s, self.vec(what, x or self.names[0])), 64)

    def arr(self, s, what, x):
        return self.C.arrays(s, self.vec(what, x), 'ring::R')[0]

    def put(self, s, what, x, n, arr):
        self.C.set_size(s, self.vec(what, x), z3.simplify(n) if z3.is_expr(n) else n)
        self.C.set_arrays(s, self.vec(what, x), 'ring::R', [arr])

    def get(self, s, k, b=32):
        return to_int(self.ex.load(s, self.p.field(self.mem[k]), b), b)

    def set(self, s, k, v, b=32):
        self.ex.store(s, self.p.field(self.mem[k]), b, v)

    def delta_of(self, s, what):
        o = self.obj[what] if isinstance(what, str) else what
        v = self.ex.load(s, o.field(self.fields['delta']), 192)
        return z3.RealVal(v) if isinstance(v, int) else v

    def fill(self, s, what, n, tag):
        """arbitrary contents; the sender's two vectors have the same length"""
        out = {}
        for x in self.names:
            out[x] = z3.Const('%s_%s' % (tag, x), A1)
            self.put(s, what, x, n, out[x])
        if self.side == 'receiver':
            self.ex.store(s, self.obj[what].field(self.fields['delta']), 192, self.delta)
        return out

    def clip(self, ty):
        return '%s::' % CLS

    def code(self, name):
        if name not in self.status:
            c = self.status[name] = I(name + '_status')
            self.ex.facts += [c >= 0, c <= 16]
        return self.status[name]

    # ------------------------------------------------ contract of Get*Cached for its callers
    def use_get(self):
        ex = self.ex

        def get(e, s, a, d):
            r, n = a[0], to_int(a[2], 64)
            size = self.size(s, 'cached')
            e.oblige('Get%sCached is asked for a number that is not negative' % self.R, s, n >= 0, kind='pre')
            low = size < n
            e.store(s, r, 32, z3.If(low, z3.IntVal(11), z3.IntVal(0)))
            rest = z3.simplify(z3.If(low, size, size - n))
            j = I('get_j')
            for x in self.names:
                old = self.arr(s, 'cached', x)
                v = r.field(8).field(self.fields[x])
                self.C.set_size(s, v, n)
                self.C.set_arrays(s, v, 'ring::R', [z3.Lambda([j], s1(old, z3.simplify(j + rest)))])
                self.put(s, 'cached', x, rest, old)
            if self.side == 'receiver':
                e.store(s, r.field(8).field(self.fields['delta']), 192, self.delta_of(s, 'cached'))
        ex.on(r'%s::Get%sCached\(' % (re.escape(CLS), self.R), get)

    def main(self, name, nargs=None):
        fs = [f for f in self.m.find(r'%s::%s\(' % (re.escape(CLS), name)) if 'omp_outlined' not in f]
        fs = [f for f in fs if nargs is None or len(self.m.functions[f].parse().params) == nargs]
        if len(fs) != 1:
            raise Unsupported('%d functions %s' % (len(fs), name))
        return fs[0]


# ---------------------------------------------------------------- Get*Cached
def get_cached(ctx, side):
    """the last n positions of the cache; what remains is the front"""
    g = V(ctx, side)
    ex, C, st = g.ex, g.C, g.st
    S, n, P = I('cache_size'), I('n'), g.GP
    st.pc += lim(S, n, P)
    old = g.fill(st, 'cached', S, 'cache')
    r = Ptr(ex.new_obj('result_'))
    nm = 'Get%sCached' % g.R
    res = ex.call_fn(g.main(nm), [r, g.p, n], st)
    ctx.cover(nm + ' returns', len(res) > 0)
    good = 0
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, nm + ': more than the cache holds is out of range', s, code == z3.If(S < n, z3.IntVal(11), z3.IntVal(0)))
        for x in g.names:
            ctx.prove(ex, nm + ': the cache keeps its front (%s)' % x, s, z3.And(g.size(s, 'cached', x) == z3.If(S < n, S, S - n), z3.Implies(P < g.size(s, 'cached', x), s1(g.arr(s, 'cached', x), P) == s1(old[x], P))))
        if side == 'receiver':
            ctx.prove(ex, nm + ': delta of the cache is kept', s, g.delta_of(s, 'cached') == g.delta)
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good += 1
        ctx.feasible(ex, nm + ' succeeds', s)
        v = r.field(8)
        for x in g.names:
            ctx.prove(ex, nm + ': the result is the end of the cache (%s)' % x, s, z3.And(g.size(s, v, x) == n, z3.Implies(P < n, s1(g.arr(s, v, x), P) == s1(old[x], S - n + P))))
        if side == 'receiver':
            ctx.prove(ex, nm + ': the result has the delta of the cache', s, g.delta_of(s, v) == g.delta)
    ctx.cover(nm + ' succeeds', good > 0)
    ctx.absorb(ex)


# ---------------------------------------------------------------- one expansion
DOT = z3.Function('product_with_column', A1, Z, RS)     # of a row vector with column j of the code generator
IDX, YV, V0, V1 = z3.Const('noise_indices', AI), z3.Const('noise_values', A1), z3.Const('mpfss_share_sender', A1), z3.Const('mpfss_share_receiver', A1)
MU = RC('noise_at_position')
NOISE, OS, NV, NM, ROWS, COLS, SV, SM = [I(k) for k in 'num_noise output_size new_vole_seed_size new_mpfss_seed_size rows cols vole_seed mpfss_seed'.split()]


def products(g):
    """contract of vector times code generator"""
    def prod(e, s, a, d):
        if 'SparseMatrix' not in d:
            return NotImplemented
        c = a[1]
        e.oblige('the product is with the code generator', s, z3.And(z3.BoolVal(a[2].same(g.gen)), to_int(g.C.size(s, c), 64) == ROWS), kind='pre')
        x, j = g.C.arrays(s, c, 'ring::R')[0], I('prod_j')
        g.C.set_size(s, a[0], COLS)
        g.C.set_arrays(s, a[0], 'ring::R', [z3.Lambda([j], DOT(x, j))])
    g.ex.on(r'Eigen::operator\*<ring::R, 1, -1, 0>\(', prod)
    g.ex.on(r'^Eigen::SparseMatrix<ring::R, 0>::rows\(', lambda e, s, a, d: ROWS)
    g.ex.on(r'^Eigen::SparseMatrix<ring::R, 0>::cols\(', lambda e, s, a, d: COLS)


def expand(ctx, side):
    """the seeds times the code generator plus noise, appended to the cache; the new seeds are its end"""
    g = V(ctx, side)
    ex, C, L, st = g.ex, g.C, g.L, g.st
    S, X, K, P = I('cache_size'), I('place'), I('k0'), I('noise_position')
    st.pc += lim(S, SV, SM, ROWS, COLS) + [OS >= 0, OS < 2 ** 40, NV >= 0, NV < 2 ** 31, NM >= 0, NM < 2 ** 31, NOISE >= 0, NOISE < 2 ** 31, X >= 0, X < S + OS, P == X - S, K >= 0]
    old, vs, ms = g.fill(st, 'cached', S, 'cache'), g.fill(st, 'vole_seed', SV, 'vole_seed'), g.fill(st, 'mpfss_seed', SM, 'mpfss_seed')
    g.set(st, 'num_noise_indices_', NOISE)
    a_, b_ = I('old_vole_size'), I('old_mpfss_size')
    st.pc += [a_ >= 0, a_ < 2 ** 31, b_ >= 0, b_ < 2 ** 31]
    g.set(st, 'vole_seed_size_', a_)
    g.set(st, 'mpfss_seed_size_', b_)
    g.use_get()
    products(g)
    nm = 'Expand' + g.R
    MC, RCODE = g.code('mpfss'), g.code('generator')
    st.ghost.update(mpfss=0)
    main = g.main(nm, 4)
    fn = g.m.functions[main]
    i = I('i_')
    j = I('j_')
    share = V0 if side == 'sender' else V1

    def same(s, what, ghost):
        return z3.And(*[s1(g.arr(s, what, x), K) == s1(ghost[x], K) for x in g.names])

    def spans(e, s, a, callee, skip):
        """the arguments of the MPFSS: spans as (pointer, size), also those passed in memory"""
        out, k = [], 0
        f = g.m.functions[callee].parse()
        for ty, nm_ in f.params[skip:]:
            v = a[k]
            if nm_ in f.byval:
                out.append((e.load(s, v, 64), to_int(e.load(s, v.field(8), 64), 64)))
            elif isinstance(v, Ptr):
                out.append((v, None))
            else:
                out[-1] = (out[-1][0], to_int(v, 64))
            k += 1
        return out

    def holds(e, s, what, sp, n, arr, t='ring::R'):
        p, ln = sp
        if isinstance(p, Ptr) and p.obj is None:
            e.oblige(what, s, n == 0, kind='post')
            return None
        c, f = place(p)
        cond = [ln == n, f == 0]
        if arr is not None:
            cond.append(z3.Implies(K < n, s1(C.arrays(s, c, t)[0], K) == s1(arr, K)))
        e.oblige(what, s, z3.And(*cond), kind='post')
        return c

    def index_provider(e, s, a, d):
        e.oblige('one MPFSS with the instance\'s', s, z3.BoolVal(side == 'sender' and s.ghost['mpfss'] == 0 and a[0].same(g.mpfss)), kind='post')
        s.ghost['mpfss'] = 1
        y, ix, u, v, out = spans(e, s, a[1:], g.m.find(r'MPFSSKnownIndices::RunIndexProviderVectorOLE<')[0], 1)
        holds(e, s, 'the noise values are those drawn', y, NOISE, YV)
        holds(e, s, 'the noise indices are those drawn', ix, NOISE, IDX, 'long')
        holds(e, s, 'the MPFSS consumes its seed (u)', u, SM, ms['u'])
        holds(e, s, 'the MPFSS consumes its seed (v)', v, SM, ms['v'])
        c = holds(e, s, 'the MPFSS is as long as the expansion', out, OS, None)
        if c is not None:
            C.set_arrays(s, c, 'ring::R', [V0])
        return MC
    ex.on(r'MPFSSKnownIndices::RunIndexProviderVectorOLE<', index_provider)

    def value_provider(e, s, a, d):
        e.oblige('one MPFSS with the instance\'s', s, z3.BoolVal(side == 'receiver' and s.ghost['mpfss'] == 0 and a[0].same(g.mpfss)), kind='post')
        s.ghost['mpfss'] = 1
        x = e.load(s, a[1], 192)
        e.oblige('the MPFSS is for delta and the number of noise indices', s, z3.And(x == g.delta, to_int(a[2], 32) == NOISE), kind='post')
        w, out = spans(e, s, a[3:], g.m.find(r'MPFSSKnownIndices::RunValueProviderVectorOLE<')[0], 3)
        holds(e, s, 'the MPFSS consumes its seed (w)', w, SM, ms['w'])
        c = holds(e, s, 'the MPFSS is as long as the expansion', out, OS, None)
        if c is not None:
            C.set_arrays(s, c, 'ring::R', [V1])
        return MC
    ex.on(r'MPFSSKnownIndices::RunValueProviderVectorOLE<', value_provider)
    if side == 'sender':
        # the noise: values and distinct positions
        noise = z3.Or(z3.And(K < NOISE, P == s1(IDX, K), MU == s1(YV, K)), z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NOISE), s1(IDX, i) != P), patterns=[s1(IDX, i)]), MU == 0))
        st.pc += [noise]
        ex.facts += [z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < NOISE), s1(IDX, i) != s1(IDX, j)), patterns=[z3.MultiPattern(s1(IDX, i), s1(IDX, j))]),
                     z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NOISE), z3.And(s1(IDX, i) >= 0, s1(IDX, i) < OS)), patterns=[s1(IDX, i)])]

        def rnd(e, s, a, d):
            c, f = place(a[0])
            e.oblige('all noise values are drawn', s, z3.And(f == 0, to_int(a[1], 64) == NOISE, to_int(C.size(s, c), 64) == NOISE), kind='post')
            C.set_arrays(s, c, 'ring::R', [YV])
        ex.on(r'ScalarHelper<ring::R, int>::Randomize\(', rnd)
        ex.on(r'^RAND_bytes$', lambda e, s, a, d: 1)

        def mk(e, s, a, d):
            e.store(s, a[0], 32, RCODE)
        ex.on(r'AESUniformBitGenerator::Create\(', mk)
        ex.on(r'AESUniformBitGenerator::~?AESUniformBitGenerator\(', lambda e, s, a, d: None)
        ex.on(r'StatusOr<distributed_vector_ole::AESUniformBitGenerator>::~StatusOr\(', lambda e, s, a, d: None)

        def dist(e, s, a, d):
            e.store(s, a[0], 64, a[1])
            e.store(s, a[0].field(8), 64, a[2])
        ex.on(r'^std::uniform_int_distribution<long>::uniform_int_distribution\(long, long\)', dist)

        def draw(e, s, a, d):
            v = e.fresh('drawn', Z)
            s.pc += [v >= to_int(e.load(s, a[0], 64), 64), v <= to_int(e.load(s, a[0].field(8), 64), 64), v >= -2 ** 63, v < 2 ** 63]
            return v
        ex.on(r'std::uniform_int_distribution<long>::operator\(\)<', draw)
        ex.on(r'^absl::debian3::flat_hash_set<long,.*>::flat_hash_set\(\)', lambda e, s, a, d: e.store(s, a[0], 64, 0))
        ex.on(r'^absl::debian3::flat_hash_set<long,.*>::~flat_hash_set\(', lambda e, s, a, d: None)
        ex.on(r'raw_hash_set<absl::debian3::container_internal::FlatHashSetPolicy<long>.*>::size\(', lambda e, s, a, d: e.load(s, a[0], 64))
        ex.on(r'raw_hash_set<absl::debian3::container_internal::FlatHashSetPolicy<long>.*>::(begin|end)\(', lambda e, s, a, d: [a[0], 0])

        def insert(e, s, a, d):
            q = a[1] if len(a) == 2 else a[2]
            h = a[0] if len(a) == 2 else a[1]     # with or without a returned pair
            x, n, one = to_int(e.load(s, q, 64), 64), to_int(e.load(s, h, 64), 64), e.fresh('new', Z)
            e.oblige('a noise index is a position of the expansion', s, z3.And(x >= 0, x < OS), kind='post')
            s.pc += [one >= 0, one <= 1]
            e.store(s, h, 64, z3.simplify(n + one))
        ex.on(r'raw_hash_set<absl::debian3::container_internal::FlatHashSetPolicy<long>.*>::(insert|emplace)\b', insert)

        def from_set(e, s, a, d):
            h = local(e, fn, 'indices_set')
            n = to_int(e.load(s, h, 64), 64)
            e.oblige('there is one noise index for every noise value', s, n == NOISE, kind='post')
            C.set_size(s, a[0], n)
            C.set_arrays(s, a[0], 'long', [IDX])
        ex.on(r'^std::vector<long, std::allocator<long> >::vector<absl::debian3::container_internal::raw_hash_set', from_set)

        def hint(auto, fr, bb, s):
            if fr.fn.name != main:
                return None
            if not s.ghost['mpfss']:
                h = local(ex, fn, 'indices_set')
                n = lambda s: to_int(ex.load(s, h, 64), 64)
                return dict(inv=lambda auto, s, k, st0: [('at most as many indices as noise values', z3.And(n(s) >= 0, n(s) <= NOISE))], open='all', trip='unknown')
            v = header_vars(fn, bb)
            mu = local(ex, fn, 'mu')
            t = loop_pos(ex, fn, bb)

            def inv(auto, s, k, st0):
                m_ = s1(C.arrays(s, mu, 'ring::R')[0], P)
                y = [l for l in ('y',) if True][0]
                return [('the index', z3.And(t(s) >= 0, t(s) <= NOISE)), ('the noise vector so far', z3.Implies(z3.And(P >= 0, P < OS), m_ == z3.If(z3.And(K < NOISE, s1(IDX, K) == P, K >= t(s)), z3.RealVal(0), MU)))]
            return dict(inv=inv, open='all', trip='unknown')
        L.hints.append((r'Expand', hint))
    res = ex.call_fn(main, [g.p, OS, NV, NM], st)
    ctx.cover(nm + ' returns', len(res) > 0)
    good = 0
    bad = z3.Or(ROWS != SV, COLS != OS)
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, nm + ': a code generator of other dimensions is an internal error', s, z3.Implies(bad, code == 13))
        ctx.prove(ex, nm + ': errors are passed on', s, z3.Implies(code == 0, z3.And(MC == 0, S + OS >= NV + NM)))
        ctx.prove(ex, nm + ': no other errors', s, z3.Implies(z3.And(z3.Not(bad), code != 0), z3.Or(code == MC, code == RCODE, z3.And(code == 11, S + OS < NV + NM))))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good += 1
        ctx.feasible(ex, nm + ' succeeds', s)
        ctx.prove(ex, nm + ': the MPFSS has run', s, z3.BoolVal(s.ghost['mpfss'] == 1))
        ctx.prove(ex, nm + ': the sizes of the seeds are recorded', s, z3.And(g.get(s, 'vole_seed_size_') == NV, g.get(s, 'mpfss_seed_size_') == NM, g.get(s, 'num_noise_indices_') == NOISE))
        rest = S + OS - NV - NM
        new = {'u': DOT(vs['u'], P) + MU, 'v': DOT(vs['v'], P) - s1(V0, P)} if side == 'sender' else {'w': DOT(vs['w'], P) + s1(V1, P)}
        for x in g.names:
            want = z3.If(X < S, s1(old[x], X), new[x])
            ctx.prove(ex, nm + ': the sizes of cache and seeds (%s)' % x, s, z3.And(g.size(s, 'cached', x) == rest, g.size(s, 'mpfss_seed', x) == NM, g.size(s, 'vole_seed', x) == NV))
            ctx.prove(ex, nm + ': what remains in the cache is the front of old cache and expansion (%s)' % x, s, z3.Implies(X < rest, s1(g.arr(s, 'cached', x), X) == want))
            ctx.prove(ex, nm + ': the next MPFSS seed is what follows (%s)' % x, s, z3.Implies(z3.And(X >= rest, X < rest + NM), s1(g.arr(s, 'mpfss_seed', x), X - rest) == want))
            ctx.prove(ex, nm + ': the next VOLE seed is the end (%s)' % x, s, z3.Implies(X >= rest + NM, s1(g.arr(s, 'vole_seed', x), X - rest - NM) == want))
        if side == 'receiver':
            ctx.prove(ex, nm + ': delta is kept', s, z3.And(*[g.delta_of(s, k) == g.delta for k in g.obj]))
    ctx.cover(nm + ' succeeds', good > 0)
    ctx.absorb(ex)


# ---------------------------------------------------------------- the code generator
def nonzeros(g):
    """the constant of the program"""
    kz = [x for x in g.m.globals if 'kCodeGeneratorNonzeros' in x]
    v = z3.simplify(to_int(g.ex.load(g.st, g.ex.global_ptr(kz[0], g.st), 32), 32)) if kz else None
    if v is None or not z3.is_int_value(v):
        raise Unsupported('no constant kCodeGeneratorNonzeros')
    return v.as_long()


def common(ctx, lower):
    """both parties enter the same elements at the same places: functions of the seed and the sizes"""
    g = V(ctx, 'sender')
    ex, C, L, st, m = g.ex, g.C, g.L, g.st, g.m
    nm = 'PrecomputeCommon (%s number)' % ('lower' if lower else 'higher')
    C.layouts['Eigen::Triplet<ring::R>'] = (40, [((), 0, 40, Z, z3.IntVal(0))])
    VS, me, peer = I('vole_seed_size'), I('id'), I('peer_id')
    st.pc += [OS >= 1, OS < 2 ** 40, VS >= 1, VS < 2 ** 31, NOISE >= 0, NOISE < 2 ** 31, (me < peer) if lower else (me > peer)]
    for x in (me, peer):
        st.pc += [x >= -2 ** 31, x < 2 ** 31]
    g.set(st, 'vole_seed_size_', VS)
    g.set(st, 'num_noise_indices_', NOISE)
    sec = RC('statistical_security')
    ex.store(st, g.p.field(g.mem['statistical_security_']), 64, sec)
    BYTES = z3.ArraySort(Z, z3.BitVecSort(8))
    SEED, GOT = z3.Const('seed_drawn', BYTES), z3.Const('seed_received', BYTES)
    RAW = z3.Function('rng_output', Z, z3.BitVecSort(64))
    ELEM = z3.Function('element_of', z3.BitVecSort(64), z3.BitVecSort(64), RS)     # of low and high half
    ROW = z3.Function('row_drawn', Z, Z)
    UC, RCODE = g.code('buckets'), g.code('generator')
    hashable, CB = z3.Function('can_be_hashed_into', RS, z3.BoolSort()), I('b0')
    st.ghost.update(buckets=0, drawn=0, sent=None, flushed=0, received=0, created=0, dims=None, cleared=0)
    main = g.main('PrecomputeCommon')
    fn = m.functions[main]
    Kc = nonzeros(g)
    gens = Ptr(ex.new_obj('ghosts'))       # 0: outputs of the generator so far, 8: rows drawn so far, 16: entries assigned so far
    for o in (0, 8, 16):
        ex.store(st, gens.field(o), 64, 0)
    gh = lambda s, o: to_int(ex.load(s, gens.field(o), 64), 64)
    j = I('j_')
    ex.facts.append(z3.ForAll([j], z3.And(ROW(j) >= 0, ROW(j) < VS), patterns=[ROW(j)]))

    def seedvec(s, v, want, what):
        e = ex
        n, a = to_int(C.size(s, v), 64), C.arrays(s, v, 'unsigned char')[0]
        e.oblige(what, s, z3.And(n == 32, z3.Implies(z3.And(CB >= 0, CB < 32), z3.Select(a, CB) == z3.Select(want, CB))), kind='post')

    def update(e, s, a, d):
        e.oblige('the buckets are for the output size and the number of noise indices', s, z3.And(z3.BoolVal(a[0].same(g.mpfss)), to_int(a[1], 64) == OS, to_int(a[2], 32) == NOISE), kind='post')
        s.ghost['buckets'] += 1
        return UC
    ex.on(r'MPFSSKnownIndices::UpdateBuckets\(', update)

    def rand(e, s, a, d):
        c, i = place(a[0])
        n = to_int(a[1], 64)
        e.oblige('the whole seed is drawn', s, z3.And(i == 0, n == 32, to_int(C.size(s, c), 64) == 32), kind='post')
        s.ghost['drawn'] += 1
        C.set_arrays(s, c, 'unsigned char', [SEED])
        return 1
    ex.on(r'^RAND_bytes$', rand)

    def send(e, s, a, d):
        s.ghost['sent'], s.ghost['flushed'] = 1, 0
        e.oblige('the seed goes over the channel of the instance', s, z3.BoolVal(lower and a[0].same(g.chan)), kind='post')
        seedvec(s, a[1], SEED, 'the seed drawn is sent')
    ex.on(r'comm_channel::send<', send)
    ex.on(r'comm_channel::flush\(', lambda e, s, a, d: s.ghost.__setitem__('flushed', 1))

    def recv(e, s, a, d):
        e.oblige('the seed comes over the channel of the instance', s, z3.BoolVal(not lower and a[0].same(g.chan)), kind='post')
        s.ghost['received'] += 1
        C.set_size(s, a[1], 32)
        C.set_arrays(s, a[1], 'unsigned char', [GOT])
    ex.on(r'comm_channel::recv<', recv)
    ex.on(r'comm_channel::get_id\(', lambda e, s, a, d: me)
    ex.on(r'comm_channel::get_peer_id\(', lambda e, s, a, d: peer)

    def mk(e, s, a, d):
        c, i = place(a[1])
        e.oblige('the generator gets the whole seed and room for all elements', s, z3.And(i == 0, to_int(a[2], 64) == 32, to_int(a[3], 64) == Kc * OS), kind='post')
        seedvec(s, c, SEED if lower else GOT, 'both parties seed the generator with the seed drawn by the one with the lower number')
        s.ghost['created'] += 1
        e.store(s, a[0], 32, RCODE)
    ex.on(r'AESUniformBitGenerator::Create\(', mk)
    ex.on(r'AESUniformBitGenerator::~?AESUniformBitGenerator\(', lambda e, s, a, d: None)
    ex.on(r'StatusOr<distributed_vector_ole::AESUniformBitGenerator>::~StatusOr\(', lambda e, s, a, d: None)

    def next_(e, s, a, d):
        k = gh(s, 0)
        e.oblige('the elements are drawn before the rows', s, gh(s, 8) == 0, kind='post')
        e.store(s, gens, 64, z3.simplify(k + 1))
        return RAW(z3.simplify(k))
    ex.on(r'AESUniformBitGenerator::operator\(\)\(', next_)
    ex.on(r'^absl::debian3::MakeUint128\(', lambda e, s, a, d: [a[1], a[0]])

    def u128(e, s, a, d):
        if not seen:       # the first of the two outputs is one half; which one the program says, the same for all elements
            k = z3.simplify(gh(s, 0) - 2)
            seen.append(ex.check(ex.zpc(s) + [bv(a[1], 64) != RAW(k)], 5000) == z3.unsat)
        e.store(s, a[0], 192, ELEM(bv(a[1], 64), bv(a[2], 64)))
    ex.on(r'ScalarHelper<ring::R, int>::FromUint128\(', u128)

    def can(e, s, a, d):
        x = a[0] if z3.is_expr(a[0]) else z3.RealVal(a[0])
        e.oblige('random values of 128 bits are reduced', s, to_int(a[1], 32) == 128, kind='post')
        e.oblige('the security is that of all elements together', s, x == LOG2(z3.ToReal(Kc * OS)) + sec, kind='post')
        return hashable(x)
    LOG2 = z3.Function('log2', RS, RS)
    ex.on(r'^log2$', lambda e, s, a, d: LOG2(a[0] if z3.is_expr(a[0]) else z3.RealVal(a[0])))
    ex.on(r'ScalarHelper<ring::R, int>::CanBeHashedInto\(', can)

    def dist(e, s, a, d):
        e.store(s, a[0], 32, a[1])
        e.store(s, a[0].field(4), 32, a[2])
    ex.on(r'^std::uniform_int_distribution<int>::uniform_int_distribution\(int, int\)', dist)

    def row(e, s, a, d):
        lo_, hi = to_int(e.load(s, a[0], 32), 32), to_int(e.load(s, a[0].field(4), 32), 32)
        e.oblige('the rows are drawn from all rows, after all elements', s, z3.And(lo_ == 0, hi == VS - 1, gh(s, 0) == 2 * Kc * OS), kind='post')
        k = gh(s, 8)
        e.store(s, gens.field(8), 64, z3.simplify(k + 1))
        return ROW(z3.simplify(k))
    ex.on(r'std::uniform_int_distribution<int>::operator\(\)<', row)

    # the matrix: a sequence of assignments
    def resize(e, s, a, d):
        e.oblige('the code generator gets its dimensions and is emptied', s, z3.And(z3.BoolVal(a[0].same(g.gen)), to_int(a[1], 64) == VS, to_int(a[2], 64) == OS, gh(s, 16) == 0), kind='post')
        s.ghost['dims'] = 1
    ex.on(r'Eigen::SparseMatrix<ring::R, 0>::resize\(', resize)
    ex.on(r'Eigen::SparseMatrix<ring::R, 0>::(reserve<|makeCompressed\()', lambda e, s, a, d: None)
    ex.on(r'Eigen::Matrix<int, -1, 1>::(~Matrix|Constant)\(', lambda e, s, a, d: None)
    cell = Ptr(ex.new_obj('entry'))
    ex.store(st, cell, 192, RC('no_entry'))

    def flush_cell(e, s, what):
        """the entry assigned last has its element"""
        n = gh(s, 16)
        v = e.load(s, cell, 192)
        v = v if z3.is_expr(v) and v.sort() == RS else e.fresh('unset', RS)
        e.oblige(what, s, z3.Implies(n == GE + 1, v == element(GE)), kind='post')

    def element(k):
        return ELEM(*order(z3.simplify(2 * k)))
    seen = []
    order = lambda k: (RAW(k), RAW(z3.simplify(k + 1))) if seen and seen[0] else (RAW(z3.simplify(k + 1)), RAW(k))

    def coeff(e, s, a, d):
        n = gh(s, 16)
        flush_cell(e, s, 'every entry gets the element drawn for it')
        e.oblige('the entries are those of the rows drawn, a fixed number per column', s, z3.And(z3.BoolVal(a[0].same(g.gen)), to_int(a[1], 64) == ROW(n), to_int(a[2], 64) * Kc <= n, n < (to_int(a[2], 64) + 1) * Kc), kind='post')
        e.oblige('an entry is inside the code generator', s, z3.And(to_int(a[1], 64) >= 0, to_int(a[1], 64) < VS, to_int(a[2], 64) >= 0, to_int(a[2], 64) < OS), kind='pre')
        e.store(s, gens.field(16), 64, z3.simplify(n + 1))
        e.store(s, cell, 192, e.fresh('unset', RS))
        return cell
    ex.on(r'Eigen::SparseMatrix<ring::R, 0>::coeffRef\(', coeff)

    # number of nonzeros per column: the constant of the program
    GE = I('e0')     # an arbitrary element
    st.pc += [GE >= 0]
    re_ = lambda s: C.arrays(s, local(ex, fn, 'random_elements'), 'ring::R')[0]

    def hint(auto, fr, bb, s):
        if fr.fn.name != main:
            return None
        d_ = depth(fn, bb)
        v = header_vars(fn, bb)
        t = loop_pos(ex, fn, bb)
        inner = any(bb != h and bb in body for h, body in fn.loops.items())
        if inner:
            def inv(auto, s, k, st0):
                c = g.col(s)
                return [('the entry of the column', z3.And(t(s) >= 0, t(s) <= Kc)), ('entries so far', z3.And(gh(s, 16) == c * Kc + t(s), gh(s, 8) == gh(s, 16), gh(s, 0) == 2 * Kc * OS)), ('the last entry has its element', last(s)), ('the elements not used yet', rest(s))]
        elif any(b != bb and b in fn.loops[bb] for b in fn.loops):
            g.col = t

            def inv(auto, s, k, st0):
                return [('the column', z3.And(t(s) >= 0, t(s) <= OS)), ('entries so far', z3.And(gh(s, 16) == t(s) * Kc, gh(s, 8) == gh(s, 16), gh(s, 0) == 2 * Kc * OS)), ('the last entry has its element', last(s)), ('the elements not used yet', rest(s))]
        else:
            def inv(auto, s, k, st0):
                return [('the element', z3.And(t(s) >= 0, t(s) <= Kc * OS)), ('outputs so far', gh(s, 0) == 2 * t(s)), ('the elements so far', z3.Implies(GE < t(s), s1(re_(s), GE) == element(GE)))]
        return dict(inv=inv, open='all', trip='unknown')

    def last(s):
        v = ex.load(s, cell, 192)
        return z3.Implies(gh(s, 16) == GE + 1, v == element(GE))

    def rest(s):
        return z3.Implies(z3.And(GE >= gh(s, 16), GE < Kc * OS), s1(re_(s), GE) == element(GE))
    L.hints.append((r'PrecomputeCommon', hint))
    res = ex.call_fn(main, [g.p, OS], st)
    ctx.cover(nm + ' returns', len(res) > 0)
    good = 0
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, nm + ': errors of the buckets and the generator are passed on', s, z3.Implies(code == 0, z3.And(UC == 0, RCODE == 0, hashable(LOG2(z3.ToReal(Kc * OS)) + sec))))
        ctx.prove(ex, nm + ': no other errors', s, z3.Implies(code != 0, z3.Or(z3.And(UC != 0, code == UC), z3.And(RCODE != 0, code == RCODE), z3.And(code == 3, z3.Not(hashable(LOG2(z3.ToReal(Kc * OS)) + sec))))))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good += 1
        ctx.feasible(ex, nm + ' succeeds', s)
        h = s.ghost
        ctx.prove(ex, nm + ': buckets, dimensions and generator are made once', s, z3.BoolVal(h['buckets'] == 1 and h['created'] == 1 and h['dims'] == 1))
        ctx.prove(ex, nm + ': the seed is ' + ('drawn, sent and flushed' if lower else 'received'), s, z3.BoolVal(h['drawn'] == 1 and h['sent'] == 1 and h['flushed'] == 1 and h['received'] == 0 if lower else h['received'] == 1 and h['sent'] is None))
        ctx.prove(ex, nm + ': every column has its entries', s, gh(s, 16) == Kc * OS)
        flush_cell(ex, s, nm + ': the last entry has its element')
        ctx.prove(ex, nm + ': sizes are kept', s, z3.And(g.get(s, 'vole_seed_size_') == VS, g.get(s, 'num_noise_indices_') == NOISE))
    ctx.cover(nm + ' succeeds', good > 0)
    ctx.absorb(ex)
    return seen


def generator(ctx):
    a, b = common(ctx, True), common(ctx, False)
    ctx.cover('both parties use the outputs of the generator in the same order', a == b and len(a) == 1)


# ---------------------------------------------------------------- precomputation
POUT, PSEED, PNOISE = [z3.Const(k, AI) for k in ('output_sizes', 'seed_sizes', 'noise_numbers')]
NP = I('parameter_sets')
NBF = z3.Function('num_buckets', Z, Z)
BATCH = {x: z3.Function('batch_' + x, Z, Z, RS) for x in 'uvw'}      # position k of batch b
GU, GV, GA, GB, MSG = [z3.Const(k, A1) for k in ('gilboa_u', 'gilboa_v', 'gilboa_share_sender', 'gilboa_share_receiver', 'message')]
KMAX = 2 ** 20     # more than the number of buckets for any of the parameters
LEN0 = PSEED[0] + NBF(PNOISE[0])


def seeds(b):
    return PSEED[b] + NBF(PNOISE[b])


def params(ctx, g):
    """facts about the parameters of the program; later proofs use these facts only"""
    ex, C = g.ex, g.C
    val = {}
    st = State()

    def ctor(e, s, a, d):
        n = z3.simplify(to_int(a[2], 64)).as_long()
        v = [z3.simplify(to_int(e.load(s, Ptr(a[1].obj, a[1].steps, a[1].off + 4 * k), 32), 32)) for k in range(n)]
        val[a[0].obj] = [x.as_long() for x in v]
    ex.on(r'^std::vector<int, std::allocator<int> >::vector\(std::initializer_list<int>', ctor)
    ex.on(r'^__cxa_atexit$', lambda e, s, a, d: 0)
    ex.on(r'^std::__new_allocator<int>::', lambda e, s, a, d: None)
    names = {}
    for k in ('output_size', 'seed_size', 'num_noise_indices'):
        gl = [x for x in g.m.globals if re.search(r'VOLEParameters\d+%sE$' % k, x)]
        if len(gl) != 1:
            raise Unsupported('the parameter ' + k)
        names[k] = ex.global_ptr(gl[0], st)
    for f in g.m.functions:
        if f.startswith('__cxx_global_var_init') and any(re.search(r'VOLEParameters', str(i.a)) for b in g.m.functions[f].parse().blocks.values() for i in b):
            ex.call_fn(f, [], st)
    o, s, n = [val.get(names[k].obj, []) for k in ('output_size', 'seed_size', 'num_noise_indices')]
    ctx.cover('the parameters of the program were read', len(o) > 0)
    ok = len(o) == len(s) == len(n) >= 1 and all(0 < x < 2 ** 30 for x in o + s + n) and o == sorted(o) and o[-1] > s[-1] + KMAX
    ctx.prove(ex, 'the parameters are as many sizes as seeds and noise numbers, positive, and ordered by size', st, z3.BoolVal(ok))
    return names


def use_params(g, names):
    st = g.st
    for k, a in (('output_size', POUT), ('seed_size', PSEED), ('num_noise_indices', PNOISE)):
        g.C.set_size(st, names[k], NP)
        g.C.set_arrays(st, names[k], 'int', [a])
    i, j = I('i_'), I('j_')
    inr = z3.And(i >= 0, i < NP)
    pos = lambda A: z3.ForAll([i], z3.Implies(inr, z3.And(A[i] > 0, A[i] < 2 ** 30)), patterns=[A[i]])
    g.ex.facts += [NP >= 1, NP < 2 ** 20, pos(POUT), pos(PSEED), pos(PNOISE), z3.ForAll([i], z3.Implies(inr, POUT[i] <= POUT[NP - 1]), patterns=[POUT[i]]), POUT[NP - 1] > PSEED[NP - 1] + KMAX,
                   z3.ForAll([i], z3.And(NBF(i) >= 1, NBF(i) < KMAX), patterns=[NBF(i)])]


class P(V):
    """contracts of what Precompute and Run use; ghosts: 0 expansions so far, 8.. the code generator made last"""

    def __init__(self, ctx, side):
        super().__init__(ctx, side)
        self.names_ = params(ctx, self)
        use_params(self, self.names_)
        ex = self.ex
        self.gh = Ptr(ex.new_obj('ghosts'))
        for o in (0, 8, 16, 24, 32):
            ex.store(self.st, self.gh.field(o), 64, 0)
        self.GQ = I('q0')
        self.st.pc += [self.GQ >= 0, self.GQ < 2 ** 41]
        self.NCODE, self.UCODE, self.XCODE = [z3.Function(k, Z, Z) for k in ('num_buckets_status', 'generator_status', 'expand_status')]

        def num(e, s, a, d):
            n = to_int(a[2], 32)
            e.oblige('the number of buckets is that of the MPFSS of the instance', s, z3.BoolVal(a[1].same(self.mpfss)), kind='post')
            s.pc += [self.NCODE(n) >= 0, self.NCODE(n) <= 16]
            e.store(s, a[0], 32, self.NCODE(n))
            e.store(s, a[0].field(4), 32, NBF(n))
        ex.on(r'MPFSSKnownIndices::NumBuckets\(', num)

        def common_(e, s, a, d):
            os = to_int(a[1], 64)
            e.oblige('the code generator is for a positive size', s, z3.And(os >= 1, os < 2 ** 40, self.get(s, 'vole_seed_size_') >= 1, self.get(s, 'num_noise_indices_') >= 0), kind='pre')
            c = self.UCODE(self.g(s, 0))
            s.pc += [c >= 0, c <= 16]
            for o, v in ((8, self.get(s, 'vole_seed_size_')), (16, os), (24, self.get(s, 'num_noise_indices_'))):
                e.store(s, self.gh.field(o), 64, v)
            return c
        ex.on(r'%s::PrecomputeCommon\(' % re.escape(CLS), common_)
        ex.on(r'%s::Expand%s\(long' % (re.escape(CLS), self.R), self.expand)

    def g(self, s, o):
        return to_int(self.ex.load(s, self.gh.field(o), 64), 64)

    def expand(self, e, s, a, d):
        """ExpandX as proved above; the position proved there is an arbitrary one"""
        C = self.C
        os, nv, nm = to_int(a[1], 64), to_int(a[2], 32), to_int(a[3], 32)
        S, t = self.size(s, 'cached'), self.g(s, 0)
        sv, sm, noise = self.size(s, 'vole_seed'), self.size(s, 'mpfss_seed'), self.get(s, 'num_noise_indices_')
        e.oblige('the code generator fits the expansion', s, z3.And(self.g(s, 8) == sv, self.g(s, 16) == os), kind='post')
        e.oblige('the buckets are those of the expansion, one seed each', s, z3.And(self.g(s, 16) == os, self.g(s, 24) == noise, sm == NBF(noise)), kind='post')
        e.oblige('the expansion is for sizes that make sense', s, z3.And(nv >= 0, nm >= 0, S + os >= nv + nm), kind='pre')
        for what, off in (('mpfss_seed', 0), ('vole_seed', sm)):
            for x in self.names:
                e.oblige('the seeds are the end of the last batch (%s, %s)' % (what, x), s, z3.Implies(self.GQ < self.size(s, what, x), s1(self.arr(s, what, x), self.GQ) == BATCH[x](t, self.start(t) + off + self.GQ)), kind='post')
        c = self.XCODE(t)
        s.pc += [c >= 0, c <= 16]
        j = I('exp_j')
        rest = z3.simplify(S + os - nv - nm)
        for x in self.names:
            old = self.arr(s, 'cached', x)
            X = lambda k: z3.If(k < S, s1(old, k), BATCH[x](z3.simplify(t + 1), z3.simplify(k - S)))
            self.put(s, 'cached', x, rest, z3.Lambda([j], X(j)))
            self.put(s, 'mpfss_seed', x, nm, z3.Lambda([j], X(z3.simplify(j + rest))))
            self.put(s, 'vole_seed', x, nv, z3.Lambda([j], X(z3.simplify(j + rest + nm))))
        self.set(s, 'vole_seed_size_', nv)
        self.set(s, 'mpfss_seed_size_', nm)
        e.store(s, self.gh, 64, z3.simplify(t + 1))
        return c

    def start(self, t):
        """where the seeds begin in batch t: everything before is output (none during the precomputation)"""
        return z3.IntVal(0)


def precompute(ctx, side):
    """the batches are seeds, each expanded from the last, until one is large enough for the batch size asked for"""
    g = P(ctx, side)
    ex, C, L, st, m = g.ex, g.C, g.L, g.st, g.m
    g.use_get()
    R, nm = g.R, 'Precompute' + g.R
    B = I('batch_size')
    st.pc += [B >= -2 ** 63, B < 2 ** 40]
    done = {k: z3.Bool('done_' + k) for k in ('sender', 'receiver')}
    flag = lambda k: g.p.field(g.mem[k + '_precomputation_done_'])
    for k in done:
        ex.store(st, flag(k), 8, done[k])
    b0 = I('batch_size_before')
    st.pc += [b0 >= 0, b0 < 2 ** 40]
    g.set(st, 'batch_size_', b0, 64)
    for k, n in (('vole_seed_size_', 32), ('mpfss_seed_size_', 32), ('num_noise_indices_', 32)):
        v = I('before_' + k)
        st.pc += [v >= 0, v < 2 ** 31]
        g.set(st, k, v)
    for k in g.obj:
        v = I('size_before_' + k)
        st.pc += lim(v)
        g.fill(st, k, v, 'before_' + k)
    DELTA = RC('delta_asked_for')
    GCODE = g.code('gilboa')
    st.ghost.update(gilboa=0, randomized='', sent=0, flushed=0)
    main = g.main(nm, 2 if side == 'sender' else 3)
    fn = m.functions[main]
    n0 = z3.simplify(LEN0)
    Q = g.GQ

    def randomize(e, s, a, d):
        c, i = place(a[0])
        x = [k for k in g.names if c.same(g.vec('cached', k))]
        e.oblige('the seeds of the first batch are random', s, z3.And(z3.BoolVal(side == 'sender' and len(x) == 1), i == 0, to_int(a[1], 64) == to_int(C.size(s, c), 64)), kind='post')
        if x:
            s.ghost['randomized'] += x[0]
            C.set_arrays(s, c, 'ring::R', [GU if x[0] == 'u' else GV])
    ex.on(r'ScalarHelper<ring::R, int>::Randomize\(', randomize)

    def provider(e, s, a, d):
        e.oblige('one Gilboa product, by that of the instance', s, z3.BoolVal(a[0].same(g.gilboa) and s.ghost['gilboa'] == 0), kind='post')
        s.ghost['gilboa'] += 1
        if side == 'sender':
            c, i = place(a[1])
            e.oblige('the product is of all random elements u', s, z3.And(z3.BoolVal('u' in s.ghost['randomized']), i == 0, to_int(a[2], 64) == n0, to_int(C.size(s, c), 64) == n0, z3.Implies(Q < n0, s1(C.arrays(s, c, 'ring::R')[0], Q) == s1(GU, Q))), kind='post')
            c, i = place(a[3])
            n = to_int(a[4], 64)
        else:
            x = e.load(s, a[1], 192)
            e.oblige('the product is with the delta asked for', s, x == DELTA, kind='post')
            c, i = place(a[2])
            n = to_int(a[3], 64)
        e.oblige('the product has the length of the first batch', s, z3.And(i == 0, n == n0, to_int(C.size(s, c), 64) == n0), kind='post')
        C.set_arrays(s, c, 'ring::R', [GA if side == 'sender' else GB])
        return GCODE
    ex.on(r'ScalarVectorGilboaProduct::Run%sProvider<' % ('Vector' if side == 'sender' else 'Value'), provider)

    def send(e, s, a, d):
        e.oblige('one message with the product of the sender, hidden by v', s, z3.And(z3.BoolVal(a[0].same(g.chan) and side == 'sender' and s.ghost['sent'] == 0), to_int(C.size(s, a[1]), 64) == n0,
                                                                                   z3.Implies(Q < n0, s1(C.arrays(s, a[1], 'ring::R')[0], Q) == s1(GA, Q) + s1(GV, Q))), kind='post')
        s.ghost['sent'] += 1
        s.ghost['flushed'] = 0
    ex.on(r'comm_channel::send<', send)
    ex.on(r'comm_channel::flush\(', lambda e, s, a, d: s.ghost.__setitem__('flushed', 1))

    def recv(e, s, a, d):
        e.oblige('one message is received, of the length of the first batch', s, z3.And(z3.BoolVal(a[0].same(g.chan) and side == 'receiver' and s.ghost['sent'] == 0)), kind='post')
        s.ghost['sent'] += 1
        C.set_size(s, a[1], n0)
        C.set_arrays(s, a[1], 'ring::R', [MSG])
    ex.on(r'comm_channel::recv<', recv)
    k_ = I('k_')
    for x, v in (('u', GU), ('v', GV), ('w', None)):
        b = BATCH[x](0, k_)
        ex.facts.append(z3.ForAll([k_], b == (z3.Select(v, k_) if v is not None else z3.Select(GB, k_) + z3.Select(MSG, k_)), patterns=[b]))
    EARLY = I('e0')      # an arbitrary earlier set of parameters
    st.pc.append(EARLY >= 0)
    enough = lambda b: POUT[b] >= B + seeds(b)

    def sits(s, t):
        """sizes and contents of cache and seeds after t expansions"""
        out = [('the sizes are those of the parameters', z3.And(g.get(s, 'vole_seed_size_') == PSEED[t], g.get(s, 'num_noise_indices_') == PNOISE[t], g.get(s, 'mpfss_seed_size_') == NBF(PNOISE[t])))]
        for x in g.names:
            out.append(('the cache is empty (%s)' % x, g.size(s, 'cached', x) == 0))
            for what, n, off in (('mpfss_seed', NBF(PNOISE[t]), 0), ('vole_seed', PSEED[t], NBF(PNOISE[t]))):
                out.append(('the seed is in the last batch (%s, %s)' % (what, x), z3.And(g.size(s, what, x) == n, z3.Implies(Q < n, s1(g.arr(s, what, x), Q) == BATCH[x](t, off + Q)))))
        if side == 'receiver':
            out.append(('delta is the one asked for', z3.And(*[g.delta_of(s, k) == DELTA for k in g.obj])))
        return out

    def hint(auto, fr, bb, s):
        if fr.fn.name != main:
            return None
        v = header_vars(fn, bb)
        iv = [local(ex, fn, x) for x in v if x.startswith('i') and not x.endswith('addr')]
        if len(iv) != 1:
            return None
        t = lambda s: to_int(ex.load(s, iv[0], 32), 32)

        def inv(auto, s, k, st0):
            return [('one expansion for every set of parameters passed', z3.And(t(s) >= 0, t(s) <= NP - 1, g.g(s, 0) == t(s))), ('the sets of parameters passed were not enough', z3.Implies(EARLY < t(s), z3.Not(enough(EARLY))))] + sits(s, t(s))
        return dict(inv=inv, open='all', trip='unknown')
    L.hints.append((nm, hint))
    args = [g.p, B]
    if side == 'receiver':
        d_ = Ptr(ex.new_obj('delta_arg'))
        ex.store(st, d_, 192, DELTA)
        args.append(d_)
    res = ex.call_fn(main, args, st)
    ctx.cover(nm + ' returns', len(res) > 0)
    good = 0
    other = 'receiver' if side == 'sender' else 'sender'
    fl = lambda s, k: to_bool(ex.load(s, flag(k), 8))
    for s, code in res:
        code = to_int(code, 32)
        ctx.prove(ex, nm + ': a batch size that is not positive is an invalid argument, and nothing else happens', s, z3.Implies(B < 1, z3.And(code == 3, z3.BoolVal(s.ghost['gilboa'] == 0 and s.ghost['sent'] == 0), fl(s, side) == done[side], g.get(s, 'batch_size_', 64) == b0)))
        ctx.prove(ex, nm + ': the flag of the other role is not touched', s, fl(s, other) == done[other])
        ctx.prove(ex, nm + ': an error does not count as a precomputation', s, z3.Implies(code != 0, fl(s, side) == done[side]))
        ctx.prove(ex, nm + ': an error of Gilboa is passed on', s, z3.Implies(z3.And(code == 0, B >= 1), z3.And(GCODE == 0, z3.BoolVal(s.ghost['gilboa'] == 1))))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good += 1
        ctx.feasible(ex, nm + ' succeeds', s)
        t = g.g(s, 0)
        ctx.prove(ex, nm + ': the batch size asked for was positive', s, B >= 1)
        ctx.prove(ex, nm + ': the message is ' + ('sent and flushed' if side == 'sender' else 'received'), s, z3.BoolVal(s.ghost['sent'] == 1 and (side == 'receiver' or (s.ghost['flushed'] == 1 and sorted(s.ghost['randomized']) == ['u', 'v']))))
        ctx.prove(ex, nm + ': the first set of parameters that is enough is used, or the last', s, z3.And(t >= 0, t <= NP - 1, z3.Or(t == NP - 1, enough(t)), z3.Implies(EARLY < t, z3.Not(enough(EARLY)))))
        for what, goal in sits(s, t):
            ctx.prove(ex, nm + ': at the end ' + what, s, goal)
        last = POUT[NP - 1] - seeds(t)
        bs = g.get(s, 'batch_size_', 64)
        ctx.prove(ex, nm + ': the batch size is the one asked for, or as large as the parameters allow', s, z3.And(bs == z3.If(B < last, B, last), bs >= 1, bs + seeds(t) <= POUT[t]))
        ctx.prove(ex, nm + ': the code generator is for one batch and the next seeds', s, z3.And(g.g(s, 8) == PSEED[t], g.g(s, 16) == bs + seeds(t), g.g(s, 24) == PNOISE[t]))
        ctx.prove(ex, nm + ': the precomputation is done', s, fl(s, side))
    ctx.cover(nm + ' succeeds', good > 0)
    ctx.absorb(ex)


# ---------------------------------------------------------------- Run*
T0, S0, ST0, BS, NV0, NM0, NOISE0 = [I(k) for k in 'batch_before cache_before seeds_start_before batch_size vole_size mpfss_size noise_number'.split()]
NC = z3.Function('taken_before_chunk', Z, Z)     # chunk 0 is the cache, chunk c the output of the c-th expansion
CS = lambda c: z3.If(c == 0, S0, BS)
TC = I('chunk_of_position')


def chunk_facts(c):
    """the definition of NC and its monotonicity (proved in `lemmas`) for chunk c"""
    return [z3.Implies(c >= 0, z3.And(NC(z3.simplify(c + 1)) == NC(c) + CS(c), z3.Implies(c < TC, NC(z3.simplify(c + 1)) <= NC(TC)), z3.Implies(c > TC, NC(TC + 1) <= NC(c))))]


def run(ctx, side, first):
    """the result is taken from the cache, then from the output of further expansions; the rest stays in the cache"""
    g = P(ctx, side)
    ex, C, L, st, m = g.ex, g.C, g.L, g.st, g.m
    g.use_get()
    R, nm = g.R, 'Run' + g.R
    what_ = nm + (' (first call)' if first else ' (later call)')
    N, GP, Q = I('size'), g.GP, g.GQ
    st.pc += [N >= -2 ** 63, N < 2 ** 40, GP >= 0, GP < N] + [c for v in (S0, ST0, BS, NV0, NM0, NOISE0, T0) for c in (v >= 0, v < 2 ** 30)] + [BS >= 1, NV0 >= 1, NM0 == NBF(NOISE0), S0 <= ST0]
    ex.facts += [NC(0) == 0, TC >= 0, NC(TC) <= GP, GP < NC(TC + 1)] + chunk_facts(TC) + chunk_facts(z3.IntVal(0))
    if first:
        st.pc += [S0 == 0, ST0 == 0]
    flag = lambda k: g.p.field(g.mem[k + '_precomputation_done_'])
    other = 'receiver' if side == 'sender' else 'sender'
    ex.store(st, flag(side), 8, 0 if first else 1)
    OTHER = z3.Bool('done_other')
    ex.store(st, flag(other), 8, OTHER)
    PCODE = g.code('precompute')
    DR = RC('delta_drawn')
    st.ghost.update(pre=0)
    g.start = lambda t: z3.If(t == T0, ST0, BS)

    def ready(s):
        """the state between calls"""
        j = I('rd_j')
        g.set(s, 'batch_size_', BS, 64)
        for k, v in (('vole_seed_size_', NV0), ('mpfss_seed_size_', NM0), ('num_noise_indices_', NOISE0)):
            g.set(s, k, v)
        for o, v in ((0, T0), (8, NV0), (16, z3.simplify(BS + NV0 + NM0)), (24, NOISE0)):
            ex.store(s, g.gh.field(o), 64, v)
        for x in g.names:
            for k, n, off in (('cached', S0, 0), ('mpfss_seed', NM0, ST0), ('vole_seed', NV0, ST0 + NM0)):
                g.put(s, k, x, n, z3.Lambda([j], BATCH[x](T0, z3.simplify(off + j))))
        if side == 'receiver':
            for k in g.obj:
                ex.store(s, g.obj[k].field(g.fields['delta']), 192, g.delta)

    def pre(e, s, a, d):
        e.oblige('the precomputation is made once, if it was not made before, for the size asked for', s, z3.And(z3.BoolVal(first and s.ghost['pre'] == 0), to_int(a[1], 64) == N), kind='post')
        s.ghost['pre'] += 1
        ready(s)
        e.store(s, flag(side), 8, z3.If(PCODE == 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        return PCODE
    ex.on(r'%s::Precompute%s\(long\)' % (re.escape(CLS), R), pre)
    if first:
        for k in ('vole_seed_size_', 'mpfss_seed_size_', 'num_noise_indices_'):
            v = I('before_' + k)
            st.pc += [v >= 0, v < 2 ** 31]
            g.set(st, k, v)
        v = I('batch_size_before')
        st.pc += lim(v)
        g.set(st, 'batch_size_', v, 64)
        for k in g.obj:
            v = I('size_before_' + k)
            st.pc += lim(v)
            g.fill(st, k, v, 'before_' + k)
    else:
        ready(st)
    SHIFT = z3.If(NC(TC + 1) > N, NC(TC + 1) - N, z3.IntVal(0))
    SRC = {x: BATCH[x](T0 + TC, GP - NC(TC) + SHIFT) for x in g.names}
    main = g.main(nm, 3)
    fn = m.functions[main]

    def seeds_inv(s):
        t = g.g(s, 0)
        out = [('the sizes of the seeds', z3.And(g.get(s, 'vole_seed_size_') == NV0, g.get(s, 'num_noise_indices_') == NOISE0, g.get(s, 'mpfss_seed_size_') == NM0, g.get(s, 'batch_size_', 64) == BS)),
               ('the code generator is that of the precomputation', z3.And(g.g(s, 8) == NV0, g.g(s, 16) == BS + NV0 + NM0, g.g(s, 24) == NOISE0))]
        for x in g.names:
            for k, n, off in (('mpfss_seed', NM0, 0), ('vole_seed', NV0, NM0)):
                out.append(('the seed is in the last batch, after its output (%s, %s)' % (k, x), z3.And(g.size(s, k, x) == n, z3.Implies(Q < n, s1(g.arr(s, k, x), Q) == BATCH[x](t, g.start(t) + off + Q)))))
        if side == 'receiver':
            out.append(('delta is kept', z3.And(*[g.delta_of(s, k) == g.delta for k in g.obj])))
        return out

    def cache_inv(s, n, x):
        P_ = z3.simplify(GP - NC(TC) + SHIFT)
        return z3.And(g.size(s, 'cached', x) == n, *[z3.Implies(z3.And(q >= 0, q < n), s1(g.arr(s, 'cached', x), q) == BATCH[x](g.g(s, 0), q)) for q in (Q, P_)])

    def hint(auto, fr, bb, s):
        if fr.fn.name != main:
            return None
        res = local(ex, fn, 'result')
        cp = local(ex, fn, 'num_copied')
        num = lambda s: to_int(ex.load(s, cp, 64), 64)

        def inv(auto, s, k, st0):
            c = z3.simplify(g.g(s, 0) - T0)
            ex.facts += chunk_facts(c)
            n = num(s)
            out = [('one expansion for every chunk', z3.And(c >= 0, n >= 0)), ('what was taken', z3.Or(z3.And(n < N, n == NC(c)), z3.And(n == N, NC(c) < N, N <= NC(z3.simplify(c + 1)))))]
            for x in g.names:
                out.append(('the cache is the chunk, or what was not taken of it (%s)' % x, cache_inv(s, z3.If(n < N, CS(c), NC(z3.simplify(c + 1)) - N), x)))
                out.append(('the result so far (%s)' % x, z3.And(g.size(s, res, x) == N, z3.Implies(GP < n, s1(g.arr(s, res, x), GP) == SRC[x]))))
            if side == 'receiver':
                out.append(('the delta of the result', g.delta_of(s, res) == g.delta))
            return out + seeds_inv(s)
        return dict(inv=inv, open='all', trip='unknown')
    L.hints.append((nm, hint))
    r = Ptr(ex.new_obj('result_'))
    res = ex.call_fn(main, [r, g.p, N], st)
    ctx.cover(what_ + ' returns', len(res) > 0)
    good = 0
    fl = lambda s, k: to_bool(ex.load(s, flag(k), 8))
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        t = g.g(s, 0)
        c = z3.simplify(t - T0)
        ctx.prove(ex, what_ + ': a negative size is an invalid argument, and no precomputation is made', s, z3.Implies(N < 0, z3.And(code == 3, z3.BoolVal(s.ghost['pre'] == 0))))
        ctx.prove(ex, what_ + ': the flag of the other role is not touched', s, fl(s, other) == OTHER)
        ctx.prove(ex, what_ + ': only errors of the precomputation and of expansions', s, z3.Implies(z3.And(N >= 0, code != 0), z3.Or(code == PCODE, code == g.XCODE(z3.simplify(t - 1)))))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good += 1
        ctx.feasible(ex, what_ + ' succeeds', s)
        ex.facts += chunk_facts(c)
        v = r.field(8)
        ctx.prove(ex, what_ + ': the size is not negative', s, N >= 0)
        ctx.prove(ex, what_ + ': the precomputation is done', s, z3.And(z3.BoolVal(s.ghost['pre'] == (1 if first else 0)), fl(s, side)))
        ctx.prove(ex, what_ + ': as many expansions as are needed', s, z3.And(c >= 0, z3.Or(z3.And(c == 0, N <= S0), z3.And(NC(c) < N, N <= NC(z3.simplify(c + 1))))))
        for x in g.names:
            ctx.prove(ex, what_ + ': the result has the size asked for (%s)' % x, s, g.size(s, v, x) == N)
            ctx.prove(ex, what_ + ': every position of the result is that of its chunk (%s)' % x, s, s1(g.arr(s, v, x), GP) == SRC[x])
            ctx.prove(ex, what_ + ': the cache is what was not taken of the last batch, its front (%s)' % x, s, cache_inv(s, NC(z3.simplify(c + 1)) - N, x))
        if side == 'receiver':
            ctx.prove(ex, what_ + ': the result has delta', s, g.delta_of(s, v) == g.delta)
        for w, goal in seeds_inv(s):
            ctx.prove(ex, what_ + ': at the end ' + w, s, goal)
    ctx.cover(what_ + ' succeeds', good > 0)
    ctx.absorb(ex)


def random_delta(ctx):
    """PrecomputeReceiver without delta: draws one"""
    g = V(ctx, 'receiver')
    ex, st = g.ex, g.st
    B, D, code = I('batch_size'), RC('delta_drawn'), g.code('precompute')
    st.pc += [B >= -2 ** 63, B < 2 ** 63]
    st.ghost.update(drawn=0, calls=0)

    def rnd(e, s, a, d):
        e.oblige('one delta is drawn', s, to_int(a[1], 64) == 1, kind='post')
        s.ghost['drawn'] += 1
        e.store(s, a[0], 192, D)
    ex.on(r'ScalarHelper<ring::R, int>::Randomize\(', rnd)

    def pre(e, s, a, d):
        x = e.load(s, a[2], 192)
        e.oblige('the precomputation is for the batch size asked for and the delta drawn', s, z3.And(z3.BoolVal(s.ghost['drawn'] == 1 and s.ghost['calls'] == 0), to_int(a[1], 64) == B, (x if z3.is_expr(x) else z3.RealVal(x)) == D), kind='post')
        s.ghost['calls'] += 1
        return code
    ex.on(r'%s::PrecomputeReceiver\(long, ring::R\)' % re.escape(CLS), pre)
    res = ex.call_fn(g.main('PrecomputeReceiver', 2), [g.p, B], st)
    ctx.cover('PrecomputeReceiver without delta returns', len(res) > 0)
    for s, c in res:
        ctx.prove(ex, 'PrecomputeReceiver without delta: the status is that of the precomputation', s, z3.And(to_int(c, 32) == code, z3.BoolVal(s.ghost['calls'] == 1)))
    ctx.absorb(ex)


def create(ctx):
    """Create: a channel, a non-negative statistical security, Gilboa and MPFSS for the same; nothing is precomputed yet"""
    g = V(ctx, 'sender')
    ex, C, m = g.ex, g.C, g.m
    st = State()
    sec = RC('security')
    r, ch = Ptr(ex.new_obj('result_')), Ptr(ex.new_obj('channel'))
    gil, mp = Ptr(ex.new_obj('gilboa')), Ptr(ex.new_obj('mpfss'))
    gc, mc = g.code('gilboa'), g.code('mpfss')
    LOG3 = RC('log2_of_3')
    st.ghost.update(saved=0, restored=0)
    st.pc += [LOG3 > 1, LOG3 < 2]
    num = lambda v: v if z3.is_expr(v) else z3.RealVal(v)

    def log2(e, s, a, d):
        e.oblige('the failure probability is split in three', s, to_int(a[0], 32) == 3, kind='post')
        return LOG3
    ex.on(r'std::log2<int>\(int\)', log2)
    for k, obj, code in (('ScalarVectorGilboaProduct', gil, gc), ('MPFSSKnownIndices', mp, mc)):
        def mk(e, s, a, d, k=k, obj=obj, code=code):
            e.oblige(k + ' is made for the channel of the caller and a third of the failure probability', s, z3.And(z3.BoolVal(a[1].same(ch)), num(a[2]) == sec + LOG3), kind='post')
            e.store(s, a[0], 32, code)
            e.store(s, a[0].field(8), 64, obj)
        ex.on(r'%s::Create\(' % k, mk)
    ctx_ = []
    ex.on(r'NTLContext<ring::R, int>::save\(', lambda e, s, a, d: s.ghost.__setitem__('saved', 1))

    def restore(e, s, a, d):
        e.oblige('every thread gets the modulus of the caller', s, z3.BoolVal(s.ghost['saved'] == 1), kind='post')
        ctx_.append(1)
    ex.on(r'NTLContext<ring::R, int>::restore\(', restore)

    def fork(e, s, a, d):
        """an arbitrary thread: the region changes nothing but the state of the thread"""
        if not isinstance(a[2], Fn):
            raise Unsupported('parallel region')
        b, n = s.copy(), len(ctx_)
        tid = Ptr(e.new_obj('thread'))
        e.store(b, tid, 32, e.fresh('thread', Z))
        out = e.call_fn(a[2].name, [tid, tid] + list(a[3:]), b)
        ctx.cover('every thread restores the modulus', len(ctx_) > n and len(out) > 0)
    ex.on(r'^__kmpc_fork_call$', fork)
    ex.on(r'NTLContext<ring::R, int>::~?NTLContext\(', lambda e, s, a, d: None)
    ex.on(r'^Eigen::SparseMatrix<ring::R, 0>::~?SparseMatrix\(', lambda e, s, a, d: None)
    fn = g.main('Create')
    res = ex.call_fn(fn, [r, NULL, sec], st.copy())
    ctx.cover('Create rejects a null channel', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'Create: a null channel is an argument error', s, to_int(ex.load(s, r, 32), 32) == 3)
    res = ex.call_fn(fn, [r, ch, sec], st.copy())
    ctx.cover('Create returns', len(res) > 0)
    ctx.cover('the parallel region restores the modulus', len(ctx_) > 0)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'Create: negative statistical security is an argument error, otherwise the status is that of Gilboa and MPFSS', s, z3.And((code == 0) == z3.And(sec >= 0, gc == 0, mc == 0), z3.Implies(sec < 0, code == 3), z3.Implies(z3.And(sec >= 0, code != 0), z3.Or(code == gc, code == mc))))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        ctx.feasible(ex, 'Create succeeds', s)
        q = ex.load(s, r.field(8), 64)
        ok = isinstance(q, Ptr) and q.obj is not None
        f = lambda k, b=64: ex.load(s, q.field(g.mem[k]), b)
        ctx.prove(ex, 'Create: the instance has the channel, the Gilboa product and the MPFSS', s, z3.BoolVal(ok and f('channel_').same(ch) and f('gilboa_').same(gil) and f('mpfss_').same(mp)))
        ctx.prove(ex, 'Create: the instance has a third of the failure probability', s, num(f('statistical_security_')) == sec + LOG3)
        ctx.prove(ex, 'Create: nothing is precomputed yet', s, z3.And(*[to_int(f(k + '_precomputation_done_', 8), 8) == 0 for k in ('sender', 'receiver')], *[to_int(f(k, b), b) == 0 for k, b in (('batch_size_', 64), ('vole_seed_size_', 32), ('mpfss_seed_size_', 32), ('num_noise_indices_', 32))]))
        for who, x in (('sender', 'u'), ('sender', 'v'), ('receiver', 'w')):
            ctx.prove(ex, 'Create: the cache is empty (%s)' % x, s, to_int(C.size(s, q.field(g.mem[who + '_cached_']).field(m.members('SenderResult' if who == 'sender' else 'ReceiverResult')[x])), 64) == 0)
    ctx.cover('Create succeeds', good)
    ctx.absorb(ex)


# ---------------------------------------------------------------- lemmas
def relation(ctx):
    """the relation holds at every position of every batch, by induction over the batches"""
    ex = ctx.exec(ctx.module, 'int')
    d = RC('delta')
    a, b, u, v, msg, w = [RC(k) for k in 'share_a share_b u v message w'.split()]
    st = State()
    st.pc += [a + b == u * d, msg == a + v, w == b + msg]
    ctx.feasible(ex, 'the hypotheses for the first batch', st)
    ctx.prove(ex, 'lemma: the relation holds in the first batch (contracts of Gilboa, PrecomputeSender, PrecomputeReceiver)', st, w == u * d + v, kind='lemma')
    # one entry of the column more
    du, dv, dw, mm, us, vs, ws = [RC(k) for k in 'sum_u sum_v sum_w entry seed_u seed_v seed_w'.split()]
    st = State()
    st.pc += [dw == du * d + dv, ws == us * d + vs]
    ctx.feasible(ex, 'the hypotheses for one entry more', st)
    ctx.prove(ex, 'lemma: products of the seeds with a column keep the relation (no entries)', State(), z3.RealVal(0) == z3.RealVal(0) * d + z3.RealVal(0), kind='lemma')
    ctx.prove(ex, 'lemma: products of the seeds with a column keep the relation (one entry more)', st, dw + ws * mm == (du + us * mm) * d + (dv + vs * mm), kind='lemma')
    v0, v1, mu = [RC(k) for k in 'mpfss_share_sender mpfss_share_receiver noise'.split()]
    st = State()
    st.pc += [dw == du * d + dv, v0 + v1 == mu * d, u == du + mu, v == dv - v0, w == dw + v1]
    ctx.feasible(ex, 'the hypotheses for an expansion', st)
    ctx.prove(ex, 'lemma: the relation holds in the next batch (contracts of MPFSS, ExpandSender, ExpandReceiver)', st, w == u * d + v, kind='lemma')
    # sums of products in the ring need no order: the sequence of entries is the same for both parties (group code generator)
    U, V_, W = BATCH['u'], BATCH['v'], BATCH['w']
    t, k = I('batch'), I('place')
    st = State()
    j, i = I('j_'), I('i_')
    st.pc += [z3.ForAll([i, j], W(i, j) == U(i, j) * d + V_(i, j), patterns=[W(i, j)])]
    ctx.prove(ex, 'lemma: results and seeds taken from the same position by both parties have the relation', st, W(t, k) == U(t, k) * d + V_(t, k), kind='lemma')
    ctx.absorb(ex)


def steps(ctx):
    """both parties take the same positions: what is chosen is determined by the sizes"""
    ex = ctx.exec(ctx.module, 'int')
    a, b, B = I('one'), I('two'), I('batch_size')
    enough = lambda k: POUT[k] >= B + seeds(k)
    i = I('i_')
    st = State()
    # contract of the precomputation: the first that is enough, or the last
    ends = lambda k: z3.And(k >= 0, k <= NP - 1, z3.Or(k == NP - 1, enough(k)), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), POUT[i] < B + seeds(i)), patterns=[POUT[i]]))
    st.pc += [ends(a), ends(b)]
    ctx.feasible(ex, 'the hypotheses about the parameters', st)
    ctx.prove(ex, 'lemma: both parties use the same set of parameters', st, a == b, kind='lemma')
    # NC is monotonic
    c, k = I('chunk'), I('further')
    st = State()
    st.pc += [c >= 0, k >= 0, BS >= 1, S0 >= 0, NC(c + 1 + k + 1) == NC(c + 1 + k) + CS(c + 1 + k), NC(c + 1) <= NC(c + 1 + k)]
    ctx.prove(ex, 'lemma: chunks follow one another (none further)', State(), NC(c + 1) <= NC(c + 1 + 0), kind='lemma')
    ctx.prove(ex, 'lemma: chunks follow one another (one further)', st, NC(c + 1) <= NC(c + 1 + k + 1), kind='lemma')
    N, x, y = I('size'), I('expansions_one'), I('expansions_two')
    mono = lambda p, q: z3.Implies(z3.And(p >= 0, p < q), NC(p + 1) <= NC(q))
    exits = lambda c: z3.And(c >= 0, z3.Or(z3.And(c == 0, N <= S0), z3.And(NC(c) < N, N <= NC(c + 1))))
    st = State()
    st.pc += [NC(0) == 0, NC(1) == S0, mono(x, y), mono(y, x), mono(z3.IntVal(0), x), mono(z3.IntVal(0), y), exits(x), exits(y), S0 >= 0]
    ctx.feasible(ex, 'the hypotheses about the expansions', st)
    ctx.prove(ex, 'lemma: both parties make the same number of expansions', st, x == y, kind='lemma')
    # every position is in a chunk
    st = State()
    P_ = I('position')
    st.pc += [c >= 0, P_ >= 0, P_ < NC(c + 1), NC(c) <= P_]
    ctx.prove(ex, 'lemma: every position of the result is in a chunk (last chunk)', st, z3.And(NC(c) <= P_, P_ < NC(c + 1)), kind='lemma')
    ctx.absorb(ex)


def once(ctx):
    """no position of a batch is used twice: results, what stays in the cache, MPFSS seed and VOLE seed are disjoint, and the
    batches of a call follow those of the calls before"""
    ex = ctx.exec(ctx.module, 'int')
    N, p, q, x, y, c = I('size'), I('position'), I('other_position'), I('chunk'), I('other_chunk'), I('expansions')
    st = State()
    mono = lambda p, q: z3.Implies(z3.And(p >= 0, p < q), NC(p + 1) <= NC(q))
    shift = lambda k: z3.If(NC(k + 1) > N, NC(k + 1) - N, z3.IntVal(0))
    off = lambda k, p: p - NC(k) + shift(k)
    inch = lambda k, p: z3.And(k >= 0, NC(k) <= p, p < NC(k + 1), p >= 0, p < N, NC(k + 1) == NC(k) + CS(k))
    st.pc += [NC(0) == 0, BS >= 1, S0 >= 0, ST0 >= S0, inch(x, p), c >= 0, NC(c + 1) == NC(c) + CS(c), z3.Or(z3.And(c == 0, N <= S0), z3.And(NC(c) < N, N <= NC(c + 1))), mono(x, c), mono(c, x)]
    start = lambda k: z3.If(k == 0, ST0, BS)
    ctx.feasible(ex, 'the hypotheses about a position', st)
    ctx.prove(ex, 'lemma: results come from batches made so far', st, z3.And(x >= 0, x <= c), kind='lemma')
    ctx.prove(ex, 'lemma: results come from the output of a batch, not from its seeds', st, z3.And(off(x, p) >= 0, off(x, p) < CS(x), CS(x) <= start(x)), kind='lemma')
    ctx.prove(ex, 'lemma: of the last batch, results and what stays in the cache are different', st, z3.Implies(x == c, off(x, p) >= NC(c + 1) - N), kind='lemma')
    ctx.prove(ex, 'lemma: what stays in the cache is in front of the seeds', st, NC(c + 1) - N <= start(c), kind='lemma')
    st.pc += [inch(y, q), mono(x, y), mono(y, x), mono(y, c), mono(c, y)]
    ctx.prove(ex, 'lemma: different positions of a result come from different positions of the batches', st, z3.Implies(z3.And(x == y, off(x, p) == off(y, q)), p == q), kind='lemma')
    # seeds: MPFSS seed and VOLE seed of a batch
    k, l, s = I('k'), I('l'), I('start')
    st = State()
    st.pc += [k >= 0, k < NM0, l >= 0, l < NV0]
    ctx.prove(ex, 'lemma: MPFSS seed and VOLE seed of a batch are different positions', st, s + k != s + NM0 + l, kind='lemma')
    # a later call: its chunk 0 is what stayed in the cache
    st = State()
    t, n2, rest = I('batch'), I('later_size'), I('left')
    st.pc += [rest >= 0, p >= 0, p < rest, q >= rest]
    ctx.prove(ex, 'lemma: a later call takes from the cache what earlier calls left', st, p != q, kind='lemma')
    ctx.absorb(ex)


BOTH = ('sender', 'receiver')
GROUPS = [('lemmas: same steps', steps)] + [('Get%sCached' % x.capitalize(), get_cached, x) for x in BOTH] + [('Expand' + x.capitalize(), expand, x) for x in BOTH] + \
         [('Precompute' + x.capitalize(), precompute, x) for x in BOTH] + [('Run%s, %s call' % (x.capitalize(), 'first' if f else 'later'), run, x, f) for x in BOTH for f in (True, False)]
