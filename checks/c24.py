"""C24: hash bucket assignment is a fixed in-range function of the input."""
from cuckoocommon import *

FUNCTIONS = ['CuckooHasher::HashToUint128<T>', 'CuckooHasher::HashToBucket', 'CuckooHasher::Hash<T>', 'CuckooHasher::Create', 'CuckooHasher::CuckooHasher']
ASSUMPTIONS = ['at most 2^40 inputs']


def to_bucket(ctx):
    m = ctx.module
    h = Hasher(ctx, m)
    ex, st = h.ex, h.st
    x, n, j = z3.BitVec('hash', 128), I('n'), I('j')
    st.pc += [n >= 1, n < 2 ** 63, j >= 0, j < h.h]
    fn = m.find(CLS + r'::HashToBucket\(')[0]
    res = ex.call_fn(fn, [h.p, z3.Extract(63, 0, x), z3.Extract(127, 64, x), n, j], st)
    ctx.cover('HashToBucket returns', len(res) > 0)
    for s, r in res:
        ctx.feasible(ex, 'HashToBucket path', s)
        want = z3.If(j == 0, UMOD(x, n), UMOD(hval(h.key, x ^ I2B(128)(j)), n))
        ctx.prove_all(ex, s, [('HashToBucket = (j = 0 ? h : H(h xor j)) mod n', to_int(r, 64) == want),
                              ('HashToBucket lies in [0, n)', z3.And(to_int(r, 64) >= 0, to_int(r, 64) < n))])
    ctx.absorb(ex)


def to128_(ctx, t, n):
    m = ctx.module
    h = Hasher(ctx, m)
    ex, st = h.ex, h.st
    S, x = elem(h, t)
    want = hval(h.key, x)
    res = ex.call_fn(m.find(CLS + r'::HashToUint128<%s>\(' % t)[0], [h.p, S], st)
    ctx.cover('HashToUint128 returns', len(res) > 0)
    for s, r in res:
        r = r if isinstance(r, list) else [r]
        ctx.prove(ex, 'HashToUint128<%s>(x) = AES(seed, x) xor x' % t, s, as128(r) == want)
    ctx.absorb(ex)


def elem(h, t):
    """one input: (pointer, its value as 128-bit integer)"""
    ex, st = h.ex, h.st
    S = Ptr(ex.new_obj('input'))
    if t == 'absl::debian3::uint128':
        x = z3.BitVec('x', 128)
        ex.store(st, S, 128, x)
        return S, x
    n, sg = NB[t]
    x = I('x')
    st.pc += [x >= -2 ** (n - 1), x < 2 ** (n - 1)]
    ex.store(st, S, n, x)
    return S, i2b128(x, n, sg)


def value(a, i, t):
    x = z3.Select(a, i)
    if t == 'absl::debian3::uint128':
        return x
    n, sg = NB[t]
    return i2b128(x, n, sg)


def hash_(ctx, t):
    m = ctx.module
    h = Hasher(ctx, m)
    ex, st, C = h.ex, h.st, h.C
    n, N = I('n'), I('num_inputs')
    st.pc += [n >= -2 ** 63, n < 2 ** 63]
    S, S0 = h.inputs(t, N)
    A = C.arrays(st, S, t)[0]
    if t != 'absl::debian3::uint128':
        k = I('k')
        b = NB[t][0]
        st.pc.append(z3.ForAll([k], z3.And(z3.Select(A, k) >= -2 ** (b - 1), z3.Select(A, k) < 2 ** (b - 1))))

    # callees by their contracts (proved above)
    def hbucket(e, s, a, d):
        x, nn, j = as128(a[1:-2]), to_int(a[-2], 64), to_int(a[-1], 32)
        e.oblige('HashToBucket is called with a positive number of buckets and a hash function in range', s, z3.And(nn >= 1, j >= 0, j < h.h), kind='pre')
        r = BUCKET(x, nn, j)
        e.facts.append(z3.Implies(nn > 0, z3.And(r >= 0, r < nn)))
        return r
    ex.on(r'CuckooHasher::HashToBucket\(', hbucket)

    def h128(e, s, a, d):
        if t == 'absl::debian3::uint128':
            x = bv(e.load(s, a[1], 128), 128)
        else:
            b, sg = NB[t]
            x = i2b128(e.load(s, a[1], b), b, sg)
        return halves(HASH(x))
    ex.on(r'CuckooHasher::HashToUint128<%s>\(' % t, h128)
    so = [k for k in m.find(r'StatusOr<std::vector<absl::debian3::InlinedVector<long.*CuckooHasher::Hash<%s, 3>' % t)]
    r = Ptr(ex.new_obj('result'))
    off = dict(status_=0)
    res = ex.call_fn(so[0], [r, h.p, S0, N, n], st)
    ctx.cover('Hash returns', len(res) > 0)
    vp = r.field(8)
    for s, _ in res:
        code = to_int(ex.load(s, r.field(off['status_']), 32), 32)
        ctx.prove(ex, 'Hash: fails exactly for a non-positive number of buckets', s, z3.And((code == 0) == (n >= 1), z3.Or(code == 0, code == 3)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s)) == z3.unsat:
            continue
        ctx.feasible(ex, 'Hash path', s)
        i, j = I('i'), I('j')
        s.pc += [i >= 0, i < N, j >= 0, j < h.h]
        ctx.prove(ex, 'Hash: one entry per input', s, to_int(C.size(s, vp), 64) == N)
        row = C.elem(s, vp, i, INNER)
        ctx.prove(ex, 'Hash: one bucket per hash function', s, to_int(C.size(s, row), 64) == h.h)
        ctx.prove(ex, 'Hash: entry i, j is hash function j of input i', s, z3.Select(C.arrays(s, row, 'long')[0], j) == BUCKET(HASH(value(A, i, t)), n, j))
    ctx.absorb(ex)


def create(ctx):
    m = ctx.module
    ex, C, L, mem = setup_c(ctx, m)
    st = State()
    seed, hh, sec = z3.BitVec('seed', 128), I('h'), z3.Real('sec')
    st.pc += [hh >= -2 ** 31, hh < 2 ** 31]
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(m.find(CLS + r'::Create\(')[0], [r, z3.Extract(63, 0, seed), z3.Extract(127, 64, seed), hh, sec], st)
    ctx.cover('Create returns', len(res) > 0)
    seen = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'Create: fails exactly for a non-positive number of hash functions', s, (code == 0) == (hh >= 1))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s)) == z3.unsat:
            continue
        seen = True
        p = ex.load(s, r.field(8), 64)
        F = lambda k, n: ex.load(s, p.field(mem[k]), n)
        ctx.prove_all(ex, s, [('Create: key schedule of the seed', F('expanded_seed_', 8 * 244) == KEYX(seed)),
                              ('Create: keeps the number of hash functions', to_int(F('num_hash_functions_', 32), 32) == hh),
                              ('Create: keeps the statistical security', ex.real(F('statistical_security_', 64)) == sec)])
    ctx.cover('Create succeeds', seen)
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='cuckoo', text=H)
    ctx.parallel([('HashToBucket', to_bucket), ('Create', create)] + [('HashToUint128<%s>' % t, to128_, t, n) for t, n in TY] + [('Hash<%s>' % t, hash_, t) for t, _ in TY])


def native(ctx):
    cuckoo_native(ctx, 24)
