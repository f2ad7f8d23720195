"""C06: bit decomposition of scalars."""
from sccommon import *

FUNCTIONS = ['ScalarHelper<T>::GetBit', 'ScalarHelper<T>::SetBit', 'ScalarHelper<T>::SizeOf', 'NTLNumBits<T>', 'NTLNumBitsCached<NTL::ZZ_p> (first use on a thread; other histories are C08)']
ASSUMPTIONS = ['the ZZ_p modulus is at most 2^128 and the zz_p modulus below 2^60, as NTL requires and the property states',
               'the ring of residues: the sum of (2^k mod p) over the set bits of x is x mod p (reduction mod p is a homomorphism)']
TRUSTED = ntlmodel.TRUSTED + [HEAP]
H = PRE + 'extern "C" {\n' + ''.join('''
bool h_get_%(T)s(const %(T)s* x, int k) { return ScalarHelper<%(T)s>::GetBit(*x, k); }
void h_set_%(T)s(%(T)s* r, int k) { *r = ScalarHelper<%(T)s>::SetBit(k); }
int h_size_%(T)s() { return ScalarHelper<%(T)s>::SizeOf(); }
''' % dict(T=t) for t in ('U8', 'U16', 'U32', 'U64', 'au128', 'gf128', 'ZZp', 'zzp')) + '}\n'
K = z3.BitVec('k', 32)


def build(ctx, t):
    return ctx.ir(None, ['-DUSE_ASM'], name='c06_' + t, text=H)


def ints(ctx, t, n):
    m = build(ctx, t)
    X = z3.BitVec('x', n)

    def case(mm):
        return ('scalar', t, hexv(ev(mm, X)), '0', '0')
    ex = new_exec(ctx, m)
    st = State()
    res = run_h(ex, 'h_size_' + t, [], st)
    for s, v in res:
        ctx.prove(ex, t + ': SizeOf is %d' % (n // 8), s, bv(v, 32) == n // 8, case=lambda mm: ('scalar', t, '0', '0', '0'))
    kk = z3.ZeroExt(n - 32, K) if n > 32 else z3.Extract(n - 1, 0, K)
    rng = z3.And(K >= 0, K < n)
    ex = new_exec(ctx, m)
    st = State()
    st.assume(rng)
    res = run_h(ex, 'h_get_' + t, [obj(ex, st, 'x', X, n), K], st)
    ctx.cover(t + ' GetBit returns', len(res) > 0)
    for s, v in res:
        ctx.prove(ex, t + ': GetBit(x,k) is bit k of x', s, to_bool(v) == (z3.Extract(0, 0, z3.LShR(X, kk)) == 1), case=case)
    ctx.absorb(ex, case)
    ex = new_exec(ctx, m)
    st = State()
    st.assume(rng)
    res = run_h(ex, 'h_set_' + t, [r := obj(ex, st, 'r', None, n), K], st)
    ctx.cover(t + ' SetBit returns', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, t + ': SetBit(k) is 2^k', s, bv(ex.load(s, r, n), n) == (z3.BitVecVal(1, n) << kk), case=lambda mm: ('scalar', t, 'ffffffffffffffff:ffffffffffffffff', '0', '0'))
    ctx.absorb(ex)
    # lemma: x is the sum (for gf128 the xor) of its set bits
    bits = [z3.If(z3.Extract(k, k, X) == 1, z3.BitVecVal(1 << k, n), z3.BitVecVal(0, n)) for k in range(n)]
    acc = bits[0]
    for b in bits[1:]:
        acc = (acc ^ b) if t == 'gf128' else (acc | b)
    ctx.prove(ex, t + ': lemma: the sum over all k < 8*SizeOf of bit k times 2^k is x', State(), acc == X, kind='lemma')


def modular(ctx, t, what):
    m = build(ctx, t)
    ex, N = new_exec(ctx, m, True)
    N.limit_modulus()
    st = State()
    P = N.P if t == 'ZZp' else z3.ZeroExt(W - 64, N.q)
    X = z3.BitVec('x', W)
    st.assume(z3.ULT(X, P))
    kw = z3.ZeroExt(W - 32, K)

    def case(mm):
        return ('scalar', t, hexv(ev(mm, X)), '%x' % ev(mm, N.P), '%x' % ev(mm, N.q))

    def small(v):
        return obj(ex, st, 'x', v, 64)
    # number of bytes of p-1: the least S with p-1 < 2^(8 S)
    S = z3.BitVec('S', 32)
    s8 = z3.ZeroExt(W - 32, S) * 8
    least = z3.And(S >= 1, S <= 16, z3.LShR(P - 1, s8) == 0, z3.LShR(P - 1, s8 - 8) != 0)
    if what == 'size':
        res = run_h(ex, 'h_size_' + t, [], st)
        for s, v in res:
            g = z3.substitute(least, (S, bv(v, 32)))
            ctx.prove(ex, t + ': SizeOf is the least number of bytes holding p-1', s, g, case=case, timeout=60000)
    elif what == 'get':
        st.assume(z3.And(least, K >= 0, K < S * 8))
        x = zz(ex, N, st, 'x', X) if t == 'ZZp' else small(z3.Extract(63, 0, X))
        res = run_h(ex, 'h_get_' + t, [x, K], st)
        for s, v in res:
            ctx.prove(ex, t + ': GetBit(x,k) is bit k of the representative', s, to_bool(v) == (z3.Extract(0, 0, z3.LShR(X, kw)) == 1), case=case)
    else:
        st.assume(z3.And(K >= 0, z3.ULT(z3.BitVecVal(1, W) << kw, P), K < 128))
        r = ex.new_obj('r', 8)
        if t == 'ZZp':
            ex.store(st, Ptr(r), 64, NULL)
        res = run_h(ex, 'h_set_' + t, [Ptr(r), K], st)
        for s, _ in res:
            v = zzval(ex, N, s, Ptr(r)) if t == 'ZZp' else z3.ZeroExt(W - 64, bv(ex.load(s, Ptr(r), 64), 64))
            ctx.prove(ex, t + ': SetBit(k) is 2^k for every 2^k below p', s, v == z3.BitVecVal(1, W) << kw, case=lambda mm: ('scalar', t, hexv(ev(mm, N.P) - 1), '%x' % ev(mm, N.P), '%x' % ev(mm, N.q)))
    ctx.cover(t + ' ' + what + ' returns', len(res) > 0)
    for s, _ in res[:1]:
        ctx.feasible(ex, t + ' ' + what, s)
    ctx.absorb(ex, case)
    # lemma: a representative has no set bit k with 2^k >= p, so the sum over k < 8*SizeOf is the sum over all its bits
    if what == 'get':
        ctx.prove(ex, t + ': lemma: bits with 2^k >= p are zero', st, z3.Implies(z3.UGE(z3.BitVecVal(1, W) << kw, P), z3.Extract(0, 0, z3.LShR(X, kw)) == 0), kind='lemma')


def proof(ctx):
    ctx.parallel([(t, ints, t, n) for t, n in INTS] + [(t + ' ' + w, modular, t, w) for t in ('ZZp', 'zzp') for w in ('size', 'get', 'set')])


def native(ctx):
    sc_native(ctx, 6)
