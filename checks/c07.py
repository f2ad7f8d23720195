"""C07: CanBeHashedInto never accepts a biased mapping."""
from sccommon import *

FUNCTIONS = ['ScalarHelper<T>::CanBeHashedInto', 'ScalarHelperImpl<NTL::ZZ_p>::CanBeHashedInto', 'ScalarHelperImpl<NTL::zz_p>::CanBeHashedInto']
ASSUMPTIONS = ['doubles are exact reals and log2 is the real logarithm (log2(0) = -infinity), so the decision is exact up to rounding of double(rem) and log2',
               'statistical distance of (uniform h-bit value mod m) from uniform is r(m-r)/(m 2^h) <= r/2^h with r = 2^h mod m, for m <= 2^h',
               's >= 0']
TRUSTED = ntlmodel.TRUSTED + [HEAP, 'lemmas used for remainders: (c mod m) + k = c + k (mod m) for constants c, k; a mod m < m; a mod m = a if a < m']
H = PRE + 'extern "C" {\n' + ''.join('''
bool h_can_%(T)s(double s, int h) { return ScalarHelper<%(T)s>::CanBeHashedInto(s, h); }
''' % dict(T=t) for t in ('U8', 'U16', 'U32', 'U64', 'au128', 'gf128', 'ZZp', 'zzp')) + '}\n'
DBL = z3.Function('double_of', z3.BitVecSort(128), z3.RealSort())
LOG = z3.Function('log2', z3.RealSort(), z3.RealSort())
S = z3.Real('s')


def real_model(ex):
    def dbl(e, st, a, d):
        v = bv(e.load(st, a[0], 128), 128)
        if z3.is_bv_value(z3.simplify(v)):
            return float(z3.simplify(v).as_long())
        return DBL(v)
    ex.on(r'uint128::operator (double|float|long double)\(\) const$', dbl)
    ex.on(r'^(log2|std::log2\(|log2l|log2f)', lambda e, st, a, d: LOG(e.real(a[0])))
    old = ex.fcast

    def fcast(st, op, fty, v, tty):
        if op == 'uitofp' and is_bv(v):
            return DBL(z3.ZeroExt(128 - v.size(), v) if v.size() < 128 else v)
        return old(st, op, fty, v, tty)
    ex.fcast = fcast


def frac(v):
    s = str(v)
    if '/' in s:
        a, b = s.split('/')
        return '%r' % (float(a) / float(b))
    return '%r' % float(s.rstrip('?'))


def ints(ctx, t, n):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c07_' + t, text=H)
    ex = new_exec(ctx, m)
    st = State()
    h = z3.BitVec('h', 32)
    st.assume(z3.And(h >= 1, h <= 128, S >= 0))

    def case(mm):
        return ('scalar', t, frac(mm.eval(S, model_completion=True)), '%d' % ev(mm, h), '2', '2')
    res = run_h(ex, 'h_can_' + t, [S, h], st)
    ctx.cover(t + ' returns', len(res) > 0)
    for s, v in res:
        ctx.prove(ex, t + ': accepted only if there are at least as many hash bits as scalar bits', s, z3.Implies(to_bool(v), h >= n), case=case)
        ctx.prove(ex, t + ': 128-bit hashes are accepted', s, z3.Implies(h == 128, to_bool(v)), case=case)
    ctx.absorb(ex, case)


def modular(ctx, t, hs):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c07_%s%d' % (t, hs[0]), text=H)
    for h in hs:
        ex, N = new_exec(ctx, m, True)
        if t == 'ZZp':
            N.limit_modulus(200)
        real_model(ex)
        st = State()
        st.assume(S >= 0)
        P = N.P if t == 'ZZp' else z3.ZeroExt(W - 64, N.q)
        res = run_h(ex, 'h_can_' + t, [S, h], st)

        def case(mm):
            return ('scalar', t, frac(mm.eval(S, model_completion=True)), '%d' % h, '%x' % ev(mm, N.P), '%x' % ev(mm, N.q))
        ctx.cover('%s h=%d returns' % (t, h), len(res) > 0)
        m128 = z3.Extract(127, 0, P)
        rem = REMC(1 << h)(m128)
        # facts about 2^h mod m
        ex.facts += [z3.Implies(m128 != 0, z3.ULT(rem, m128))]
        if h < 128:
            ex.facts += [z3.Implies(z3.UGT(m128, 1 << h), rem == 1 << h), z3.Implies(m128 == 1 << h, rem == 0)]
        # double(2^h) = 2^h, log2(2^h) = h
        ex.facts += [LOG(DBL(z3.BitVecVal(1 << h, 128))) == h] if h < 128 else []
        f = LOG(DBL(rem)) < h - S
        for s, v in res:
            v = to_bool(v)
            ctx.prove(ex, '%s h=%d: modulus larger than the hash range is rejected' % (t, h), s,
                      z3.Implies(z3.UGT(P, z3.BitVecVal(1 << h, W)), z3.Not(v)), case=case)
            ctx.prove(ex, '%s h=%d: accepted exactly if (2^h mod m)/2^h < 2^-s' % (t, h), s,
                      z3.Implies(z3.And(z3.ULE(P, z3.BitVecVal(1 << h, W)), P != z3.BitVecVal(1 << 128, W)),
                                 z3.If(rem == 0, z3.Or(v, v == f), v == f)), case=case)
            if h == 128 and t == 'ZZp':
                ctx.prove(ex, 'ZZp h=128: modulus 2^128 is accepted', s, z3.Implies(P == z3.BitVecVal(1 << 128, W), v), case=case)
        ctx.absorb(ex, case)


def proof(ctx):
    hs = list(range(1, 129))
    ctx.parallel([(t, ints, t, n) for t, n in INTS] + [('%s h=%d..' % (t, c[0]), modular, t, c) for t in ('ZZp', 'zzp') for c in [hs[i:i + 16] for i in range(0, 128, 16)]])


def native(ctx):
    sc_native(ctx, 7)
