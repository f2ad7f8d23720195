"""C23: packing scalars into 128-bit OT messages is lossless."""
from sccommon import *

FUNCTIONS = ['gilboa_internal::SpanToEMPBlock', 'gilboa_internal::EMPBlockToSpan', 'gilboa_internal::EMPBlockToVector', 'all_but_one_random_ot_internal::EMPToGGMTreeBlock',
             'all_but_one_random_ot_internal::GGMTreeToEMPBlock']
ASSUMPTIONS = ['ScalarHelper<T>::ToUint128, FromUint128 and SizeOf of modular integers by their contracts (proved in C05, C06, C08)',
               'the ZZ_p modulus is at most 2^128 and the zz_p modulus below 2^60']
TRUSTED = ntlmodel.TRUSTED + [HEAP, 'NTL multiplication modulo p: a function of the operands, below p, with 1 neutral', 'emp::makeBlock and block element access (stub: the SSE2 block emp-tool uses)']
MM = z3.Function('mulmod', z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
MMq = z3.Function('mulmodq', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
GM = z3.Function('gfmul', z3.BitVecSort(128), z3.BitVecSort(128), z3.BitVecSort(128))
TYPES = [('U8', 8), ('U16', 16), ('U32', 32), ('U64', 64), ('au128', 128), ('gf128', 128)]
H = '''#include "distributed_vector_ole/internal/gilboa_internal.h"
#include "distributed_vector_ole/internal/all_but_one_random_ot_internal.h"
''' + PRE0.replace('#include "distributed_vector_ole/internal/ntl_helpers.cpp"', '') + 'using namespace gilboa_internal;\nextern "C" {\n' + ''.join('''
void h_rt_%(T)s(const %(T)s* v, long n, const %(T)s* mult, %(T)s* out, long m) { EMPBlockToSpan<%(T)s>(SpanToEMPBlock<%(T)s>(absl::Span<const %(T)s>(v, n), *mult), absl::Span<%(T)s>(out, m)); }
void h_r1_%(T)s(const %(T)s* v, long n, %(T)s* out, long m) { EMPBlockToSpan<%(T)s>(SpanToEMPBlock<%(T)s>(absl::Span<const %(T)s>(v, n)), absl::Span<%(T)s>(out, m)); }
''' % dict(T=t) for t in ('U8', 'U16', 'U32', 'U64', 'au128', 'gf128', 'ZZp', 'zzp')) + '''
void h_to(const u128* in, u128* out) { GGMTree::Block b = all_but_one_random_ot_internal::EMPToGGMTreeBlock(emp::makeBlock((uint64_t)(*in >> 64), (uint64_t)*in)); *out = (u128)b; }
void h_back(const u128* in, u128* out) { emp::block b = all_but_one_random_ot_internal::GGMTreeToEMPBlock(absl::uint128(*in)); *out = ((u128)(uint64_t)b[1] << 64) | (uint64_t)b[0]; }
}
'''


def arr(ex, st, name, vals, n):
    o = ex.new_obj(name, max(1, len(vals)) * n // 8)
    for i, v in enumerate(vals):
        if v is not None:
            ex.store(st, Ptr(o, (), i * n // 8), n, v)
    return Ptr(o)


def ints(ctx, T, n, k, mode):
    """k values of n bits"""
    m = ctx.module
    ex = new_exec(ctx, m)
    if T == 'gf128':
        def mul(e, st, a, d):
            x, y = bv(e.load(st, a[0], 128), 128), bv(e.load(st, a[1], 128), 128)
            t = GM(x, y)
            e.facts.append(z3.Implies(y == 1, t == x))
            e.store(st, a[0], 128, t)
            return a[0]
        ex.on(r'gf128::operator\*=\(', mul)
        ex.on(r'gf128::gf128\(\)', lambda e, st, a, d: None)
    st = State()
    vs = [z3.BitVec('v%d' % i, n) for i in range(k)]
    f = 128 // n
    v, out = arr(ex, st, 'v', vs, n), arr(ex, st, 'out', [z3.BitVec('o%d' % i, n) for i in range(f)], n)
    mu = z3.BitVec('mult', n)
    if mode == 'mult':
        mp = obj(ex, st, 'mult', mu, n)
        res = run_h(ex, 'h_rt_' + T, [v, k, mp, out, f], st)
    else:
        res = run_h(ex, 'h_r1_' + T, [v, k, out, f], st)

    def case(mm):
        return ('pack', T, hexv(ev(mm, mu)) if mode == 'mult' else '1', '0') + tuple(hexv(ev(mm, x)) for x in vs)
    ctx.cover('%s %d %s returns' % (T, k, mode), len(res) > 0)
    for s, _ in res:
        goals = []
        for i in range(f):
            if i >= k:
                want = z3.BitVecVal(0, n)
            elif mode != 'mult':
                want = vs[i]
            else:
                want = GM(vs[i], mu) if T == 'gf128' else vs[i] * mu
            goals.append(('%s: %d values, %s: slot %d' % (T, k, mode, i), bv(ex.load(s, Ptr(out.obj, (), i * n // 8), n), n) == want))
        ctx.prove_all(ex, s, goals, case=case)
    ctx.absorb(ex, case)


def all_ints(ctx, T, n):
    ctx.module = ctx.ir(None, ['-DUSE_ASM', '-DNDEBUG'], name='c23_' + T, text=('#include "distributed_vector_ole/gf128.cpp"\n' if T == 'gf128' else '') + H)
    f = 128 // n
    for k in range(f + 1):
        for mode in ('mult', 'one'):
            ints(ctx, T, n, k, mode)


def modular(ctx, T, s):
    """scalars of s bytes: every modulus of that size"""
    m = ctx.ir(None, ['-DUSE_ASM', '-DNDEBUG'], name='c23_%s%d' % (T, s), text=H)
    f = 16 // s
    big = T == 'ZZp'
    for k in sorted({0, 1, f - 1, f}) if f > 4 else range(f + 1):
        for mode in ('mult', 'one'):
            ex, N = new_exec(ctx, m, True)
            N.limit_modulus()
            lo = 1 << (8 * (s - 1))
            st = State()
            cls = 'NTL::ZZ_p' if big else 'NTL::zz_p'
            if big:
                P, w = N.P, W
            else:
                P, w = N.q, 64
            if s > 1:
                st.assume(z3.UGT(P, lo))
            st.assume(z3.ULE(P, 1 << (8 * s)) if 8 * s < w else z3.BoolVal(True))
            ex.on(r'ScalarHelper<%s, int>::SizeOf\(\)' % cls, lambda e, st, a, d: s)
            if big:
                def mul(e, st, a, d):
                    x, y = zzval(e, N, st, a[1]), zzval(e, N, st, a[2])
                    t = MM(x, y)
                    e.facts += [z3.ULT(t, N.P), z3.Implies(y == 1, t == x)]
                    e.store(st, a[0], 64, N.big(st, t))
                ex.on(r'^NTL::mul\(NTL::ZZ_p&, NTL::ZZ_p const&, NTL::ZZ_p const&\)', mul)
                ex.on(r'^NTL::operator\*=\(NTL::ZZ_p&, NTL::ZZ_p const&\)', lambda e, st, a, d: (mul(e, st, [a[0], a[0], a[1]], d), a[0])[1])
                ex.on(r'^NTL::ZZ_p::ZZ_p\((int|long)', lambda e, st, a, d: e.store(st, a[0], 64, N.big(st, z3.BitVecVal(a[1], W))))
                ex.on(r'ScalarHelper(Impl)?<NTL::ZZ_p, int>::ToUint128', lambda e, st, a, d: to_struct(e, z3.simplify(z3.Extract(127, 0, zzval(e, N, st, a[0])))))

                def frm(e, st, a, d):
                    v = z3.ZeroExt(W - 128, from_struct(a[1:]))
                    e.store(st, a[0], 64, N.big(st, N.mod(st, v, N.P)))
                ex.on(r'ScalarHelper(Impl)?<NTL::ZZ_p, int>::FromUint128', frm)
                vs = [z3.BitVec('v%d' % i, W) for i in range(k)]
                mu = z3.BitVec('mult', W)
                v = arr(ex, st, 'v', [N.big(st, x) for x in vs], 64)
                mp = zz(ex, N, st, 'mult', mu)
                out = arr(ex, st, 'out', [NULL] * f, 64)
            else:
                def mulq(e, x, y):
                    t = MMq(x, y)
                    e.facts += [z3.ULT(t, N.q), z3.Implies(y == 1, t == x)]
                    return t

                def zl(e, st, x):
                    return bv(e.load(st, x, 64) if isinstance(x, Ptr) else x, 64)
                ex.on(r'^NTL::operator\*=\(NTL::zz_p&, NTL::zz_p\)', lambda e, st, a, d: (e.store(st, a[0], 64, mulq(e, zl(e, st, a[0]), zl(e, st, a[1]))), a[0])[1])
                ex.on(r'^NTL::mul\(NTL::zz_p&, NTL::zz_p, NTL::zz_p\)', lambda e, st, a, d: e.store(st, a[0], 64, mulq(e, zl(e, st, a[1]), zl(e, st, a[2]))))
                ex.on(r'^NTL::operator\*\(NTL::zz_p, NTL::zz_p\)', lambda e, st, a, d: e.store(st, a[0], 64, mulq(e, zl(e, st, a[1]), zl(e, st, a[2]))))
                vs = [z3.BitVec('v%d' % i, 64) for i in range(k)]
                mu = z3.BitVec('mult', 64)
                v = arr(ex, st, 'v', vs, 64)
                mp = obj(ex, st, 'mult', mu, 64)
                out = arr(ex, st, 'out', [0] * f, 64)
            for x in vs + [mu]:
                st.assume(z3.ULT(x, P))
            args = [v, k, mp, out, f] if mode == 'mult' else [v, k, out, f]
            res = run_h(ex, ('h_rt_' if mode == 'mult' else 'h_r1_') + T, args, st)

            def case(mm):
                p = ev(mm, P)
                return ('pack', T, hexv(ev(mm, mu)) if mode == 'mult' else '1', '%x:%x' % (p >> 64, p & mask(64))) + tuple(hexv(ev(mm, x)) for x in vs)
            ctx.cover('%s/%d %d %s returns' % (T, s, k, mode), len(res) > 0)
            for t, _ in res:
                ctx.feasible(ex, '%s/%d path' % (T, s), t)
                goals = []
                for i in range(f):
                    got = zzval(ex, N, t, Ptr(out.obj, (), 8 * i)) if big else bv(ex.load(t, Ptr(out.obj, (), 8 * i), 64), 64)
                    want = z3.BitVecVal(0, w) if i >= k else vs[i] if mode != 'mult' else (MM if big else MMq)(vs[i], mu)
                    goals.append(('%s of %d bytes: %d values, %s: slot %d' % (T, s, k, mode, i), got == want))
                ctx.prove_all(ex, t, goals, case=case)
            ctx.absorb(ex, case)


def to_struct(e, v):
    """absl::uint128 as it is returned at IR level"""
    lo, hi = z3.simplify(z3.Extract(63, 0, v)), z3.simplify(z3.Extract(127, 64, v))
    return [lo, hi]


def from_struct(a):
    if len(a) == 2:
        return z3.Concat(bv(a[1], 64), bv(a[0], 64))
    return bv(a[0], 128)


def blocks(ctx):
    m = ctx.ir(None, ['-DUSE_ASM', '-DNDEBUG'], name='c23_b', text=H)
    x = z3.BitVec('x', 128)
    for f in ('h_to', 'h_back'):
        ex = new_exec(ctx, m)
        st = State()
        res = run_h(ex, f, [obj(ex, st, 'in', x), r := obj(ex, st, 'out')], st)
        ctx.cover(f + ' returns', len(res) > 0)
        for s, _ in res:
            ctx.prove(ex, {'h_to': 'EMPToGGMTreeBlock', 'h_back': 'GGMTreeToEMPBlock'}[f] + ' keeps both halves', s, bv(ex.load(s, r, 128), 128) == x)
        ctx.absorb(ex)


def proof(ctx):
    ctx.parallel([(t, all_ints, t, n) for t, n in TYPES] + [('blocks', blocks)] + [('ZZ_p/%d' % s, modular, 'ZZp', s) for s in range(1, 17)] +
                 [('zz_p/%d' % s, modular, 'zzp', s) for s in range(1, 9)])


def native(ctx):
    ctx.native('pack.cpp', ['internal/ntl_helpers.cpp', 'gf128.cpp'], ['-DUSE_ASM'], 8, name='pack', libs=['-lntl', '-lgmp', '-lpthread'] + CRYPTO + ABSL)
