"""C05: conversion between scalar types and 128-bit integers."""
from sccommon import *

FUNCTIONS = ['ScalarHelper<T>::ToUint128', 'ScalarHelper<T>::FromUint128', 'ScalarHelperImpl<NTL::ZZ_p>::ToUint128', 'ScalarHelperImpl<NTL::ZZ_p>::FromUint128',
             'ScalarHelperImpl<NTL::zz_p>::ToUint128', 'ScalarHelperImpl<NTL::zz_p>::FromUint128', 'NTLTemp<NTL::ZZ>']
ASSUMPTIONS = ['the ZZ_p modulus is at most 2^128 and the zz_p modulus below 2^60, as NTL requires and the property states']
TRUSTED = ntlmodel.TRUSTED + [HEAP]
H = PRE + 'extern "C" {\n' + ''.join('''
void h_to_%(T)s(const %(T)s* x, u128* r) { *r = (u128)ScalarHelper<%(T)s>::ToUint128(*x); }
void h_from_%(T)s(const u128* a, %(T)s* r) { *r = ScalarHelper<%(T)s>::FromUint128(absl::uint128(*a)); }
''' % dict(T=t) for t in ('U8', 'U16', 'U32', 'U64', 'au128', 'gf128', 'ZZp', 'zzp')) + '}\n'
A = z3.BitVec('a', 128)


def ints(ctx, t, n):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c05_' + t, text=H)

    def case(mm):
        return ('scalar', t, hexv(ev(mm, A)), '0', '0')
    for op in ('to', 'from'):
        ex = new_exec(ctx, m)
        st = State()
        if op == 'from':
            res = run_h(ex, 'h_from_' + t, [obj(ex, st, 'a', A), r := obj(ex, st, 'r', None, n)], st)
            for s, _ in res:
                ctx.prove(ex, t + ': FromUint128 is v mod 2^%d' % n, s, bv(ex.load(s, r, n), n) == z3.Extract(n - 1, 0, A), case=case)
        else:
            res = run_h(ex, 'h_to_' + t, [obj(ex, st, 'x', z3.Extract(n - 1, 0, A), n), r := obj(ex, st, 'r')], st)
            for s, _ in res:
                ctx.prove(ex, t + ': ToUint128 is the value', s, bv(ex.load(s, r, 128), 128) == z3.ZeroExt(128 - n, z3.Extract(n - 1, 0, A)) if n < 128 else bv(ex.load(s, r, 128), 128) == A, case=case)
        ctx.cover(t + ' ' + op + ' returns', len(res) > 0)
        ctx.absorb(ex, case)


def big(ctx, op):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c05_ZZ' + op, text=H)
    ex, N = new_exec(ctx, m, True)
    N.limit_modulus()
    st = State()
    V = z3.BitVec('v', W)

    def case(mm):
        return ('scalar', 'ZZp', hexv(ev(mm, A if op == 'from' else V)), '%x' % ev(mm, N.P), '0')
    if op == 'from':
        r = ex.new_obj('r', 8)
        ex.store(st, Ptr(r), 64, NULL)
        a = obj(ex, st, 'a', A)
        res = run_h(ex, 'h_from_ZZp', [a, Ptr(r)], st)
        for s, _ in res:
            ctx.prove(ex, 'ZZ_p: FromUint128 is v mod p', s, zzval(ex, N, s, Ptr(r)) == N.mod(s, z3.ZeroExt(W - 128, A), N.P), case=case)
        # a later call: every thread-local bigint that survives the first call holds an arbitrary value
        for s, _ in list(res):
            for (o, sh), reg in list(s.mem.items()):
                if ex.objs[o].get('global') and not ex.objs[o].get('const'):
                    for off, (n, v) in list(reg.items()):
                        if isinstance(v, Ptr) and n == 8:
                            ex.store(s, Ptr(o, (), off), 64, N.big(s, z3.BitVec('left_over_%d_%d' % (o, off), W)))
            ex.store(s, Ptr(r), 64, NULL)
            later = run_h(ex, 'h_from_ZZp', [a, Ptr(r)], s)
            ctx.cover('ZZ_p from: later call returns', len(later) > 0)
            for s2, _ in later:
                ctx.prove(ex, 'ZZ_p: FromUint128 is v mod p whatever earlier calls left behind', s2, zzval(ex, N, s2, Ptr(r)) == N.mod(s2, z3.ZeroExt(W - 128, A), N.P), case=case)
    else:
        st.assume(z3.ULT(V, N.P))
        res = run_h(ex, 'h_to_ZZp', [zz(ex, N, st, 'x', V), r := obj(ex, st, 'r')], st)
        for s, _ in res:
            ctx.prove(ex, 'ZZ_p: ToUint128 is the representative', s, z3.ZeroExt(W - 128, bv(ex.load(s, r, 128), 128)) == V, case=case)
    ctx.cover('ZZ_p ' + op + ' returns', len(res) > 0)
    for s, _ in res:
        ctx.feasible(ex, 'ZZ_p %s: large modulus reachable' % op, st)
    ctx.absorb(ex, case)


def small(ctx, op):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c05_zz' + op, text=H)
    ex, N = new_exec(ctx, m, True)
    st = State()
    V = z3.BitVec('v', 64)

    def case(mm):
        return ('scalar', 'zzp', hexv(ev(mm, A if op == 'from' else V)), '0', '%x' % ev(mm, N.q))
    if op == 'from':
        res = run_h(ex, 'h_from_zzp', [obj(ex, st, 'a', A), r := obj(ex, st, 'r', None, 64)], st)
        for s, _ in res:
            ctx.prove(ex, 'zz_p: FromUint128 is v mod p', s, bv(ex.load(s, r, 64), 64) == z3.Extract(63, 0, bv(N.urem(s, 128, A, z3.ZeroExt(64, N.q)), 128)), case=case)
    else:
        st.assume(z3.ULT(V, N.q))
        res = run_h(ex, 'h_to_zzp', [obj(ex, st, 'x', V, 64), r := obj(ex, st, 'r')], st)
        for s, _ in res:
            ctx.prove(ex, 'zz_p: ToUint128 is the representative', s, bv(ex.load(s, r, 128), 128) == z3.ZeroExt(64, V), case=case)
    ctx.cover('zz_p ' + op + ' returns', len(res) > 0)
    ctx.absorb(ex, case)


def proof(ctx):
    ctx.parallel([(t, ints, t, n) for t, n in INTS] + [('ZZ_p ' + o, big, o) for o in ('to', 'from')] + [('zz_p ' + o, small, o) for o in ('to', 'from')])


def native(ctx):
    sc_native(ctx, 5)
