from framework import *

CPP = '#include "distributed_vector_ole/gf128.cpp"\n'
PRE = CPP + r'''
#include <utility>
#include "absl/numeric/int128.h"
using distributed_vector_ole::gf128;
typedef unsigned __int128 u128;
static inline gf128 G(const u128* a) { return gf128(absl::uint128(*a)); }
static inline u128 U(const gf128& x) { return (u128)static_cast<absl::uint128>(x); }
'''
BUILDS = [('USE_ASM', ['-DUSE_ASM']), ('portable', [])]


def anf_var(base, n=128):
    return Anf([frozenset([frozenset([base + i])]) for i in range(n)])


def run_h(ex, fn, objs, st, extra=()):
    f = ex.mod.find(r'^%s\b' % fn)
    if not f:
        raise Unsupported('no ' + fn)
    return ex.call_fn(f[0], [Ptr(o) for o in objs] + list(extra), st)


def obj(ex, st, name, val=None, n=128):
    o = ex.new_obj(name, n // 8)
    if val is not None:
        ex.store(st, Ptr(o), n, val)
    return o


def get(ex, st, o, n=128, off=0):
    return ex.load(st, Ptr(o, (), off), n)


def hexv(v):
    return '%x:%016x' % (v >> 64, v & mask(64))


def mul_spec(A, B):
    """coefficients of A*B mod x^128+x^7+x^2+x+1 (schoolbook product, then x^128 = x^7+x^2+x+1)"""
    A, B = to_anf(A, 128).bits, to_anf(B, 128).bits
    full = [P0] * 255
    for i in range(128):
        for j in range(128):
            full[i + j] = full[i + j] ^ p_mul(A[i], B[j])
    for k in range(254, 127, -1):
        for e in (0, 1, 2, 7):
            full[k - 128 + e] = full[k - 128 + e] ^ full[k]
    return Anf(full[:128])


def mul_int(a, b):
    r = 0
    for i in range(128):
        if b >> i & 1:
            r ^= a << i
    for k in range(254, 127, -1):
        if r >> k & 1:
            r ^= (1 << k) ^ (0x87 << (k - 128))
    return r


def env_int(env, base):
    return sum(env.get(base + i, 0) << i for i in range(128))


def gf_native(ctx, prop, budget=8):
    ctx.natives([(('gf.cpp', ['gf128.cpp'], fl + ['-DPROP=%d' % prop], budget), dict(name='gf_' + b, libs=CRYPTO + ABSL + ['-lboost_serialization']))
                 for b, fl in BUILDS])
