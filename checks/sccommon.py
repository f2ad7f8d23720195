from framework import *
import ntlmodel
from ntlmodel import *

PRE0 = r'''
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include <utility>
using namespace distributed_vector_ole;
typedef unsigned __int128 u128;
typedef NTL::ZZ_p ZZp; typedef NTL::zz_p zzp; typedef absl::uint128 au128;
typedef uint8_t U8; typedef uint16_t U16; typedef uint32_t U32; typedef uint64_t U64;
'''
PRE = PRE0.replace('#include <utility>', '#include "distributed_vector_ole/gf128.cpp"\n#include <utility>')
INTS = [('U8', 8), ('U16', 16), ('U32', 32), ('U64', 64), ('au128', 128), ('gf128', 128)]
HEAP = 'operator new returns fresh memory'


def new_exec(ctx, m, ntl=False):
    ex = ctx.exec(m)
    ex.on(r'^operator new\(unsigned long\)$', lambda e, st, a, d: Ptr(e.new_obj('heap', a[0] if isinstance(a[0], int) else None)))
    ex.on(r'^operator delete\(', lambda e, st, a, d: None)
    ex.on(r'^std::__throw_', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('throw', d)))
    N = NTLModel(ex) if ntl else None
    return (ex, N) if ntl else ex


def run_h(ex, fn, args, st):
    f = ex.mod.find(r'^%s\b' % fn)
    if not f:
        raise Unsupported('no ' + fn)
    return ex.call_fn(f[0], args, st)


def obj(ex, st, name, val=None, n=128):
    o = ex.new_obj(name, n // 8)
    if val is not None:
        ex.store(st, Ptr(o), n, val)
    return Ptr(o)


def hexv(v):
    return '%x:%016x' % ((v >> 64) & mask(64), v & mask(64))


def zz(ex, N, st, name, v):
    """a ZZ_p object holding v"""
    o = ex.new_obj(name, 8)
    ex.store(st, Ptr(o), 64, N.big(st, v, name))
    return Ptr(o)


def zzval(ex, N, st, p):
    return N.val(st, ex.load(st, p, 64))


def ev(m, v):
    return m.eval(v, model_completion=True).as_long()


def sc_native(ctx, prop, budget=10, **kw):
    ctx.native('scalar.cpp', ['internal/ntl_helpers.cpp', 'gf128.cpp'], ['-DUSE_ASM', '-DPROP=%d' % prop], budget, name='scalar', libs=['-lntl', '-lgmp', '-lpthread'] + CRYPTO + ABSL, **kw)
