"""Contracts of the NTL functions the code depends on (trusted): big integers as W-bit words, moduli as ghost values.

A bigint body is an object with one cell holding its value (a non-negative integer below 2^(W-1), as a W-bit word).
A null body is zero.  Every operation allocates a fresh body for its result."""
import z3
from core import *

W = 288
MODF = z3.Function('zmod', z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
NB = z3.Function('numbits', z3.BitVecSort(W), z3.BitVecSort(W))
UMOD = z3.Function('umod128', z3.BitVecSort(128), z3.BitVecSort(128), z3.BitVecSort(128))
_RC = {}


def REMC(c):
    """c mod m for a fixed integer c (also beyond 128 bits), as a function of m"""
    if c not in _RC:
        _RC[c] = z3.Function('rem_of_%d' % c, z3.BitVecSort(128), z3.BitVecSort(128))
    return _RC[c]


class NTLModel:
    def __init__(self, ex):
        self.ex = ex
        ex.ntl = self
        self.P = z3.BitVec('p', W)            # ZZ_p modulus
        self.q = z3.BitVec('q', 64)           # zz_p modulus
        self.modobj = None
        self.remc = []
        on = ex.on
        on(r'^_ntl_PINNED\(', lambda e, st, a, d: 0)
        on(r'^_ntl_gfree\(', lambda e, st, a, d: None)
        on(r'^__clang_call_terminate', self.term)
        on(r'^__cxa_thread_atexit', lambda e, st, a, d: 0)
        on(r'^_ntl_gtouint\(', lambda e, st, a, d: simp(z3.Extract(63, 0, self.val(st, a[0]))))
        on(r'^_ntl_gtoint\(', lambda e, st, a, d: simp(z3.Extract(63, 0, self.val(st, a[0]))))
        on(r'^_ntl_grshift\(', lambda e, st, a, d: self.put(st, a[2], z3.LShR(self.val(st, a[0]), self.shamt(a[1]))))
        on(r'^_ntl_glshift\(', self.lshift)
        on(r'^_ntl_gcopy\(', lambda e, st, a, d: self.put(st, a[1], self.val(st, a[0])))
        on(r'^_ntl_guintoz\(', lambda e, st, a, d: self.put(st, a[1], z3.ZeroExt(W - 64, bv(a[0], 64))))
        on(r'^_ntl_gintoz\(', self.intoz)
        on(r'^_ntl_gor\(', lambda e, st, a, d: self.put(st, a[2], self.val(st, a[0]) | self.val(st, a[1])))
        on(r'^_ntl_gand\(', lambda e, st, a, d: self.put(st, a[2], self.val(st, a[0]) & self.val(st, a[1])))
        on(r'^_ntl_gxor\(', lambda e, st, a, d: self.put(st, a[2], self.val(st, a[0]) ^ self.val(st, a[1])))
        on(r'^_ntl_gadd\(', lambda e, st, a, d: self.put_small(st, a[2], self.val(st, a[0]) + self.val(st, a[1])))
        on(r'^_ntl_gsadd\(', self.sadd)
        on(r'^_ntl_gssub\(', self.ssub)
        on(r'^_ntl_gmod\(', lambda e, st, a, d: self.put(st, a[2], self.mod(st, self.val(st, a[0]), self.val(st, a[1]))))
        on(r'^_ntl_gcompare\(', self.compare)
        on(r'^_ntl_gscompare\(', self.scompare)
        on(r'^_ntl_gbit\(', lambda e, st, a, d: self.bit(self.val(st, a[0]), a[1]))
        on(r'^NTL::bit\(long, long\)', self.lbit)
        on(r'^_ntl_g2log\(', lambda e, st, a, d: self.numbits(self.val(st, a[0]), 64))
        on(r'^(NTL::NumBits\(long\)|_ntl_g2logs\(long\))', lambda e, st, a, d: self.numbits(z3.SignExt(W - 64, bv(a[0], 64)), 64))
        on(r'^_ntl_giszero\(', lambda e, st, a, d: self.flag(self.val(st, a[0]) == 0, 32))
        on(r'^_ntl_gzero\(', lambda e, st, a, d: self.put(st, a[0], z3.BitVecVal(0, W)))
        on(r'^_ntl_gsize\(', lambda e, st, a, d: (_ for _ in ()).throw(Unsupported('bigint size')))
        on(r'^NTL::ZZ_p::modulus\(\)', self.zzp_modulus)
        on(r'^NTL::zz_p::modulus\(\)', lambda e, st, a, d: self.q)
        on(r'^NTL::conv\(NTL::zz_p&, (long|unsigned long|int|unsigned int)\)', self.conv_zzp)
        on(r'^__cxa_(free_exception|allocate_exception)', lambda e, st, a, d: Ptr(e.new_obj('exc')))
        on(r'^__assert_fail', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('assert')))
        ex.urem_hook = self.urem
        ex.facts += [z3.UGE(self.P, 2), self.q >= 2, self.q < (1 << 60)]

    def term(self, e, st, a, d):
        raise PathEnd('terminate')

    def limit_modulus(self, bits=128):
        self.ex.facts.append(z3.ULE(self.P, 1 << bits))

    # ---------------------------------------------------- bigint values
    def big(self, st, v, name='big'):
        o = self.ex.new_obj(name, None)
        self.ex.store(st, Ptr(o), W, v)
        return Ptr(o)

    def val(self, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported('bigint handle %r' % (p,))
        if p.obj is None:
            return z3.BitVecVal(0, W)
        v = self.ex.load(st, p, W)
        return bv(v, W)

    def put(self, st, out, v):
        self.ex.store(st, out, 64, self.big(st, z3.simplify(v)))
        return None

    def put_small(self, st, out, v):
        self.ex.oblige('bigint model does not overflow', st, z3.ULT(v, 1 << (W - 2)), kind='model')
        return self.put(st, out, v)

    def shamt(self, k):
        if isinstance(k, int):
            return z3.BitVecVal(k, W)
        return z3.ZeroExt(W - 64, k)

    def lshift(self, e, st, a, d):
        v, k = self.val(st, a[0]), self.shamt(a[1])
        e.oblige('bigint model does not overflow (shift)', st, z3.And(z3.LShR(v << k, k) == v, z3.ULT(k, W - 1)), kind='model')
        return self.put(st, a[2], v << k)

    def intoz(self, e, st, a, d):
        v = bv(a[0], 64)
        if not isinstance(a[0], int) or to_signed(a[0], 64) < 0:
            e.oblige('non-negative integer conversion', st, v >= 0, kind='model')
        return self.put(st, a[1], z3.ZeroExt(W - 64, v))

    def sadd(self, e, st, a, d):
        return self.put_small(st, a[2], self.val(st, a[0]) + z3.SignExt(W - 64, bv(a[1], 64)))

    def ssub(self, e, st, a, d):
        return self.put_small(st, a[2], self.val(st, a[0]) - z3.SignExt(W - 64, bv(a[1], 64)))

    def mod(self, st, a, m):
        t = MODF(a, m)
        self.ex.facts += [z3.Implies(m != 0, z3.ULT(t, m)), z3.Implies(z3.ULT(a, m), t == a)]
        return t

    def flag(self, c, n):
        return simp(z3.If(c, z3.BitVecVal(1, n), z3.BitVecVal(0, n)))

    def compare(self, e, st, a, d):
        x, y = self.val(st, a[0]), self.val(st, a[1])
        return simp(z3.If(x == y, z3.BitVecVal(0, 64), z3.If(z3.ULT(x, y), z3.BitVecVal(mask(64), 64), z3.BitVecVal(1, 64))))

    def scompare(self, e, st, a, d):
        x, y = self.val(st, a[0]), z3.SignExt(W - 64, bv(a[1], 64))
        return simp(z3.If(x == y, z3.BitVecVal(0, 64), z3.If(x < y, z3.BitVecVal(mask(64), 64), z3.BitVecVal(1, 64))))

    def bit(self, v, k):
        kk = bv(k, 64)
        b = z3.Extract(0, 0, z3.LShR(v, z3.ZeroExt(W - 64, kk))) == 1
        return self.flag(z3.And(kk >= 0, b), 64)

    def lbit(self, e, st, a, d):
        v, k = bv(a[0], 64), bv(a[1], 64)
        b = z3.Extract(0, 0, z3.LShR(z3.If(v >= 0, v, -v), k)) == 1
        return self.flag(z3.And(k >= 0, k < 64, b), 64)

    def numbits(self, v, n):
        v = z3.simplify(v)
        t = NB(v)
        one = z3.BitVecVal(1, W)
        self.ex.facts += [z3.ULE(t, W), (v == 0) == (t == 0),
                          z3.Implies(v != 0, z3.And(z3.LShR(v, t) == 0, z3.LShR(v, t - 1) == 1))]
        return simp(z3.Extract(n - 1, 0, t))

    # ---------------------------------------------------- moduli
    def zzp_modulus(self, e, st, a, d):
        if self.modobj is None:
            self.modobj = e.new_obj('ZZ_p::modulus', 8)
        e.store(st, Ptr(self.modobj), 64, self.big(st, self.P, 'modulus'))
        return Ptr(self.modobj)

    def conv_zzp(self, e, st, a, d):
        signed = 'unsigned' not in d
        n = 32 if d.rstrip(')').endswith('int') else 64
        x = bv(a[1], n)
        x = (z3.SignExt if signed else z3.ZeroExt)(128 - n, x)
        q = z3.ZeroExt(64, self.q)
        if signed and not e.entails(st, x >= 0):
            r1, r2 = bv(self.urem(st, 128, x, q), 128), bv(self.urem(st, 128, z3.simplify(-x), q), 128)
            r = z3.If(x >= 0, r1, z3.If(r2 == 0, r2, q - r2))
        else:
            r = self.urem(st, 128, x, q)
        e.store(st, a[0], 64, simp(z3.Extract(63, 0, bv(r, 128))))
        return None

    # ---------------------------------------------------- remainders in machine words
    def urem(self, st, n, a, b):
        if n > 128:
            return None
        if isinstance(a, int) and isinstance(b, int):
            return a % b
        b0 = z3.simplify(bv(b, n))
        if z3.is_bv_value(b0) and b0.as_long() and b0.as_long() & (b0.as_long() - 1) == 0:
            return simp(bv(a, n) & (b0.as_long() - 1))
        a, b = z3.simplify(z3.ZeroExt(128 - n, bv(a, n)) if n < 128 else bv(a, n)), z3.simplify(z3.ZeroExt(128 - n, bv(b, n)) if n < 128 else bv(b, n))
        f = self.ex.facts
        if z3.is_bv_value(a):
            t = REMC(a.as_long())(b)
            if not any(c == a.as_long() and b2.eq(b) for c, b2 in self.remc):
                self.remc.append((a.as_long(), b))
        else:
            t = UMOD(a, b)
            # lemma: ((c mod m) + k) mod m = (c + k) mod m unless the addition wraps
            for c, b2 in self.remc:
                for k in range(-2, 3):
                    if c + k >= 0 and b2.eq(b):
                        t0 = z3.ZeroExt(2, REMC(c)(b2)) + k
                        f.append(z3.Implies(z3.ZeroExt(2, a) == t0, t == REMC(c + k)(b)))
                        self.fact_rem(c + k, b)
            # lemma: (2^128 - m) mod m = 2^128 mod m
            f.append(z3.Implies(z3.And(a == -b, b != 0), t == REMC(1 << 128)(b)))
        f += [z3.Implies(b != 0, z3.ULT(t, b)), z3.Implies(z3.ULT(a, b), t == a)]
        return simp(z3.Extract(n - 1, 0, t)) if n < 128 else t

    def fact_rem(self, c, b):
        t = REMC(c)(b)
        self.ex.facts += [z3.Implies(b != 0, z3.ULT(t, b))]
        if c < 1 << 128:
            self.ex.facts.append(z3.Implies(z3.UGT(b, c), t == c))
        return t


TRUSTED = ['NTL: bigint primitives (_ntl_g*) compute exact non-negative integer arithmetic; conv<zz_p>, rem reduce into [0, modulus); '
           'NumBits is the bit length; modulus() returns the installed modulus']
