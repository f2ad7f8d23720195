"""Value domains: concrete ints, GF(2) polynomials (ANF), z3 bit-vectors, z3 mathematical integers."""
import z3
from irparse import Unsupported


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(('Fn', self.name))

    def __repr__(self):
        return '@' + self.name


class Ptr:
    """obj: object id (None = null). steps: ((tag, index, esize, bound), ...). off: byte offset or special name."""
    __slots__ = ('obj', 'steps', 'off')

    def __init__(self, obj, steps=(), off=0):
        self.obj, self.steps, self.off = obj, steps, off

    def __repr__(self):
        return 'Ptr(%s%s+%s)' % (self.obj, ''.join('[%s:%s]' % (s[0], s[1]) for s in self.steps), self.off)

    def same(self, o):
        if self.obj != o.obj or len(self.steps) != len(o.steps) or not eqv(self.off, o.off):
            return False
        return all(a[0] == b[0] and eqv(a[1], b[1]) for a, b in zip(self.steps, o.steps))

    def field(self, d):
        return Ptr(self.obj, self.steps, self.off + d)


NULL = Ptr(None)


def eqv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a is b or (type(a) is type(b) and isinstance(a, (str, tuple)) and a == b)


# ------------------------------------------------------------- ANF
# polynomial: frozenset of monomials; monomial: frozenset of variable ids (ints).  {} monomial is 1.
ONE_M = frozenset()
P0 = frozenset()
P1 = frozenset([ONE_M])


def p_add(a, b):
    return a ^ b


def p_mul(a, b):
    if not a or not b:
        return P0
    if a == P1:
        return b
    if b == P1:
        return a
    if len(a) * len(b) > 200000:
        raise Unsupported('polynomial blow-up')
    r = {}
    for x in a:
        for y in b:
            m = x | y
            if m in r:
                del r[m]
            else:
                r[m] = 1
    return frozenset(r)


class Anf:
    """Bit string, bits[0] least significant; each bit a polynomial."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = tuple(bits)

    def __len__(self):
        return len(self.bits)

    def __repr__(self):
        return 'Anf(%d)' % len(self.bits)

    def const(self):
        v = 0
        for i, b in enumerate(self.bits):
            if b == P1:
                v |= 1 << i
            elif b != P0:
                return None
        return v


def anf_const(v, n):
    return Anf([P1 if (v >> i) & 1 else P0 for i in range(n)])


def anf_norm(a):
    c = a.const()
    return a if c is None else c


def to_anf(v, n):
    if isinstance(v, Anf):
        return v
    if isinstance(v, int):
        return anf_const(v, n)
    raise Unsupported('mixing %s with ANF' % type(v).__name__)


class AnfZero:
    """Condition: all polynomials are zero (neg=False) or not all zero (neg=True)."""
    __slots__ = ('polys', 'neg')

    def __init__(self, polys, neg):
        self.polys, self.neg = tuple(polys), neg


# ------------------------------------------------------------- helpers
def mask(n):
    return (1 << n) - 1


def to_signed(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def is_bv(v):
    return isinstance(v, z3.BitVecRef)


def is_int(v):
    return isinstance(v, z3.ArithRef) and v.is_int()


def is_real(v):
    return isinstance(v, z3.ArithRef) and v.is_real()


def is_bool(v):
    return isinstance(v, z3.BoolRef) and not (isinstance(v, z3.QuantifierRef) and v.is_lambda())


def bv(v, n):
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if is_bv(v):
        assert v.size() == n, (v.size(), n)
        return v
    if is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if is_int(v):
        return z3.Int2BV(v, n)
    raise Unsupported('to bv: %r' % (v,))


def simp(v):
    if z3.is_expr(v):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
    return v


def norm_int(v, n):
    """z3 int constant -> concrete unsigned."""
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long() & mask(n)
    return v


def to_int(v, n):
    """signed-canonical mathematical view."""
    if isinstance(v, int):
        return z3.IntVal(to_signed(v, n)) if n > 1 else z3.IntVal(v)
    if is_int(v):
        return v
    if is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if is_bv(v):
        return z3.BV2Int(v, is_signed=True)
    raise Unsupported('to int: %r' % (v,))


def to_bool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if is_bool(v):
        return v
    if is_bv(v):
        return v == z3.BitVecVal(1, v.size())
    if is_int(v):
        return v != 0
    raise Unsupported('to bool: %r' % (v,))


def concrete_bin(op, n, a, b):
    M = mask(n)
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
        raise Unsupported('division by zero')
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    if op in ('sdiv', 'srem'):
        x, y = to_signed(a, n), to_signed(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & M
    if op in ('shl', 'lshr', 'ashr') and b >= n:
        raise Unsupported('oversized shift')
    if op == 'shl':
        return (a << b) & M
    if op == 'lshr':
        return a >> b
    if op == 'ashr':
        return (to_signed(a, n) >> b) & M
    raise Unsupported(op)


def anf_bin(op, n, a, b):
    if op in ('xor', 'and', 'or', 'add', 'sub'):
        A, B = to_anf(a, n).bits, to_anf(b, n).bits
        if op == 'xor':
            return anf_norm(Anf([x ^ y for x, y in zip(A, B)]))
        if op == 'and':
            return anf_norm(Anf([p_mul(x, y) for x, y in zip(A, B)]))
        if op == 'or':
            return anf_norm(Anf([x ^ y ^ p_mul(x, y) for x, y in zip(A, B)]))
        if op == 'add':   # only carry-free additions stay small
            c = P0
            out = []
            for x, y in zip(A, B):
                out.append(x ^ y ^ c)
                c = p_mul(x, y) ^ p_mul(c, x ^ y)
            return anf_norm(Anf(out))
        if op == 'sub':
            c = P0
            out = []
            for x, y in zip(A, B):
                out.append(x ^ y ^ c)
                nx = x ^ P1
                c = p_mul(nx, y) ^ p_mul(c, x ^ y ^ P1)
            return anf_norm(Anf(out))
    if op in ('shl', 'lshr', 'ashr') and isinstance(b, int):
        A = to_anf(a, n).bits
        if b >= n:
            raise Unsupported('oversized shift')
        if op == 'shl':
            return anf_norm(Anf((P0,) * b + A[:n - b]))
        if op == 'lshr':
            return anf_norm(Anf(A[b:] + (P0,) * b))
        return anf_norm(Anf(A[b:] + (A[-1],) * b))
    if op == 'mul':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                # power of two, or product with a single symbolic bit (mask building)
                if y & (y - 1) == 0:
                    return anf_bin('shl', n, x, y.bit_length() - 1) if y else 0
                X = to_anf(x, n).bits
                if all(q == P0 for q in X[1:]):
                    return anf_norm(Anf([X[0] if (y >> i) & 1 else P0 for i in range(n)]))
    raise Unsupported('ANF %s' % op)


def extract(v, lo, n, total):
    """bits [lo, lo+n) of a value of `total` bits."""
    if lo == 0 and n == total:
        return v
    if isinstance(v, int):
        return (v >> lo) & mask(n)
    if isinstance(v, Anf):
        return anf_norm(Anf(v.bits[lo:lo + n]))
    if is_bv(v):
        return simp(z3.Extract(lo + n - 1, lo, v))
    if v is UNDEF:
        return UNDEF
    if isinstance(v, list) and not v:
        return UNDEF
    if hasattr(v, 'extract'):
        return v.extract(lo, n)
    if is_int(v) or is_bool(v):
        raise Unsupported('extract from Int')
    raise Unsupported('extract from %s' % type(v).__name__)


def concat(parts):
    """parts: list of (value, nbits), least significant first."""
    if len(parts) == 1:
        return parts[0][0]
    if all(isinstance(v, int) for v, n in parts):
        r, s = 0, 0
        for v, n in parts:
            r |= v << s
            s += n
        return r
    if any(hasattr(v, 'extract') for v, n in parts):
        r = type([v for v, n in parts if hasattr(v, 'extract')][0]).concat(parts)
        if r is not None:
            return r
        raise Unsupported('concat of abstract values')
    if any(isinstance(v, Anf) for v, n in parts):
        bits = []
        for v, n in parts:
            bits += to_anf(v, n).bits
        return anf_norm(Anf(bits))
    if any(v is UNDEF for v, n in parts):
        if all(v is UNDEF for v, n in parts):
            return UNDEF
        raise Unsupported('partially uninitialised read')
    # adjacent slices of one term are put together again (z3 pushes low slices through additions)
    out = [parts[0]]
    for v, n in parts[1:]:
        w, m = out[-1]
        if z3.is_expr(v) and z3.is_app_of(v, z3.Z3_OP_EXTRACT) and z3.is_bv(w):
            hi, lo = v.params()
            if lo >= m:
                t = v.arg(0)
                if z3.simplify(z3.Extract(lo - 1, lo - m, t)).eq(z3.simplify(w)):
                    out[-1] = (simp(z3.Extract(hi, lo - m, t)), n + m)
                    continue
        out.append((v, n))
    if len(out) == 1:
        return out[0][0]
    return simp(z3.Concat(*[bv(v, n) for v, n in reversed(out)]))


def ite(c, a, b, n=None):
    """c: condition value (int, z3 Bool, Anf 1 bit)."""
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.same(b):
            return a
        raise Unsupported('merge of distinct pointers')
    if isinstance(a, list) and isinstance(b, list):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Fn) and a == b:
        return a
    if isinstance(c, Anf):
        cb = c.bits[0]
        if n is None:
            n = len(a) if isinstance(a, Anf) else len(b) if isinstance(b, Anf) else None
            if n is None:
                n = max(a.bit_length(), b.bit_length(), 1) if isinstance(a, int) and isinstance(b, int) else None
            if n is None:
                raise Unsupported('ANF ite')
        A, B = to_anf(a, n).bits, to_anf(b, n).bits
        return anf_norm(Anf([y ^ p_mul(cb, x ^ y) for x, y in zip(A, B)]))
    if isinstance(c, AnfZero):
        raise Unsupported('merge on wide ANF condition')
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, Anf) or isinstance(b, Anf):
        raise Unsupported('ite mixing')
    if hasattr(a, 'extract') or hasattr(b, 'extract'):
        raise Unsupported('ite of abstract values')
    if z3.is_expr(a) and z3.is_expr(b) and a.sort().eq(b.sort()):
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if n is None:
            raise Unsupported('ite width')
        if n == 1:
            return simp(z3.If(c, z3.BoolVal(bool(a)), z3.BoolVal(bool(b))))
        return ('K', c, a, b, n)
    x = a if z3.is_expr(a) else b
    if is_bv(x):
        return z3.If(c, bv(a, x.size()), bv(b, x.size()))
    if is_bool(x):
        return z3.If(c, to_bool(a), to_bool(b))
    if is_int(x) and n:
        return z3.If(c, to_int(a, n), to_int(b, n))
    if is_real(x):
        return z3.If(c, z3.RealVal(a) if not z3.is_expr(a) else a, z3.RealVal(b) if not z3.is_expr(b) else b)
    raise Unsupported('ite(%r,%r)' % (a, b))
