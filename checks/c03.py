"""C03: inverse() is the multiplicative inverse.  operator*= is used through its contract (discharged here and in C01);
inverse() itself is executed on an abstract nonzero element el, values being c*el^e."""
import random
import c01
from gfcommon import *

FUNCTIONS = ['gf128::inverse() const', 'gf128::operator*=(const gf128&) (contract of C01)', 'gf128::square()', 'gf128::is_zero()']
ASSUMPTIONS = ['USE_ASM build: SSE2/PCLMUL intrinsics have the semantics of the Intel manual (as lowered by clang)']
N = (1 << 128) - 1
H = PRE + r'''
extern "C" {
void h_inv(const gf128* x, gf128* r) { gf128 z = x->inverse(); *r = z; }
void h_inv0(const u128* a, u128* r, u128* a2) { gf128 x = G(a); gf128 z = x.inverse(); *r = U(z); *a2 = U(x); }
void h_mul0(const u128* a, const u128* b, u128* r) { gf128 x = G(a), y = G(b); x *= y; *r = U(x); }
void h_rep(const u128* a, gf128* r) { *r = G(a); }
void h_unrep(const gf128* a, u128* r) { *r = U(*a); }
}
'''


def gpow(a, e):
    r = 1
    while e:
        if e & 1:
            r = mul_int(r, a)
        a = mul_int(a, a)
        e >>= 1
    return r


def ginv(a):
    return gpow(a, N - 1)


class Pow:
    """the 128-bit representation of c * el^e, or bits [lo, lo+n) of it (zero-extended to w bits)"""

    def __init__(self, c, e, lo=0, n=128):
        self.c, self.e, self.lo, self.n = c, e % N, lo, n

    def extract(self, lo, n):
        return Pow(self.c, self.e, self.lo + lo, n)

    @staticmethod
    def concat(parts):
        base = parts[0][0]
        if not isinstance(base, Pow):
            return None
        pos = base.lo
        for v, n in parts:
            if not isinstance(v, Pow) or (v.c, v.e) != (base.c, base.e) or v.lo != pos or v.n != n:
                return None
            pos += n
        return Pow(base.c, base.e, base.lo, pos - base.lo)

    def key(self):
        return (self.c, self.e, self.lo, self.n)

    def binop(self, ex, st, op, n, a, b):
        raise Unsupported('arithmetic on an abstract field element')

    def cast(self, ex, st, op, n, m):
        if op == 'trunc':
            return self.extract(0, m)
        raise Unsupported('cast of an abstract field element')

    def icmp(self, ex, st, pred, n, a, b):
        if pred not in ('eq', 'ne'):
            raise Unsupported('ordered comparison of abstract field elements')
        if isinstance(a, Pow) and isinstance(b, Pow) and a.key() == b.key():
            return int(pred == 'eq')
        k = []
        for x in (a, b):
            k.append(x.key() if isinstance(x, Pow) else ('int', x))
        k = tuple(sorted(k, key=str))
        if k not in ex.atoms:
            ex.atoms[k] = z3.Bool('eq%d' % len(ex.atoms))
            # the two words of a nonzero element are not both zero
            for x in (a, b):
                if isinstance(x, Pow) and x.n == 64:
                    z = [ex.atoms.get(tuple(sorted((Pow(x.c, x.e, lo, 64).key(), ('int', 0)), key=str))) for lo in (0, 64)]
                    if z[0] is not None and z[1] is not None:
                        ex.facts.append(z3.Not(z3.And(*z)))
            if any(isinstance(x, Pow) and x.n == 128 for x in (a, b)) and ('int', 0) in k:
                ex.facts.append(z3.Not(ex.atoms[k]))
        r = ex.atoms[k]
        return r if pred == 'eq' else simp(z3.Not(r))


def atom_val(k, el):
    v = []
    for x in k:
        v.append(x[1] if x[0] == 'int' else (mul_int(x[0], gpow(el, x[1])) >> x[2]) & mask(x[3]))
    return v[0] == v[1]


def linear_solutions(keys, rng, count=40):
    """elements el satisfying every equation among `keys` that is linear over GF(2) (exponents that are powers of two)"""
    rows = []
    for k in keys:
        cols, rhs, ok, n = [0] * 128, 0, True, 0
        for x in k:
            if x[0] == 'int':
                rhs ^= x[1]
                continue
            e = x[1] % N
            if e == 0 or e & (e - 1):
                ok = False
                break
            n = x[3]
            for i in range(128):
                cols[i] ^= (mul_int(x[0], gpow(1 << i, e)) >> x[2]) & mask(n)
        if not ok:
            continue
        for b in range(n):
            rows.append((sum(((cols[i] >> b) & 1) << i for i in range(128)), (rhs >> b) & 1))
    piv = {}
    for v, r in rows:
        for p, (pv, pr) in piv.items():
            if v >> p & 1:
                v, r = v ^ pv, r ^ pr
        if v == 0:
            if r:
                return []
            continue
        p = v.bit_length() - 1
        for q in list(piv):
            if piv[q][0] >> p & 1:
                piv[q] = (piv[q][0] ^ v, piv[q][1] ^ r)
        piv[p] = (v, r)
    out = []
    for _ in range(count):
        x = rng.getrandbits(128)
        for p in piv:
            x &= ~(1 << p)
        y = x
        for p, (v, r) in piv.items():
            if (bin(v & x).count('1') + r) & 1:
                y |= 1 << p
        out.append(y)
    return out


def field_facts(ctx):
    """x^128+x^7+x^2+x+1 is irreducible (Rabin's test): every nonzero element satisfies el^(2^128-1) = 1"""
    x = 2
    t = x
    for i in range(64):
        t = mul_int(t, t)
    half = t
    for i in range(64):
        t = mul_int(t, t)
    ctx.check('x^(2^128) = x modulo the field polynomial', t == x, 'gf2-polynomial', kind='lemma')
    f = (1 << 128) | 0x87
    a, b = f, half ^ x
    while b:
        while a and a.bit_length() >= b.bit_length():
            a ^= b << (a.bit_length() - b.bit_length())
        a, b = b, a
    ctx.check('gcd(x^(2^64) - x, field polynomial) = 1', a == 1, 'gf2-polynomial', kind='lemma')


def zero(ctx, build, flags):
    m = ctx.ir(None, flags, name='c03z_' + build, text=H)
    ex = ctx.exec(m)
    st = State()
    a, r, a2 = obj(ex, st, 'a', 0), obj(ex, st, 'r'), obj(ex, st, 'a2')
    res = run_h(ex, 'h_inv0', [a, r, a2], st)
    ctx.cover('inverse of zero returns', len(res) == 1)
    ctx.check(build + ': inverse of zero is zero', get(ex, res[0][0], r) == 0, case=('gf_' + build, 'inv', '0:0', '0:0'))
    ctx.absorb(ex)


def nonzero(ctx, build, flags):
    m = ctx.ir(None, flags, name='c03n_' + build, text=H)
    # the representation must be a plain 128-bit word for the abstract element below
    ex = ctx.exec(m)
    st = State()
    v = z3.BitVec('v', 128)
    a, r = obj(ex, st, 'a', v), obj(ex, st, 'r')
    (st, _), = run_h(ex, 'h_rep', [a, r], st)
    if not z3.is_true(z3.simplify(bv(get(ex, st, r), 128) == v)):
        raise Unsupported('gf128 is not stored as one little-endian 128-bit word')
    ctx.check(build + ': an element is stored as its 128-bit value', True, 'z3', kind='lemma')
    ex = ctx.exec(m)
    ex.atoms = {}
    st = State()
    el = ex.new_obj('el', 16)
    out = ex.new_obj('out', 16)
    ex.store(st, Ptr(el), 128, Pow(1, 1))

    def val(e, s, p):
        x = e.load(s, p, 128)
        if isinstance(x, int):
            return (x, 0)
        if isinstance(x, Pow) and x.lo == 0 and x.n == 128:
            return (x.c, x.e)
        raise Unsupported('partial field element')

    def mul(e, s, args, d):
        (c1, e1), (c2, e2) = val(e, s, args[0]), val(e, s, args[1])
        c, ee = mul_int(c1, c2), (e1 + e2) % N
        e.store(s, args[0], 128, 0 if c == 0 else c if ee == 0 else Pow(c, ee))
        return args[0]
    ex.on(r'gf128::operator\*=\(', mul)
    res = run_h(ex, 'h_inv', [el, out], st)
    ctx.cover('inverse of a nonzero element returns', len(res) > 0)
    rng = random.Random(ctx.seed)
    for s, _ in res:
        ctx.feasible(ex, 'path', s)
        after = get(ex, s, el)
        o = get(ex, s, out)
        oc = (o, 0) if isinstance(o, int) else (o.c, o.e)
        same = isinstance(after, Pow) and after.key() == (1, 1, 0, 128)
        ok = same and oc == (1, N - 1)
        name = build + ': inverse() = el^(2^128-2), el unchanged'
        if ok:
            ctx.check(name, True, 'exponent arithmetic modulo 2^128-1')
            continue
        # look for an element on this path whose inverse comes out wrong
        cand = [2, 3, 1, N, 1 << 127] + [rng.getrandbits(128) | 1 for _ in range(3)]
        for k in ex.atoms:
            for x, y in (k, k[::-1]):
                if x[0] != 'int' and y[0] == 'int' and x[0] == 1 and x[1] == 1:
                    for w in (0, 1, rng.getrandbits(128), rng.getrandbits(128)):
                        cand.append((w & ~(mask(x[3]) << x[2])) & mask(128) | y[1] << x[2])
                    for k2 in ex.atoms:
                        for x2, y2 in (k2, k2[::-1]):
                            if x2[0] == 1 and x2[1:2] == (1,) and y2[0] == 'int' and x2[2] != x[2]:
                                cand.append(y[1] << x[2] | y2[1] << x2[2])
        true_keys = [k for k, b in ex.atoms.items() if ex.check(ex.zpc(s) + [z3.Not(b)]) == z3.unsat]
        cand += linear_solutions(true_keys, rng)
        wit = None
        for e in cand:
            if e == 0 or e > N:
                continue
            sub = [(b, z3.BoolVal(atom_val(k, e))) for k, b in ex.atoms.items()]
            if not all(z3.is_true(z3.simplify(z3.substitute(c, *sub))) for c in ex.zpc(s)):
                continue
            got = mul_int(oc[0], gpow(e, oc[1]))
            aft = after if isinstance(after, int) else mul_int(after.c, gpow(e, after.e))
            if got != ginv(e) or aft != e:
                wit = e
                break
        if wit is not None:
            ctx.check(name, False, 'exponent arithmetic modulo 2^128-1', info='result is %x*el^%d' % oc, model='el=%x' % wit, case=('gf_' + build, 'inv', hexv(wit), '0:0'))
        elif not ex.zpc(s):
            ctx.check(name, False, 'exponent arithmetic modulo 2^128-1', info='result is %x*el^%d' % oc)
        else:
            ctx.record(name, 'unknown', 'exponent arithmetic', info='result is %x*el^%d on a conditional path' % oc)
    ctx.absorb(ex)


def proof(ctx):
    jobs = [('field', field_facts)]
    for b, fl in BUILDS:
        jobs += [(b + '/zero', zero, b, fl), (b + '/nonzero', nonzero, b, fl), (b + '/operator*=', c01.one, b, fl, 'h_muleq'),
                 (b + '/operator*= aliased', c01.one, b, fl, 'h_muleqself')]
    ctx.parallel(jobs)


def native(ctx):
    gf_native(ctx, 3)
