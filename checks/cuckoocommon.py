from aescommon import *

CLS = 'CuckooHasher'
I = z3.Int
UMOD = z3.Function('umod', z3.BitVecSort(128), z3.IntSort(), z3.IntSort())
MODT = 'absl::uint128 remainder: (h % n) is a function of h and n in [0, n) for 1 <= n < 2^63'
INNER = 'absl::debian3::InlinedVector<long, 3, std::allocator<long> >'
H = '''#include "distributed_vector_ole/cuckoo_hasher.cpp"
using namespace distributed_vector_ole;
#define INST(T) \\
template mpc_utils::StatusOr<std::vector<absl::InlinedVector<int64_t, 3>>> CuckooHasher::Hash<T, 3>(absl::Span<const T>, int64_t); \\
template mpc_utils::StatusOr<std::vector<std::vector<int64_t>>> CuckooHasher::HashSimple<T>(absl::Span<const T>, int64_t); \\
template mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo<T>(absl::Span<const T>, int64_t);
INST(int64_t)
INST(absl::uint128)
INST(uint32_t)
INST(uint64_t)
'''
TY = [('long', 8), ('absl::debian3::uint128', 16), ('unsigned int', 4), ('unsigned long', 8)]


def setup_c(ctx, m):
    ex, C, L = setup(ctx, m)
    C.layouts['long'] = (8, [((), 0, 8, z3.IntSort(), z3.IntVal(0))])
    C.layouts.pop('unsigned long', None)

    absl128(ex)
    m_ = m.members(CLS)
    return ex, C, L, m_


def as128(a):
    """a 128-bit value passed in registers"""
    if len(a) == 1:
        return bv(a[0], 128)
    return z3.simplify(z3.Concat(bv64(a[1]), bv64(a[0])))


def bv64(v):
    return I2B(64)(v) if is_int(v) else bv(v, 64)


def halves(v):
    return [simp(z3.Extract(63, 0, v)), simp(z3.Extract(127, 64, v))]


def i2b128(v, n, signed):
    """the 128-bit integer with the value of an n-bit integer"""
    if isinstance(v, int):
        return z3.BitVecVal(to_signed(v, n) if signed else v, 128)
    if is_bv(v):
        return z3.SignExt(128 - n, v) if signed else z3.ZeroExt(128 - n, v)
    return I2B(128)(v if signed else z3.If(v < 0, v + 2 ** n, v))


NB = {'int': (32, True), 'long': (64, True), 'unsigned int': (32, False), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False), 'bool': (1, False)}


def absl128(ex):
    """absl::uint128 by contracts"""
    U = 'absl::debian3::uint128'
    ld = lambda e, st, p: bv(e.load(st, p, 128), 128)

    def ctor(e, st, a, d):
        t = re.search(r'uint128\(([\w ]+)\)$', d).group(1)
        if t not in NB:
            return NotImplemented
        n, sg = NB[t]
        v = a[1]
        if is_int(v) and not sg and e.check([c for c in st.pc if z3.is_expr(c)] + [v < 0], 2000) == z3.unsat:
            sg = True
        e.store(st, a[0], 128, i2b128(v, n, sg))
    ex.on('^' + U + r'::uint128\([\w ]+\)$', ctor)

    def umod(e, st, a, d):
        k = len(a) // 2
        h, n = z3.simplify(as128(a[:k])), z3.simplify(as128(a[k:]))
        if z3.is_bv_value(n):
            n = z3.IntVal(n.as_long())
        elif z3.is_app(n) and n.decl().eq(I2B(128)):
            n = n.arg(0)
        else:
            raise Unsupported('remainder by something that is no positive integer')
        e.oblige('the divisor is positive', st, n > 0, kind='safety')
        r = UMOD(h, n)
        e.facts.append(z3.Implies(n > 0, z3.And(r >= 0, r < n)))
        return halves(I2B(128)(r))
    ex.on(r'^absl::debian3::operator%\(', umod)

    def binop(f):
        def g(e, st, a, d):
            k = len(a) // 2
            return halves(z3.simplify(f(as128(a[:k]), as128(a[k:]))))
        return g
    for o, f in (('\\^', lambda x, y: x ^ y), ('&', lambda x, y: x & y), ('\\|', lambda x, y: x | y), ('\\+', lambda x, y: x + y), ('-', lambda x, y: x - y)):
        ex.on(r'^absl::debian3::operator%s\(absl::debian3::uint128, absl::debian3::uint128\)' % o, binop(f))

        def assign(f):
            def g(e, st, a, d):
                e.store(st, a[0], 128, z3.simplify(f(ld(e, st, a[0]), as128(a[1:]))))
                return a[0]
            return g
        ex.on('^' + U + r'::operator%s=\(absl::debian3::uint128\)' % o, assign(f))

    def low(e, st, a, d):
        v = as128(a)
        if z3.is_app(v) and v.decl().eq(I2B(128)):
            return e.wrap(st, v.arg(0), 64)
        return simp(z3.Extract(63, 0, v))
    ex.on(r'^absl::debian3::Uint128Low64\(', low)
    ex.on(r'^absl::debian3::Uint128High64\(', lambda e, st, a, d: simp(z3.Extract(127, 64, as128(a))))
    conv = lambda e, st, a, d: low(e, st, [ld(e, st, a[0])], d)
    ex.on('^' + U + r'::operator (unsigned )?long( long)?\(\) const', conv)


def hval(key, z):
    return AES(key, z) ^ z


# the functions specified (and proved equal to these definitions) for HashToUint128 and HashToBucket of one hasher
HASH = z3.Function('H', z3.BitVecSort(128), z3.BitVecSort(128))
BUCKET = z3.Function('bucket', z3.BitVecSort(128), z3.IntSort(), z3.IntSort(), z3.IntSort())


class Hasher:
    def __init__(self, ctx, m):
        self.ctx = ctx
        self.ex, self.C, self.L, self.mem = setup_c(ctx, m)
        self.st = State()
        ex, st = self.ex, self.st
        self.p = Ptr(ex.new_obj('hasher'))
        self.key, self.h, self.sec = z3.Const('key', KEY), I('h'), z3.Real('security')
        ex.store(st, self.p.field(self.mem['expanded_seed_']), 8 * 244, self.key)
        ex.store(st, self.p.field(self.mem['num_hash_functions_']), 32, self.h)
        ex.store(st, self.p.field(self.mem['statistical_security_']), 64, self.sec)
        st.pc += [self.h >= 1, self.h < 2 ** 31]

    def inputs(self, t, n):
        """an input array of n elements of type t"""
        S = Ptr(self.ex.new_obj('inputs'))
        self.C.set_size(self.st, S, n)
        self.st.pc += [n >= 0, n < 2 ** 40]
        return S, self.C.elem(self.st, S, 0, t)


def cuckoo_native(ctx, prop, budget=10):
    ctx.native('cuckoo.cpp', ['cuckoo_hasher.cpp'], ['-DPROP=%d' % prop, '-fopenmp'], budget, name='cuckoo', libs=CRYPTO + ABSL)
