"""C04: conversions between gf128 and its external representations."""
from gfcommon import *

FUNCTIONS = ['gf128::gf128()', 'gf128::gf128(uint64_t)', 'gf128::gf128(uint64_t, uint64_t)', 'gf128::gf128(absl::uint128)',
             'gf128::operator absl::uint128', 'gf128::as_words', 'gf128::serialize', 'AbslHashValue(H, const gf128&)', 'gf128::zero', 'gf128::one',
             'gf128::multiplicative_generator (dynamic initialiser)', 'operator<<(std::ostream&, gf128)']
ASSUMPTIONS = ['boost archives and absl::Hash are represented by an archive / hash state that records exactly what gf128 hands to it',
               'operator<<(std::ostream&, absl::uint128) prints the value it is given']
TRUSTED = ['std::vector<uint64_t> of libstdc++ is executed from its own headers; operator new returns fresh memory']
H = PRE + r'''
#include <type_traits>
extern "C" void v_out(const char* p, unsigned long n);
namespace v {
template <class T> struct bytes_of { static constexpr bool ok = std::is_trivially_copyable<T>::value; };
struct Out {
  unsigned char buf[64]; unsigned long pos = 0;
  template <class T> Out& operator&(const T& t) { static_assert(!std::is_class<T>::value || std::is_same<T, absl::uint128>::value, ""); __builtin_memcpy(buf + pos, &t, sizeof t); pos += sizeof t; return *this; }
  template <class T> Out& operator<<(const T& t) { return *this & t; }
};
struct In {
  const unsigned char* buf; unsigned long pos = 0;
  template <class T> In& operator&(T& t) { static_assert(!std::is_class<T>::value || std::is_same<T, absl::uint128>::value, ""); __builtin_memcpy(&t, buf + pos, sizeof t); pos += sizeof t; return *this; }
  template <class T> In& operator>>(T& t) { return *this & t; }
};
struct HS {
  unsigned char buf[64]; unsigned long pos;
  template <class T> static HS put(HS h, const T& t) { static_assert(!std::is_class<T>::value, ""); __builtin_memcpy(h.buf + h.pos, &t, sizeof t); h.pos += sizeof t; return h; }
  static HS combine(HS h) { return h; }
  template <class T, class... R> static HS combine(HS h, const T& t, const R&... r) { return combine(put(std::move(h), t), r...); }
};
}  // namespace v
extern "C" {
void h_u128(const u128* a, u128* r) { gf128 x{absl::uint128(*a)}; *r = U(x); }
void h_words2(const u128* a, u128* r) { gf128 x((unsigned long)(*a >> 64), (unsigned long)*a); *r = U(x); }
void h_low(const u128* a, u128* r) { gf128 x((unsigned long)*a); *r = U(x); }
void h_default(const u128* a, u128* r) { gf128 x; *r = U(x); }
void h_copy(const u128* a, u128* r) { gf128 x = G(a); gf128 y(x); gf128 z(0); z = y; *r = U(z); }
void h_zero(const u128* a, u128* r) { *r = U(gf128::zero()); }
void h_one(const u128* a, u128* r) { *r = U(gf128::one()); }
void h_gen(const u128* a, u128* r) { *r = U(gf128::multiplicative_generator); }
void h_as_words(const u128* a, u128* r, unsigned long* n) { const gf128 x = G(a); std::vector<unsigned long> w = x.as_words(); *n = w.size(); *r = ((u128)w[1] << 64) | w[0]; }
void h_ser(const u128* a, const u128* b, u128* r, u128* a2, unsigned long* n) {
  gf128 x = G(a), y = G(b); v::Out o; x.serialize(o, 0); *n = o.pos; v::In i; i.buf = o.buf; y.serialize(i, 0); *r = U(y); *a2 = U(x);
}
void h_hash(const u128* a, const u128* b, unsigned char* p, unsigned char* q, unsigned long* np, unsigned long* nq) {
  gf128 x = G(a), y = G(b); v::HS s; s.pos = 0; v::HS t; t.pos = 0;
  v::HS s2 = AbslHashValue(std::move(s), x); v::HS t2 = AbslHashValue(std::move(t), y);
  *np = s2.pos; *nq = t2.pos; __builtin_memcpy(p, s2.buf, 16); __builtin_memcpy(q, t2.buf, 16);
}
void h_print(const u128* a, std::ostream* o) { *o << G(a); }
}
'''
A, B = z3.BitVec('a', 128), z3.BitVec('b', 128)


def case_for(build):
    def case(m):
        return ('gf_' + build, 'conv', hexv(m.eval(A, model_completion=True).as_long()), hexv(m.eval(B, model_completion=True).as_long()))
    return case


def new_exec(ctx, m):
    ex = ctx.exec(m)
    ex.on(r'^operator new\(unsigned long\)$', lambda e, st, a, d: Ptr(e.new_obj('heap', a[0] if isinstance(a[0], int) else None)))
    ex.on(r'^operator delete\(', lambda e, st, a, d: None)
    ex.on(r'^std::__throw_', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('throw', d)))
    return ex


def simple(ctx, m, build, fn, spec):
    ex = new_exec(ctx, m)
    st = State()
    if fn == 'h_gen':
        for f in m.find(r'^_GLOBAL__sub_I_'):
            (st, _), = ex.call_fn(f, [], st)
    a, r = obj(ex, st, 'a', A), obj(ex, st, 'r')
    res = run_h(ex, fn, [a, r], st)
    ctx.cover(fn, len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, '%s/%s: value' % (build, fn), s, bv(get(ex, s, r), 128) == spec, case=case_for(build))
    ctx.absorb(ex, case_for(build))


def words(ctx, m, build):
    ex = new_exec(ctx, m)
    st = State()
    a, r, n = obj(ex, st, 'a', A), obj(ex, st, 'r'), obj(ex, st, 'n', None, 64)
    res = run_h(ex, 'h_as_words', [a, r, n], st)
    ctx.cover('as_words', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, build + '/as_words: two words', s, bv(get(ex, s, n, 64), 64) == 2)
        ctx.prove(ex, build + '/as_words: little-endian words of the value', s, bv(get(ex, s, r), 128) == A, case=case_for(build))
    ctx.absorb(ex, case_for(build))


def ser(ctx, m, build):
    ex = new_exec(ctx, m)
    st = State()
    a, b = obj(ex, st, 'a', A), obj(ex, st, 'b', B)
    r, a2, n = obj(ex, st, 'r'), obj(ex, st, 'a2'), obj(ex, st, 'n', None, 64)
    res = run_h(ex, 'h_ser', [a, b, r, a2, n], st)
    ctx.cover('serialize', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, build + '/serialize: loading what was saved gives the value', s, bv(get(ex, s, r), 128) == A, case=case_for(build))
        ctx.prove(ex, build + '/serialize: saving leaves the element unchanged', s, bv(get(ex, s, a2), 128) == A, case=case_for(build))
    ctx.absorb(ex, case_for(build))


def hsh(ctx, m, build):
    ex = new_exec(ctx, m)
    st = State()
    a, b = obj(ex, st, 'a', A), obj(ex, st, 'b', B)
    p, q = obj(ex, st, 'p'), obj(ex, st, 'q')
    np_, nq = obj(ex, st, 'np', None, 64), obj(ex, st, 'nq', None, 64)
    res = run_h(ex, 'h_hash', [a, b, p, q, np_, nq], st)
    ctx.cover('hash', len(res) > 0)
    for s, _ in res:
        n1 = get(ex, s, np_, 64)
        if n1 != 16 or get(ex, s, nq, 64) != 16:
            # fewer bytes than the value has cannot separate all values
            if isinstance(n1, int) and n1 < 16:
                ctx.check(build + '/hash: all 128 bits reach the hash state', False)
                continue
            raise Unsupported('hash record size')
        P, Q = bv(get(ex, s, p), 128), bv(get(ex, s, q), 128)
        ctx.prove(ex, build + '/hash: equal values record equal bits', s, z3.Implies(A == B, P == Q), case=case_for(build))
        ctx.prove(ex, build + '/hash: different values record different bits', s, z3.Implies(A != B, P != Q), case=case_for(build))
    ctx.absorb(ex, case_for(build))


def prt(ctx, m, build):
    ex = new_exec(ctx, m)
    st = State()
    a = obj(ex, st, 'a', A)
    o = obj(ex, st, 'ostream', None, 64)
    rec = []

    def str_(e, s, args, d):
        rec.append(('text',))
        return args[0]

    def val(e, s, args, d):
        v = concat([(args[1], 64), (args[2], 64)]) if len(args) == 3 else e.load(s, args[1], 128)
        rec.append(('value', bv(v, 128), s))
        return args[0]
    ex.on(r'operator<<.*\(std::(basic_)?ostream.*, char( const\*)?\)', str_)
    ex.on(r'^absl::(\w+::)?operator<<\(std::(basic_)?ostream.*, absl::(\w+::)?uint128\)', val)
    res = run_h(ex, 'h_print', [a, o], st)
    ctx.cover('operator<<', len(res) > 0)
    vals = [r for r in rec if r[0] == 'value']
    ctx.check(build + '/operator<<: prints one integer', len(vals) == 1 and len(res) == 1)
    for _, v, s in vals:
        ctx.prove(ex, build + '/operator<<: the printed integer is the value', s, v == A, case=case_for(build))
    ctx.absorb(ex, case_for(build))


def one(ctx, build, flags):
    m = ctx.ir(None, flags, name='c04_' + build, text=H)
    low = z3.ZeroExt(64, z3.Extract(63, 0, A))
    for fn, sp in (('h_u128', A), ('h_words2', A), ('h_low', low), ('h_default', z3.BitVecVal(0, 128)), ('h_copy', A),
                   ('h_zero', z3.BitVecVal(0, 128)), ('h_one', z3.BitVecVal(1, 128)), ('h_gen', z3.BitVecVal(2, 128))):
        ctx.group('%s/%s' % (build, fn), simple, ctx, m, build, fn, sp)
    ctx.group(build + '/as_words', words, ctx, m, build)
    ctx.group(build + '/serialize', ser, ctx, m, build)
    ctx.group(build + '/hash', hsh, ctx, m, build)
    ctx.group(build + '/print', prt, ctx, m, build)


def proof(ctx):
    ctx.parallel([(b, one, b, fl) for b, fl in BUILDS])


def native(ctx):
    gf_native(ctx, 4)
