// C01..C04: gf128 against a bit-serial oracle
#include "nt.h"
#include <iostream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "absl/hash/hash.h"
#include "distributed_vector_ole/gf128.h"
using distributed_vector_ole::gf128;
using nt::u128;
using nt::hex;

static u128 omul(u128 a, u128 b) {
  u128 r = 0;
  for (int i = 127; i >= 0; i--) {
    r = (r << 1) ^ ((r >> 127) ? u128(0x87) : u128(0));
    if ((b >> i) & 1) r ^= a;
  }
  return r;
}
static gf128 G(u128 a) { return gf128(absl::uint128(a)); }
static u128 U(const gf128& x) { return u128(static_cast<absl::uint128>(x)); }
#define EQ(what, got, want) do { u128 g_ = (got), w_ = (want); if (g_ != w_) nt::fail("%s: got %s want %s", what, hex(g_).c_str(), hex(w_).c_str()); } while (0)
#define EQB(what, got, want) do { bool g_ = (got), w_ = (want); if (g_ != w_) nt::fail("%s: got %d want %d", what, g_, w_); } while (0)

static void run(const nt::Case& c) {
  const std::string& op = c[0];
  u128 a = nt::unhex(c[1]), b = c.size() > 2 ? nt::unhex(c[2]) : 0;
  gf128 x = G(a), y = G(b);
#if PROP == 1
  if (op == "mul") { gf128 z = x * y; EQ("a*b", U(z), omul(a, b)); EQ("a after a*b", U(x), a); EQ("b after a*b", U(y), b); }
  if (op == "muleq") { gf128& z = (x *= y); EQB("a*=b returns a", &z == &x, true); EQ("a*=b", U(x), omul(a, b)); EQ("b after a*=b", U(y), b); }
  if (op == "mulself") { gf128 z = x * x; EQ("a*a", U(z), omul(a, a)); EQ("a after a*a", U(x), a); }
  if (op == "muleqself") { x *= x; EQ("a*=a", U(x), omul(a, a)); }
  if (op == "square") { x.square(); EQ("a.square()", U(x), omul(a, a)); }
  if (op == "squared") { gf128 z = x.squared(); EQ("a.squared()", U(z), omul(a, a)); EQ("a after a.squared()", U(x), a); }
#elif PROP == 2
  if (op == "add") {
    EQ("a+b", U(x + y), a ^ b); EQ("a-b", U(x - y), a ^ b); EQ("a after +,-", U(x), a); EQ("b after +,-", U(y), b);
    EQ("a+a", U(x + x), 0); EQ("a-a", U(x - x), 0);
    gf128 s = G(a); EQB("+= returns a", &(s += y) == &s, true); EQ("a+=b", U(s), a ^ b); EQ("b after +=", U(y), b);
    gf128 d = G(a); EQB("-= returns a", &(d -= y) == &d, true); EQ("a-=b", U(d), a ^ b); EQ("b after -=", U(y), b);
    gf128 e = G(a); e += e; EQ("a+=a", U(e), 0);
    gf128 f = G(a); f -= f; EQ("a-=a", U(f), 0);
    EQ("-a", U(-x), a); EQ("a after -a", U(x), a);
  }
  if (op == "cmp") {
    EQB("a==b", x == y, a == b); EQB("a!=b", x != y, a != b); EQB("a==a", x == x, true); EQB("a!=a", x != x, false);
    EQB("a.is_zero()", x.is_zero(), a == 0); EQ("a after compare", U(x), a); EQ("b after compare", U(y), b);
  }
#elif PROP == 3
  if (op == "inv") {
    gf128 z = x.inverse();
    EQ("a after inverse()", U(x), a);
    if (a == 0) EQ("inverse of zero", U(z), 0);
    else EQ("a * a.inverse()", omul(a, U(z)), 1);
  }
#elif PROP == 4
  uint64_t hi = a >> 64, lo = a;
  EQ("(high,low) constructor", U(gf128(hi, lo)), a);
  EQ("low word constructor", U(gf128(lo)), lo);
  EQ("128-bit constructor", U(x), a);
  EQ("zero()", U(gf128::zero()), 0); EQ("one()", U(gf128::one()), 1); EQ("default", U(gf128()), 0);
  EQ("multiplicative_generator", U(gf128::multiplicative_generator), 2);
  auto w = x.as_words();
  EQ("as_words().size()", w.size(), 2); EQ("as_words()[0]", w[0], lo); EQ("as_words()[1]", w[1], hi);
  {
    std::stringstream s, t;
    { boost::archive::text_oarchive o(s); const gf128& cx = x; o << cx; }
    { boost::archive::binary_oarchive o(t); const gf128& cx = x; o << cx; }
    gf128 p = G(b), q = G(b);
    { boost::archive::text_iarchive i(s); i >> p; }
    { boost::archive::binary_iarchive i(t); i >> q; }
    EQ("text serialization", U(p), a); EQ("binary serialization", U(q), a);
  }
  {
    std::ostringstream s, t;
    s << x; t << "gf128(" << absl::uint128(a) << ")";
    NT_CHECK(s.str().find([&] { std::ostringstream n; n << absl::uint128(a); return n.str(); }()) != std::string::npos, "printed %s, value is %s", s.str().c_str(), t.str().c_str());
  }
  EQB("hash of equal values", absl::Hash<gf128>()(G(a)) == absl::Hash<gf128>()(x), true);
  if (a != b) EQB("hash depends on the value", absl::Hash<gf128>()(x) == absl::Hash<gf128>()(y), false);
#endif
}
static void gen(std::function<bool(const nt::Case&)> emit) {
  std::vector<std::string> ops =
#if PROP == 1
      {"mul", "muleq", "mulself", "muleqself", "square", "squared"};
#elif PROP == 2
      {"add", "cmp"};
#elif PROP == 3
      {"inv"};
#else
      {"conv"};
#endif
  auto one = [&](u128 a, u128 b) { for (auto& o : ops) if (!emit({o, hex(a), hex(b)})) return false; return true; };
  for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) if (PROP < 3 || j == 0) if (!one(u128(1) << i, u128(1) << j)) return;
  for (u128 a : {u128(0), u128(1), u128(2), ~u128(0), u128(~0ull), ~u128(~0ull)}) for (u128 b : {u128(0), u128(1), ~u128(0), u128(~0ull), ~u128(~0ull)}) if (!one(a, b)) return;
  for (;;) {
    u128 a = nt::edge128(), b = nt::edge128();
    switch (nt::rng() % 6) {
      case 0: b = a ^ (u128(1) << nt::rng() % 128); break;
      case 1: b = a; break;
      case 2: b = (a << 64) | (a >> 64); break;
      case 3: b = (a & ~u128(~0ull)) | (b & u128(~0ull)); break;
    }
    if (nt::evaluations > 3000000 || !one(a, b)) return;
  }
}
NT_MAIN(run, gen)
