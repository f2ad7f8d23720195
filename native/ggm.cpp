// C11, C12, C13: GGM trees against a reference expansion
#include "nt.h"
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
using nt::u128;
typedef GGMTree::Block B;
static u128 prg(u128 key, u128 s) {
  AES_KEY k;
  AES_set_encrypt_key((const uint8_t*)&key, 128, &k);
  u128 o;
  AES_encrypt((const uint8_t*)&s, (uint8_t*)&o, &k);
  return o ^ s;
}
static std::vector<B> keys_of(uint64_t s, long n) {
  std::mt19937_64 g(s);
  std::vector<B> k;
  for (long i = 0; i < n; i++) k.push_back(absl::MakeUint128(g(), g()));
  return k;
}
static std::vector<B> words(const std::vector<B>& k) { return k; }
static std::string H(B b) { return nt::hex((u128)b); }
static B node(const GGMTree& t, int l, int64_t i) {
  auto r = t.GetValueAtNode(l, i);
  NT_CHECK(r.ok(), "GetValueAtNode(%d, %lld) fails", l, (long long)i);
  return r.ValueOrDie();
}
static void check_tree(const GGMTree& t, long arity, int64_t n, u128 seed, const std::vector<B>& keys) {
  NT_CHECK(t.arity() == arity, "arity() is %d", t.arity());
  NT_CHECK(t.num_leaves() == n, "num_leaves() is %lld", (long long)t.num_leaves());
  int L = t.num_levels();
  NT_CHECK(L >= 1, "no level");
  NT_CHECK(t.level_size(0) == 1, "the first level has %lld nodes", (long long)t.level_size(0));
  NT_CHECK(t.level_size(L - 1) == n, "the last level has %lld nodes", (long long)t.level_size(L - 1));
  NT_CHECK((long)t.keys().size() == arity && (long)t.expanded_keys().size() == arity, "wrong number of keys");
  for (long i = 0; i < arity; i++) NT_CHECK(t.keys()[i] == keys[i], "key %ld", i);
  NT_CHECK((u128)node(t, 0, 0) == seed, "the root is not the seed");
  for (int l = 0; l + 1 < L; l++) {
    int64_t a = t.level_size(l), b = t.level_size(l + 1);
    NT_CHECK(a == (b + arity - 1) / arity, "level %d has %lld nodes and level %d has %lld", l, (long long)a, l + 1, (long long)b);
    for (int64_t i = 0; i < b; i++) {
      u128 w = prg((u128)keys[i % arity], (u128)node(t, l, i / arity));
      NT_CHECK((u128)node(t, l + 1, i) == w, "level %d node %lld: got %s want %s", l + 1, (long long)i, H(node(t, l + 1, i)).c_str(), nt::hex(w).c_str());
    }
  }
  for (int64_t i = 0; i < n; i++) {
    auto r = t.GetValueAtLeaf(i);
    NT_CHECK(r.ok() && r.ValueOrDie() == node(t, L - 1, i), "GetValueAtLeaf(%lld)", (long long)i);
  }
}
// full arity leaves seed keyseed
static void full(const nt::Case& c) {
  long arity = nt::tonum(c[1]);
  int64_t n = nt::tonum(c[2]);
  u128 seed = nt::unhex(c[3]);
  auto keys = keys_of(nt::tonum(c[4]), arity);
  auto r = GGMTree::Create(n, absl::uint128(seed), keys);
  NT_CHECK(r.ok(), "Create fails");
  check_tree(*r.ValueOrDie(), arity, n, seed, keys);
  auto q = GGMTree::Create((int)arity, n, absl::uint128(seed));
  NT_CHECK(q.ok(), "Create (random keys) fails");
  std::vector<B> k2(q.ValueOrDie()->keys().begin(), q.ValueOrDie()->keys().end());
  check_tree(*q.ValueOrDie(), arity, n, seed, k2);
}
// part arity leaves seed keyseed missing fillseed
static void part(const nt::Case& c) {
  long arity = nt::tonum(c[1]);
  int64_t n = nt::tonum(c[2]), miss = nt::tonum(c[5]);
  u128 seed = nt::unhex(c[3]);
  auto keys = keys_of(nt::tonum(c[4]), arity);
  auto r = GGMTree::Create(n, absl::uint128(seed), keys);
  NT_CHECK(r.ok(), "Create fails");
  GGMTree& t = *r.ValueOrDie();
  int L = t.num_levels();
  auto x = t.GetSiblingWiseXOR();
  NT_CHECK((int)x.size() == L - 1, "%zu levels of XORs for %d levels", x.size(), L);
  std::mt19937_64 g(nt::tonum(c[6]));
  int64_t p = miss;
  std::vector<int64_t> path(L);
  for (int l = L - 1; l >= 0; l--) path[l] = p, p /= arity;
  for (int l = 0; l + 1 < L; l++) {
    NT_CHECK((long)x[l].size() == arity, "level %d has %zu XORs", l, x[l].size());
    std::vector<u128> w(arity, 0);
    for (int64_t i = 0; i < t.level_size(l + 1); i++) w[i % arity] ^= (u128)node(t, l + 1, i);
    for (long j = 0; j < arity; j++) NT_CHECK((u128)x[l][j] == w[j], "XOR of level %d position %ld: got %s want %s", l + 1, j, H(x[l][j]).c_str(), nt::hex(w[j]).c_str());
    x[l][path[l + 1] % arity] = absl::MakeUint128(g(), g());
  }
  auto s = GGMTree::CreateFromSiblingWiseXOR((int)arity, n, miss, x, keys);
  NT_CHECK(s.ok(), "CreateFromSiblingWiseXOR fails");
  GGMTree& u = *s.ValueOrDie();
  NT_CHECK(u.num_levels() == L && u.arity() == arity && u.num_leaves() == n, "dimensions of the reconstructed tree");
  for (int64_t i = 0; i < n; i++)
    if (i != miss) {
      auto v = u.GetValueAtLeaf(i);
      NT_CHECK(v.ok(), "GetValueAtLeaf(%lld) fails", (long long)i);
      NT_CHECK(v.ValueOrDie() == node(t, L - 1, i), "leaf %lld of the tree reconstructed without leaf %lld: got %s want %s", (long long)i, (long long)miss, H(v.ValueOrDie()).c_str(), H(node(t, L - 1, i)).c_str());
    }
}
template <class S> void want(const S& r, bool ok, const char* what) {
  NT_CHECK(r.ok() == ok, "%s: ok=%d, want %d", what, r.ok(), ok);
  if (!ok) NT_CHECK(r.status().error_code() == mpc_utils::StatusCode::INVALID_ARGUMENT, "%s: error code %d", what, (int)r.status().error_code());
}
static int levels(long arity, int64_t n) { int l = 1; while (n > 1) n = (n + arity - 1) / arity, l++; return l; }
// create arity leaves | makek nkeys leaves | recon arity leaves missing nxors xlen badlevel nkeys | query arity leaves level node
static void args(const nt::Case& c) {
  if (c[0] == "create") {
    long a = nt::tonum(c[1]);
    int64_t n = nt::tonum(c[2]);
    want(GGMTree::Create((int)a, n, B(7)), a >= 2 && n >= 1, "Create");
  } else if (c[0] == "makek") {
    long a = nt::tonum(c[1]);
    int64_t n = nt::tonum(c[2]);
    want(GGMTree::Create(n, B(7), keys_of(3, a)), a >= 2 && n >= 1, "Create");
  } else if (c[0] == "recon") {
    long a = nt::tonum(c[1]), nx = nt::tonum(c[4]), xl = nt::tonum(c[5]), bad = nt::tonum(c[6]), nk = nt::tonum(c[7]);
    int64_t n = nt::tonum(c[2]), m = nt::tonum(c[3]);
    std::vector<std::vector<B>> x(nx, std::vector<B>(a > 0 ? a : 0, B(5)));
    bool wrong = false;
    if (bad >= 0 && bad < nx) x[bad].assign(xl, B(9)), wrong = xl != a;
    auto k = keys_of(4, nk);
    bool pos = a >= 2 && n >= 1 && m >= 0 && m < n && !wrong && nk == a;
    bool ok = pos;
    if (pos) {  // the right number of levels is that of a created tree
      auto t = GGMTree::Create(n, B(1), k);
      NT_CHECK(t.ok(), "Create fails");
      ok = nx == t.ValueOrDie()->num_levels() - 1;
    }
    auto r = GGMTree::CreateFromSiblingWiseXOR((int)a, n, m, x, k);
    want(r, ok, "CreateFromSiblingWiseXOR");
    if (ok) for (int64_t i = 0; i < n; i++) NT_CHECK(r.ValueOrDie()->GetValueAtLeaf(i).ok(), "leaf %lld", (long long)i);
  } else {
    long a = nt::tonum(c[1]), l = nt::tonum(c[3]);
    int64_t n = nt::tonum(c[2]), i = nt::tonum(c[4]);
    auto t = GGMTree::Create((int)a, n, B(1));
    NT_CHECK(t.ok(), "Create fails");
    GGMTree& u = *t.ValueOrDie();
    want(u.GetValueAtNode((int)l, i), l >= 0 && l < u.num_levels() && i >= 0 && i < u.level_size((int)l), "GetValueAtNode");
    want(u.GetValueAtLeaf(i), i >= 0 && i < n, "GetValueAtLeaf");
  }
}
static void run(const nt::Case& c) {
  if (c[0] == "full") full(c);
  else if (c[0] == "part") part(c);
  else args(c);
}
static int64_t leaves(long a) {
  int64_t p = 1;
  switch (nt::rng() % 4) {
    case 0: return 1 + nt::rng() % 40;
    case 1: return 1 + nt::rng() % 600;
    default:
      while (nt::rng() % 5 && p * a <= 3000) p *= a;
      return std::max<int64_t>(1, p + (int64_t)(nt::rng() % 5) - 2);
  }
}
static void gen(std::function<bool(const nt::Case&)> emit) {
  using nt::num;
  long sweep = 0;
  for (;;) {
    long a = nt::rng() % 3 ? 2 + nt::rng() % 9 : 2 + nt::rng() % 100;
    int64_t n = leaves(a);
    if (sweep < 1500) { a = 2 + sweep % 12; n = 1 + sweep / 12; sweep++; }
    // exact powers, for which log() may overshoot the level count
    if (sweep >= 1500 && nt::rng() % 12 == 0) { a = 2 + nt::rng() % 70; n = a; while (n * a <= 400000 && nt::rng() % 4) n *= a; }
    if (nt::rng() % 500 == 0) n = 20000 + nt::rng() % 50000;
    std::string s = nt::hex(nt::edge128()), k = num(nt::rng() % 1000);
#if PROP == 11
    if (!emit({"full", num(a), num(n), s, k})) return;
#elif PROP == 12
    int64_t m[] = {0, n - 1, (int64_t)(nt::rng() % n), (int64_t)(nt::rng() % n)};
    for (auto x : m) if (!emit({"part", num(a), num(n), s, k, num(x), num(nt::rng() % 1000)})) return;
#else
    auto odd = [&](int64_t v) -> std::string {
      switch (nt::rng() % 9) { case 0: return num(v - 1); case 1: return num(v + 1); case 2: return num(-v); case 3: return "-1"; case 4: return "0"; case 5: return "-9223372036854775808"; case 6: return "-2147483648"; case 7: return num(v * 2 + 3); default: return num(v); }
    };
    auto small = [&](const std::string& x) { long v = nt::tonum(x); return v > 100000 ? num(17) : x; };
    if (!emit({"create", nt::rng() % 2 ? num(a) : num((int)nt::tonum(small(odd(a)))), nt::rng() % 2 ? num(n) : small(odd(n))})) return;
    if (!emit({"makek", num(nt::rng() % 4), small(odd(n))})) return;
    int L = levels(a, n);
    for (int w = 0; w < 7; w++) {
      std::string A = num(a), N = num(n), M = num(nt::rng() % n), X = num(L - 1), XL = num(a), bad = num(nt::rng() % (L + 1)), K = num(a);
      if (w == 1) A = num((int)nt::tonum(small(odd(a))));
      if (w == 2) N = small(odd(n));
      if (w == 3) M = odd(nt::rng() % 2 ? n : nt::rng() % n);
      if (w == 4) X = num(L - 1 + (long)(nt::rng() % 5) - 2);
      if (w == 5) XL = num(nt::rng() % (2 * a));
      if (w == 6) K = num(nt::rng() % 4 ? nt::rng() % (2 * a + 3) : 0);
      if (nt::tonum(X) < 0) X = "0";
      if (nt::tonum(A) > 5000) A = "5000";
      if (!emit({"recon", A, N, M, X, XL, bad, K})) return;
    }
    if (!emit({"query", num(a), num(n), num((int)nt::tonum(small(odd(nt::rng() % 2 ? L : nt::rng() % L)))), odd(nt::rng() % 2 ? n : nt::rng() % n)})) return;
#endif
  }
}
NT_MAIN(run, gen)
