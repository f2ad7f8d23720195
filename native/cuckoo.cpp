// C14, C15, C16, C24: the hasher against a reference built on AES-ECB
#include "nt.h"
#include <cmath>
#include <map>
#include <omp.h>
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
using nt::u128;
typedef std::unique_ptr<CuckooHasher> HP;
static HP make(u128 seed, int h, double sec) {
  auto r = CuckooHasher::Create(absl::uint128(seed), h, sec);
  NT_CHECK(r.ok() == (h >= 1), "Create with %d hash functions: ok=%d", h, r.ok());
  if (!r.ok()) return nullptr;
  return std::move(r).ValueOrDie();
}
static u128 aes(u128 key, u128 z) {
  AES_KEY k;
  AES_set_encrypt_key((const uint8_t*)&key, 128, &k);
  u128 o;
  AES_encrypt((const uint8_t*)&z, (uint8_t*)&o, &k);
  return o ^ z;
}
template <class T> u128 val(const T& x) { return (u128)absl::uint128(x); }
static int64_t bucket(u128 seed, u128 x, int64_t n, int j) {
  u128 h = aes(seed, x);
  if (j) h = aes(seed, h ^ (u128)j);
  return (int64_t)(h % (u128)n);
}
template <class T> std::vector<T> inputs(const std::string& kind, long n, uint64_t s) {
  std::mt19937_64 g(s);
  std::vector<T> v(n);
  for (long i = 0; i < n; i++) {
    u128 x = kind == "seq" ? (u128)i : kind == "dup" ? (u128)(g() % (n / 2 + 1)) : kind == "neg" ? (u128)(T)(-1 - i) : ((u128)g() << 64 | g()) >> (g() % 128);
    v[i] = T(absl::uint128(x));
  }
  return v;
}
// case: T seed h n buckets sec kind inputseed threads
template <class T> void hash(const nt::Case& c) {
  u128 seed = nt::unhex(c[1]);
  int h = nt::tonum(c[2]);
  long n = nt::tonum(c[3]), b = nt::tonum(c[4]);
  double sec = atof(c[5].c_str());
  HP p = make(seed, h, sec);
  if (!p) return;
  auto in = inputs<T>(c[6], n, nt::tonum(c[7]));
  omp_set_num_threads(nt::tonum(c[8]));
  auto sp = absl::MakeConstSpan(in);
#if PROP == 24
  for (int rep = 0; rep < 2; rep++) {
    auto r = p->Hash(sp, b);
    NT_CHECK(r.ok() == (b >= 1), "Hash with %ld buckets: ok=%d", b, r.ok());
    if (!r.ok()) { NT_CHECK(r.status().error_code() == mpc_utils::StatusCode::INVALID_ARGUMENT, "Hash: wrong error code"); continue; }
    auto& o = r.ValueOrDie();
    NT_CHECK((long)o.size() == n, "Hash: %zu entries for %ld inputs", o.size(), n);
    for (long i = 0; i < n; i++) {
      NT_CHECK((int)o[i].size() == h, "Hash: %zu buckets for input %ld with %d hash functions", o[i].size(), i, h);
      for (int j = 0; j < h; j++) {
        int64_t w = bucket(seed, val(in[i]), b, j);
        NT_CHECK(o[i][j] == w, "input %ld, hash function %d: bucket %lld, want %lld", i, j, (long long)o[i][j], (long long)w);
      }
    }
    // other calls in between change nothing
    auto r2 = p->Hash(sp.subspan(n / 2), b + 1);
    NT_CHECK(r2.ok(), "Hash of a part failed");
    for (long i = n / 2; i < n; i++) for (int j = 0; j < h; j++) {
      int64_t w = bucket(seed, val(in[i]), b + 1, j);
      NT_CHECK(r2.ValueOrDie()[i - n / 2][j] == w, "part: input %ld, hash function %d: bucket %lld, want %lld", i, j, (long long)r2.ValueOrDie()[i - n / 2][j], (long long)w);
    }
  }
#elif PROP == 14
  auto r = p->HashCuckoo(sp, b);
  if (n > b || b <= 0 || h == 1) {
    NT_CHECK(!r.ok(), "HashCuckoo accepts %ld inputs, %ld buckets, %d hash functions", n, b, h);
    NT_CHECK(r.status().error_code() == mpc_utils::StatusCode::INVALID_ARGUMENT, "HashCuckoo: wrong error code");
    return;
  }
  if (!r.ok()) {
    NT_CHECK(n > 1 || sec + std::log2((double)h) + std::log2((double)b) > 127.9, "HashCuckoo fails for %ld inputs in %ld buckets", n, b);
    return;
  }
  auto& o = r.ValueOrDie();
  NT_CHECK((long)o.size() == b, "HashCuckoo: %zu entries for %ld buckets", o.size(), b);
  std::vector<int> seen(n);
  for (long k = 0; k < b; k++) {
    int64_t i = o[k];
    NT_CHECK(i >= -1 && i < n, "bucket %ld holds %lld", k, (long long)i);
    if (i < 0) continue;
    NT_CHECK(!seen[i]++, "input %lld is in two buckets", (long long)i);
    bool ok = false;
    for (int j = 0; j < h && !ok; j++) ok = bucket(seed, val(in[i]), b, j) == k;
    NT_CHECK(ok, "input %lld is in bucket %ld, which no hash function assigns to it", (long long)i, k);
  }
  for (long i = 0; i < n; i++) NT_CHECK(seen[i], "input %ld is in no bucket", i);
#elif PROP == 15
  double bits = sec + std::log2((double)n) + std::log2((double)h) + std::log2((double)b);
  auto r = p->HashSimple(sp, b);
  if (b <= 0) { NT_CHECK(!r.ok(), "HashSimple accepts %ld buckets", b); return; }
  if (!r.ok()) { NT_CHECK(bits > 127.999, "HashSimple fails for %ld inputs, %ld buckets", n, b); return; }
  auto& o = r.ValueOrDie();
  NT_CHECK((long)o.size() == b, "HashSimple: %zu buckets, want %ld", o.size(), b);
  std::vector<std::vector<int64_t>> want(b);
  for (long i = 0; i < n; i++) for (int j = 0; j < h; j++) want[bucket(seed, val(in[i]), b, j)].push_back(i);
  for (long k = 0; k < b; k++) {
    NT_CHECK(o[k].size() == want[k].size(), "bucket %ld has %zu entries, want %zu (%s threads)", k, o[k].size(), want[k].size(), c[8].c_str());
    for (size_t i = 0; i < o[k].size(); i++) NT_CHECK(o[k][i] == want[k][i], "bucket %ld, position %zu: input %lld, want %lld (%s threads)", k, i, (long long)o[k][i], (long long)want[k][i], c[8].c_str());
  }
#endif
}
#if PROP == 16
static void run(const nt::Case& c) {
  int h = nt::tonum(c[0]);
  double sec = atof(c[1].c_str());
  long long n = nt::tonum(c[2]);
  HP p = make(5, h, sec);
  nt::case_limit_s = 20;
  auto r = p->GetOptimalNumberOfBuckets(n);
  bool want = n >= 0 && (n == 0 || h == 2 || h == 3);
  if (n == 0) { NT_CHECK(!r.ok() || r.ValueOrDie() > 0, "0 inputs: %lld buckets", (long long)r.ValueOrDie()); if (h == 2 || h == 3) NT_CHECK(r.ok(), "0 inputs are rejected"); return; }
  NT_CHECK(r.ok() == want, "GetOptimalNumberOfBuckets: ok=%d want %d", r.ok(), want);
  if (r.ok()) NT_CHECK(r.ValueOrDie() >= n, "%lld buckets for %lld inputs", (long long)r.ValueOrDie(), n);
}
static void gen(std::function<bool(const nt::Case&)> emit) {
  for (;;) {
    int h = nt::rng() % 5 ? 2 + nt::rng() % 2 : 1 + nt::rng() % 7;
    double sec = nt::rng() % 2 ? 40 : h == 2 ? 40 + nt::rng() % 401 / 10.0 : 40 + nt::rng() % 881 / 10.0;
    long long n = nt::rng() % 5 ? (nt::rng() % 3 ? nt::rng() >> (24 + nt::rng() % 40) : nt::rng() % 200) : nt::rng() % 4 ? (1LL << nt::rng() % 41) - 1 + nt::rng() % 3 : -(long long)(nt::rng() >> (1 + nt::rng() % 63));
    if (n > 1LL << 40) n = 1LL << 40;
    if (h == 2 && n > 0 && n < 4) sec = 40 + nt::rng() % 101 / 10.0;
    if (!emit({nt::num(h), std::to_string(sec), nt::num(n)})) return;
  }
}
#else
static void run(const nt::Case& c) {
  if (c[0] == "i64") hash<int64_t>(c);
  else if (c[0] == "u128") hash<absl::uint128>(c);
  else if (c[0] == "u32") hash<uint32_t>(c);
  else if (c[0] == "u64") hash<uint64_t>(c);
  else if (c[0] == "u8") hash<uint8_t>(c);
}
static void gen(std::function<bool(const nt::Case&)> emit) {
  static const std::vector<std::string> T = {"i64", "u128", "u32", "u64", "u8"}, K = {"seq", "rnd", "dup", "neg", "rnd", "rnd"};
  for (int round = 0;; round++) {
    long n = nt::rng() % 8 ? nt::rng() % 40 : nt::rng() % (round % 50 ? 300 : 5000);
    long b;
    switch (nt::rng() % 8) {
      case 0: b = n; break;
      case 1: b = n + 1 + nt::rng() % 3; break;
      case 2: b = nt::rng() % (n + 2) - 1; break;
      case 3: b = 3 * n + 1; break;
      case 4: b = PROP == 24 ? (long)(nt::rng() >> (1 + nt::rng() % 62)) : 1 + nt::rng() % 100; break;
      default: b = n + n / 4 + 1;
    }
    if (PROP == 24 && b == INT64_MAX) b--;
    if (nt::rng() % 50 == 0) b = -(long)(nt::rng() % 5);
    int h = nt::rng() % 4 ? 2 + nt::rng() % 3 : 1 + nt::rng() % 9;
    if (nt::rng() % 60 == 0) h = -(int)(nt::rng() % 3);
    double sec = nt::rng() % 3 ? 40 : nt::rng() % 140;
    if (!emit({T[nt::rng() % 5], nt::hex(nt::edge128()), nt::num(h), nt::num(n), nt::num(b), std::to_string(sec), K[nt::rng() % 6], nt::num(nt::rng() % 1000000), nt::num(nt::rng() % 3 ? 1 + nt::rng() % 17 : 8)})) return;
  }
}
#endif
NT_MAIN(run, gen)
