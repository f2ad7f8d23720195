import os, sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
def stubs(*names):
    out = {}
    for r, _, fs in os.walk('/verif/stubs'):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), '/verif/stubs')
            if any(p.startswith(n) for n in names):
                out['stubs/' + p] = open(os.path.join(r, f)).read()
    return out
TWO = r'''
#include <any>
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>
#include <omp.h>
#include <boost/container/vector.hpp>
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "NTL/vec_ZZ_p.h"
#include "NTL/vec_lzz_p.h"
#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/str_cat.h"
#include "absl/types/optional.h"
#include "absl/types/span.h"
#include "emp-ot/emp-ot.h"
#define private public
#include HEADER
#undef private
using namespace distributed_vector_ole;
typedef absl::uint128 U128;
typedef NTL::ZZ_p ZZp;
// both parties against each other; false when one of them throws
template <class T, class A, class B> static bool both(A a, B b) {
  auto p = std::make_shared<mpc_utils::Pipe>(), q = std::make_shared<mpc_utils::Pipe>();
  comm_channel c0(0, 1, p, q), c1(1, 0, q, p);
  NTLContext<T> ctx;
  ctx.save();
  bool ok0 = false, ok1 = false;
  auto side = [&](comm_channel& c, auto f, bool& ok) {
    ctx.restore();
    omp_set_num_threads(1);
    try { f(&c); ok = true; } catch (const std::exception& x) { fprintf(stderr, "%s\n", x.what()); }
    c.abandon();
  };
  std::thread t([&] { side(c1, b, ok1); });
  side(c0, a, ok0);
  t.join();
  return ok0 && ok1;
}
static void okay(const mpc_utils::Status& s) { if (!s.ok()) throw std::runtime_error(std::string(s.message())); }
template <class S> static auto get(S s) { if (!s.ok()) throw std::runtime_error(std::string(s.status().message())); return std::move(s).ValueOrDie(); }
#define NO(...) do { printf(__VA_ARGS__); puts(""); return 1; } while (0)
'''
ALL = 'all_but_one_random_ot spfss_known_index scalar_vector_gilboa_product mpfss_known_indices distributed_vector_ole ggm_tree cuckoo_hasher aes_uniform_bit_generator gf128 internal/ntl_helpers'.split()
NEED = {'all_but_one_random_ot.h': (0, 5, 8, 9), 'spfss_known_index.h': (0, 1, 5, 8, 9), 'scalar_vector_gilboa_product.h': (2, 8, 9), 'mpfss_known_indices.h': (0, 1, 3, 5, 6, 7, 8, 9), 'distributed_vector_ole.h': tuple(range(10))}
def two(h):
    return dict(flags='-fopenmp -DUSE_ASM -DNDEBUG', srcs=' '.join('distributed_vector_ole/%s.cpp' % ALL[i] for i in NEED[h]), libs='-lntl -lgmp', inc='-I"$here/stubs" -I/usr/include/eigen3', extra=dict(stubs('mpc_utils', 'emp-ot'), **{'two.h': TWO.strip() + '\n'}))
def prog(h, body):
    return '#define HEADER "distributed_vector_ole/%s"\n#include "two.h"\n%s' % (h, body.strip())
OT, SP, GI, MP, VO = 'all_but_one_random_ot.h', 'spfss_known_index.h', 'scalar_vector_gilboa_product.h', 'mpfss_known_indices.h', 'distributed_vector_ole.h'
OTR = '''
template <class T> static int run(std::vector<int64_t> n, std::vector<int64_t> idx) {
  std::vector<std::vector<T>> a, b;
  for (auto k : n) a.push_back(std::vector<T>(k)), b.push_back(std::vector<T>(k));
  auto sp = [](std::vector<std::vector<T>>& o) { std::vector<absl::Span<T>> s; for (auto& v : o) s.push_back(absl::MakeSpan(v)); return s; };
  if (!both<T>([&](comm_channel* c) { auto p = get(AllButOneRandomOT::Create(c, 20)); auto s = sp(a); okay(p->RunSenderBatched<T>(absl::MakeSpan(s))); },
               [&](comm_channel* c) { auto p = get(AllButOneRandomOT::Create(c, 20)); auto s = sp(b); okay(p->RunReceiverBatched<T>(idx, absl::MakeSpan(s))); })) NO("fails");
  for (size_t i = 0; i < n.size(); i++) for (int64_t k = 0; k < n[i]; k++) if ((k == idx[i]) == (a[i][k] == b[i][k])) NO("output %zu position %ld of %ld", i, (long)k, (long)n[i]);
  return 0;
}
'''
mk('c17a', 'C17', [(OT, '''    if (num_leaves[i] == 0) {
      offsets[i + 1] = offsets[i];
      continue;
    }
    ASSIGN''', '''    if (num_leaves[i] == 0) {
      continue;
    }
    ASSIGN''')], 'a batch with an empty output that is followed and preceded by larger ones', 'the transfers of later trees overwrite those of earlier ones', prog(OT, OTR + '''
int main() { return run<uint64_t>({9, 0, 3}, {2, 0, 1}) || run<gf128>({5, 0, 0, 17, 1}, {4, 0, 0, 16, 0}); }'''), **two(OT))
mk('c17b', 'C17', [(OT, '''      std::log2(double(total_num_leaves)) + statistical_security_;''', '''      std::log2(double(total_num_leaves) / std::max(num_trees, 1)) +
      statistical_security_;''')], 'a modulus and statistical security that are enough for the largest tree but not for all trees together', 'a modulus is accepted without the security for all leaves', prog(OT, '''
int main() { // 128-bit hash into 63-bit modulus: about 65 bits; the trees together need more
  NTL::ZZ p = NTL::power2_ZZ(62) + NTL::power2_ZZ(61) + 1;
  NTL::ZZ_p::init(p);
  std::vector<int64_t> n(1 << 10, 4);
  bool sent = false;
  auto P = std::make_shared<mpc_utils::Pipe>(), Q = std::make_shared<mpc_utils::Pipe>();
  Q->dead = true;
  comm_channel c(0, 1, P, Q);
  for (double s = 30; s < 80; s += 1) {
    if (ScalarHelper<ZZp>::CanBeHashedInto(s + 12)) continue;
    auto ot = get(AllButOneRandomOT::Create(&c, s));
    bool ok;
    try { ok = ot->SendTrees<ZZp>(n, 2).ok(); } catch (const std::exception&) { ok = true; }
    if (ok) NO("accepted at %f", s);
  }
  return 0; }'''), **two(OT))
mk('c17c', 'C17', [('all_but_one_random_ot.cpp', '''    uint64_t index_bits = static_cast<uint64_t>(indices[i]);
    for (int j = 0; j < num_levels - 1; ++j) {
      choices[offsets[i] + num_levels - 2 - j] = (~index_bits >> j) & 1;
    }''', '''    uint16_t index_bits = static_cast<uint64_t>(indices[i]);
    for (int j = 0; j < num_levels - 1; ++j) {
      choices[offsets[i] + num_levels - 2 - j] = (~index_bits >> j) & 1;
    }''')], 'an index of at least 2^16', 'the choice bits of the upper levels do not follow the index', prog(OT, OTR + '''
int main() { return run<uint64_t>({70000}, {65600}); }'''), **two(OT))
SPR = '''
template <class T> static int run(std::vector<int64_t> n, std::vector<int64_t> idx, std::vector<T> x, std::vector<T> y) {
  std::vector<std::vector<T>> a, b;
  for (auto k : n) a.push_back(std::vector<T>(k)), b.push_back(std::vector<T>(k));
  auto sp = [](std::vector<std::vector<T>>& o) { std::vector<absl::Span<T>> s; for (auto& v : o) s.push_back(absl::MakeSpan(v)); return s; };
  if (!both<T>([&](comm_channel* c) { auto p = get(SPFSSKnownIndex::Create(c, 20)); auto s = sp(a); okay(p->RunValueProviderBatched<T>(x, absl::MakeSpan(s))); },
               [&](comm_channel* c) { auto p = get(SPFSSKnownIndex::Create(c, 20)); auto s = sp(b); okay(p->RunIndexProviderBatched<T>(y, idx, absl::MakeSpan(s))); })) NO("fails");
  for (size_t i = 0; i < n.size(); i++) for (int64_t k = 0; k < n[i]; k++) if (T(a[i][k] + b[i][k]) != (k == idx[i] ? T(x[i] + y[i]) : T(0))) NO("output %zu position %ld of %ld", i, (long)k, (long)n[i]);
  return 0;
}
'''
mk('c18a', 'C18', [(SP, '''    if (outputs[j].empty()) {
      continue;
    }''', '''    if (outputs[j].empty()) {
      break;  // Nothing left to do.
    }''')], 'a batch with an empty output before a non-empty one', 'outputs after an empty one keep the OT value at the chosen index', prog(SP, SPR + '''
int main() { return run<uint64_t>({3, 0, 4}, {1, 0, 3}, {5, 6, 7}, {1, 2, 3}) || run<gf128>({0, 8}, {0, 7}, {gf128(1), gf128(2)}, {gf128(9), gf128(4)}); }'''), **two(SP))
mk('c18b', 'C18', [(SP, '''    outputs[j][indices[j]] = sums[j] + sums_server[j];''', '''    outputs[j][indices[j]] =
        (val_shares[j] == T(0)) ? sums_server[j] : sums[j] + sums_server[j];''')], 'a value share of the index provider that is zero', 'the receiver\'s sum of leaves is left out', prog(SP, SPR + '''
int main() { return run<uint64_t>({3, 1, 4}, {1, 0, 3}, {5, 6, 7}, {1, 0, 3}) || run<uint64_t>({3, 1, 4}, {1, 0, 3}, {5, 6, 7}, {1, 4, 0}); }'''), **two(SP))
mk('c18c', 'C18', [(SP, '''        if (i != indices[j]) {
          sums_data[j] -= outputs[j][i];
        }''', '''        if (static_cast<int>(static_cast<uint16_t>(i)) !=
            static_cast<int>(static_cast<uint16_t>(indices[j]))) {
          sums_data[j] -= outputs[j][i];
        }''')], 'an output of more than 2^16 elements', 'positions congruent to the index modulo 2^16 are left out of the sum', prog(SP, SPR + '''
int main() { return run<uint64_t>({70000}, {7}, {5}, {1}) || run<uint64_t>({70000}, {65540}, {5}, {1}); }'''), **two(SP))
GIR = '''
template <class T> static int run(T x, std::vector<T> y, double sec = 10) {
  std::vector<T> a(y.size()), b(y.size());
  if (!both<T>([&](comm_channel* c) { auto p = get(ScalarVectorGilboaProduct::Create(c, sec)); okay(p->RunVectorProvider<T>(y, absl::MakeSpan(a))); },
               [&](comm_channel* c) { auto p = get(ScalarVectorGilboaProduct::Create(c, sec)); okay(p->RunValueProvider<T>(x, absl::MakeSpan(b))); })) NO("fails");
  for (size_t i = 0; i < y.size(); i++) if (T(a[i] + b[i]) != T(x * y[i])) NO("position %zu of %zu", i, y.size());
  return 0;
}
'''
mk('c19a', 'C19', [(GI, '''    boost::container::vector<bool> x_bits''', '''    boost::container::vector<bool> x_bits''')] if 0 else [(GI, '''      choices[(i / stride) * bit_width + j] = x_bits[j];''', '''      choices[(i / stride) * bit_width + j] = (j > 0 || i + stride <= y_len) ? x_bits[j] : false;''')],
   'a length that is no multiple of the packing factor and an odd scalar', 'the lowest bit of x is lost for the last, incomplete block', prog(GI, GIR + '''
int main() { return run<uint32_t>(7, {1, 2, 3, 4, 5, 6}) || run<uint8_t>(255, std::vector<uint8_t>(17, 3)); }'''), **two(GI))
mk('c19b', 'C19', [(GI, '''    if (UseCorrelatedOT<T>(size)) {
      return gilboa''', '''    if (UseCorrelatedOT<T>(deltas.size())) {
      return gilboa''')], 'a modulus close to the threshold, where the number of transfers and the number of elements decide differently', 'the two parties choose different oblivious transfers', prog(GI, GIR + '''
int main() {
  std::mt19937_64 g(1);
  for (int k = 30; k < 60; k += 3) { // a power of two minus a little: close to the hash range, so correlated OT is possible
    NTL::ZZ p = NTL::power2_ZZ(64) - NTL::power2_ZZ(k);
    NTL::ZZ_p::init(p);
    for (int s = 0; s < 40; s += 1) {
      std::vector<ZZp> y(5);
      for (auto& v : y) v = NTL::conv<ZZp>((long)(g() >> 1));
      if (run<ZZp>(NTL::conv<ZZp>((long)(g() >> 1)), y, s)) NO("2^64-2^%d security %d", k, s);
    }
  }
  return 0; }'''), **two(GI))
mk('c19c', 'C19', [('internal/gilboa_internal.h', '''    if (num_bits < 128) {
      current %= (absl::uint128(1) << num_bits);
    }''', '''    if (num_bits < 128) {
      current &= (absl::uint128(1) << std::min(num_bits, 120)) - 1;
    }''')] if 0 else [('internal/gilboa_internal.h', '''  for (int i = v.size() - 1; i >= 0; --i) {
    temp = v[i];
    temp *= multiplier;
    packed |= ScalarHelper<T>::ToUint128(temp);
    if (i > 0) {
      packed <<= ScalarHelper<T>::SizeOf() * 8;
    }
  }''', '''  for (int i = v.size() - 1; i >= 0; --i) {
    temp = v[i];
    if (temp == T(0)) {
      continue;  // Nothing to add.
    }
    temp *= multiplier;
    packed |= ScalarHelper<T>::ToUint128(temp);
    if (i > 0) {
      packed <<= ScalarHelper<T>::SizeOf() * 8;
    }
  }''')], 'a zero element in y in front of others of its block', 'the elements of a block move to other positions', prog(GI, GIR + '''
int main() { return run<uint32_t>(7, {1, 2, 3, 4, 5, 0, 6}) || run<uint64_t>(7, {0, 9}); }'''), **two(GI))
MPR = '''
template <class T> struct In { int64_t n; std::vector<int64_t> idx; };
// a history of runs on the same two objects
static int run(std::vector<In<uint64_t>> h, unsigned seed) {
  typedef uint64_t T;
  std::mt19937_64 g(seed);
  std::vector<std::vector<T>> a(h.size()), b(h.size()), y(h.size()), u(h.size()), v(h.size()), w(h.size());
  std::vector<T> x(h.size());
  std::mutex m; std::condition_variable cv; std::vector<bool> ready(h.size(), false); bool stop = false;
  if (!both<T>([&](comm_channel* c) { auto p = get(MPFSSKnownIndices::Create(c, 10));
        for (size_t r = 0; r < h.size(); r++) {
          { int nb = get(p->NumBuckets(h[r].idx.size())); x[r] = g(); for (int i = 0; i < nb; i++) u[r].push_back(g()), v[r].push_back(g()), w[r].push_back(u[r][i] * x[r] + v[r][i]); for (size_t i = 0; i < h[r].idx.size(); i++) y[r].push_back(g()); std::lock_guard<std::mutex> l(m); ready[r] = true; cv.notify_all(); }
          a[r].assign(h[r].n, 1); okay(p->RunValueProviderVectorOLE<T>(x[r], h[r].idx.size(), w[r], absl::MakeSpan(a[r]))); } },
      [&](comm_channel* c) { auto p = get(MPFSSKnownIndices::Create(c, 10));
        for (size_t r = 0; r < h.size(); r++) { { std::unique_lock<std::mutex> l(m); cv.wait_for(l, std::chrono::seconds(30), [&] { return (bool)ready[r]; }); }
          b[r].assign(h[r].n, 1); okay(p->RunIndexProviderVectorOLE<T>(y[r], h[r].idx, u[r], v[r], absl::MakeSpan(b[r]))); } })) return 2;
  for (size_t r = 0; r < h.size(); r++) {
    std::vector<T> want(h[r].n, 0);
    for (size_t i = 0; i < h[r].idx.size(); i++) want[h[r].idx[i]] = y[r][i] * x[r];
    for (int64_t i = 0; i < h[r].n; i++) if (a[r][i] + b[r][i] != want[i]) NO("run %zu position %ld of %ld", r, (long)i, (long)h[r].n);
  }
  return 0;
}
static int tries(std::vector<In<uint64_t>> h) { for (unsigned s = 1; s < 40; s++) { int r = run(h, s); if (r != 2) return r; } NO("always fails"); }
'''
mk('c20a', 'C20', [('mpfss_known_indices.cpp', '''      !cached_output_size_ || *cached_output_size_ != output_size ||
''', '''      !cached_output_size_ || *cached_output_size_ < output_size ||
''')], 'a run with a shorter output after one with a longer output and the same number of indices', 'the buckets of the longer output are used: positions beyond the end are written', prog(MP, MPR + '''
int main() { return tries({{200, {3, 70, 199}}, {40, {3, 7, 39}}}); }'''), **two(MP))
mk('c20b', 'C20', [(MP, '''            std::lower_bound(buckets_[i].begin(), buckets_[i].end(),
                             indices[hashed_inputs[i]]) -''', '''            std::lower_bound(buckets_[i].begin(),
                             buckets_[i].begin() +
                                 std::min<size_t>(buckets_[i].size(), 4096),
                             indices[hashed_inputs[i]]) -''')], 'a bucket of more than 4096 entries', 'the index inside a large bucket is wrong', prog(MP, MPR + '''
int main() { return tries({{300000, {3, 190000, 123456, 299999}}}) || tries({{50, {1, 2, 3}}}); }'''), **two(MP))
mk('c20c', 'C20', [(MP, '''      y_permuted[i] = y[hashed_inputs[i]];
    }''', '''      y_permuted[i] = y[hashed_inputs[i] % 64];
    }''')], 'more than 64 indices', 'values beyond the 64th are replaced by earlier ones', prog(MP, MPR + '''
int main() { std::vector<int64_t> i; for (int k = 0; k < 80; k++) i.push_back(5 * k + k % 3); return tries({{500, i}}) || tries({{50, {1, 2, 3}}}); }'''), **two(MP))
