import os, sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
def stubs(*names):
    out = {}
    for r, _, fs in os.walk('/verif/stubs'):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), '/verif/stubs')
            if any(p.startswith(n) for n in names):
                out['stubs/' + p] = open(os.path.join(r, f)).read()
    return out
S0 = dict(flags='-DUSE_ASM', srcs='distributed_vector_ole/gf128.cpp distributed_vector_ole/internal/ntl_helpers.cpp', libs='-lntl -lgmp')
SH, NH = 'internal/scalar_helpers.h', 'internal/ntl_helpers.cpp'
AES, GGM, CH, CHH = 'aes_uniform_bit_generator.cpp', 'ggm_tree.cpp', 'cuckoo_hasher.cpp', 'cuckoo_hasher.h'
def st(src, **kw):
    d = dict(flags='-fopenmp', srcs='distributed_vector_ole/' + src, inc='-I"$here/stubs"', extra=stubs('mpc_utils/status', 'mpc_utils/canonical'))
    d.update(kw)
    return d
P0 = '#include <cstdio>\n#include <cmath>\n#include "distributed_vector_ole/internal/scalar_helpers.h"\nusing namespace distributed_vector_ole;\n'
ZZR = '''    absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
'''
mk('c07b', 'C07', [(SH, '''    if (modulus == 0) {  // Modulus is 2**128
      return true;
    }''', '''    if (modulus_high == 0 && modulus_low == 0) {
      return true;
    }
    if (modulus_low == 0) {  // Powers of two.
      return modulus_high > 0;
    }''')],
   'a modulus that is a multiple of 2^64 and no power of two', 'a strongly biased mapping is accepted', P0 + '''
int main() { NTL::ZZ_p::init(NTL::power2_ZZ(127) + NTL::power2_ZZ(126)); return ScalarHelper<NTL::ZZ_p>::CanBeHashedInto(40, 128) ? 1 : 0; }''', **S0)

PA = '#include <cstdio>\n#include <cstring>\n#include "distributed_vector_ole/aes_uniform_bit_generator.h"\nusing namespace distributed_vector_ole;\ntypedef std::vector<uint8_t> V;\n'
REF = '''
static uint64_t ref(const V& s, uint64_t i) { AES_KEY k; AES_set_encrypt_key(s.data(), 128, &k); absl::uint128 c, o; memcpy(&c, s.data() + 16, 16); c += i / 2; AES_encrypt((const uint8_t*)&c, (uint8_t*)&o, &k); return i % 2 ? absl::Uint128High64(o) : absl::Uint128Low64(o); }
'''
mk('c09a', 'C09', [(AES, '      nonce_++;\n', '      nonce_ = absl::MakeUint128(absl::Uint128High64(nonce_), absl::Uint128Low64(nonce_) + 1);\n')],
   'a counter whose low 64 bits wrap around', 'the carry into the high half of the counter is lost', PA + REF + '''
int main() { V s(32); for (int i = 0; i < 32; i++) s[i] = i + 1; for (int i = 16; i < 24; i++) s[i] = 0xff; auto g = AESUniformBitGenerator::Create(s, 8); auto& r = g.ValueOrDie(); for (int i = 0; i < 40; i++) if (r() != ref(s, i)) { printf("output %d\\n", i); return 1; } return 0; }''', **st('aes_uniform_bit_generator.cpp'))
mk('c09b', 'C09', [(AES, '  elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.\n', '  if (elements_used_ == 0) {\n    elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.\n  }\n')],
   'seeding again in the middle of a buffer', 'the remaining outputs of the old seed are returned after reseeding', PA + REF + '''
int main() { V s(32, 7), q(32, 9); auto g = AESUniformBitGenerator::Create(s, 8); auto& r = g.ValueOrDie(); for (int n = 0; n < 20; n++) { for (int i = 0; i < n; i++) r(); if (!r.seed(q).ok()) return 2; for (int i = 0; i < 20; i++) if (r() != ref(q, i)) { printf("after %d: output %d\\n", n, i); return 1; } } return 0; }''', **st('aes_uniform_bit_generator.cpp'))
def small(n):
    """a copy of the sources with a short reseed interval"""
    return dict(pre='mkdir "$t/r" && cp -r distributed_vector_ole "$t/r" && cd "$t/r" && sed -i -E \'s/(kReseedInterval = )[^;]*;/\\1%d;/\' distributed_vector_ole/aes_uniform_bit_generator.h || exit 2\n' % n)
mk('c10a', 'C10', [(AES, '    counter_ += num_blocks;\n', '    counter_ += std::min<int64_t>(num_blocks, 64);\n')],
   'a buffer of more than 128 elements', 'blocks are undercounted, so outputs beyond the interval are returned', PA + '''
int main() { V s(32, 7); for (int b : {2, 8, 64, 256, 1024}) { auto g = AESUniformBitGenerator::Create(s, b); auto& r = g.ValueOrDie(); long n = 0; try { for (; n < 100000; n++) r(); } catch (const std::runtime_error&) {} if (n > 2 * 2048) { printf("buffer %d: %ld outputs\\n", b, n); return 1; } } return 0; }''', **st('aes_uniform_bit_generator.cpp', **small(2048)))
mk('c10b', 'C10', [(AES, '  counter_ = 0;            // Reset counter.\n', ''), ('aes_uniform_bit_generator.h', '  int64_t counter_;\n', '  int64_t counter_ = 0;\n')],
   'reseeding before the interval is exhausted', 'the blocks of the earlier seed still count (the new seed gets less than its interval)', PA + '''
int main() { V s(32, 7); auto g = AESUniformBitGenerator::Create(s, 8); auto& r = g.ValueOrDie(); for (int k = 0; k < 3; k++) { for (int i = 0; i < 1600; i++) try { r(); } catch (const std::runtime_error&) { printf("seed %d output %d\\n", k, i); return 1; } if (!r.seed(s).ok()) return 2; } return 0; }''', **st('aes_uniform_bit_generator.cpp', **small(1024)))

PG = '''#include <cstdio>
#include <random>
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
typedef GGMTree::Block B;
static std::mt19937_64 G(1);
static std::vector<B> keys(int n) { std::vector<B> k; for (int i = 0; i < n; i++) k.push_back(absl::MakeUint128(G(), G())); return k; }
static B prg(B k, B s) { AES_KEY e; AES_set_encrypt_key((const uint8_t*)&k, 128, &e); B o; AES_encrypt((const uint8_t*)&s, (uint8_t*)&o, &e); return o ^ s; }
'''
mk('c11a', 'C11', [(GGM, 'num_blocks_for_level = (num_blocks_for_level + arity - 1) / arity;', 'num_blocks_for_level = num_blocks_for_level / arity + (num_blocks_for_level % arity > 0 || num_blocks_for_level < arity);\n      if (num_blocks_for_level == 1 && i > 0 && arity > 16) {\n        num_blocks_for_level = 2;\n      }')],
   'an arity above 16 and a level count that log() overshoots or a second-level single node', 'a level has more nodes than needed to parent the next', PG + '''
int main() { for (int a = 2; a < 70; a++) for (int64_t n : {1L, 2L, (long)a, (long)a * a, (long)a * a + 1, (long)a * a * a}) { auto k = keys(a); auto r = GGMTree::Create(n, B(5), k); if (!r.ok()) { printf("arity %d leaves %ld fails\\n", a, (long)n); return 1; } auto& t = *r.ValueOrDie(); for (int l = 0; l + 1 < t.num_levels(); l++) if (t.level_size(l) != (t.level_size(l + 1) + a - 1) / a) { printf("arity %d leaves %ld level %d\\n", a, (long)n, l); return 1; } } return 0; }''', **st('ggm_tree.cpp'))
CHK = '''
static int check(int a, int64_t n) { auto k = keys(a); auto r = GGMTree::Create(n, B(5), k); if (!r.ok()) return 1; auto& t = *r.ValueOrDie(); auto v = [&](int l, int64_t i) { return t.GetValueAtNode(l, i).ValueOrDie(); };
  for (int l = 0; l + 1 < t.num_levels(); l++) for (int64_t i = 0; i < t.level_size(l + 1); i++) if (v(l + 1, i) != prg(k[i % a], v(l, i / a))) { printf("arity %d leaves %ld level %d node %ld\\n", a, (long)n, l + 1, (long)i); return 1; } return 0; }
'''
mk('c11b', 'C11', [(GGM, '      int64_t num_siblings =\n          std::min(static_cast<int64_t>(arity_),\n                   level_size(level_index + 1) - node_index * arity_);', '      int64_t num_siblings =\n          std::min(static_cast<int64_t>(arity_),\n                   level_size(level_index + 1) - node_index * arity_);\n      if (level_index > 0 && num_siblings == 1 && arity_ > 2) {\n        num_siblings = 0;  // A single child of the last node.\n      }')],
   'a level whose last node has a single child, and an arity above two', 'the last leaf stays zero', PG + CHK + 'int main() { for (int a = 2; a < 9; a++) for (int64_t n = 1; n < 200; n++) if (check(a, n)) return 1; return 0; }', **st('ggm_tree.cpp'))
PUN = PG + '''
static int check(int a, int64_t n, int64_t m) { auto k = keys(a); auto r = GGMTree::Create(n, B(5), k); if (!r.ok()) return 1; auto& t = *r.ValueOrDie(); auto x = t.GetSiblingWiseXOR();
  int64_t i = m; for (int l = t.num_levels() - 2; l >= 0; l--) { x[l][i % a] = B(G()); i /= a; }
  auto q = GGMTree::CreateFromSiblingWiseXOR(a, n, m, x, k); if (!q.ok()) { printf("arity %d leaves %ld missing %ld fails\\n", a, (long)n, (long)m); return 1; }
  for (int64_t j = 0; j < n; j++) if (j != m && q.ValueOrDie()->GetValueAtLeaf(j).ValueOrDie() != t.GetValueAtLeaf(j).ValueOrDie()) { printf("arity %d leaves %ld missing %ld: leaf %ld\\n", a, (long)n, (long)m, (long)j); return 1; } return 0; }
int main() { for (int a = 2; a < 6; a++) for (int64_t n = 1; n < 40; n++) for (int64_t m = 0; m < n; m++) if (check(a, n, m)) return 1; return 0; }
'''
mk('c12a', 'C12', [(GGM, '''      int64_t num_siblings =
          std::min(static_cast<int64_t>(arity_),
                   level_size(level_index + 1) - node_index * arity_);''', '''      int64_t num_siblings = arity_;
      if (node_index == max_node_index - 1 &&
          level_size(level_index + 1) % arity_ != 0) {
        num_siblings = level_size(level_index + 1) % arity_;
      }''')],
   'expanding a subtree that ends before the end of a partially filled level (reconstruction only)', 'leaves of the reconstructed tree stay zero', PUN, **st('ggm_tree.cpp'))
mk('c12b', 'C12', [(GGM, '    for (int sibling_index = 0; sibling_index < num_siblings; sibling_index++) {\n      if (node_base', '    if (level_index == num_levels - 1 && num_siblings == 1) {\n      continue;\n    }\n    for (int sibling_index = 0; sibling_index < num_siblings; sibling_index++) {\n      if (tree->level_size(level_index) == arity &&\n          sibling_index == arity - 1 && missing_path[level_index] == 0 && level_index > 1) {\n        continue;\n      }\n      if (node_base')],
   'a tree whose level count is overshot, so that a level below the first has exactly arity nodes', 'the last sibling of a full level is left out', PUN.replace('int main() {', 'int main() { for (int a : {5, 6, 10, 15}) { if (check(a, a, 0) || check(a, a * a, 0) || check(a, (long)a * a * a, 0)) return 1; }'), **st('ggm_tree.cpp'))
mk('c13a', 'C13', [(GGM, '      node_index >= static_cast<int64_t>(levels_[level_index].size())) {', '      node_index >= (level_index == 0 ? 1 : num_leaves_)) {')],
   'a node index beyond an inner level but below the number of leaves', 'an out-of-range node is read', PG + '''
int main() { auto r = GGMTree::Create(100, B(5), keys(3)); auto& t = *r.ValueOrDie(); for (int l = 0; l < t.num_levels(); l++) if (t.GetValueAtNode(l, t.level_size(l)).ok()) { printf("level %d\\n", l); return 1; } return 0; }''', **st('ggm_tree.cpp'))
mk('c13b', 'C13', [(GGM, 'if (static_cast<int>(sibling_wise_xors[i].size()) != arity) {', 'if (static_cast<int>(sibling_wise_xors[i].size()) < arity) {')],
   'an XOR list longer than the arity', 'a wrongly sized XOR list is accepted', PG + '''
int main() { auto k = keys(3); std::vector<std::vector<B>> x(3, std::vector<B>(3)); for (int l = 0; l < 3; l++) for (int d = -1; d <= 1; d++) { auto y = x; y[l].resize(3 + d); if (GGMTree::CreateFromSiblingWiseXOR(3, 27, 4, y, k).ok() != (d == 0)) { printf("level %d size %d\\n", l, 3 + d); return 1; } } return 0; }''', **st('ggm_tree.cpp'))

PC = '''#include <cstdio>
#include <random>
#include <algorithm>
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
typedef absl::uint128 B;
static B enc(B k, B s) { AES_KEY e; AES_set_encrypt_key((const uint8_t*)&k, 128, &e); B o; AES_encrypt((const uint8_t*)&s, (uint8_t*)&o, &e); return o ^ s; }
static int64_t bucket(B seed, B x, int64_t n, int j) { B h = enc(seed, x); if (j) h = enc(seed, h ^ B(j)); return (int64_t)absl::Uint128Low64(h % B(n)); }
'''
CK = PC + '''
static int check(B seed, int h, int n, int b) { auto c = CuckooHasher::Create(seed, h); std::vector<int64_t> in(n); for (int i = 0; i < n; i++) in[i] = i * 7; auto r = c.ValueOrDie()->HashCuckoo(absl::Span<const int64_t>(in), b); if (!r.ok()) return 0; auto& v = r.ValueOrDie();
  if ((int)v.size() != b) return 1; std::vector<int> seen(n); for (int k = 0; k < b; k++) if (v[k] != -1) { if (v[k] < 0 || v[k] >= n) return 1; seen[v[k]]++; bool ok = false; for (int j = 0; j < h; j++) ok |= bucket(seed, B(in[v[k]]), b, j) == k; if (!ok) { printf("seed %d: bucket %d\\n", (int)seed, k); return 1; } }
  for (int i = 0; i < n; i++) if (seen[i] != 1) { printf("seed %d, %d inputs in %d buckets: input %d is in %d buckets\\n", (int)seed, n, b, i, seen[i]); return 1; } return 0; }
int main() { for (int s = 0; s < 300; s++) for (int h = 2; h < 4; h++) for (int n : {1, 5, 20, 40}) if (check(B(s), h, n, n + n / 3 + 1) || check(B(s), h, n, n)) return 1; return 0; }
'''
mk('c14a', 'C14', [(CHH, '''      if (tries == num_tries) {
        return mpc_utils::InternalError(''', '''      if (tries == num_tries) {
        if (i + 1 == static_cast<int64_t>(inputs.size())) {
          break;
        }
        return mpc_utils::InternalError(''')],
   'an insertion of the last input that runs out of tries', 'an evicted input is dropped and success is reported', CK, **st('cuckoo_hasher.cpp'))
mk('c14b', 'C14', [(CHH, '      if (buckets[index] == -1) {', '      if (buckets[index] == -1 || (buckets[index] == i && tries > 2)) {')],
   'an eviction cycle that comes back to the input just inserted', 'the new input is overwritten', CK, **st('cuckoo_hasher.cpp'))
SI = PC + '''
#include <omp.h>
int main() { for (int th : {1, 2, 3, 5, 8}) { omp_set_num_threads(th); omp_set_dynamic(0); for (int n : {0, 1, 3, 4, 7, 10, 100}) for (int b : {1, 2, 5, 30}) for (int h = 1; h < 4; h++) { B seed(th * 1000 + n); auto c = CuckooHasher::Create(seed, h); std::vector<int64_t> in(n); for (int i = 0; i < n; i++) in[i] = i * 3; std::vector<std::vector<int64_t>> want(b); for (int i = 0; i < n; i++) for (int j = 0; j < h; j++) want[bucket(seed, B(in[i]), b, j)].push_back(i);
  for (int rep = 0; rep < 5; rep++) { auto r = c.ValueOrDie()->HashSimple(absl::Span<const int64_t>(in), b); if (!r.ok() || r.ValueOrDie() != want) { printf("threads %d inputs %d buckets %d functions %d\\n", th, n, b, h); return 1; } } } } return 0; }
'''
mk('c15a', 'C15', [(CHH, '#pragma omp for schedule(static) nowait\n', '#pragma omp for schedule(static, 4) nowait\n')],
   'more than one thread and more than four inputs per thread', 'the merged buckets are out of order', SI, **st('cuckoo_hasher.cpp'))
mk('c15b', 'C15', [(CHH, '        result[i].insert(result[i].end(), thread_result[i].begin(),\n                         thread_result[i].end());', '        if (!result[i].empty() && !thread_result[i].empty() &&\n            result[i].back() == thread_result[i].front() - 1) {\n          result[i].pop_back();\n        }\n        result[i].insert(result[i].end(), thread_result[i].begin(),\n                         thread_result[i].end());')],
   'neighbouring inputs on both sides of a chunk boundary in the same bucket', 'an input is lost when the chunks are merged', SI, **st('cuckoo_hasher.cpp'))
OP = PC + '''
int main() { for (int h = 2; h < 4; h++) for (int s : {40, 60, 80}) { auto c = CuckooHasher::Create(B(1), h, s); for (int k = 0; k <= 40; k++) for (int64_t d : {-1, 0, 1}) { int64_t n = (1ll << k) + d; auto r = c.ValueOrDie()->GetOptimalNumberOfBuckets(n); if (!r.ok() || r.ValueOrDie() < 1 || r.ValueOrDie() < n) { printf("%d functions, security %d, %lld inputs\\n", h, s, (long long)n); return 1; } } } return 0; }
'''
mk('c16a', 'C16', [(CH, '    return static_cast<int64_t>(std::ceil(e * num_inputs));', '    return static_cast<int>(std::ceil(e * num_inputs));')],
   'two hash functions and more than about 2^28 inputs', 'the number of buckets overflows an int', OP, **st('cuckoo_hasher.cpp'))
mk('c16b', 'C16', [(CH, '  if (num_inputs == 0) {\n    return 1;', '  if (num_inputs == 0 && num_hash_functions_ == 2) {\n    return 1;')],
   'no inputs and three hash functions', 'the number of buckets is not positive', OP, **st('cuckoo_hasher.cpp'))
HB = PC + '''
int main() { for (int h = 1; h < 6; h++) for (int64_t b : {1L, 2L, 7L, 1000L, (1L << 40) + 1, (1L << 62) + 3}) { B seed(h); auto c = CuckooHasher::Create(seed, h); std::vector<int64_t> in; for (int i = 0; i < 50; i++) in.push_back(i * 12345678901L); auto r = c.ValueOrDie()->Hash(absl::Span<const int64_t>(in), b); if (!r.ok() || r.ValueOrDie().size() != in.size()) return 1;
  for (int i = 0; i < 50; i++) { if ((int)r.ValueOrDie()[i].size() != h) return 1; for (int j = 0; j < h; j++) if (r.ValueOrDie()[i][j] != bucket(seed, B(in[i]), b, j)) { printf("%d functions, %ld buckets, input %d, function %d\\n", h, (long)b, i, j); return 1; } } } return 0; }
'''
mk('c24a', 'C24', [(CH, '    hash = HashToUint128(hash ^ absl::uint128(hash_function));', '    hash = HashToUint128(hash ^ absl::uint128(hash_function & 3));')],
   'more than four hash functions', 'the fifth hash function is not the specified one', HB, **st('cuckoo_hasher.cpp'))
mk('c24b', 'C24', [(CH, '  return absl::Uint128Low64(hash % num_buckets);', '  if (num_buckets <= UINT32_MAX) {\n    return absl::Uint128Low64(hash % num_buckets);\n  }\n  return absl::Uint128Low64(hash) % num_buckets;')],
   'more than 2^32 buckets', 'the high half of the hash is ignored', HB, **st('cuckoo_hasher.cpp'))

PS = '''#include <cstdio>
#include <set>
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
'''
mk('c25a', 'C25', [(SH, '''    RAND_bytes(reinterpret_cast<uint8_t *>(output.data()),
               output.size() * sizeof(T));''', '''    RAND_bytes(reinterpret_cast<uint8_t *>(output.data()),
               static_cast<uint16_t>(output.size() * sizeof(T)));''')],
   'a span of 64 KiB or more', 'the elements behind the first bytes are not randomized', PS + '''
int main() { std::vector<uint64_t> v(10000, 0); ScalarHelper<uint64_t>::Randomize(absl::MakeSpan(v)); std::set<uint64_t> s(v.begin(), v.end()); return s.size() > 9990 ? 0 : 1; }''', **S0)
mk('c25b', 'C25', [(SH, 'NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());', 'NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());\n    if (output.size() % 32 == 1 && output.size() > 32) {\n      ntl_vec[output.size() - 1] = ntl_vec[output.size() - 2];\n    }')],
   'a span of zz_p elements of length 1 modulo 32, at least 33', 'the last element is not fresh', PS + '''
int main() { NTL::zz_p::init(1152921504606846883L % (1L << 59)); for (int n = 2; n < 200; n++) { std::vector<NTL::zz_p> v(n); ScalarHelper<NTL::zz_p>::Randomize(absl::MakeSpan(v)); std::set<long> s; for (auto& x : v) s.insert(NTL::rep(x)); if ((int)s.size() + 2 < n + 1 || v[n - 1] == v[n - 2]) { printf("length %d\\n", n); return 1; } } return 0; }''', **S0)
GI = dict(S0, inc='-I"$here/stubs"', extra=stubs('mpc_utils', 'emp-ot'))
PI = '''#include <cstdio>
#include <vector>
using std::vector;
#include "distributed_vector_ole/internal/gilboa_internal.h"
using namespace distributed_vector_ole;
using namespace distributed_vector_ole::gilboa_internal;
template <class T> int check(std::vector<T> v, T m, const char* what) { int f = 16 / ScalarHelper<T>::SizeOf(); v.resize(std::min<size_t>(v.size(), f)); auto w = EMPBlockToVector<T>(SpanToEMPBlock<T>(absl::MakeConstSpan(v), m)); for (int i = 0; i < f; i++) { T want = T(0); if (i < (int)v.size()) { want = v[i]; want *= m; } if (!(w[i] == want)) { printf("%s: element %d of %d\\n", what, i, (int)v.size()); return 1; } } return 0; }
'''
GF = 'internal/gilboa_internal.h'
mk('c23a', 'C23', [(GF, '    temp *= multiplier;\n', '    temp *= multiplier;\n    if (i + 1 < static_cast<int>(v.size()) && temp == T(0) && packed == 0) {\n      packed |= ScalarHelper<T>::ToUint128(multiplier);\n    }\n')],
   'a list that ends in two products of zero', 'the zero elements come back as the multiplier', PI + '''
int main() { int bad = 0; typedef std::vector<uint32_t> V; for (int z = 0; z < 16; z++) { V v(4); for (int i = 0; i < 4; i++) v[i] = z >> i & 1 ? 0 : 3 + i; bad |= check<uint32_t>(v, 5, "uint32"); v.resize(3); bad |= check<uint32_t>(v, 5, "uint32"); } return bad; }''', **GI)
mk('c23b', 'C23', [(GF, '    if (num_bits < 128) {\n', '    if (num_bits < 64) {\n')],
   'two elements of a ZZ_p whose elements take 8 bytes', 'the upper element leaks into the lower one', PI + '''
int main() { int bad = 0; for (int k = 2; k < 127; k++) { NTL::ZZ_p::init(NTL::power2_ZZ(k) - 1); std::vector<NTL::ZZ_p> v; for (int i = 0; i < 16; i++) v.push_back(NTL::conv<NTL::ZZ_p>(NTL::power2_ZZ(k - 1) - 3 - i)); bad |= check<NTL::ZZ_p>(v, NTL::ZZ_p(1), "ZZ_p"); if (bad) { printf("2^%d - 1\\n", k); return 1; } } return 0; }''', **GI)
