import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
PRE = '#include "distributed_vector_ole/gf128.h"\n#include <cstdio>\nusing distributed_vector_ole::gf128;\n'
MUL = '''
typedef unsigned __int128 u128;
static u128 omul(u128 a, u128 b) { u128 r = 0; for (int i = 127; i >= 0; i--) { r = (r << 1) ^ ((r >> 127) ? u128(0x87) : u128(0)); if ((b >> i) & 1) r ^= a; } return r; }
static u128 U(gf128 x) { return u128(static_cast<absl::uint128>(x)); }
'''
mk('c01a', 'C01', [('gf128.cpp', '''  __m128i tmp = _mm_clmulepi64_si128(mul256_high, modulus, 0x01);
  mul256_low = _mm_xor_si128(mul256_low, _mm_slli_si128(tmp, 8));
  mul256_high = _mm_xor_si128(mul256_high, _mm_srli_si128(tmp, 8));
''', '''  __m128i tmp;
  /* not needed if the product of two short operands fits into 192 bits */
  if ((this->value_[1] | other.value_[1]) >> 33) {
    tmp = _mm_clmulepi64_si128(mul256_high, modulus, 0x01);
    mul256_low = _mm_xor_si128(mul256_low, _mm_slli_si128(tmp, 8));
    mul256_high = _mm_xor_si128(mul256_high, _mm_srli_si128(tmp, 8));
  }
''')], 'both operands have degree exactly 96', 'the x^192 coefficient of the product is not reduced', PRE + MUL + '''
int main() { int bad = 0; for (int i = 90; i < 128; i++) for (int j = 90; j < 128; j++) { u128 a = u128(1) << i, b = u128(1) << j; gf128 x{absl::uint128(a)}, y{absl::uint128(b)}; if (U(x * y) != omul(a, b)) { printf("x^%d * x^%d wrong\\n", i, j); bad = 1; } } return bad; }
''')
mk('c01b', 'C01', [('gf128.cpp', '''  uint64_t shifted[2] = {this->value_[0], this->value_[1]};
  uint64_t result[2] = {0, 0};
''', '''  uint64_t shifted[2] = {this->value_[0], this->value_[1]};
  uint64_t *const result = this->value_;
  result[0] = result[1] = 0;
'''), ('gf128.cpp', '''  this->value_[0] = result[0];
  this->value_[1] = result[1];

  return (*this);
#endif''', '''  return (*this);
#endif''')], 'portable build and an aliased operand (square, a *= a)', 'accumulating in place clobbers the second operand when it is the same object', PRE + MUL + '''
int main() { u128 a = (u128(0x0123456789abcdefull) << 64) | 0x13579bdf; gf128 x{absl::uint128(a)}; gf128 y = x.squared(); x *= x; return !(U(y) == omul(a, a) && U(x) == omul(a, a)); }
''', flags='')
mk('c02a', 'C02', [('gf128.cpp', '''  return (this->value_[0] == other.value_[0]) &&
         ((this->value_[1] == other.value_[1]));''', '''  // Branch-free comparison.
  const uint64_t diff = (this->value_[0] ^ other.value_[0]) +
                        (this->value_[1] ^ other.value_[1]);
  return diff == 0;''')], 'two values whose word differences add up to 2^64', 'differing values compare equal', PRE + '''
int main() { gf128 a(0, 0), b(1, ~0ull), c(1ull << 63, 1ull << 63); return (a == b) || !(a != c); }
''')
mk('c02b', 'C02', [('gf128.cpp', '''  return (this->value_[0] == 0) && (this->value_[1] == 0);''', '''  return (this->value_[0] * 2 + this->value_[1]) == 0 && this->value_[1] == 0;''')],
   'the single element x^63', 'is_zero() is true for x^63', PRE + '''
int main() { for (int i = 0; i < 64; i++) if (gf128(1ull << i).is_zero() || gf128(1ull << i, 0).is_zero()) return 1; return !gf128(0).is_zero(); }
''')
mk('c03a', 'C03', [('gf128.cpp', '''  gf128 a(*this);

  gf128 result(0);
''', '''  // Elements of the prime field are their own inverses.
  if (this->value_[1] == 0 && (this->value_[0] >> 1) == 0) {
    return one();
  }
  gf128 a(*this);

  gf128 result(0);
''')], 'inverse of zero', 'inverse of zero is one', PRE + '''
int main() { return !(gf128(0).inverse() == gf128(0) && gf128(1).inverse() == gf128(1)); }
''')
mk('c03b', 'C03', [('gf128.cpp', '''  for (int64_t i = 0; i <= 6; ++i) {
    /* entering''', '''  /* elements of the subfield of order 2^64 only need the shorter chain */
  gf128 conj(*this);
  for (int64_t i = 0; i < 32; ++i) {
    conj.square();
  }
  const int64_t last = (conj.value_[0] == this->value_[0]) ? 5 : 6;
  for (int64_t i = 0; i <= last; ++i) {
    /* entering''')], 'an element a with the low word of a^(2^32) equal to the low word of a, which random elements do not have',
   'a shorter chain is used for elements that are not in the order-2^32 subfield', PRE + MUL + '''
#include <vector>
// solve the linear system low64(a^(2^32)) = low64(a) over GF(2)
int main() {
  u128 col[128];
  for (int i = 0; i < 128; i++) { u128 a = u128(1) << i, t = a; for (int k = 0; k < 32; k++) t = omul(t, t); col[i] = (t ^ a) & ~0ull; }
  std::vector<std::pair<u128, u128>> basis; int bad = 0;
  for (int i = 0; i < 128; i++) {
    u128 v = col[i], c = u128(1) << i;
    for (auto& b : basis) if ((v ^ b.first) < v) { v ^= b.first; c ^= b.second; }
    if (v) { basis.push_back({v, c}); continue; }
    gf128 x{absl::uint128(c)};
    if (omul(c, U(x.inverse())) != 1) { printf("wrong inverse\\n"); bad = 1; }
  }
  return bad;
}
''')
mk('c04a', 'C04', [('gf128.cpp', '''  os << "gf128(" << static_cast<absl::uint128>(x) << ")";''', '''  const auto words = x.as_words();
  os << "gf128(" << absl::MakeUint128(words[1], 0) + absl::int128(static_cast<int64_t>(words[0])) << ")";''')],
   'printing a value whose low word has its top bit set', 'the low word is sign-extended when printed', PRE + '''#include <sstream>
int main() { for (unsigned long lo : {1ul, 1ul << 63, ~0ul}) { std::ostringstream s, t; s << gf128(5, lo); t << absl::MakeUint128(5, lo); if (s.str().find(t.str()) == std::string::npos) return 1; } return 0; }
''')
mk('c04b', 'C04', [('gf128.h', '''    return H::combine(std::move(h), x.value_[1], x.value_[0]);''', '''    return H::combine(std::move(h), x.value_[1], static_cast<int64_t>(x.value_[0] << 1));''')],
   'two values that differ only in bit 63', 'the hash ignores one bit of the value', PRE + '''#include "absl/hash/hash.h"
int main() { for (int i = 0; i < 64; i++) { if (absl::Hash<gf128>()(gf128(7, 1ull << i)) == absl::Hash<gf128>()(gf128(7, 0))) return 1; if (absl::Hash<gf128>()(gf128(1ull << i, 9)) == absl::Hash<gf128>()(gf128(0, 9))) return 1; } return 0; }
''')
