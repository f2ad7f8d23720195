import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
S = dict(flags='-DUSE_ASM', srcs='distributed_vector_ole/gf128.cpp distributed_vector_ole/internal/ntl_helpers.cpp', libs='-lntl -lgmp')
PRE = '#include <cstdio>\n#include <cmath>\n#include "distributed_vector_ole/internal/scalar_helpers.h"\nusing namespace distributed_vector_ole;\n'
SH, NH = 'internal/scalar_helpers.h', 'internal/ntl_helpers.cpp'
mk('c05a', 'C05', [(SH, 'uint64_t high = NTL::conv<uint64_t>(NTL::rep(x) >> 64);', 'uint64_t high = 0;\n    if (NTL::NumBits(NTL::rep(x)) > 65) {\n      high = NTL::conv<uint64_t>(NTL::rep(x) >> 64);\n    }')],
   'a ZZ_p value with exactly 65 bits', 'the top bit is lost when converting to 128 bits', PRE + '''
int main() { NTL::ZZ_p::init(NTL::power2_ZZ(100) + 7); int bad = 0;
  for (int k = 0; k < 100; k++) for (int d = 0; d < 3; d++) { NTL::ZZ v = NTL::power2_ZZ(k) + d; if (ScalarHelper<NTL::ZZ_p>::FromUint128(ScalarHelper<NTL::ZZ_p>::ToUint128(NTL::conv<NTL::ZZ_p>(v))) != NTL::conv<NTL::ZZ_p>(v)) { printf("2^%d+%d\\n", k, d); bad = 1; } }
  return bad; }''', **S)
mk('c05b', 'C05', [(SH, 'return NTL::conv<NTL::zz_p>(absl::Uint128Low64(x % NTL::zz_p::modulus()));', 'if (absl::Uint128High64(x) == 0) {\n      return NTL::conv<NTL::zz_p>(static_cast<long>(absl::Uint128Low64(x)));\n    }\n    return NTL::conv<NTL::zz_p>(absl::Uint128Low64(x % NTL::zz_p::modulus()));')],
   'a value in [2^63, 2^64)', 'the value is reduced as a negative number', PRE + '''
int main() { NTL::zz_p::init(1000003); int bad = 0;
  for (int k = 0; k < 128; k++) { absl::uint128 v = (absl::uint128(1) << k) + 5; long want = long(absl::Uint128Low64(v % 1000003)); if (NTL::rep(ScalarHelper<NTL::zz_p>::FromUint128(v)) != want) { printf("2^%d+5\\n", k); bad = 1; } }
  return bad; }''', **S)
mk('c06a', 'C06', [(SH, 'return (NTLNumBits<T>() + 7) / 8;', 'return NTLNumBits<T>() / 8 + 1;')],
   'a modulus whose largest element has a multiple of 8 bits', 'SizeOf is one byte too large', PRE + '''
int main() { int bad = 0; for (int k = 2; k < 120; k++) { NTL::ZZ_p::init(NTL::power2_ZZ(k)); if (ScalarHelper<NTL::ZZ_p>::SizeOf() != (k + 7) / 8) { printf("2^%d\\n", k); bad = 1; } } return bad; }''', **S)
mk('c06b', 'C06', [(SH, 'static gf128 SetBit(int k) { return gf128(absl::uint128(1) << k); }', 'static gf128 SetBit(int k) {\n    return k < 64 ? gf128(1 << k) : gf128(uint64_t(1) << (k - 64), 0);\n  }')],
   'bit positions 31 to 63 of a gf128', 'an int shift is sign-extended or overflows', PRE + '''
int main() { int bad = 0; for (int k = 0; k < 128; k++) if (static_cast<absl::uint128>(ScalarHelper<gf128>::SetBit(k)) != absl::uint128(1) << k) { printf("%d\\n", k); bad = 1; } return bad; }''', **S)
Z = '''    long modulus = NTL::zz_p::modulus();  // NTL::zz_p::modulus() is guaranteed
                                          // to fit in a long.
    absl::uint128 max_value = absl::Uint128Max();
    if (hash_bits < 128) {
      max_value >>= 128 - hash_bits;  // 2^hash_bits - 1
    }
    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;'''
mk('c07a', 'C07', [(SH, 'long modulus = NTL::zz_p::modulus();', 'const uint32_t modulus = NTL::zz_p::modulus();')],
   'a single-precision modulus above 2^32', 'the bias is computed for the modulus truncated to 32 bits', PRE + '''
int main() { int bad = 0; for (long p : {(1L << 40) + 1, 1000003L, (1L << 50) + (1L << 31)}) { NTL::zz_p::init(p); for (int h : {52, 60, 90, 128}) { NTL::ZZ r = NTL::power2_ZZ(h) % NTL::ZZ(p); bool want = h - std::log2(NTL::conv<double>(r)) > 40; if (ScalarHelper<NTL::zz_p>::CanBeHashedInto(40, h) != want) { printf("%ld %d\\n", p, h); bad = 1; } } } return bad; }''', **S)
mk('c07b', 'C07', [(SH, 'if (modulus == 0) {  // Modulus is 2**128', 'if (modulus_low == 0) {  // Modulus is 2**128')],
   'a modulus that is a multiple of 2^64', 'a strongly biased mapping is accepted', PRE + '''
int main() { NTL::ZZ_p::init(NTL::power2_ZZ(127) + NTL::power2_ZZ(126)); return ScalarHelper<NTL::ZZ_p>::CanBeHashedInto(40, 128) ? 1 : 0; }''', **S)
mk('c08a', 'C08', [(NH, 'T::modulus() != *cached_modulus)', 'NTL::NumBits(T::modulus()) != NTL::NumBits(*cached_modulus))')],
   'switching from modulus 2^k to 2^k+1 (or back)', 'the cached bit count is stale', PRE + '''
int main() { int bad = 0; for (int k = 2; k < 100; k++) for (int d = -1; d <= 1; d++) { NTL::ZZ_p::init(NTL::power2_ZZ(k) + d); int want = NTL::NumBits(NTL::ZZ_p::modulus() - 1); if (NTLNumBits<NTL::ZZ_p>() != want) { printf("2^%d%+d\\n", k, d); bad = 1; } } return bad; }''', **S)
mk('c08b', 'C08', [(NH, '    cached_modulus = T::modulus();\n', '    if (!cached_modulus) {\n      cached_modulus = T::modulus();\n    }\n')],
   'switching to another modulus and back to the first one', 'the bit count of the other modulus is reported', PRE + '''
int main() { NTL::ZZ a = NTL::power2_ZZ(70) + 3, b = NTL::power2_ZZ(30) + 3; int bad = 0; for (NTL::ZZ p : {a, b, b, a, a, b, a}) { NTL::ZZ_p::init(p); if (NTLNumBits<NTL::ZZ_p>() != NTL::NumBits(p - 1)) bad = 1; } return bad; }''', **S)
