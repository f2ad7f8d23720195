// scalar types and moduli shared by the native programs
#pragma once
#include "nt.h"
#include <cmath>
#include <thread>
#include "NTL/ZZ.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
using nt::u128;
using nt::hex;
typedef NTL::ZZ_p ZZp;
typedef NTL::zz_p zzp;
typedef absl::uint128 au128;
static NTL::ZZ Z(u128 v) { NTL::ZZ a = NTL::conv<NTL::ZZ>((unsigned long)(v >> 64)); a <<= 64; return a + NTL::conv<NTL::ZZ>((unsigned long)v); }
static NTL::ZZ zhex(const std::string& s) { NTL::ZZ a(0); for (char c : s) if (c != ':') { a *= 16; a += (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return a; }
static std::string shex(NTL::ZZ a) { if (a == 0) return "0"; std::string s; while (a > 0) { s.insert(s.begin(), "0123456789abcdef"[NTL::conv<long>(a % 16)]); a /= 16; } return s; }
static std::string str(const NTL::ZZ& a) { std::ostringstream o; o << a; return o.str(); }
static NTL::ZZ U(au128 v) { return Z((u128)v); }
#define EQZ(what, got, want) do { NTL::ZZ g_ = (got), w_ = (want); if (g_ != w_) nt::fail("%s: got %s want %s", what, str(g_).c_str(), str(w_).c_str()); } while (0)

template <class T> struct Ty { static NTL::ZZ rep(const T& x) { return U(au128(x)); } static NTL::ZZ order() { return NTL::power2_ZZ(8 * sizeof(T)); } static T make(const NTL::ZZ& v) { T t(0); for (int i = 127; i >= 0; i--) { t = T(t << 1); if (NTL::bit(v, i)) t = T(t | T(1)); } return t; } static const char* name(); };
template <> struct Ty<gf128> { static NTL::ZZ rep(const gf128& x) { return U(static_cast<au128>(x)); } static NTL::ZZ order() { return NTL::power2_ZZ(128); } static gf128 make(const NTL::ZZ& v) { return gf128(Ty<au128>::make(v)); } };
template <> struct Ty<ZZp> { static NTL::ZZ rep(const ZZp& x) { return NTL::rep(x); } static NTL::ZZ order() { return ZZp::modulus(); } static ZZp make(const NTL::ZZ& v) { return NTL::conv<ZZp>(v); } };
template <> struct Ty<zzp> { static NTL::ZZ rep(const zzp& x) { return NTL::ZZ(NTL::rep(x)); } static NTL::ZZ order() { return NTL::ZZ(zzp::modulus()); } static zzp make(const NTL::ZZ& v) { return NTL::conv<zzp>(NTL::conv<long>(v % zzp::modulus())); } };
static bool setmod(const std::string& t, const NTL::ZZ& p, const NTL::ZZ& q) {
  if (t == "ZZp") { if (p < 2) return false; ZZp::init(p); }
  if (t == "zzp") { if (q < 2 || NTL::NumBits(q) > NTL_SP_NBITS) return false; zzp::init(NTL::conv<long>(q)); }
  return true;
}
static NTL::ZZ edgemod(int bits) {
  int k = 1 + nt::rng() % bits;
  NTL::ZZ p;
  switch (nt::rng() % 6) {
    case 0: p = NTL::power2_ZZ(k); break;
    case 1: p = NTL::power2_ZZ(k) - 1; break;
    case 2: p = NTL::power2_ZZ(k) + 1; break;
    case 3: p = NTL::power2_ZZ(8 * (k / 8)) + 1 + nt::rng() % 3; break;
    default: p = Z(nt::r128()) % NTL::power2_ZZ(k);
  }
  if (p < 2) p = 2 + nt::rng() % 5;
  if (p > NTL::power2_ZZ(bits)) p = NTL::power2_ZZ(bits);
  return p;
}
static NTL::ZZ edgemod_sp() { for (;;) { NTL::ZZ q = edgemod(NTL_SP_NBITS); if (NTL::NumBits(q) <= NTL_SP_NBITS) return q; } }
static const std::vector<std::string> TYPES = {"U8", "U16", "U32", "U64", "au128", "gf128", "ZZp", "zzp"};
#define DISPATCH(t, F, ...) do { if (t == "U8") F<uint8_t>(__VA_ARGS__); else if (t == "U16") F<uint16_t>(__VA_ARGS__); else if (t == "U32") F<uint32_t>(__VA_ARGS__); else if (t == "U64") F<uint64_t>(__VA_ARGS__); else if (t == "au128") F<au128>(__VA_ARGS__); \
  else if (t == "gf128") F<gf128>(__VA_ARGS__); else if (t == "ZZp") F<ZZp>(__VA_ARGS__); else if (t == "zzp") F<zzp>(__VA_ARGS__); } while (0)
