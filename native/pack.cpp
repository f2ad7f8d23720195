// C23: packing scalars into OT blocks against exact integer arithmetic
#include "types.h"
#include "distributed_vector_ole/internal/gilboa_internal.h"
#include "distributed_vector_ole/internal/all_but_one_random_ot_internal.h"
using namespace gilboa_internal;
static NTL::ZZ product(const std::string& t, const NTL::ZZ& a, const NTL::ZZ& b) {
  if (t == "gf128") {
    u128 x = (u128)Ty<au128>::make(a), y = (u128)Ty<au128>::make(b), r = 0;
    for (int i = 127; i >= 0; i--) { r = r << 1 ^ ((r >> 127) ? 0x87 : 0); if (y >> i & 1) r ^= x; }
    return Z(r);
  }
  NTL::ZZ o = t == "ZZp" ? Ty<ZZp>::order() : t == "zzp" ? Ty<zzp>::order() : t == "U8" ? NTL::power2_ZZ(8) : t == "U16" ? NTL::power2_ZZ(16) : t == "U32" ? NTL::power2_ZZ(32) : t == "U64" ? NTL::power2_ZZ(64) : NTL::power2_ZZ(128);
  return a * b % o;
}
template <class T> void pack(const std::string& t, const NTL::ZZ& mu, const std::vector<NTL::ZZ>& vs) {
  int size = ScalarHelper<T>::SizeOf(), f = 16 / size;
  NTL::ZZ o = Ty<T>::order();
  std::vector<T> v;
  for (size_t i = 0; i < vs.size() && (int)i < f; i++) v.push_back(Ty<T>::make(vs[i] % o));
  T m = Ty<T>::make(mu % o);
  for (int one = 0; one < 2; one++) {
    emp::block b = one ? SpanToEMPBlock<T>(absl::MakeConstSpan(v)) : SpanToEMPBlock<T>(absl::MakeConstSpan(v), m);
    std::vector<T> out(f, T(1));
    EMPBlockToSpan<T>(b, absl::MakeSpan(out));
    std::vector<T> vec = EMPBlockToVector<T>(b);
    NT_CHECK((int)vec.size() == f, "EMPBlockToVector has %zu elements, want %d", vec.size(), f);
    for (int i = 0; i < f; i++) {
      NTL::ZZ want = i >= (int)v.size() ? NTL::ZZ(0) : one ? vs[i] % o : product(t, vs[i] % o, mu % o);
      EQZ(one ? "slot" : "slot, common factor", Ty<T>::rep(out[i]), want);
      EQZ("slot of the vector", Ty<T>::rep(vec[i]), want);
    }
    for (size_t i = 0; i < v.size(); i++) EQZ("input after packing", Ty<T>::rep(v[i]), vs[i] % o);
  }
}
static void blocks(u128 x) {
  au128 g = all_but_one_random_ot_internal::EMPToGGMTreeBlock(emp::makeBlock((uint64_t)(x >> 64), (uint64_t)x));
  EQZ("EMPToGGMTreeBlock", U(g), Z(x));
  emp::block b = all_but_one_random_ot_internal::GGMTreeToEMPBlock(au128(x));
  EQZ("GGMTreeToEMPBlock", Z((u128)(uint64_t)b[1] << 64 | (uint64_t)b[0]), Z(x));
}
static void run(const nt::Case& c) {
  if (c[0] == "block") return blocks(nt::unhex(c[1]));
  if (!setmod(c[0], zhex(c[2]), zhex(c[2]))) return;
  std::vector<NTL::ZZ> vs;
  for (size_t i = 3; i < c.size(); i++) vs.push_back(zhex(c[i]));
  DISPATCH(c[0], pack, c[0], zhex(c[1]), vs);
}
static void gen(std::function<bool(const nt::Case&)> emit) {
  for (;;) {
    NTL::ZZ p = edgemod(128), q = edgemod_sp();
    if (!emit({"block", hex(nt::edge128())})) return;
    for (auto& t : TYPES) {
      NTL::ZZ o = t == "ZZp" ? p : q;
      for (int rep = 0; rep < 4; rep++) {
        nt::Case c = {t, hex(nt::rng() % 3 ? nt::edge128() : 1), t == "ZZp" || t == "zzp" ? shex(o) : "0"};
        int k = nt::rng() % 3 ? 16 : nt::rng() % 17;
        for (int i = 0; i < k; i++) {
          NTL::ZZ v = Z(nt::edge128());
          if (nt::rng() % 3 == 0) v = o - 1;
          if (nt::rng() % 4 == 0) v = Z(~(u128)0);
          c.push_back(shex(v));
        }
        if (!emit(c)) return;
      }
    }
  }
}
NT_MAIN(run, gen)
