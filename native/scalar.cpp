// C05..C08, C25: scalar helpers against exact integer arithmetic
#include "types.h"

#if PROP == 5
template <class T> void conv(u128 v) {
  NTL::ZZ m = Ty<T>::order(), w = Z(v) % m;
  T x = ScalarHelper<T>::FromUint128(au128(v));
  EQZ("FromUint128", Ty<T>::rep(x), w);
  EQZ("ToUint128 of it", U(ScalarHelper<T>::ToUint128(x)), w);
  T y = Ty<T>::make(w);
  EQZ("ToUint128", U(ScalarHelper<T>::ToUint128(y)), w);
  EQZ("argument after ToUint128", Ty<T>::rep(y), w);
  EQZ("FromUint128 again", Ty<T>::rep(ScalarHelper<T>::FromUint128(ScalarHelper<T>::ToUint128(y))), w);
}
static void run(const nt::Case& c) { if (setmod(c[0], zhex(c[2]), zhex(c[3]))) DISPATCH(c[0], conv, nt::unhex(c[1])); }
static void gen(std::function<bool(const nt::Case&)> emit) {
  for (;;) {
    NTL::ZZ p = edgemod(128), q = edgemod_sp();
    for (int i = 0; i < 20; i++) {
      u128 v = nt::edge128();
      for (auto& t : TYPES) {
        if (t == "ZZp" && nt::rng() % 3 == 0) { NTL::ZZ w = p * NTL::ZZ(nt::rng() % 4) - 1 + nt::rng() % 3; if (w >= 0 && NTL::NumBits(w) <= 128) { v = 0; for (int k = 127; k >= 0; k--) v = v << 1 | NTL::bit(w, k); } }
        if (!emit({t, hex(v), shex(p), shex(q)})) return;
      }
    }
  }
}
#elif PROP == 6
template <class T> void bits(u128 v) {
  NTL::ZZ m = Ty<T>::order(), w = Z(v) % m;
  T x = Ty<T>::make(w), sum = Ty<T>::make(NTL::ZZ(0));
  int size = ScalarHelper<T>::SizeOf();
  EQZ("SizeOf", NTL::ZZ(size), NTL::ZZ((NTL::NumBits(m - 1) + 7) / 8));
  for (int k = 0; k < 8 * size; k++) {
    bool b = ScalarHelper<T>::GetBit(x, k);
    T s = ScalarHelper<T>::SetBit(k);
    if (b) sum += s;
  }
  EQZ("x after GetBit", Ty<T>::rep(x), w);
  EQZ("sum of GetBit(x,k)*SetBit(k)", Ty<T>::rep(sum), w);
}
static void run(const nt::Case& c) { if (setmod(c[0], zhex(c[2]), zhex(c[3]))) DISPATCH(c[0], bits, nt::unhex(c[1])); }
static void gen(std::function<bool(const nt::Case&)> emit) {
  for (int k = 1; k <= 128; k++) for (int d = -1; d <= 1; d++) for (u128 v : {~u128(0), u128(1) << (k - 1), u128(0)}) {
    NTL::ZZ p = NTL::power2_ZZ(k) + d;
    if (p < 2 || p > NTL::power2_ZZ(128)) continue;
    if (!emit({"ZZp", hex(v), shex(p), "0"})) return;
    if (NTL::NumBits(p) <= NTL_SP_NBITS && !emit({"zzp", hex(v), "0", shex(p)})) return;
  }
  for (;;) {
    NTL::ZZ p = edgemod(128), q = edgemod_sp();
    for (int i = 0; i < 10; i++) {
      u128 v = nt::edge128();
      for (auto& t : TYPES) if (!emit({t, hex(v), shex(p), shex(q)})) return;
    }
  }
}
#elif PROP == 7
template <class T> void can(double s, int h) {
  bool r = ScalarHelper<T>::CanBeHashedInto(s, h);
  NTL::ZZ m = Ty<T>::order(), N = NTL::power2_ZZ(h), rem = N % m;
  // statistical distance of (uniform h-bit value mod m) from uniform
  double bias = rem == 0 ? 0 : NTL::conv<double>(rem) / NTL::conv<double>(N);
  double dist = N < m ? 1 - NTL::conv<double>(N) / NTL::conv<double>(m) : bias * (NTL::conv<double>(m - rem) / NTL::conv<double>(m));
  double lim = std::pow(2.0, -s);
  const double tol = 1 + 1e-9;
  if (r && dist > lim * tol) nt::fail("accepted with statistical distance %g > %g (modulus %s, %d hash bits)", dist, lim, str(m).c_str(), h);
  if (!r && h == 128 && bias * tol < lim) nt::fail("rejected although the bias is %g < %g (modulus %s)", bias, lim, str(m).c_str());
}
static void run(const nt::Case& c) { if (setmod(c[0], zhex(c[3]), zhex(c[4]))) DISPATCH(c[0], can, atof(c[1].c_str()), nt::tonum(c[2])); }
static void gen(std::function<bool(const nt::Case&)> emit) {
  for (;;) {
    NTL::ZZ p = edgemod(nt::rng() % 4 ? 128 : 150), q = edgemod_sp();
    if (nt::rng() % 10 == 0) p = edgemod(128) * 12289 + nt::rng() % 2;
    if (p < 2) p = 2;
    int h = nt::rng() % 3 ? 128 : 1 + nt::rng() % 128;
    if (nt::rng() % 8 == 0) h = NTL::NumBits(p) > 128 ? 128 : NTL::NumBits(p);
    double s = nt::rng() % 2 ? 40 : int(nt::rng() % 129);
    if (nt::rng() % 3 == 0) { NTL::ZZ r = NTL::power2_ZZ(h) % p; if (r > 0) { s = h - std::log2(NTL::conv<double>(r)) + (int(nt::rng() % 3) - 1) * 0.001; if (s < 0) s = 0; } }
    for (auto& t : TYPES) if (!emit({t, std::to_string(s), nt::num(h), shex(p), shex(q)})) return;
  }
}
#elif PROP == 8
// a history: comma separated steps  i<hex> install ZZ_p, j<hex> install zz_p, s/t save ZZ_p/zz_p context, r/u restore it, x run the saved contexts on a new thread
static void query(const NTL::ZZ& p, const NTL::ZZ& q) {
  if (p > 0) {
    EQZ("installed ZZ_p modulus", ZZp::modulus(), p);
    EQZ("NTLNumBits<ZZ_p>", NTL::ZZ(NTLNumBits<ZZp>()), NTL::ZZ(NTL::NumBits(p - 1)));
    EQZ("NTLNumBits<ZZ_p> again", NTL::ZZ(NTLNumBits<ZZp>()), NTL::ZZ(NTL::NumBits(p - 1)));
    EQZ("SizeOf<ZZ_p>", NTL::ZZ(ScalarHelper<ZZp>::SizeOf()), NTL::ZZ((NTL::NumBits(p - 1) + 7) / 8));
  }
  if (q > 0) {
    EQZ("installed zz_p modulus", NTL::ZZ(zzp::modulus()), q);
    EQZ("NTLNumBits<zz_p>", NTL::ZZ(NTLNumBits<zzp>()), NTL::ZZ(NTL::NumBits(q - 1)));
    EQZ("SizeOf<zz_p>", NTL::ZZ(ScalarHelper<zzp>::SizeOf()), NTL::ZZ((NTL::NumBits(q - 1) + 7) / 8));
  }
}
static void history(const std::string& h) {
  NTL::ZZ p(0), q(0), sp(0), sq(0);
  NTLContext<ZZp> C; NTLContext<zzp> D; NTLContext<uint32_t> E; NTLContext<gf128> F; NTLContext<au128> G;
  std::stringstream in(h);
  std::string st;
  while (std::getline(in, st, ',')) {
    switch (st[0]) {
      case 'i': p = zhex(st.substr(1)); ZZp::init(p); break;
      case 'j': q = zhex(st.substr(1)); zzp::init(NTL::conv<long>(q)); break;
      case 's': if (p > 0) { C.save(); sp = p; } E.save(); F.save(); G.save(); break;
      case 't': if (q > 0) { D.save(); sq = q; } break;
      case 'r': if (sp > 0) { C.restore(); p = sp; } E.restore(); F.restore(); G.restore(); break;
      case 'u': if (sq > 0) { D.restore(); q = sq; } break;
      case 'x': std::thread([&] { if (sp > 0) C.restore(); if (sq > 0) D.restore(); query(sp, sq); if (p > 0) { ZZp::init(p); query(p, sq); } if (sp > 0) { C.restore(); query(sp, sq); } }).join(); break;
    }
    if (st[0] != 'n' && nt::tonum(st.size() > 1 ? "1" : "1")) query(p, q);
  }
}
static void run(const nt::Case& c) { std::thread([&] { history(c[0]); }).join(); }
static void gen(std::function<bool(const nt::Case&)> emit) {
  for (;;) {
    std::string h;
    std::vector<NTL::ZZ> ps;
    for (int i = 0; i < 3; i++) ps.push_back(edgemod(150));
    ps.push_back(ps[0] + 1); ps.push_back(ps[0] * 2); ps.push_back(NTL::power2_ZZ(NTL::NumBits(ps[1])) + 1); ps.push_back(ps[0] + NTL::power2_ZZ(64)); ps.push_back(ps[0] + NTL::power2_ZZ(100));
    int n = 2 + nt::rng() % 8;
    for (int i = 0; i < n; i++) {
      if (i) h += ",";
      switch (nt::rng() % 10) {
        case 0: h += "s"; break;
        case 1: h += "t"; break;
        case 2: h += "r"; break;
        case 3: h += "u"; break;
        case 4: if (nt::rng() % 4 == 0) h += "x"; else h += "r"; break;
        case 5: case 6: h += "j" + shex(edgemod_sp()); break;
        default: h += "i" + shex(ps[nt::rng() % ps.size()]);
      }
    }
    if (!emit({h})) return;
  }
}
#elif PROP == 25
template <class T> void rnd(int n) {
  // guard elements on both sides; every element is redrawn many times, so every free bit takes both values
  const int G = 4, R = 80;
  NTL::ZZ m = Ty<T>::order();
  int nb = NTL::NumBits(m - 1);
  T mark = Ty<T>::make(Z(u128(0x5a5a5a5a5a5a5a5aull) << 64 | 0xa5a5a5a5a5a5a5a5ull) % m);
  std::vector<T> v(n + 2 * G, mark);
  std::vector<NTL::ZZ> o(n, NTL::ZZ(0)), a(n, NTL::power2_ZZ(nb) - 1), prev;
  int same = 0;
  for (int r = 0; r < R; r++) {
    ScalarHelper<T>::Randomize(absl::Span<T>(v.data() + G, n));
    NTL::ZZ first;
    std::set<std::string> all;
    for (int i = 0; i < G; i++) { EQZ("element before the span", Ty<T>::rep(v[i]), Ty<T>::rep(mark)); EQZ("element after the span", Ty<T>::rep(v[n + G + i]), Ty<T>::rep(mark)); }
    for (int i = 0; i < n; i++) {
      NTL::ZZ x = Ty<T>::rep(v[G + i]);
      NT_CHECK(x >= 0 && x < m, "element %d out of range", i);
      o[i] |= x; a[i] &= x;
      if (nb > 30 && i) NT_CHECK(x != first, "elements 0 and %d equal", i);
      if (!i) first = x;
      // a repetition among n random values of more than 70 bits is a defect; two neighbours of 55 bits as well
      if (nb > 70 && r < 3) { std::string w(16, 0); NTL::BytesFromZZ((unsigned char*)&w[0], x, 16); NT_CHECK(all.insert(w).second, "element %d of %d is a repetition", i, n); }
      if (nb > 50 && i) NT_CHECK(x != Ty<T>::rep(v[G + i - 1]), "elements %d and %d of %d equal", i - 1, i, n);
    }
  }
  for (int i = 0; i < n; i++) for (int k = 0; k < nb; k++) {
    // bit k is non-constant with probability > 1 - 2^-39 when both values are common among representatives
    NTL::ZZ lowc = m >> (k + 1); lowc <<= k; NTL::ZZ rest = m - (lowc << 1); NTL::ZZ ones = lowc + (rest > NTL::power2_ZZ(k) ? rest - NTL::power2_ZZ(k) : NTL::ZZ(0));
    if (ones * 3 < m || (m - ones) * 3 < m) continue;
    NT_CHECK(NTL::bit(o[i], k), "bit %d of element %d of %d is never set", k, i, n);
    NT_CHECK(!NTL::bit(a[i], k), "bit %d of element %d of %d is always set", k, i, n);
  }
  if (nb > 0 && n) { NTL::ZZ mx(0); }
}
// long spans: no element keeps its old value
template <class T> void big(int n) {
  NTL::ZZ m = Ty<T>::order();
  if (NTL::NumBits(m - 1) < 30) return;
  T mark = Ty<T>::make(Z(u128(0x5a5a5a5a5a5a5a5aull) << 64 | 0xa5a5a5a5a5a5a5a5ull) % m);
  std::vector<T> v(n, mark), w;
  std::vector<int> left(n, 3);
  for (int r = 0; r < 3; r++) {
    ScalarHelper<T>::Randomize(absl::Span<T>(v.data(), n));
    if (r) for (int i = 0; i < n; i++) left[i] -= v[i] == w[i];
    else for (int i = 0; i < n; i++) left[i] -= v[i] == mark;
    w = v;
  }
  for (int i = 0; i < n; i++) NT_CHECK(left[i] > 1, "element %d of %d keeps its value", i, n);
}
// every residue of a tiny modulus occurs
template <class T> void cover(int n) {
  long m = NTL::conv<long>(Ty<T>::order());
  std::vector<T> v(n);
  std::vector<std::vector<int>> seen(n, std::vector<int>(m));
  for (int r = 0; r < 60 * m; r++) { ScalarHelper<T>::Randomize(absl::Span<T>(v.data(), n)); for (int i = 0; i < n; i++) seen[i][NTL::conv<long>(Ty<T>::rep(v[i]))]++; }
  for (int i = 0; i < n; i++) for (long x = 0; x < m; x++) NT_CHECK(seen[i][x] > 3, "value %ld of element %d drawn %d times in %ld draws", x, i, seen[i][x], 60 * m);
}
static void gfrand() {
  u128 o = 0, a = ~u128(0), o2 = 0, a2 = ~u128(0), p = 0;
  for (int i = 0; i < 80; i++) { gf128 x = gf128::random_element(); u128 v = (u128)static_cast<au128>(x); NT_CHECK(v != p, "same element twice"); p = v; o |= v; a &= v; gf128 y(7); y.randomize(); v = (u128)static_cast<au128>(y); o2 |= v; a2 &= v; }
  NT_CHECK(o == ~u128(0) && a == 0, "random_element(): some bit is constant");
  NT_CHECK(o2 == ~u128(0) && a2 == 0, "randomize(): some bit is constant");
}
static void run(const nt::Case& c) {
  if (c[0] == "gfrand") return gfrand();
  if (!setmod(c[0], zhex(c[2]), zhex(c[3]))) return;
  int n = nt::tonum(c[1]);
  if (n > 400) { DISPATCH(c[0], big, n); return; }
  DISPATCH(c[0], rnd, n);
  if (c[0] == "ZZp" && ZZp::modulus() < 12) cover<ZZp>(n % 5);
  if (c[0] == "zzp" && zzp::modulus() < 12) cover<zzp>(n % 5);
}
static void gen(std::function<bool(const nt::Case&)> emit) {
  if (!emit({"gfrand"})) return;
  for (;;) {
    NTL::ZZ p = edgemod(128), q = edgemod_sp();
    if (nt::rng() % 4 == 0) { p = 2 + nt::rng() % 9; q = 2 + nt::rng() % 9; }
    int n = nt::rng() % 3 ? nt::rng() % 20 : nt::rng() % 8 ? nt::rng() % 200 : 400 + (1 << (4 + nt::rng() % 13)) + nt::rng() % 8;
    for (auto& t : TYPES) if (!emit({t, nt::num(n), shex(p), shex(q)})) return;
  }
}
#endif
NT_MAIN(run, gen)
