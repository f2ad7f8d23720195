// C17..C22: both parties of a protocol run against each other over an in-process channel with ideal oblivious transfer
#include "nt.h"
#include <any>
#include <atomic>
#include <boost/container/vector.hpp>
#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include <omp.h>
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "NTL/vec_ZZ_p.h"
#include "NTL/vec_lzz_p.h"
#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/strings/str_cat.h"
#include "absl/container/flat_hash_set.h"
#include "absl/types/span.h"
#include "absl/types/optional.h"
#include "emp-ot/emp-ot.h"
#include "types.h"
#define private public
#if PROP == 19
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#elif PROP == 17
#include "distributed_vector_ole/all_but_one_random_ot.h"
#elif PROP == 18
#include "distributed_vector_ole/spfss_known_index.h"
#elif PROP == 20
#include "distributed_vector_ole/mpfss_known_indices.h"
#else
#include "distributed_vector_ole/distributed_vector_ole.h"
#endif
#undef private
using nt::Case;
using nt::num;
using nt::tonum;

struct Party {
  std::unique_ptr<comm_channel> ch;
  std::string error;
};
// runs both sides to their end; throws what went wrong
template <class T, class A, class B>
static void two(A a, B b, int threads, std::atomic<bool>* stop = nullptr) {
  auto p = std::make_shared<mpc_utils::Pipe>(), q = std::make_shared<mpc_utils::Pipe>();
  comm_channel c0(0, 1, p, q), c1(1, 0, q, p);
  NTLContext<T> ctx;
  ctx.save();
  std::string e0, e1;
  auto side = [&](comm_channel& c, auto f, std::string& e) {
    ctx.restore();
    omp_set_num_threads(threads);
    try { f(&c); } catch (const std::exception& x) { e = x.what(); if (e.empty()) e = "exception"; }
    c.abandon();
  };
  std::thread t([&] { side(c1, b, e1); });
  side(c0, a, e0);
  t.join();
  if (stop && *stop) return;
  bool left = !p->q.empty() || !q->q.empty();
  for (auto* x : {&e0, &e1})   // the failure that is no consequence of the peer's
    if (!x->empty() && x->find("nothing to receive") == std::string::npos) {
      if (x->find("maximum number of tries exhausted") != std::string::npos) throw nt::Unlucky{*x};
      nt::fail("%s", x->c_str());
    }
  if (!e0.empty()) nt::fail("first party: %s", e0.c_str());
  if (!e1.empty()) nt::fail("second party: %s", e1.c_str());
  if (left) nt::fail("a message was never received");
}
// one party alone: it must return an error without the help of the other
template <class F>
static void alone(const char* what, F f) {
  auto p = std::make_shared<mpc_utils::Pipe>(), q = std::make_shared<mpc_utils::Pipe>();
  q->dead = true;
  comm_channel c(0, 1, p, q);
  bool ok;
  try { ok = f(&c); } catch (const mpc_utils::ChannelError&) { ok = true; }
  if (ok) nt::fail("%s is not rejected", what);
}
static void need(bool c, const std::string& w) { if (!c) throw std::runtime_error(w); }
static void okay(const mpc_utils::Status& s, const char* w) { need(s.ok(), std::string(w) + " fails: " + std::string(s.message())); }
template <class S> static auto get(S s, const char* w) { if (!s.ok()) throw std::runtime_error(std::string(w) + " fails: " + std::string(s.status().message())); return std::move(s).ValueOrDie(); }
template <class T> static std::string sv(const T& x) { return shex(Ty<T>::rep(x)); }
static std::mt19937_64 cg;
template <class T> static T some() {
  switch (cg() % 6) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return Ty<T>::make(Ty<T>::order() - 1);
    default: { u128 v = (u128(cg()) << 64) | cg(); return Ty<T>::make(Z(v) % Ty<T>::order()); }
  }
}
template <class T> static std::vector<T> somev(size_t n) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(some<T>()); return v; }
static std::vector<int64_t> ints(const std::string& s) {
  std::vector<int64_t> v;
  std::istringstream i(s);
  for (std::string x; std::getline(i, x, ',');) v.push_back(tonum(x));
  return v;
}
static std::string join(const std::vector<int64_t>& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ",") + num(x); return s.empty() ? "," : s; }
static int levels(int64_t n) { int l = 1; while (n > 1) { n = (n + 1) / 2; l++; } return l; }

// name type p q threads seed  + rest
template <class T> static bool begin(const Case& c) {
  cg.seed(tonum(c[5]));
  return setmod(c[1], zhex(c[2]), zhex(c[3]));
}

#if PROP == 17
// ot type p q threads seed sizes indices rounds
template <class T> static void ot(const Case& c) {
  if (!begin<T>(c)) return;
  auto n = ints(c[6]), idx = ints(c[7]);
  int rounds = tonum(c[8]);
  std::vector<std::vector<std::vector<T>>> so(rounds), ro(rounds);
  std::vector<std::vector<bool>> log;
  auto init = [&](std::vector<std::vector<T>>& o, std::vector<absl::Span<T>>& s) { for (auto k : n) o.push_back(std::vector<T>(k, T(1))); for (auto& v : o) s.push_back(absl::MakeSpan(v)); };
  two<T>([&](comm_channel* ch) {
    auto p = get(AllButOneRandomOT::Create(ch, 20), "Create");
    for (int r = 0; r < rounds; r++) {
      std::vector<absl::Span<T>> s;
      init(so[r], s);
      if (n.size() == 1 && r % 2) okay(p->RunSender<T>(s[0]), "RunSender");
      else okay(p->RunSenderBatched<T>(absl::MakeSpan(s)), "RunSenderBatched");
    }
  }, [&](comm_channel* ch) {
    auto p = get(AllButOneRandomOT::Create(ch, 20), "Create");
    emp::choice_log = &log;
    for (int r = 0; r < rounds; r++) {
      std::vector<absl::Span<T>> s;
      init(ro[r], s);
      if (n.size() == 1 && r % 2) okay(p->RunReceiver<T>(idx[0], s[0]), "RunReceiver");
      else okay(p->RunReceiverBatched<T>(idx, absl::MakeSpan(s)), "RunReceiverBatched");
    }
    emp::choice_log = nullptr;
  }, tonum(c[4]));
  std::vector<bool> want;
  for (size_t i = 0; i < n.size(); i++)
    for (int L = n[i] ? levels(n[i]) : 1, l = 1; l < L; l++) want.push_back(!((idx[i] >> (L - 1 - l)) & 1));
  bool any = !want.empty();
  std::set<std::string> chosen;
  for (int r = 0; r < rounds; r++) {
    if (any) {
      NT_CHECK((int)log.size() == rounds, "%zu oblivious transfers in %d rounds", log.size(), rounds);
      NT_CHECK(log[r] == want, "the receiver does not choose the siblings of the path (round %d)", r);
    }
    for (size_t i = 0; i < n.size(); i++)
      for (int64_t k = 0; k < n[i]; k++) {
        bool same = so[r][i][k] == ro[r][i][k];
        if (k != idx[i]) NT_CHECK(same, "round %d output %zu position %lld: sender %s receiver %s", r, i, (long long)k, sv(so[r][i][k]).c_str(), sv(ro[r][i][k]).c_str());
        else if (Ty<T>::order() >= NTL::power2_ZZ(60)) NT_CHECK(!same, "round %d output %zu: the receiver has the sender's value %s at its index %lld", r, i, sv(so[r][i][k]).c_str(), (long long)k);
      }
  }
}
// otbad type p q threads seed sizes indices
template <class T> static void otbad(const Case& c) {
  if (!begin<T>(c)) return;
  auto n = ints(c[6]), idx = ints(c[7]);
  alone("an index out of range or a batch of a different size", [&](comm_channel* ch) {
    auto p = get(AllButOneRandomOT::Create(ch, 20), "Create");
    std::vector<std::vector<T>> o;
    std::vector<absl::Span<T>> s;
    for (auto k : n) o.push_back(std::vector<T>(k, T(0)));
    for (auto& v : o) s.push_back(absl::MakeSpan(v));
    if (n.size() == 1 && idx.size() == 1 && p->RunReceiver<T>(idx[0], s[0]).ok()) return true;
    return p->RunReceiverBatched<T>(idx, absl::MakeSpan(s)).ok();
  });
}
// otsec p bits: the sender must see all leaves when it checks the modulus
static void otsec(const Case& c) {
  NTL::ZZ p = zhex(c[1]);
  NTL::ZZ_p::init(p);
  auto n = ints(c[2]);
  NTL::ZZ total(0);
  for (auto k : n) total += k;
  double sec = tonum(c[3]) + NTL::log(total) / std::log(2.0);
  if (ScalarHelper<ZZp>::CanBeHashedInto(sec)) return;
  alone("a modulus without the statistical security for all leaves", [&](comm_channel* ch) {
    auto pr = get(AllButOneRandomOT::Create(ch, tonum(c[3])), "Create");
    return pr->SendTrees<ZZp>(n, 2).ok();
  });
}
#endif

#if PROP == 18
// sp type p q threads seed sizes indices rounds
template <class T> static void sp(const Case& c) {
  if (!begin<T>(c)) return;
  auto n = ints(c[6]), idx = ints(c[7]);
  int rounds = tonum(c[8]);
  std::vector<std::vector<std::vector<T>>> so(rounds), ro(rounds);
  std::vector<std::vector<T>> a, b;
  for (int r = 0; r < rounds; r++) { a.push_back(somev<T>(n.size())); b.push_back(somev<T>(n.size())); }
  auto init = [&](std::vector<std::vector<T>>& o, std::vector<absl::Span<T>>& s) { for (auto k : n) o.push_back(std::vector<T>(k, T(1))); for (auto& v : o) s.push_back(absl::MakeSpan(v)); };
  two<T>([&](comm_channel* ch) {
    auto p = get(SPFSSKnownIndex::Create(ch, 20), "Create");
    for (int r = 0; r < rounds; r++) {
      std::vector<absl::Span<T>> s;
      if (n.size() == 1 && r % 3 == 2) { so[r].push_back(get(p->RunValueProvider<T>(a[r][0], n[0]), "RunValueProvider")); continue; }
      init(so[r], s);
      if (n.size() == 1 && r % 3 == 1) okay(p->RunValueProvider<T>(a[r][0], s[0]), "RunValueProvider");
      else okay(p->RunValueProviderBatched<T>(a[r], absl::MakeSpan(s)), "RunValueProviderBatched");
    }
  }, [&](comm_channel* ch) {
    auto p = get(SPFSSKnownIndex::Create(ch, 20), "Create");
    for (int r = 0; r < rounds; r++) {
      std::vector<absl::Span<T>> s;
      if (n.size() == 1 && r % 3 == 2) { ro[r].push_back(get(p->RunIndexProvider<T>(b[r][0], idx[0], n[0]), "RunIndexProvider")); continue; }
      init(ro[r], s);
      if (n.size() == 1 && r % 3 == 1) okay(p->RunIndexProvider<T>(b[r][0], idx[0], s[0]), "RunIndexProvider");
      else okay(p->RunIndexProviderBatched<T>(b[r], idx, absl::MakeSpan(s)), "RunIndexProviderBatched");
    }
  }, tonum(c[4]));
  for (int r = 0; r < rounds; r++)
    for (size_t i = 0; i < n.size(); i++) {
      NT_CHECK((int64_t)so[r][i].size() == n[i] && (int64_t)ro[r][i].size() == n[i], "length of output %zu", i);
      for (int64_t k = 0; k < n[i]; k++) {
        T want = k == idx[i] ? T(a[r][i] + b[r][i]) : T(0), got = T(so[r][i][k] + ro[r][i][k]);
        NT_CHECK(got == want, "round %d element %zu position %lld: the shares add up to %s, want %s", r, i, (long long)k, sv(got).c_str(), sv(want).c_str());
      }
    }
}
// spbad type p q threads seed shares indices sizes side
template <class T> static void spbad(const Case& c) {
  if (!begin<T>(c)) return;
  auto n = ints(c[8]), idx = ints(c[7]);
  auto a = somev<T>(tonum(c[6]));
  alone("a batch of a different size or an index out of range", [&](comm_channel* ch) {
    auto p = get(SPFSSKnownIndex::Create(ch, 20), "Create");
    std::vector<std::vector<T>> o;
    std::vector<absl::Span<T>> s;
    for (auto k : n) o.push_back(std::vector<T>(k, T(0)));
    for (auto& v : o) s.push_back(absl::MakeSpan(v));
    if (c[9] == "v") return p->RunValueProviderBatched<T>(a, absl::MakeSpan(s)).ok();
    return p->RunIndexProviderBatched<T>(a, idx, absl::MakeSpan(s)).ok();
  });
}
#endif

#if PROP == 19
// gil type p q threads seed lengths security
template <class T> static void gil(const Case& c) {
  if (!begin<T>(c)) return;
  auto n = ints(c[6]);
  double sec = tonum(c[7]);
  if (ScalarHelper<T>::SizeOf() > 16) {
    alone("a scalar of more than 16 bytes", [&](comm_channel* ch) {
      auto p = get(ScalarVectorGilboaProduct::Create(ch, sec), "Create");
      auto y = somev<T>(3);
      std::vector<T> o(3);
      return p->RunVectorProvider<T>(y, absl::MakeSpan(o)).ok() || p->RunValueProvider<T>(y[0], absl::MakeSpan(o)).ok();
    });
    return;
  }
  std::vector<T> x = somev<T>(n.size());
  std::vector<std::vector<T>> y, a(n.size()), b(n.size());
  for (auto k : n) y.push_back(somev<T>(k));
  two<T>([&](comm_channel* ch) {
    auto p = get(ScalarVectorGilboaProduct::Create(ch, sec), "Create");
    for (size_t r = 0; r < n.size(); r++) {
      if (r % 2) a[r] = get(p->RunVectorProvider<T>(y[r]), "RunVectorProvider");
      else { a[r].assign(n[r], T(1)); okay(p->RunVectorProvider<T>(y[r], absl::MakeSpan(a[r])), "RunVectorProvider"); }
    }
  }, [&](comm_channel* ch) {
    auto p = get(ScalarVectorGilboaProduct::Create(ch, sec), "Create");
    for (size_t r = 0; r < n.size(); r++) {
      if (r % 2) b[r] = get(p->RunValueProvider<T>(x[r], n[r]), "RunValueProvider");
      else { b[r].assign(n[r], T(1)); okay(p->RunValueProvider<T>(x[r], absl::MakeSpan(b[r])), "RunValueProvider"); }
    }
  }, tonum(c[4]));
  for (size_t r = 0; r < n.size(); r++) {
    NT_CHECK((int64_t)a[r].size() == n[r] && (int64_t)b[r].size() == n[r], "length of the output of run %zu", r);
    for (int64_t i = 0; i < n[r]; i++) {
      T got = T(a[r][i] + b[r][i]), want = T(x[r] * y[r][i]);
      NT_CHECK(got == want, "run %zu position %lld of %lld: x=%s y=%s: the shares add up to %s, want %s", r, (long long)i, (long long)n[r], sv(x[r]).c_str(), sv(y[r][i]).c_str(), sv(got).c_str(), sv(want).c_str());
    }
  }
}
// gilbad type p q threads seed ylen outlen
template <class T> static void gilbad(const Case& c) {
  if (!begin<T>(c)) return;
  alone("an output of a different length", [&](comm_channel* ch) {
    auto p = get(ScalarVectorGilboaProduct::Create(ch, 10), "Create");
    auto y = somev<T>(tonum(c[6]));
    std::vector<T> o(tonum(c[7]));
    return p->RunVectorProvider<T>(y, absl::MakeSpan(o)).ok();
  });
  alone("a negative length", [&](comm_channel* ch) {
    auto p = get(ScalarVectorGilboaProduct::Create(ch, 10), "Create");
    return p->RunValueProvider<T>(some<T>(), int64_t(-1)).ok();
  });
}
#endif

#if PROP == 20
static int luckless;
// mp type p q threads seed  len:i,j,..  len:i,j,..  ...     (one run per argument on the same objects)
template <class T> static void mp(const Case& c) {
  if (!begin<T>(c)) return;
  struct R { int64_t n; std::vector<int64_t> idx; std::vector<T> y, a, b; T x; };
  std::vector<R> rs;
  for (size_t i = 6; i < c.size(); i++) {
    R r;
    size_t k = c[i].find(':');
    r.n = tonum(c[i].substr(0, k));
    r.idx = ints(c[i].substr(k + 1));
    r.y = somev<T>(r.idx.size());
    r.x = some<T>();
    r.a.assign(r.n, T(1));
    r.b.assign(r.n, T(1));
    rs.push_back(r);
  }
  uint64_t seed = cg();
  std::atomic<bool> unlucky{false};   // cuckoo hashing may fail with a small probability; the run then ends with an error
  auto corr = [&](int i, int64_t nb, std::vector<T>& u, std::vector<T>& v, std::vector<T>& w) {
    static std::mutex m;
    std::lock_guard<std::mutex> l(m);
    cg.seed(seed + i);
    u = somev<T>(nb);
    v = somev<T>(nb);
    w.clear();
    for (int64_t k = 0; k < nb; k++) w.push_back(T(u[k] * rs[i].x + v[k]));
  };
  two<T>([&](comm_channel* ch) {
    auto p = get(MPFSSKnownIndices::Create(ch, 20), "Create");
    for (size_t i = 0; i < rs.size(); i++) {
      std::vector<T> u, v, w;
      corr(i, get(p->NumBuckets(rs[i].idx.size()), "NumBuckets"), u, v, w);
      if ((seed >> i) & 1) okay(p->UpdateBuckets(rs[i].n, rs[i].idx.size()), "UpdateBuckets");
      okay(p->RunValueProviderVectorOLE<T>(rs[i].x, rs[i].idx.size(), w, absl::MakeSpan(rs[i].a)), "RunValueProviderVectorOLE");
    }
  }, [&](comm_channel* ch) {
    auto p = get(MPFSSKnownIndices::Create(ch, 20), "Create");
    for (size_t i = 0; i < rs.size(); i++) {
      std::vector<T> u, v, w;
      corr(i, get(p->NumBuckets(rs[i].idx.size()), "NumBuckets"), u, v, w);
      auto st = p->RunIndexProviderVectorOLE<T>(rs[i].y, rs[i].idx, u, v, absl::MakeSpan(rs[i].b));
      if (!st.ok() && st.message() == "Failed to insert element, maximum number of tries exhausted") { unlucky = true; throw std::runtime_error("cuckoo hashing failed"); }
      okay(st, "RunIndexProviderVectorOLE");
    }
  }, tonum(c[4]), &unlucky);
  if (unlucky) {
    NT_CHECK(++luckless * 20 < nt::evaluations + 100, "cuckoo hashing fails in %d of %llu cases", luckless, (unsigned long long)nt::evaluations);
    if (getenv("LUCK")) printf("LUCK %s\n", nt::cur);
    return;
  }
  for (size_t i = 0; i < rs.size(); i++) {
    std::vector<T> want(rs[i].n, T(0));
    for (size_t k = 0; k < rs[i].idx.size(); k++) want[rs[i].idx[k]] = T(rs[i].y[k] * rs[i].x);
    for (int64_t k = 0; k < rs[i].n; k++) {
      T got = T(rs[i].a[k] + rs[i].b[k]);
      NT_CHECK(got == want[k], "run %zu position %lld: the shares add up to %s, want %s", i, (long long)k, sv(got).c_str(), sv(want[k]).c_str());
    }
  }
}
// mpbad type p q threads seed len ylen indices
template <class T> static void mpbad(const Case& c) {
  if (!begin<T>(c)) return;
  auto idx = ints(c[8]);
  int64_t len = tonum(c[6]), yl = tonum(c[7]);
  const char* w = "an empty input, a length mismatch or an index out of range";
  std::string got;
  auto p = std::make_shared<mpc_utils::Pipe>(), q = std::make_shared<mpc_utils::Pipe>();
  comm_channel ch(0, 1, p, q);
  auto m = get(MPFSSKnownIndices::Create(&ch, 20), "Create");
  q->dead = true;
  auto y = somev<T>(yl);
  auto nb = m->NumBuckets(yl ? yl : 1);
  size_t k = nb.ok() ? nb.ValueOrDie() : 8;
  auto u = somev<T>(k), v = somev<T>(k);
  std::vector<T> o(len);
  size_t before = p->q.size();
  try {
    NT_CHECK(!m->RunIndexProviderVectorOLE<T>(y, idx, u, v, absl::MakeSpan(o)).ok(), "%s is not rejected", w);
  } catch (const mpc_utils::ChannelError&) { nt::fail("%s is not rejected", w); }
  ch.flush();
  NT_CHECK(p->q.size() == before, "%s is only rejected after data was sent to the other party", w);
  if (yl < 1) {
    try {
      NT_CHECK(!m->RunValueProviderVectorOLE<T>(T(1), -int(len % 3), u, absl::MakeSpan(o)).ok(), "a length that is not positive is not rejected");
    } catch (const mpc_utils::ChannelError&) { nt::fail("a length that is not positive is not rejected"); }
  }
}
#endif

#if PROP == 21 || PROP == 22
// the size of an operation; e<i><d>: the batch for which batch and seeds are d larger than the output of the i-th set
template <class P> static int64_t opsize(const std::string& o, P& p) {
  if (o[0] != 'e') return tonum(o.substr(1));
  int i = o[1] - '0';
  return int64_t(VOLEParameters::output_size[i]) + atoi(o.c_str() + 2) - VOLEParameters::seed_size[i] -
         get(p->mpfss_->NumBuckets(VOLEParameters::num_noise_indices[i]), "NumBuckets");
}
// vo type p q threads seed op...     p<n>: precompute with a given delta, q<n>, e<i><d>: with a random one, r<n>: run
template <class T> static void vo(const Case& c) {
  if (!begin<T>(c)) return;
  typedef typename DistributedVectorOLE<T>::SenderResult SR;
  typedef typename DistributedVectorOLE<T>::ReceiverResult RR;
  int n = c.size() - 6;
  auto deltas = somev<T>(n);
  if (tonum(c[5]) % 2) for (auto& d : deltas) if (d == T(0)) d = T(1);
  std::vector<SR> s(n);
  std::vector<RR> r(n);
  struct Use { std::set<NTL::ZZ> seen; };
  bool big = Ty<T>::order() >= NTL::power2_ZZ(59);
  std::set<std::string> gone;     // values u that were returned or consumed
  auto vals = [](const Vector<T>& v) { std::vector<std::string> o; for (int64_t i = 0; i < v.size(); i++) o.push_back(sv<T>(v[i])); return o; };
  two<T>([&](comm_channel* ch) {
    auto p = get(DistributedVectorOLE<T>::Create(ch, 20), "Create");
    std::vector<std::string> vs, ms;
    int64_t cache = 0;
    for (int i = 0; i < n; i++) {
      const std::string& o = c[6 + i];
      int64_t k = opsize(o, p);
      if (o[0] == 'r') {
        bool first = !p->sender_precomputation_done_;
        s[i] = get(p->RunSender(k), "RunSender");
        if (PROP == 22 && big) {
          auto vs2 = vals(p->sender_vole_seed_.u), ms2 = vals(p->sender_mpfss_seed_.u);
          bool expanded = first || k + p->sender_cached_.u.size() > cache;
          if (expanded) {
            for (auto& x : vs) gone.insert(x);
            for (auto& x : ms) gone.insert(x);
          } else {
            need(vs2 == vs && ms2 == ms, "the seeds change without an expansion");
          }
          vs = vs2; ms = ms2;
          for (auto& x : vals(s[i].u)) need(gone.insert(x).second, "operation " + num(i) + ": correlation u=" + x + " is handed out twice or was a seed before");
        }
      } else {
        okay(p->PrecomputeSender(k), "PrecomputeSender");
        if (PROP == 22 && big) {
          for (auto& x : vs) gone.insert(x);
          for (auto& x : ms) gone.insert(x);
          vs = vals(p->sender_vole_seed_.u); ms = vals(p->sender_mpfss_seed_.u);
        }
      }
      if (PROP == 22 && big) {
        cache = p->sender_cached_.u.size();
        std::set<std::string> live;
        for (auto* l : {&vs, &ms}) for (auto& x : *l) need(live.insert(x).second && !gone.count(x), "operation " + num(i) + ": the seed element u=" + x + " is used twice");
        for (auto& x : vals(p->sender_cached_.u)) need(live.insert(x).second && !gone.count(x), "operation " + num(i) + ": the cached correlation u=" + x + " is used elsewhere");
      }
    }
  }, [&](comm_channel* ch) {
    auto p = get(DistributedVectorOLE<T>::Create(ch, 20), "Create");
    for (int i = 0; i < n; i++) {
      const std::string& o = c[6 + i];
      int64_t k = opsize(o, p);
      if (o[0] == 'r') r[i] = get(p->RunReceiver(k), "RunReceiver");
      else if (o[0] == 'p') okay(p->PrecomputeReceiver(k, deltas[i]), "PrecomputeReceiver");
      else okay(p->PrecomputeReceiver(k), "PrecomputeReceiver");
    }
  }, tonum(c[4]));
  int last = -1, prev = -1;
  for (int i = 0; i < n; i++) {
    const std::string& o = c[6 + i];
    int64_t k = o[0] == 'r' ? int64_t(tonum(o.substr(1))) : 0;
    if (o[0] != 'r') { last = o[0] == 'p' ? i : -1; prev = -1; continue; }
    NT_CHECK(s[i].u.size() == k && s[i].v.size() == k && r[i].w.size() == k, "operation %d: lengths %lld %lld %lld, want %lld", i, (long long)s[i].u.size(), (long long)s[i].v.size(), (long long)r[i].w.size(), (long long)k);
    if (last >= 0) NT_CHECK(r[i].delta == deltas[last], "operation %d: delta is %s, given was %s", i, sv<T>(r[i].delta).c_str(), sv<T>(deltas[last]).c_str());
    if (prev >= 0) NT_CHECK(r[i].delta == r[prev].delta, "operation %d: delta changed", i);
    prev = i;
    for (int64_t j = 0; j < k; j++) {
      T want = T(s[i].u[j] * r[i].delta + s[i].v[j]);
      NT_CHECK(r[i].w[j] == want, "operation %d position %lld: w=%s, u*delta+v=%s", i, (long long)j, sv<T>(r[i].w[j]).c_str(), sv<T>(want).c_str());
    }
  }
}
// both type p q threads seed b1 b2: one instance in both roles, with a precomputation for b1 and one for b2
template <class T> static void both(const Case& c) {
  if (!begin<T>(c)) return;
  typedef typename DistributedVectorOLE<T>::SenderResult SR;
  typedef typename DistributedVectorOLE<T>::ReceiverResult RR;
  int64_t b1 = tonum(c[6]), b2 = tonum(c[7]);
  std::vector<SR> s(4);
  std::vector<RR> r(4);
  auto role = [&](comm_channel* ch, bool a) {
    auto p = get(DistributedVectorOLE<T>::Create(ch, 20), "Create");
    okay(a ? p->PrecomputeSender(b1) : p->PrecomputeReceiver(b1), a ? "PrecomputeSender" : "PrecomputeReceiver");
    okay(a ? p->PrecomputeReceiver(b2) : p->PrecomputeSender(b2), a ? "PrecomputeReceiver" : "PrecomputeSender");
    for (int i = 0; i < 4; i++) {
      int64_t k = i % 2 ? b2 + i : b1 + i;
      if (a == !(i % 2)) s[i] = get(p->RunSender(k), "RunSender");
      else r[i] = get(p->RunReceiver(k), "RunReceiver");
    }
  };
  two<T>([&](comm_channel* ch) { role(ch, true); }, [&](comm_channel* ch) { role(ch, false); }, tonum(c[4]));
  for (int i = 0; i < 4; i++) {
    int64_t k = i % 2 ? b2 + i : b1 + i;
    NT_CHECK(s[i].u.size() == k && s[i].v.size() == k && r[i].w.size() == k, "operation %d: lengths %lld %lld %lld, want %lld", i, (long long)s[i].u.size(), (long long)s[i].v.size(), (long long)r[i].w.size(), (long long)k);
    NT_CHECK(r[i].delta == r[i % 2].delta, "operation %d: delta changed", i);
    for (int64_t j = 0; j < k; j++) {
      T want = T(s[i].u[j] * r[i].delta + s[i].v[j]);
      NT_CHECK(r[i].w[j] == want, "operation %d position %lld: w=%s, u*delta+v=%s", i, (long long)j, sv<T>(r[i].w[j]).c_str(), sv<T>(want).c_str());
    }
  }
}
// vobad type p q threads seed size: a negative size is rejected by both
template <class T> static void vobad(const Case& c) {
  if (!begin<T>(c)) return;
  int64_t k = tonum(c[6]);
  two<T>([&](comm_channel* ch) {
    auto p = get(DistributedVectorOLE<T>::Create(ch, 20), "Create");
    need(!p->RunSender(k).ok(), "RunSender takes a bad size before the precomputation");
    okay(p->PrecomputeSender(10), "PrecomputeSender");
    get(p->RunSender(3), "RunSender");
    if (k < 0) need(!p->RunSender(k).ok(), "RunSender takes a negative size");
    get(p->RunSender(3), "RunSender");
  }, [&](comm_channel* ch) {
    auto p = get(DistributedVectorOLE<T>::Create(ch, 20), "Create");
    need(!p->RunReceiver(k).ok(), "RunReceiver takes a bad size before the precomputation");
    okay(p->PrecomputeReceiver(10), "PrecomputeReceiver");
    get(p->RunReceiver(3), "RunReceiver");
    if (k < 0) need(!p->RunReceiver(k).ok(), "RunReceiver takes a negative size");
    get(p->RunReceiver(3), "RunReceiver");
  }, tonum(c[4]));
}
#endif

static void run(const Case& c) {
#if PROP == 17
  if (c[0] == "ot") DISPATCH(c[1], ot, c);
  else if (c[0] == "otbad") DISPATCH(c[1], otbad, c);
  else otsec(c);
#elif PROP == 18
  if (c[0] == "sp") DISPATCH(c[1], sp, c);
  else DISPATCH(c[1], spbad, c);
#elif PROP == 19
  if (c[0] == "gil") DISPATCH(c[1], gil, c);
  else DISPATCH(c[1], gilbad, c);
#elif PROP == 20
  if (c[0] == "mp") DISPATCH(c[1], mp, c);
  else DISPATCH(c[1], mpbad, c);
#else
  if (c[0] == "vo") DISPATCH(c[1], vo, c);
  else if (c[0] == "both") DISPATCH(c[1], both, c);
  else DISPATCH(c[1], vobad, c);
#endif
}
static int64_t below(int64_t n) { return n > 0 ? nt::rng() % n : 0; }
// moduli random 128-bit values can be reduced by with 20 + 20 bits of statistical security
static NTL::ZZ goodmod() {
  switch (nt::rng() % 5) {
    case 0: return NTL::power2_ZZ(128) - 159;
    case 1: return NTL::power2_ZZ(127) - 1;
    case 2: return NTL::power2_ZZ(128);
    default: return edgemod(70);
  }
}
static Case head(const std::string& n, const std::string& t) {
  return {n, t, shex(goodmod()), shex(edgemod_sp()), num(1 + nt::rng() % 3), num(nt::rng() % 1000000)};
}
static int64_t length() {
  switch (nt::rng() % 6) {
    case 0: return below(4);
    case 1: return (int64_t(1) << below(8)) + below(3);
    case 2: return below(300);
    default: return 1 + below(20);
  }
}
static void gen(std::function<bool(const Case&)> emit) {
  auto add = [](Case c, const std::vector<std::string>& x) { c.insert(c.end(), x.begin(), x.end()); return c; };
#if PROP == 17 || PROP == 18
  for (auto& t : TYPES) {
#if PROP == 17
    emit(add(head("ot", t), {"1", "0", "2"}));
    emit(add(head("ot", t), {"0", "0", "1"}));
    emit(add(head("ot", t), {"2,0,5,8,1,9", "1,0,4,3,0,8", "2"}));
    for (auto& b : std::vector<std::vector<std::string>>{{"4", "-1"}, {"4", "4"}, {"4,5", "1"}, {"4", "1,2"}, {"3,8,2", "1,8,1"}, {"3,8,2", "1,-3,1"}, {"3,8,2", "1,7,4611686018427387904"}}) emit(add(head("otbad", t), b));
#else
    emit(add(head("sp", t), {"1", "0", "3"}));
    emit(add(head("sp", t), {"0", "0", "1"}));
    emit(add(head("sp", t), {"2,0,5,8,1,9", "1,0,4,3,0,8", "2"}));
    for (auto& b : std::vector<std::vector<std::string>>{{"1", "1", "4,5", "v"}, {"2", "1", "4", "v"}, {"2", "1", "4", "i"}, {"1", "1,2", "4", "i"}, {"1", "1", "4,4", "i"}, {"1", "4", "4", "i"}, {"1", "-1", "4", "i"}}) emit(add(head("spbad", t), b));
#endif
  }
#if PROP == 17
  for (auto& n : {"1099511627776,1", "1099511627776,5,0,1099511627776"}) emit({"otsec", shex(NTL::power2_ZZ(69) + NTL::power2_ZZ(67) + 12345), n, "34"});
  {
    std::vector<int64_t> n(500, 4);
    for (int s = 40; s < 80; s++) emit({"otsec", shex(NTL::power2_ZZ(62) + NTL::power2_ZZ(61) + 1), join(n), num(s)});
  }
#endif
  for (auto& x : std::vector<std::vector<std::string>>{{"70000", "65600", "1"}, {"3,66000,5", "1,7,4", "1"}}) emit(add(head(PROP == 17 ? "ot" : "sp", "U64"), x));
  for (;;) {
    for (auto& t : TYPES) {
      std::vector<int64_t> n, x;
      int k = nt::rng() % 4 == 0 ? 0 : 1 + below(nt::rng() % 3 == 0 ? 12 : 3);
      if (k == 0) k = 1;
      for (int i = 0; i < k; i++) { n.push_back(length()); x.push_back(n[i] ? (nt::rng() % 4 == 0 ? n[i] - 1 : below(n[i])) : below(3)); }
      if (!emit(add(head(PROP == 17 ? "ot" : "sp", t), {join(n), join(x), num(1 + nt::rng() % 3)}))) return;
    }
  }
#elif PROP == 19
  for (auto& t : TYPES) {
    for (auto& p : {NTL::power2_ZZ(130) + 5, NTL::power2_ZZ(24) - 3, NTL::power2_ZZ(8) + 1, NTL::ZZ(2)}) {
      Case h = head("gil", t);
      h[2] = shex(p);
      emit(add(h, {"3,0,1", "10"}));
    }
    for (auto& b : std::vector<std::vector<std::string>>{{"4", "5"}, {"5", "4"}, {"0", "1"}, {"17", "16"}}) emit(add(head("gilbad", t), b));
  }
  for (int s = 4; s < 40; s += 2) {  // around the security where correlated OT is no longer possible
    Case h = head("gil", "ZZp");
    h[2] = shex(NTL::power2_ZZ(64) - NTL::power2_ZZ(40));
    if (!emit(add(h, {"5,1", num(s)}))) return;
  }
  for (;;)
    for (auto& t : TYPES) {
      Case h = head("gil", t);
      if (nt::rng() % 2) h[2] = shex(edgemod(128));
      std::vector<int64_t> n;
      for (int k = 1 + below(3); k > 0; k--) n.push_back(nt::rng() % 8 == 0 ? below(200) : below(40));
      if (!emit(add(h, {join(n), num(nt::rng() % 3 == 0 ? 100 : below(60))}))) return;
    }
#elif PROP == 20
  for (auto& t : TYPES)
    for (auto& b : std::vector<std::vector<std::string>>{{"10", "1", "-1"}, {"10", "1", "10"}, {"10", "3", "1,10,2"}, {"10", "3", "1,-5,2"}, {"10", "3", "9,2,11"}, {"10", "0", ","}, {"10", "2", "1"}, {"10", "1", "1,2"}, {"2", "3", "0,1,2"}, {"0", "0", ","}, {"1", "1", "1"}, {"0", "1", "0"},
                                                         {"100", "2", "-9223372036854775808,4"}})
      emit(add(head("mpbad", t), b));
  for (int k = 0; k < 6; k++) for (auto& t : TYPES) {
    int64_t n = 1 + below(300), m = 1 + below(20);
    std::vector<int64_t> x;
    for (int64_t i = 0; i < m; i++) x.push_back(below(n));
    x[below(m)] = k < 3 ? n : -1 - below(5);
    if (m <= n) emit(add(head("mpbad", t), {num(n), num(m), join(x)}));
  }
  if (!emit(add(head("mp", "U64"), {"150000:1,149999,70000", "150000:5,0,77777"}))) return;
  for (;;)
    for (auto& t : TYPES) {
      std::vector<std::string> rs;
      int64_t n = 0, m = 0;
      for (int k = 1 + below(4); k > 0; k--) {
        if (!n || nt::rng() % 2) n = nt::rng() % 3 ? 1 + below(60) : 1 + below(600);
        if (!m || nt::rng() % 2 || m > n) m = std::min<int64_t>(n, nt::rng() % 4 == 0 ? n : 1 + below(30));
        std::set<int64_t> s;
        if (nt::rng() % 2) s.insert(n - 1);
        while ((int64_t)s.size() < m) s.insert(nt::rng() % 3 ? below(n) : std::min<int64_t>(n - 1, below(m + 1)));
        std::vector<int64_t> x(s.begin(), s.end());
        std::shuffle(x.begin(), x.end(), nt::rng);
        rs.push_back(num(n) + ":" + join(x));
      }
      if (!emit(add(head("mp", t), rs))) return;
    }
#else
  emit(add(head("vo", "U64"), {"p10", "r4", "r6", "r0", "r11", "r35", "p7", "r7", "r1", "q12", "r30"}));
  emit(add(head("vobad", "U64"), {"-1"}));
  emit(add(head("both", "U64"), {"10", "20"}));
  emit(add(head("both", "gf128"), {"60", "7"}));
  emit(add(head("vobad", "gf128"), {"-100"}));
  emit(add(head("vobad", "U64"), {"0"}));
  if (!emit(add(head("vo", "U64"), {"p2400", "r2400", "r1", "r2399", "r2401", "r1"}))) return;
  if (!emit(add(head("vo", "U64"), {"r2500", "r6000", "q9000", "r100", "r20000"}))) return;
  if (!emit(add(head("vo", "U64"), {"e0+0", "r10", "e0+1", "r10", "e1+0", "r10000", "e1-1", "r10", "e1+1", "r20000", "e0-1", "r5"}))) return;
  if (!emit(add(head("vo", "U64"), {"p9000", "r5000", "r100", "r4500", "r8999"}))) return;
  for (;;)
    for (auto& t : TYPES) {
      if (PROP == 22 && (t == "U8" || t == "U16" || t == "U32")) continue;
      std::vector<std::string> o;
      Case h = head("vo", t);
      if (PROP == 22) h[2] = shex(NTL::power2_ZZ(128) - 159), h[3] = shex(NTL::power2_ZZ(60) - 93);
      int b = 1 + below(nt::rng() % 4 ? 200 : 3000);
      for (int k = 2 + below(8); k > 0; k--) {
        int z = nt::rng() % 8;
        if (z == 0) { b = 1 + below(nt::rng() % 4 ? 200 : 3000); o.push_back((nt::rng() % 2 ? "p" : "q") + num(b)); }
        else o.push_back("r" + num(z < 3 ? b : z < 6 ? 1 + below(b) : 1 + below(4 * b)));
      }
      if (!emit(add(h, o))) return;
    }
#endif
}
NT_MAIN(run, gen)
