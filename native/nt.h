// Shared frame of the native replay programs: they run the real code of /repo on concrete cases.
//   prog search SEED SECONDS   generate cases until the budget is used or the case list is complete
//   prog case CASE...          run one case
// A failing case prints  FAIL <case> | <why>  and exits 1.
#ifndef NT_H_
#define NT_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <chrono>
#include <functional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace nt {
typedef unsigned __int128 u128;
typedef std::vector<std::string> Case;

inline char cur[1 << 16];
inline uint64_t evaluations = 0;
inline std::set<size_t> distinct;
inline std::vector<std::string> samples;
inline int case_limit_s = 100;

inline std::string hex(u128 v) {
  char b[40];
  snprintf(b, sizeof b, "%llx:%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  return b;
}
inline u128 unhex(const std::string& s) {
  size_t c = s.find(':');
  if (c == std::string::npos) return strtoull(s.c_str(), 0, 16);
  return (u128(strtoull(s.substr(0, c).c_str(), 0, 16)) << 64) | strtoull(s.substr(c + 1).c_str(), 0, 16);
}
inline std::string num(long long v) { return std::to_string(v); }
inline long long tonum(const std::string& s) { return strtoll(s.c_str(), 0, 10); }

inline std::mt19937_64 rng;
inline u128 r128() { return (u128(rng()) << 64) | rng(); }
// values biased to the edges
inline u128 edge128() {
  switch (rng() % 8) {
    case 0: return u128(1) << (rng() % 128);
    case 1: return (u128(1) << (rng() % 128)) - 1;
    case 2: return ~((u128(1) << (rng() % 128)) - 1);
    case 3: return rng() % 4;
    case 4: return ~u128(0) - rng() % 4;
    case 5: return r128() & r128() & r128();
    default: return r128();
  }
}

[[noreturn]] inline void fail(const char* f, ...) {
  char w[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(w, sizeof w, f, a);
  va_end(a);
  printf("FAIL %s | %s\n", cur, w);
  fflush(stdout);
  _exit(1);
}
inline void on_signal(int s) {
  char w[256];
  int n = snprintf(w, sizeof w, " | %s (signal %d)\n", s == SIGALRM ? "case did not end in its time limit" : "the code crashed", s);
  (void)!write(1, "FAIL ", 5);
  (void)!write(1, cur, strlen(cur));
  (void)!write(1, w, n);
  _exit(1);
}
#define NT_CHECK(c, ...) do { if (!(c)) nt::fail(__VA_ARGS__); } while (0)

// thrown when a randomised algorithm gave up, as it may with a small probability: the case is run again
struct Unlucky { std::string what; };
typedef std::function<void(const Case&)> Run;
typedef std::function<void(std::function<bool(const Case&)>)> Gen;

inline void exec(const Run& run, const Case& c) {
  std::string s;
  for (auto& x : c) s += (s.empty() ? "" : " ") + x;
  snprintf(cur, sizeof cur, "%s", s.c_str());
  alarm(case_limit_s);
  for (int tries = 1;; tries++) {
    try {
      run(c);
      break;
    } catch (const Unlucky& u) {
      if (tries == 8) fail("%s (in each of 8 runs)", u.what.c_str());
    } catch (const std::exception& e) {
      fail("exception: %s", e.what());
    }
  }
  alarm(0);
  evaluations++;
  if (distinct.insert(std::hash<std::string>()(s)).second && (samples.size() < 3 || (evaluations & (evaluations - 1)) == 0) && samples.size() < 8)
    samples.push_back(s.substr(0, 300));
}

// gen(emit) produces cases; emit returns false when the budget is used up
inline int main_(int argc, char** argv, const Run& run, const Gen& gen) {
  setvbuf(stdout, 0, _IOLBF, 0);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(s, on_signal);
  std::string mode = argc > 1 ? argv[1] : "search";
  if (mode == "case") {
    Case c(argv + 2, argv + argc);
    exec(run, c);
    printf("PASS %s\n", cur);
    return 0;
  }
  rng.seed(argc > 2 ? strtoull(argv[2], 0, 10) : 1);
  double budget = argc > 3 ? atof(argv[3]) : 10;
  auto t0 = std::chrono::steady_clock::now();
  gen([&](const Case& c) {
    exec(run, c);
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget;
  });
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  printf("OK %llu %zu\n", (unsigned long long)evaluations, distinct.size());
  fflush(stdout);
  _exit(0);
}
}  // namespace nt
#define NT_MAIN(run, gen) int main(int argc, char** argv) { return nt::main_(argc, argv, run, gen); }
#endif
