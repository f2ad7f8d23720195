// Stand-in for emp-ot: ideal oblivious transfer over the channel adapter (messages m0,m1 in order; the receiver keeps one).
#ifndef VERIF_STUB_EMP_OT_H_
#define VERIF_STUB_EMP_OT_H_
#include <emmintrin.h>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <numeric>
#include <random>
#include <string>
#include <vector>
#include "mpc_utils/comm_channel.hpp"
#include "openssl/rand.h"
using std::vector;
namespace emp {
typedef __m128i block;
inline block makeBlock(uint64_t high, uint64_t low) { return _mm_set_epi64x(high, low); }
inline void initialize_relic() {}
#ifndef DVO_VERIFY_IR
// where set, the choices of the receiver are recorded
inline thread_local std::vector<std::vector<bool>>* choice_log = nullptr;
#endif
template <typename IO>
class SHOTExtension {
 public:
  explicit SHOTExtension(IO* io) : io_(io) {}
  void send(const block* d0, const block* d1, int n) {
    std::vector<uint64_t> v;
    for (int i = 0; i < n; i++) { put(v, d0[i]); put(v, d1[i]); }
    v.push_back(1);  // the two variants are different protocols
    io_->channel()->send(v);
    io_->channel()->flush();
  }
  template <typename F>
  void send_cot_ft(block* d0, F f, int n) {
    std::vector<uint64_t> v;
    for (int i = 0; i < n; i++) {
      RAND_bytes(reinterpret_cast<uint8_t*>(&d0[i]), 16);
      put(v, d0[i]);
      put(v, f(d0[i], i));
    }
    v.push_back(2);
    io_->channel()->send(v);
    io_->channel()->flush();
  }
  void recv(block* out, const bool* b, int n) { get(out, b, n, 1); }
  void recv_cot(block* out, const bool* b, int n) { get(out, b, n, 2); }
 private:
  static void put(std::vector<uint64_t>& v, block b) { uint64_t t[2]; std::memcpy(t, &b, 16); v.push_back(t[0]); v.push_back(t[1]); }
  void get(block* out, const bool* b, int n, uint64_t kind) {
#ifndef DVO_VERIFY_IR
    if (choice_log) choice_log->push_back(std::vector<bool>(b, b + n));
#endif
    std::vector<uint64_t> v;
    io_->channel()->flush();
    io_->channel()->recv(v);
    if (!v.empty() && v.back() != kind) throw mpc_utils::ChannelError("the parties run different kinds of oblivious transfer");
    if (v.size() != 4 * static_cast<size_t>(n) + 1) throw mpc_utils::ChannelError("the number of oblivious transfers differs");
    for (int i = 0; i < n; i++) { uint64_t* p = &v[4 * i + (b[i] ? 2 : 0)]; std::memcpy(&out[i], p, 16); }
  }
  IO* io_;
};
}  // namespace emp
#endif
