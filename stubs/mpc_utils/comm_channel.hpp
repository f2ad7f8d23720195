// Stand-in for mpc_utils' channel: in-process, typed, in-order; what is sent becomes visible to the peer at flush().
#ifndef VERIF_STUB_COMM_CHANNEL_H_
#define VERIF_STUB_COMM_CHANNEL_H_
#include <any>
#include "absl/memory/memory.h"
#include "absl/strings/str_cat.h"
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
namespace mpc_utils {
struct ChannelError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Pipe {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::any> q;
  bool dead = false;
};
class comm_channel {
 public:
  comm_channel(int id, int peer, std::shared_ptr<Pipe> out, std::shared_ptr<Pipe> in) : id_(id), peer_(peer), out_(out), in_(in) {}
  int get_id() const { return id_; }
  int get_peer_id() const { return peer_; }
  bool is_measured() const { return false; }
  void sync() {}
  void flush() {
    if (pending_.empty()) return;
    std::lock_guard<std::mutex> l(out_->m);
    for (auto& a : pending_) out_->q.push_back(std::move(a));
    pending_.clear();
    out_->cv.notify_all();
  }
  template <typename T> void send(const T& v) { pending_.push_back(std::any(std::make_shared<T>(v))); }
  template <typename T> void recv(T& v) {
    std::unique_lock<std::mutex> l(in_->m);
    if (!in_->cv.wait_for(l, std::chrono::seconds(60), [this] { return !in_->q.empty() || in_->dead; }) || in_->q.empty())
      throw ChannelError("nothing to receive");
    auto* p = std::any_cast<std::shared_ptr<T>>(&in_->q.front());
    if (!p) throw ChannelError(std::string("type of the received message differs, expected ") + typeid(T).name());
    v = **p;
    in_->q.pop_front();
  }
  void abandon() {   // the party has ended: the peer must not wait for it
    flush();
    for (auto& p : {out_, in_}) { std::lock_guard<std::mutex> l(p->m); p->dead = true; p->cv.notify_all(); }
  }
  bool idle() { std::lock_guard<std::mutex> l(in_->m); return in_->q.empty() && pending_.empty(); }
 private:
  int id_, peer_;
  std::shared_ptr<Pipe> out_, in_;
  std::vector<std::any> pending_;
};
}  // namespace mpc_utils
using mpc_utils::comm_channel;
#endif
