#ifndef VERIF_STUB_ADAPTER_H_
#define VERIF_STUB_ADAPTER_H_
#include <cstring>
#include <memory>
#include <vector>
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(comm_channel* c, bool direct) {
    return std::unique_ptr<CommChannelEMPAdapter>(new CommChannelEMPAdapter(c));
  }
  void send_data(const void* p, int n) {
    const uint8_t* b = static_cast<const uint8_t*>(p);
    c_->send(std::vector<uint8_t>(b, b + n));
  }
  void recv_data(void* p, int n) {
    c_->flush();
    std::vector<uint8_t> v;
    c_->recv(v);
    if (static_cast<int>(v.size()) != n) throw ChannelError("size of the received data differs");
    if (n) std::memcpy(p, v.data(), n);
  }
  void flush() { c_->flush(); }
  comm_channel* channel() { return c_; }
 private:
  explicit CommChannelEMPAdapter(comm_channel* c) : c_(c) {}
  comm_channel* c_;
};
}  // namespace mpc_utils
#endif
