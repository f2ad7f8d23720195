// Stand-in for mpc_utils::Status (the library is not installed here): same interface, value semantics.
#ifndef VERIF_STUB_STATUS_H_
#define VERIF_STUB_STATUS_H_
#include <string>
#include "absl/strings/string_view.h"
namespace mpc_utils {
enum class StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, NOT_FOUND = 5, ALREADY_EXISTS = 6,
  FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14 };
#ifdef DVO_VERIFY_IR
class Status {   // messages dropped: only the code is observable in the proofs
 public:
  Status() : code_(StatusCode::OK) {}
  Status(StatusCode code, absl::string_view) : code_(code) {}
  bool ok() const { return code_ == StatusCode::OK; }
  StatusCode code() const { return code_; }
  StatusCode error_code() const { return code_; }
  absl::string_view message() const { return absl::string_view(); }
 private:
  StatusCode code_;
};
#else
class Status {
 public:
  Status() : code_(StatusCode::OK) {}
  Status(StatusCode code, absl::string_view msg) : code_(code), msg_(msg.data(), msg.size()) {}
  bool ok() const { return code_ == StatusCode::OK; }
  StatusCode code() const { return code_; }
  StatusCode error_code() const { return code_; }
  absl::string_view message() const { return msg_; }
 private:
  StatusCode code_;
  std::string msg_;
};
#endif
inline bool operator==(const Status& a, const Status& b) { return a.code() == b.code() && a.message() == b.message(); }
inline bool operator!=(const Status& a, const Status& b) { return !(a == b); }
inline Status OkStatus() { return Status(); }
}  // namespace mpc_utils
#endif
