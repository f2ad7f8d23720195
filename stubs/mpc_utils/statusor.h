#ifndef VERIF_STUB_STATUSOR_H_
#define VERIF_STUB_STATUSOR_H_
#include <cstdio>
#include <cstdlib>
#include <type_traits>
#include <utility>
#include <memory>
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
#ifdef DVO_VERIFY_IR
// the value is stored in place, so that the verifier needs no heap model for it
template <typename T>
class StatusOr {
 public:
  StatusOr() : status_(StatusCode::UNKNOWN, absl::string_view()) {}
  StatusOr(const Status& s) : status_(s) {}
  StatusOr(Status&& s) : status_(s) {}
  StatusOr(const T& v) { ::new (&value_) T(v); }
  StatusOr(T&& v) { ::new (&value_) T(std::move(v)); }
  template <typename U, typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, T>::value
            && !std::is_convertible<U, Status>::value && !std::is_same<typename std::decay<U>::type, StatusOr>::value, int>::type = 0>
  StatusOr(U&& v) { ::new (&value_) T(std::forward<U>(v)); }
  StatusOr(StatusOr&& o) : status_(o.status_) { if (status_.ok()) ::new (&value_) T(std::move(o.value_)); }
  template <typename U, typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<U, T>::value, int>::type = 0>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (status_.ok()) ::new (&value_) T(std::move(o.ValueOrDie())); }
  ~StatusOr() { if (status_.ok()) value_.~T(); }
  StatusOr& operator=(StatusOr&& o) {
    if (status_.ok()) value_.~T();
    status_ = o.status_;
    if (status_.ok()) ::new (&value_) T(std::move(o.value_));
    return *this;
  }
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return status_; }
  const T& ValueOrDie() const& { if (!ok()) std::abort(); return value_; }
  T& ValueOrDie() & { if (!ok()) std::abort(); return value_; }
  T&& ValueOrDie() && { if (!ok()) std::abort(); return std::move(value_); }
 private:
  Status status_;
  union { T value_; };
};
#else
template <typename T>
class StatusOr {
 public:
  StatusOr() : status_(StatusCode::UNKNOWN, "Unknown error") {}
  StatusOr(const Status& s) : status_(s) {}
  StatusOr(Status&& s) : status_(std::move(s)) {}
  StatusOr(const T& v) : value_(new T(v)) {}
  StatusOr(T&& v) : value_(new T(std::move(v))) {}
  template <typename U, typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, T>::value
            && !std::is_convertible<U, Status>::value && !std::is_same<typename std::decay<U>::type, StatusOr>::value, int>::type = 0>
  StatusOr(U&& v) : value_(new T(std::forward<U>(v))) {}
  StatusOr(const StatusOr& o) : status_(o.status_), value_(o.value_ ? new T(*o.value_) : nullptr) {}
  StatusOr(StatusOr&& o) = default;
  template <typename U, typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<U, T>::value, int>::type = 0>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (o.ok()) value_.reset(new T(std::move(o.ValueOrDie()))); }
  StatusOr& operator=(const StatusOr& o) { status_ = o.status_; value_.reset(o.value_ ? new T(*o.value_) : nullptr); return *this; }
  StatusOr& operator=(StatusOr&& o) = default;
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  const T& ValueOrDie() const& { Check(); return *value_; }
  T& ValueOrDie() & { Check(); return *value_; }
  T&& ValueOrDie() && { Check(); return std::move(*value_); }
 private:
  void Check() const { if (!ok()) { std::fprintf(stderr, "ValueOrDie on error\n"); std::abort(); } }
  Status status_;
  std::unique_ptr<T> value_;
};
template <typename T>
class StatusOr<std::unique_ptr<T>> {
 public:
  using P = std::unique_ptr<T>;
  StatusOr() : status_(StatusCode::UNKNOWN, "Unknown error") {}
  StatusOr(const Status& s) : status_(s) {}
  StatusOr(Status&& s) : status_(std::move(s)) {}
  StatusOr(P&& v) : value_(std::move(v)) {}
  StatusOr(StatusOr&& o) = default;
  StatusOr& operator=(StatusOr&& o) = default;
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  const P& ValueOrDie() const& { Check(); return value_; }
  P& ValueOrDie() & { Check(); return value_; }
  P&& ValueOrDie() && { Check(); return std::move(value_); }
 private:
  void Check() const { if (!ok()) { std::fprintf(stderr, "ValueOrDie on error\n"); std::abort(); } }
  Status status_;
  P value_;
};
#endif
}  // namespace mpc_utils
#endif
