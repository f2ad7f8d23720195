#ifndef VERIF_STUB_CANONICAL_ERRORS_H_
#define VERIF_STUB_CANONICAL_ERRORS_H_
#include "mpc_utils/status.h"
namespace mpc_utils {
#define VERIF_ERR(N, C) \
  inline Status N##Error(absl::string_view m) { return Status(StatusCode::C, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::C; }
VERIF_ERR(InvalidArgument, INVALID_ARGUMENT)
VERIF_ERR(Internal, INTERNAL)
VERIF_ERR(OutOfRange, OUT_OF_RANGE)
VERIF_ERR(Unimplemented, UNIMPLEMENTED)
VERIF_ERR(Unknown, UNKNOWN)
VERIF_ERR(NotFound, NOT_FOUND)
VERIF_ERR(FailedPrecondition, FAILED_PRECONDITION)
VERIF_ERR(Aborted, ABORTED)
VERIF_ERR(Unavailable, UNAVAILABLE)
#undef VERIF_ERR
}  // namespace mpc_utils
#endif
