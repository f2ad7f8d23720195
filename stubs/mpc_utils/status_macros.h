#ifndef VERIF_STUB_STATUS_MACROS_H_
#define VERIF_STUB_STATUS_MACROS_H_
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define VERIF_CAT_(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT_(a, b)
#define RETURN_IF_ERROR(expr) \
  do { ::mpc_utils::Status verif_status_ = (expr); if (!verif_status_.ok()) return verif_status_; } while (0)
#define VERIF_ASSIGN_OR_RETURN(tmp, lhs, expr) \
  auto tmp = (expr); if (!tmp.ok()) return std::move(tmp).status(); lhs = std::move(tmp).ValueOrDie()
#define ASSIGN_OR_RETURN(lhs, expr) VERIF_ASSIGN_OR_RETURN(VERIF_CAT(verif_statusor_, __LINE__), lhs, expr)
#endif
