// an abstract commutative ring: the templates of the code under verification are instantiated with it and its operators
// are given by contracts, so that what is proved holds for every scalar type that is a commutative ring
#ifndef VERIF_RING_H_
#define VERIF_RING_H_
#include "absl/numeric/int128.h"
#include "absl/types/span.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
namespace ring {
struct R {
  long h[3];
  R() = default;
  R(int);
  R& operator+=(const R&);
  R& operator-=(const R&);
  R& operator*=(const R&);
};
R operator+(const R&, const R&);
R operator-(const R&, const R&);
R operator*(const R&, const R&);
R operator-(const R&);
bool operator==(const R&, const R&);
bool operator!=(const R&, const R&);
}  // namespace ring
#endif
