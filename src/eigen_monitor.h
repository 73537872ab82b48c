// Force-included: turns Eigen's own precondition checks (shape agreement, index
// ranges, map alignment) into a run-time monitor that does not depend on NDEBUG.
#pragma once
#include <cstdio>
#include <cstdlib>
inline void verif_eigen_fail(const char* e, const char* f, int l) {
  std::fprintf(stderr, "EIGEN-MONITOR: %s at %s:%d\n", e, f, l);
  std::abort();
}
#define eigen_assert(x)                                     \
  do {                                                      \
    if (!(x)) verif_eigen_fail(#x, __FILE__, __LINE__);     \
  } while (0)
