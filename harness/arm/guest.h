// What the interpreted program and the check exchange. Both have the same
// layouts of structures.
#ifndef VERIF_ARM_GUEST_H_
#define VERIF_ARM_GUEST_H_

#include <cstdint>

#include "../gemm.h"

namespace arm {

struct Step {
  const gemm::MulArgs* args;
  int path;  // 0: detection
  int tuning;
  int threads;
  int clear_cache;
  // Out.
  int used_path;
};

struct Job {
  Step* steps;
  int count;
};

}  // namespace arm

#endif
