// ruy::Mul compiled for several sets of code paths.
#ifndef VERIF_PATH_SETS_H_
#define VERIF_PATH_SETS_H_

#include "gemm.h"

namespace gemm {

constexpr int kNumPathSets = 12;
ruy::Path PathSet(int set);
// Only for the combinations kF32, kI8I8I8 and kI8I8I32.
void MulWithPathSet(int set, const MulArgs& a, ruy::Context* context);

}  // namespace gemm

#endif
