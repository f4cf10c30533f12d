// Compiled for ARM: multiplications on one context.
#include "guest.h"

#include "ruy/context.h"
#include "ruy/strategy_controls.h"
#include "ruy/tune.h"

namespace gemm {
#define COMBOS(X) \
  X(0) X(1) X(2) X(3) X(4) X(6) X(7) X(8) X(9) X(10) X(11) X(14)
#define DECL(i) void Mul##i(const MulArgs&, ruy::Context*);
COMBOS(DECL)
}  // namespace gemm

extern "C" void RunJob(arm::Job* job) {
  ruy::Context context;
  for (int i = 0; i < job->count; ++i) {
    arm::Step& s = job->steps[i];
    context.set_runtime_enabled_paths(static_cast<ruy::Path>(s.path));
    context.set_explicit_tuning(static_cast<ruy::Tuning>(s.tuning));
    context.set_max_num_threads(s.threads);
    context.set_num_threads_strategy(
        s.threads > 1 ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                      : ruy::NumThreadsStrategy::kDefault);
    if (s.clear_cache) context.ClearPrepackedCache();
    switch (s.args->combo) {
#define CASE(n)                         \
  case n:                               \
    gemm::Mul##n(*s.args, &context);    \
    break;
      COMBOS(CASE)
    }
    s.used_path = static_cast<int>(context.last_used_path());
  }
}
