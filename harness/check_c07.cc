// C07: multi-threaded multiplication has no data races. Built with the thread
// sanitizer; a report ends the process.
#include <string.h>

#include "problem.h"
#include "ruy/thread_pool.h"

using namespace gemm;

extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:"
         "die_after_fork=0:history_size=3";
}

namespace {

void Prop(pbt::Case& c) {
  SettingsOptions so;
  so.multi_only = true;
  Settings s = GenSettings(c, so);
  s.set_spin = true;
  s.spin_ms = c.pick<float>({0.f, 0.f, 0.02f, 1.f});
  if (!c.chance(1, 4)) {
    s.strategy = ruy::NumThreadsStrategy::kForceMaxNumThreads;
  }
  // Small caches make for many small blocks.
  if (c.flag()) {
    s.l1 = 256;
    s.l2 = 1024;
    s.l3 = 4096;
  }
  std::unique_ptr<ruy::Context> ctx = s.Make();
  std::vector<std::unique_ptr<Problem>> problems;
  std::string text = s.ToString();
  const int n = static_cast<int>(c.range(1, 4));
  bool workers = false;
  for (int i = 0; i < n; ++i) {
    Problem* p;
    if (i > 0 && c.chance(1, 3)) {
      p = problems[c.draw(problems.size())].get();
      text += " again";
    } else {
      ProblemOptions o;
      o.shape.max_macs = 60000;
      o.shape.max_dim = 200;
      o.cache_policies = c.chance(1, 3);
      o.guard = false;
      problems.push_back(GenProblem(c, o));
      p = problems.back().get();
      text += " " + p->ToString();
    }
    if (i > 0 && c.chance(1, 3)) {
      s.threads = static_cast<int>(c.range(1, 8));
      ctx->set_max_num_threads(s.threads);
      text += pbt::Format(" threads=%d", s.threads);
    }
    if (i > 0 && c.chance(1, 6)) {
      ctx->set_runtime_enabled_paths(s.path = c.pick(RunnablePaths()));
      text += pbt::Format(" path=0x%x", static_cast<int>(s.path));
    }
    if (c.chance(1, 8)) ctx->ClearPrepackedCache();
    c.describe("%s", text.c_str());
    // Every destination byte and operand byte is accessed by the caller before
    // and after, so unordered accesses of workers show.
    ResetDst(p);
    Mul(p->args, ctx.get());
    std::string e = CheckResult(*p, s.path);
    if (!e.empty()) c.fail("multiplication %d: %s", i, e.c_str());
    if (s.threads > 1 && p->rows * p->cols > 8) workers = true;
    // Operands may be changed once the call has returned.
    if (p->args.lhs.cache_policy == ruy::CachePolicy::kNeverCache &&
        c.chance(1, 4)) {
      unsigned char* b = p->lhs.data();
      std::vector<unsigned char> keep(b, b + p->lhs.size());
      memset(b, 0, p->lhs.size());
      memcpy(b, keep.data(), keep.size());
    }
  }
  ctx.reset();
  if (workers) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C07";
  s.rule =
      "Generated histories of 1-4 multiplications with 2-8 threads on one "
      "context under the thread sanitizer (happens-before race detection), "
      "most with all threads forced and many with small blocks; any report is "
      "a violation, results are checked too. Non-trivial: several threads and "
      "more than 8 entries.";
  s.assumptions = {"races of the interleavings that occur, at the accesses "
                   "that compiled C++ code makes (not inline assembly)"};
  s.report_exit_code = 66;
  s.case_cpu_limit_s = 240;
  s.parts = {{"mul", Prop, 80000, 1500000}};
  return pbt::Main(argc, argv, s);
}
