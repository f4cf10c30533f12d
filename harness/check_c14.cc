// C14: separate contexts can be used concurrently. Built with the thread
// sanitizer; a report ends the process.
#include <stdio.h>
#include <string.h>

#include <atomic>
#include <thread>

#include "problem.h"

using namespace gemm;

extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:"
         "die_after_fork=0:history_size=3";
}

namespace {

struct Step {
  int problem;
  Settings s;
  bool apply;        // settings at this step
  bool fresh;        // new context first
  bool clear;
  bool detect;
  buffers::Buf dst;  // each step has a destination of its own
};

int RunPlan(const std::vector<std::unique_ptr<Problem>>& problems,
            std::vector<std::vector<Step>>* plan) {
  for (auto& steps : *plan) {
    for (Step& s : steps) {
      const Problem& p = *problems[s.problem];
      s.dst = buffers::Buf(p.dst.size(), buffers::kInside);
      memcpy(s.dst.data(), p.dst_initial.data(), p.dst.size());
    }
  }
  std::vector<std::thread> threads;
  std::atomic<int> waiting{static_cast<int>(plan->size())};
  for (auto& steps : *plan) {
    threads.emplace_back([&] {
      waiting.fetch_sub(1, std::memory_order_relaxed);
      while (waiting.load(std::memory_order_relaxed) > 0) {
      }
      std::unique_ptr<ruy::Context> ctx;
      for (Step& s : steps) {
        if (s.fresh) ctx.reset(new ruy::Context);
        if (s.apply) {
          s.s.ApplyTo(ctx.get());
          if (s.detect) ctx->set_runtime_enabled_paths(ruy::Path::kNone);
        }
        if (s.clear) ctx->ClearPrepackedCache();
        MulArgs a = problems[s.problem]->args;
        a.dst.data = s.dst.data();
        Mul(a, ctx.get());
      }
    });
  }
  for (std::thread& t : threads) t.join();
  // What each step gives alone.
  for (std::size_t t = 0; t < plan->size(); ++t) {
    Settings cur;
    bool detect = false;
    int i = 0;
    for (Step& s : (*plan)[t]) {
      if (s.apply) {
        cur = s.s;
        detect = s.detect;
      }
      Problem& p = *problems[s.problem];
      ResetDst(&p);
      ruy::Context ctx;
      cur.ApplyTo(&ctx);
      if (detect) ctx.set_runtime_enabled_paths(ruy::Path::kNone);
      Mul(p.args, &ctx);
      if (memcmp(s.dst.data(), p.dst.data(), p.dst.size()) != 0) {
        fprintf(stderr, "thread %d step %d: not the result alone",
                static_cast<int>(t), i);
        return 1;
      }
      ++i;
    }
  }
  return 0;
}

void Prop(pbt::Case& c) {
  fakecpu::Set(fakecpu::Default());
  std::string text;
  std::vector<std::unique_ptr<Problem>> problems;
  const int np = static_cast<int>(c.range(1, 3));
  for (int i = 0; i < np; ++i) {
    ProblemOptions o;
    o.shape.max_macs = 30000;
    o.shape.max_dim = 120;
    o.cache_policies = c.chance(1, 2);
    o.guard = false;
    problems.push_back(GenProblem(c, o));
    text += problems.back()->ToString() + "; ";
  }
  const int nt = static_cast<int>(c.range(2, 5));
  std::vector<std::vector<Step>> plan(nt);
  for (int t = 0; t < nt; ++t) {
    const int ns = static_cast<int>(c.range(1, 4));
    for (int i = 0; i < ns; ++i) {
      Step s;
      s.problem = static_cast<int>(c.draw(np));
      s.s = GenSettings(c);
      s.s.l1 = Settings().l1;
      s.s.l2 = Settings().l2;
      s.s.l3 = Settings().l3;
      if (s.s.threads > 3) s.s.threads = 3;
      s.apply = i == 0 || c.flag();
      s.fresh = i == 0 || c.chance(1, 3);
      if (s.fresh) s.apply = true;
      s.clear = c.chance(1, 6);
      s.detect = c.chance(1, 3);
      text += pbt::Format(" T%d:%d%s", t, s.problem, s.fresh ? "*" : "");
      if (s.apply) text += "(" + s.s.ToString() + ")";
      plan[t].push_back(std::move(s));
    }
  }
  c.describe("%s", text.c_str());
  // Nothing of the library runs in the process of the case, so that what is
  // set up at the first use is set up by the threads.
  pbt::ChildResult r = pbt::RunInChild([&]() noexcept -> int {
    return RunPlan(problems, &plan);
  }, 240);
  if (r.kind == pbt::ChildResult::kHang) c.fail("no end");
  if (r.kind == pbt::ChildResult::kSignal) {
    c.fail("signal %d; %s", r.code, r.output.c_str());
  }
  if (r.code != 0) {
    c.fail("%s: %s", r.code == 66 ? "race" : "failed", r.output.c_str());
  }
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C14";
  s.rule =
      "2-5 threads each run a generated sequence of up to four multiplications "
      "on contexts of their own, created and destroyed at the same time, on "
      "shared read-only operands, under the thread sanitizer; bytes equal to "
      "running alone, each case in a new process, and no race report. All cases are non-trivial.";
  s.assumptions = {"races of the interleavings that occur, at the accesses "
                   "that compiled C++ code makes"};
  s.report_exit_code = 66;
  s.case_cpu_limit_s = 240;
  s.workers = 4;
  s.parts = {{"threads", Prop, 12000, 200000}};
  return pbt::Main(argc, argv, s);
}
