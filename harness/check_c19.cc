// C19: running out of memory never yields a wrong result or corruption.
#include <signal.h>
#include <string.h>

#include <new>

#include "memhook.h"
#include "problem.h"
#include "ruy/allocator.h"

using namespace gemm;

namespace {

// What a child may do: exit with 0, or stop on a diagnosed failure.
void CheckEnd(pbt::Case& c, const pbt::ChildResult& r, const std::string& what) {
  switch (r.kind) {
    case pbt::ChildResult::kExit:
      if (r.code == 0) return;
      c.fail("%s: %s", what.c_str(), r.output.c_str());
    case pbt::ChildResult::kSignal:
      if (r.code != SIGABRT) {
        c.fail("%s: signal %d (%s) %s", what.c_str(), r.code,
               strsignal(r.code), r.output.c_str());
      }
      if (r.output.empty()) c.fail("%s: stopped without a message", what.c_str());
      return;
    case pbt::ChildResult::kHang:
      c.fail("%s: does not end", what.c_str());
  }
}

struct Step {
  Problem* p;
  Settings s;
  bool clear;
  std::vector<unsigned char> want;
};

// Runs the steps on one context. The context is deliberately not destroyed
// when an exception ends the process.
void RunSteps(const std::vector<Step>& steps, ruy::Context* ctx) {
  for (const Step& t : steps) {
    t.s.ApplyTo(ctx);
    if (t.clear) ctx->ClearPrepackedCache();
    Mul(t.p->args, ctx);
  }
}

void MulProp(pbt::Case& c) {
  std::vector<std::unique_ptr<Problem>> problems;
  std::vector<Step> steps;
  std::string text;
  const int n = static_cast<int>(c.range(1, 3));
  for (int i = 0; i < n; ++i) {
    Step t;
    ProblemOptions o;
    o.shape.max_macs = 150000;
    o.shape.max_dim = 130;
    o.cache_policies = c.flag();
    // Each problem is used by one step only, so that results can be compared
    // after the last one.
    problems.push_back(GenProblem(c, o));
    t.p = problems.back().get();
    t.s = GenSettings(c);
    if (t.s.threads > 4) t.s.threads = 4;
    t.clear = c.chance(1, 8);
    t.s.set_spin = true;
    t.s.spin_ms = 0;
    text += t.p->ToString() + " | " + t.s.ToString() + "; ";
    steps.push_back(t);
  }
  c.describe("%s", text.c_str());
  // Without failures, in this process.
  long total;
  {
    fakecpu::Set(fakecpu::Default());
    memhook::FailAt(1L << 60, false);
    std::unique_ptr<ruy::Context> ctx(new ruy::Context);
    RunSteps(steps, ctx.get());
    ctx.reset();
    total = memhook::Seen();
    memhook::FailAt(-1, false);
    for (Step& t : steps) {
      t.want = DstEntries(*t.p);
      ResetDst(t.p);
    }
  }
  c.label(total < 10 ? "<10 requests" : total < 20 ? "<20 requests"
                                                   : ">=20 requests");
  // With failures. Every request, if there are few.
  const int most = 10;
  std::vector<long> at;
  if (total <= most) {
    for (long k = 0; k < total; ++k) at.push_back(k);
  } else {
    for (int k = 0; k < most; ++k) at.push_back(c.draw(total));
  }
  for (long k : at) {
    const bool rest = c.flag();
    const std::string what = pbt::Format(
        "request %ld of %ld%s fails", k, total, rest ? " and all after it" : "");
    pbt::ChildResult r = pbt::RunInChild([&]() noexcept -> int {
      memhook::FailAt(k, rest);
      ruy::Context* ctx = new ruy::Context;
      RunSteps(steps, ctx);
      delete ctx;
      memhook::FailAt(-1, false);
      for (const Step& t : steps) {
        std::string e = DiffEntries(*t.p, t.want, DstEntries(*t.p));
        if (!e.empty()) {
          fprintf(stderr, "returned normally, but %s", e.c_str());
          return 1;
        }
      }
      return 0;
    });
    CheckEnd(c, r, what);
    if (r.kind == pbt::ChildResult::kExit) c.label("survived");
    if (r.kind == pbt::ChildResult::kSignal) c.label("stopped");
  }
  if (!at.empty()) c.nontrivial();
}

// The scratch allocator alone.
void AllocatorProp(pbt::Case& c) {
  struct Op {
    int kind;  // 0 allocate, 1 avoiding aliasing, 2 release
    std::ptrdiff_t n;
    int fail;  // 0 no, 1 the next request, 2 all requests of this operation
  };
  std::vector<Op> ops;
  std::string text;
  const int n = static_cast<int>(c.range(1, 24));
  bool any = false;
  for (int i = 0; i < n; ++i) {
    Op o;
    o.kind = c.weighted({5, 2, 3});
    o.n = o.kind == 2 ? 0 : c.flag() ? c.range(1, 200) : c.range(1, 20000);
    o.fail = c.chance(1, 4) ? static_cast<int>(c.range(1, 2)) : 0;
    if (o.fail) any = true;
    text += o.kind == 2 ? " release" : pbt::Format(" %ld", static_cast<long>(o.n));
    if (o.fail) text += "!";
    ops.push_back(o);
  }
  c.describe("%s", text.c_str());
  pbt::ChildResult r = pbt::RunInChild([&]() noexcept -> int {
    struct Block {
      unsigned char* p;
      std::ptrdiff_t n;
      unsigned char fill;
    };
    std::vector<Block> blocks;
    blocks.reserve(64);
    {
      ruy::Allocator a;
      int i = 0;
      for (const Op& o : ops) {
        ++i;
        void* p = nullptr;
        if (o.fail) memhook::FailAt(0, o.fail == 2);
        try {
          if (o.kind == 0) p = a.AllocateBytes(o.n);
          if (o.kind == 1) p = a.AllocateBytesAvoidingAliasingWith(o.n, &ops);
          if (o.kind == 2) {
            a.FreeAll();
            blocks.clear();
          }
        } catch (const std::bad_alloc&) {
          p = nullptr;
          if (o.kind == 2) blocks.clear();
        }
        const bool failed = memhook::Failures() > 0;
        memhook::FailAt(-1, false);
        if (o.kind == 2) continue;
        if (!p) {
          if (failed) continue;
          fprintf(stderr, "operation %d: no memory, but no request failed", i);
          return 1;
        }
        Block b{static_cast<unsigned char*>(p), o.n,
                static_cast<unsigned char>(i)};
        if (reinterpret_cast<std::uintptr_t>(p) % 64) {
          fprintf(stderr, "operation %d: not aligned", i);
          return 1;
        }
        for (const Block& q : blocks) {
          if (b.p < q.p + q.n && q.p < b.p + b.n) {
            fprintf(stderr, "operation %d: overlaps live memory", i);
            return 1;
          }
        }
        memset(b.p, b.fill, b.n);
        blocks.push_back(b);
        for (const Block& q : blocks) {
          for (std::ptrdiff_t k = 0; k < q.n; ++k) {
            if (q.p[k] != q.fill) {
              fprintf(stderr, "operation %d: contents changed", i);
              return 1;
            }
          }
        }
      }
    }
    return 0;
  });
  CheckEnd(c, r, "history");
  c.label(r.kind == pbt::ChildResult::kExit ? "survived" : "stopped");
  if (any) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C19";
  s.level = "fault_enumeration";
  s.rule =
      "Generated histories of 1-3 multiplications; each of their memory "
      "requests (a sample of 10 if there are more) is made to fail in a "
      "process of its own, alone or with all later ones; the process must end "
      "with the right results or stop with a message. Also generated "
      "operation sequences with failures on the scratch allocator alone. "
      "Non-trivial: some request fails.";
  s.parts = {{"mul", MulProp, 28000, 700000},
             {"allocator", AllocatorProp, 50000, 1200000}};
  return pbt::Main(argc, argv, s);
}
