// C13: a context can be reused for any sequence of multiplications and
// settings.
#include <string.h>

#include "problem.h"
#include "ruy/performance_advisory.h"
#include "ruy/thread_pool.h"

using namespace gemm;

namespace {

constexpr int kSlots = 3;

struct Slot {
  std::unique_ptr<ruy::Context> ctx;
  Settings s;
  float spin = 0;  // as read from a new context, or as set
  int muls = 0;
};

void Create(Slot* slot) {
  slot->ctx = Settings().Make();
  slot->s = Settings();
  // The defaults of a new context, where documented.
  slot->ctx->set_runtime_enabled_paths(ruy::Path::kNone);
  slot->s.path = ruy::Path::kNone;
  slot->spin = slot->ctx->thread_pool().spin_milliseconds();
  slot->muls = 0;
}

ruy::Path Detected() {
  int bits = 1;
  for (ruy::Path p : RunnablePaths()) {
    if (!IsPortable(p)) bits |= static_cast<int>(p);
  }
  return static_cast<ruy::Path>(bits);
}

void CheckSettings(pbt::Case& c, const Slot& slot) {
  ruy::Context* ctx = slot.ctx.get();
  const Settings& s = slot.s;
  if (ctx->max_num_threads() != s.threads) {
    c.fail("max_num_threads reads %d, was set to %d", ctx->max_num_threads(),
           s.threads);
  }
  if (ctx->num_threads_strategy() != s.strategy) {
    c.fail("num_threads_strategy does not read as set");
  }
  if (ctx->explicit_tuning() != s.tuning) {
    c.fail("explicit_tuning does not read as set");
  }
  const ruy::Path want =
      s.path == ruy::Path::kNone
          ? Detected()
          : static_cast<ruy::Path>((static_cast<int>(s.path) | 1) &
                                   ~(2 | 4 | 8));
  if (ctx->get_runtime_enabled_paths() != want) {
    c.fail("enabled paths read 0x%x, expected 0x%x",
           static_cast<int>(ctx->get_runtime_enabled_paths()),
           static_cast<int>(want));
  }
  const float spin = ctx->thread_pool().spin_milliseconds();
  if (spin < slot.spin * 0.999f || spin > slot.spin * 1.001f) {
    c.fail("spin time reads %g, was set to %g", spin, slot.spin);
  }
  if (&ctx->thread_pool() != ctx->mutable_thread_pool()) {
    c.fail("two thread pools");
  }
}

void Prop(pbt::Case& c) {
  fakecpu::Set(fakecpu::Default());
  Slot slots[kSlots];
  Create(&slots[0]);
  std::vector<std::unique_ptr<Problem>> problems;
  std::string text;
  const int steps = static_cast<int>(c.range(2, 12));
  bool reused = false;
  for (int i = 0; i < steps; ++i) {
    Slot& slot = slots[c.weighted({6, 2, 1})];
    if (!slot.ctx) {
      Create(&slot);
      text += " new";
    } else if (c.chance(1, 20)) {
      slot.ctx.reset();
      text += " drop";
      continue;
    }
    ruy::Context* ctx = slot.ctx.get();
    // Change some settings.
    const Settings n = GenSettings(c);
    if (c.chance(1, 3)) {
      slot.s.path = c.chance(1, 4) ? ruy::Path::kNone : n.path;
      // Several paths at once, at times.
      if (slot.s.path != ruy::Path::kNone && c.chance(1, 4)) {
        slot.s.path = static_cast<ruy::Path>(
            static_cast<int>(slot.s.path) |
            static_cast<int>(c.pick(RunnablePaths())));
      }
      ctx->set_runtime_enabled_paths(slot.s.path);
    }
    if (c.chance(1, 3)) {
      slot.s.threads = n.threads;
      ctx->set_max_num_threads(n.threads);
    }
    if (c.chance(1, 3)) {
      slot.s.strategy = n.strategy;
      ctx->set_num_threads_strategy(n.strategy);
    }
    if (c.chance(1, 3)) {
      slot.s.tuning = n.tuning;
      ctx->set_explicit_tuning(n.tuning);
    }
    if (c.chance(1, 8)) {
      slot.spin = c.pick<float>({0.f, 0.05f, 1.f});
      ctx->mutable_thread_pool()->set_spin_milliseconds(slot.spin);
    }
    if (c.chance(1, 10)) {
      ctx->ClearPrepackedCache();
      text += " clear";
    }
    // Several multiplications so that buffers stay in use for caching.
    Problem* p;
    if (!problems.empty() && c.chance(1, 3)) {
      p = problems[c.draw(problems.size())].get();
      text += " again";
    } else {
      ProblemOptions o;
      o.shape.max_macs = 80000;
      o.shape.max_dim = 130;
      o.cache_policies = c.chance(1, 3);
      problems.push_back(GenProblem(c, o));
      p = problems.back().get();
    }
    text += pbt::Format(" #%d %s | %s;", static_cast<int>(&slot - slots),
                        p->ToString().c_str(), slot.s.ToString().c_str());
    c.describe("%s", text.c_str());
    CheckSettings(c, slot);
    ResetDst(p);
    Mul(p->args, ctx);
    ++slot.muls;
    std::vector<unsigned char> got(p->dst.data(), p->dst.data() + p->dst.size());
    const ruy::Path path = ctx->last_used_path();
    const bool advised = ctx->performance_advisory(
        ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
    CheckSettings(c, slot);
    std::unique_ptr<ruy::Context> fresh = slot.s.Make();
    ResetDst(p);
    Mul(p->args, fresh.get());
    if (memcmp(got.data(), p->dst.data(), got.size()) != 0) {
      std::vector<unsigned char> want = DstEntries(*p);
      memcpy(p->dst.data(), got.data(), got.size());
      c.fail("step %d: differs from a fresh context: %s", i,
             DiffEntries(*p, want, DstEntries(*p)).c_str());
    }
    if (path != fresh->last_used_path()) {
      c.fail("step %d: used path 0x%x, a fresh context 0x%x", i,
             static_cast<int>(path), static_cast<int>(fresh->last_used_path()));
    }
    int want_path = static_cast<int>(slot.s.path == ruy::Path::kNone
                                         ? Detected()
                                         : slot.s.path);
    if (slot.s.path == ruy::Path::kNone) want_path |= 2 | 4 | 8;
    while (want_path & (want_path - 1)) want_path &= want_path - 1;
    if (static_cast<int>(path) != want_path) {
      c.fail("step %d: used path 0x%x, expected 0x%x", i,
             static_cast<int>(path), want_path);
    }
    if (advised != fresh->performance_advisory(
                       ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer)) {
      c.fail("step %d: advisory differs from a fresh context", i);
    }
    if (c.chance(1, 6)) {
      std::string e = CheckResult(*p, path);
      if (!e.empty()) c.fail("step %d: %s", i, e.c_str());
    }
    if (slot.muls > 1) reused = true;
  }
  if (reused) c.nontrivial();
  c.label(pbt::Format("%d problems", static_cast<int>(problems.size())));
}

// Many small multiplications on one context.
void LongProp(pbt::Case& c) {
  fakecpu::Set(fakecpu::Default());
  const long steps = pbt::GenLength(c, 50, 140000);
  const bool always_threads = c.chance(1, 3);
  std::vector<std::unique_ptr<Problem>> problems;
  const int n = static_cast<int>(c.range(1, 4));
  std::string text = pbt::Format("%ld steps%s:", steps,
                                 always_threads ? " on threads" : "");
  for (int i = 0; i < n; ++i) {
    ProblemOptions o;
    o.shape.max_macs = 2000;
    o.shape.max_dim = 40;
    o.cache_policies = c.chance(1, 3);
    problems.push_back(GenProblem(c, o));
    text += " | " + problems.back()->ToString();
  }
  const ruy::Path paths[2] = {c.pick(RunnablePaths()), c.pick(RunnablePaths())};
  pbt::Rng rng(c.seed());
  c.describe("%s", text.c_str());
  std::vector<std::vector<unsigned char>> want[2];
  for (int k = 0; k < 2; ++k) {
    for (auto& p : problems) {
      ruy::Context fresh;
      fresh.set_runtime_enabled_paths(paths[k]);
      ResetDst(p.get());
      Mul(p->args, &fresh);
      want[k].emplace_back(p->dst.data(), p->dst.data() + p->dst.size());
    }
  }
  ruy::Context ctx;
  int path = 0;
  ctx.set_runtime_enabled_paths(paths[0]);
  if (always_threads) {
    ctx.set_max_num_threads(2);
    ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  }
  for (long i = 0; i < steps; ++i) {
    const std::uint64_t op = rng.below(200);
    if (op == 0) {
      path = !path;
      ctx.set_runtime_enabled_paths(paths[path]);
    } else if (op == 1 && !always_threads) {
      ctx.set_max_num_threads(static_cast<int>(1 + rng.below(3)));
    } else if (op == 2 && rng.below(4) == 0) {
      ctx.ClearPrepackedCache();
    }
    const std::size_t k = rng.below(problems.size());
    Problem* p = problems[k].get();
    ResetDst(p);
    Mul(p->args, &ctx);
    if (memcmp(want[path][k].data(), p->dst.data(), p->dst.size()) != 0) {
      c.fail("step %ld: problem %d differs from a fresh context", i,
             static_cast<int>(k));
    }
    if (ctx.last_used_path() != paths[path]) {
      c.fail("step %ld: used path 0x%x", i,
             static_cast<int>(ctx.last_used_path()));
    }
  }
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C13";
  s.rule =
      "Generated histories of 2-12 multiplications over up to three contexts, "
      "with settings changed, caches cleared, problems repeated and contexts "
      "dropped and created in between; destination bytes, path used and "
      "advisory must equal those of a fresh context with the same settings, "
      "and settings must read back. Part long: up to 140000 "
      "small multiplications on one context. Non-trivial: some context is used again.";
  s.parts = {{"history", Prop, 90000, 1500000},
             {"long", LongProp, 64, 1600}};
  return pbt::Main(argc, argv, s);
}
