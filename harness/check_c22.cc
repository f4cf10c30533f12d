// C22: repeating multiplications reaches a steady state.
#include <string.h>

#include "memhook.h"
#include "problem.h"
#include "ruy/thread_pool.h"

using namespace gemm;

namespace {

struct Step {
  Problem* p;
  Settings s;
};

// One round of the set.
void Round(const std::vector<Step>& steps, ruy::Context* ctx) {
  for (const Step& t : steps) {
    t.s.ApplyTo(ctx);
    Mul(t.p->args, ctx);
  }
}

// What one multiplication can need for packed operands and per-channel copies.
long Need(const Step& t) {
  const Problem& p = *t.p;
  auto up = [](long v) { return (v + 15) / 16 * 16; };
  const Combo& k = p.types();
  const long rows = up(p.rows), cols = up(p.cols), depth = up(p.depth);
  long n = rows * depth * SizeOf(k.lhs) + cols * depth * SizeOf(k.rhs);
  n += (rows + cols) * 8;                         // sums
  n += std::max(rows, cols) * 3 * SizeOf(k.acc);  // per-channel copies
  return n;
}

// Memory held after some rounds in a new context.
long HeldAlone(const Step& t) {
  const std::vector<Step> one = {t};
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  memhook::Start();
  for (int i = 0; i < 3; ++i) Round(one, ctx.get());
  const long held = memhook::Get().live_bytes;
  ctx.reset();
  memhook::Stop();
  return held;
}

void Warm() {
  // Statics, stacks of threads and the like, which belong to no context.
  static bool done = false;
  if (done) return;
  done = true;
  struct T final : ruy::Task {
    void Run() override {}
  };
  for (int i = 0; i < 2; ++i) {
    ruy::Context ctx;
    std::vector<T> tasks(16);
    ctx.mutable_thread_pool()->Execute(16, tasks.data());
    ctx.get_runtime_enabled_paths();
  }
}

void Prop(pbt::Case& c) {
  Warm();
  std::vector<std::unique_ptr<Problem>> problems;
  std::vector<Step> steps;
  std::string text;
  const int n = static_cast<int>(c.range(1, 6));
  bool cached = false, multi = false;
  for (int i = 0; i < n; ++i) {
    ProblemOptions o;
    o.shape.max_macs = c.chance(1, 6) ? 400000 : 60000;
    o.shape.max_dim = 200;
    o.cache_policies = c.chance(1, 3);
    problems.push_back(GenProblem(c, o));
    Step t;
    t.p = problems.back().get();
    t.s = GenSettings(c);
    if (c.chance(1, 4)) t.s.strategy = ruy::NumThreadsStrategy::kForceMaxNumThreads;
    if (o.cache_policies) cached = true;
    if (t.s.threads > 1) multi = true;
    steps.push_back(t);
    text += t.p->ToString() + " | " + t.s.ToString() + "; ";
  }
  c.describe("%s", text.c_str());
  fakecpu::Set(fakecpu::Default());
  // Bounds.
  long most = 0, sum = 0;
  for (const Step& t : steps) {
    const long h = HeldAlone(t);
    const long slack = 24000 + 3000 * t.s.threads;
    const long bound = Need(t) * 5 / 4 + slack;
    if (h > bound) {
      c.fail("one multiplication (%s) leaves %ld bytes held; at most %ld needed",
             t.p->ToString().c_str(), h, bound);
    }
    most = std::max(most, h);
    sum += h;
  }
  const int more =
      static_cast<int>(c.chance(1, 60) ? c.range(5, 300) : c.range(1, 4));
  const bool clear = c.chance(1, 4);
  // In a changed order at times: what is held suffices for any of them.
  std::vector<Step> shuffled = steps;
  if (c.chance(1, 3)) {
    for (std::size_t i = shuffled.size(); i > 1; --i) {
      std::swap(shuffled[i - 1], shuffled[c.draw(i)]);
    }
  }
  // From here on only the code under test requests memory.
  memhook::Start();
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  for (int i = 0; i < 3; ++i) Round(steps, ctx.get());
  const memhook::Stats a = memhook::Get();
  for (int i = 0; i < more; ++i) Round(shuffled, ctx.get());
  const memhook::Stats b = memhook::Get();
  if (clear) ctx->ClearPrepackedCache();
  ctx.reset();
  const memhook::Stats e = memhook::Get();
  memhook::Stop();
  if (b.requests != a.requests || b.live_bytes != a.live_bytes) {
    c.fail("%ld more memory requests in %d further rounds (held %ld, was %ld)",
           b.requests - a.requests, more, b.live_bytes, a.live_bytes);
  }
  if (b.threads_created != a.threads_created) {
    c.fail("%ld more threads in %d further rounds",
           b.threads_created - a.threads_created, more);
  }
  if (b.threads_live > 7) c.fail("%ld workers", b.threads_live);
  const long bound = 2 * most + (cached ? sum : 0) + 40000;
  if (b.live_bytes > bound) {
    c.fail("%ld bytes held, multiplications alone at most %ld",
           b.live_bytes, most);
  }
  if (e.live_blocks != 0) {
    c.fail("%ld blocks (%ld bytes) left after destruction", e.live_blocks,
           e.live_bytes);
  }
  if (e.threads_live != 0) c.fail("%ld threads left", e.threads_live);
  if (n > 1 || multi) c.nontrivial();
  if (cached) c.label("cached");
  if (b.threads_live) c.label("workers");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C22";
  s.rule =
      "Generated sets of 1-6 multiplications with settings are repeated on one "
      "context: after three rounds no memory request and no thread creation "
      "may happen in further ones, the memory held is bounded by what the "
      "multiplications hold alone (itself bounded by their packed sizes), and "
      "nothing is left after destruction. Non-trivial: more than one "
      "multiplication, or several threads.";
  s.assumptions = {"memory from malloc-like functions and operator new"};
  s.parts = {{"set", Prop, 40000, 500000}};
  return pbt::Main(argc, argv, s);
}
