// C06: thread count, strategy and cache geometry never change results.
#include <string.h>

#include "problem.h"

using namespace gemm;

static const std::vector<int> kAll = {
    kI8I8I32, kU8U8I32, kI8I16I32, kU8U8U8, kI8I8I8,   kU8U8I16,
    kI8I8I16, kI8I8U8,  kI16I8I16, kF32,    kF32,      kF32,
    kF64,     kF64F32};

static void Run(pbt::Case& c, ProblemOptions o, int max_threads, int variants) {
  o.combos = kAll;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings base;
  const auto& paths = RunnablePaths();
  base.path = paths[c.draw(paths.size())];
  std::vector<Settings> vs;
  std::string text;
  for (int i = 0; i < variants; ++i) {
    SettingsOptions so;
    so.max_threads = max_threads;
    so.multi_only = c.chance(3, 4);
    Settings v = GenSettings(c, so);
    v.path = base.path;
    vs.push_back(v);
    text += " / " + v.ToString();
  }
  c.describe("%s | path 0x%x%s", p->ToString().c_str(),
             static_cast<int>(base.path), text.c_str());
  std::unique_ptr<ruy::Context> ctx = base.Make();
  Mul(p->args, ctx.get());
  std::vector<unsigned char> want(p->dst.data(), p->dst.data() + p->dst.size());
  const bool reuse = c.flag();
  for (const Settings& v : vs) {
    if (!reuse) {
      ctx = v.Make();
    } else {
      v.ApplyTo(ctx.get());
    }
    ResetDst(p.get());
    Mul(p->args, ctx.get());
    if (memcmp(p->dst.data(), want.data(), want.size()) != 0) {
      std::vector<unsigned char> got = DstEntries(*p);
      memcpy(p->dst.data(), want.data(), want.size());
      c.fail("with %s: %s", v.ToString().c_str(),
             DiffEntries(*p, DstEntries(*p), got).c_str());
    }
    if (v.threads > 1 &&
        (v.strategy != ruy::NumThreadsStrategy::kDefault ||
         static_cast<std::int64_t>(p->rows) * p->cols * p->depth >= 65536)) {
      c.label("multi-threaded");
      c.nontrivial();
    }
  }
  c.label(pbt::Format("path 0x%x", static_cast<int>(base.path)));
}

static void Medium(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 400000;
  Run(c, o, 12, 3);
}
static void Large(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 12000000;
  o.shape.max_dim = 2000;
  o.shape.max_depth = 3000;
  o.guard = false;
  Run(c, o, 8, 2);
}
static void Elongated(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 3000000;
  o.shape.max_dim = 20000;
  o.shape.max_depth = 300;
  o.guard = false;
  Run(c, o, 16, 2);
}
// More threads than processors.
static void Many(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 1500000;
  o.shape.max_dim = 1000;
  o.shape.max_depth = 300;
  o.shape.large = true;
  o.guard = false;
  Run(c, o, c.chance(1, 4) ? 70 : 40, 2);
}

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C06";
  s.rule =
      "Generated multiplications run single-threaded with typical caches and "
      "again with two or three other settings (1-70 threads, both strategies, "
      "tuning, spin time, simulated cache sizes from 256 bytes up), on a fresh "
      "or the same context; the whole destination buffer must be byte-wise "
      "equal. Non-trivial: at least one variant runs with several threads.";
  s.parts = {{"medium", Medium, 40000, 500000},
             {"large", Large, 1500, 20000},
             {"elongated", Elongated, 2500, 30000},
             {"many", Many, 2000, 24000}};
  return pbt::Main(argc, argv, s);
}
