// C35: the code for 64-bit ARM multiplies right as well.
#include "arm/a64.h"
#include "arm/guest.h"
#include "problem.h"

using namespace gemm;

namespace {

constexpr int kNeon = 0x10, kNeonDotprod = 0x20;

const char* PathName(int p) {
  return p == 0              ? "detection"
         : p == kNeon        ? "NEON"
         : p == kNeonDotprod ? "dot product"
                             : "portable";
}

struct Planned {
  std::unique_ptr<Problem> problem;
  arm::Step step;
  Snapshot before;
  std::vector<std::int64_t> acc;
};

void Run(pbt::Case& c, const ProblemOptions& base, int most, bool dense) {
  static const std::uint64_t run = [] {
    a64::Load(GUEST);
    return a64::Symbol("RunJob");
  }();
  const int n = static_cast<int>(c.range(1, most));
  std::vector<Planned> plan;
  std::string text;
  bool simd = false;
  for (int i = 0; i < n; ++i) {
    Planned p;
    ProblemOptions o = base;
    o.cache_policies = most > 1;
    if (o.combos.empty()) {
      o.combos = {kI8I8I32, kU8U8I32, kI8U8I32, kU8I8I32, kI8I16I32,
                  kU8U8U8,  kI8I8I8,  kI8U8I8,  kU8U8I16, kI8I8I16,
                  kI8I8U8,  kF32,     kF32,     kF32};
    }
    arm::Step& s = p.step;
    switch (c.weighted({4, 4, 1, 1})) {
      case 0: s.path = kNeon; break;
      case 1: s.path = kNeonDotprod; break;
      case 2: s.path = 1 << c.draw(4); break;
      default: s.path = 0;
    }
    const bool neon = s.path == kNeon || s.path == 0;
    o.lhs_above_lowest = neon;
    o.spare_bit = neon || s.path == kNeonDotprod;
    p.problem = GenProblem(c, o);
    s.args = &p.problem->args;
    s.tuning = static_cast<int>(c.draw(4));
    s.threads = dense && c.chance(1, 6) ? static_cast<int>(c.range(2, 4)) : 1;
    s.clear_cache = c.chance(1, 6);
    s.used_path = -1;
    simd = simd || s.path >= kNeon || s.path == 0;
    text += pbt::Format("%s%s tuning %d threads %d: %s", i ? "; " : "",
                        PathName(s.path), s.tuning, s.threads,
                        p.problem->ToString().c_str());
    p.before = TakeSnapshot(*p.problem);
    plan.push_back(std::move(p));
  }
  c.describe("%s", text.c_str());
  std::vector<arm::Step> steps;
  for (const Planned& p : plan) steps.push_back(p.step);
  arm::Job job = {steps.data(), n};
  a64::Cpu cpu;
  // Rounding to nearest; the flush mode may be any.
  cpu.fpcr = c.chance(1, 4) ? 1u << 24 : 0;
  const std::string changed =
      a64::Call(&cpu, run, reinterpret_cast<std::uint64_t>(&job));
  if (!changed.empty()) c.fail("%s", changed.c_str());
  for (int i = 0; i < n; ++i) {
    const Problem& p = *plan[i].problem;
    const int path = plan[i].step.path;
    const int want = path ? path : kNeon;
    if (steps[i].used_path != want) {
      c.fail("%d: used path 0x%x", i, steps[i].used_path);
    }
    std::string e;
    if (IsFloatCombo(p.combo)) {
      e = CheckFloat(p, true);
    } else {
      const std::vector<std::int64_t> acc = Accumulators(p);
      e = IsRaw(p.combo) ? CheckRaw(p, acc) : CheckQuantExact(p, acc);
    }
    if (e.empty()) e = CheckUntouched(p, plan[i].before);
    if (!e.empty()) c.fail("%d: %s", i, e.c_str());
    c.label(pbt::Format("%s %s", PathName(path),
                        IsFloatCombo(p.combo) ? "float"
                        : IsRaw(p.combo)      ? "raw"
                                              : "quantized"));
  }
  if (simd) c.nontrivial();
}

void Small(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_dim = 40;
  o.shape.max_depth = 200;
  o.shape.max_macs = 20000;
  Run(c, o, 1, false);
}

void Large(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_dim = 200;
  o.shape.max_depth = 1500;
  o.shape.max_macs = 300000;
  Run(c, o, 1, true);
}

void History(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_dim = 40;
  o.shape.max_macs = 20000;
  Run(c, o, 6, true);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C35";
  s.rule =
      "Generated multiplications as in C01 to C03 (twelve type combinations, "
      "all layouts, zero points, bias, per-channel multipliers, clamps), done "
      "by the library compiled for 64-bit ARM in an interpreter, with the NEON, "
      "dot product and portable paths, every tuning, one or several threads, "
      "alone or up to six on one context with cache policies; exact results "
      "(floats: within rounding), path as chosen, operands and surroundings "
      "unchanged, reads within operands (inaccessible pages), preserved "
      "registers preserved. Non-trivial: NEON code runs.";
  s.error_exit_code = 77;
  s.parts = {{"small", Small, 60000, 1000000},
             {"large", Large, 20000, 300000},
             {"history", History, 15000, 250000}};
  return pbt::Main(argc, argv, s);
}
