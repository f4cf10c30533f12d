// C02: quantized results are correctly rounded, offset and clamped.
#include "problem.h"

using namespace gemm;

static void Run(pbt::Case& c, const ProblemOptions& o) {
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  c.describe("%s | %s", p->ToString().c_str(), s.ToString().c_str());
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p->args, ctx.get());
  std::vector<std::int64_t> acc = Accumulators(*p);
  std::string e = CheckQuant(*p, acc, IsPortable(s.path));
  if (!e.empty()) c.fail("%s", e.c_str());
  c.label(pbt::Format("path 0x%x", static_cast<int>(s.path)));
  c.label(p->args.perchannel ? "per-channel" : "uniform");
  // How many distinct results strictly inside the clamp range.
  const DT dt = p->types().dst;
  std::int64_t lo = p->args.set_clamp ? p->args.clamp_min : Lowest(dt);
  std::int64_t hi = p->args.set_clamp ? p->args.clamp_max : Highest(dt);
  int inside = 0;
  for (int r = 0; r < p->rows; ++r) {
    for (int j = 0; j < p->cols; ++j) {
      std::int64_t v = GetInt(dt, p->args.dst.data, p->args.dst.Index(r, j));
      if (v > lo && v < hi && v != p->args.dst.zero_point) ++inside;
    }
  }
  if (inside > 0) c.nontrivial();
}

static void Prop(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kU8U8U8, kI8I8I8, kI8U8I8, kU8U8I16, kI8I8I16, kI8I8U8, kI8I16I16,
              kI16I8I16};
  Run(c, o);
}

// The combinations that have their own SIMD kernels, small sizes.
static void Small(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kI8I8I8, kI8I8U8, kI8I8I16, kU8U8U8, kI8I16I16};
  o.shape.max_dim = 40;
  o.shape.max_macs = 20000;
  Run(c, o);
}

static void Deep(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kU8U8U8, kI8I8I8, kI8U8I8, kU8U8I16, kI8I8I16, kI8I8U8, kI8I16I16,
              kI16I8I16};
  o.shape.max_dim = 20;
  o.shape.max_depth = 300000;
  o.shape.max_macs = 1500000;
  o.shape.deep = true;
  Run(c, o);
}

static void Long(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kU8U8U8, kI8I8I8, kI8U8I8, kU8U8I16, kI8I8I16, kI8I8U8, kI8I16I16,
              kI16I8I16};
  o.shape.elongated = true;
  o.shape.max_dim = 300000;
  o.shape.max_depth = 20;
  o.shape.max_macs = 1500000;
  o.guard = false;
  Run(c, o);
}

static void Big(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kU8U8U8, kI8I8I8, kI8U8I8, kU8U8I16, kI8I8I16, kI8I8U8, kI8I16I16,
              kI16I8I16};
  o.shape.max_dim = 1200;
  o.shape.max_depth = 2500;
  o.shape.max_macs = 8000000;
  o.shape.large = true;
  o.guard = false;
  Run(c, o);
}

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C02";
  s.rule =
      "Generated multiplications to 8- and 16-bit destinations; every entry "
      "must lie between the two clamped results that the allowed rounding "
      "error of the exact scaled accumulator permits (128-bit arithmetic). "
      "Non-trivial: at least one entry strictly inside the clamp range and "
      "different from the zero point.";
  s.assumptions = {
      "scaled values plus destination zero point fit in 32 bits, exponents in "
      "[-31,7], multipliers non-negative"};
  s.parts = {{"mul", Prop, 150000, 2000000}, {"small", Small, 250000, 3000000},
             {"deep", Deep, 5000, 60000}, {"long", Long, 3000, 40000},
             {"big", Big, 5000, 80000}};
  return pbt::Main(argc, argv, s);
}
