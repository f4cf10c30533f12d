// C01: integer products without requantization are exact.
#include "problem.h"

using namespace gemm;

static void Run(pbt::Case& c, const ProblemOptions& o, int min_depth) {
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  c.describe("%s | %s", p->ToString().c_str(), s.ToString().c_str());
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p->args, ctx.get());
  std::string e = CheckRaw(*p, Accumulators(*p));
  if (!e.empty()) c.fail("%s", e.c_str());
  c.label(pbt::Format("path 0x%x", static_cast<int>(s.path)));
  c.label(s.threads > 1 ? "multi-threaded" : "single-threaded");
  if (p->rows * p->cols > 1 && p->depth >= min_depth) c.nontrivial();
}

static void Prop(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kI8I8I32, kU8U8I32, kI8U8I32, kU8I8I32, kI8I16I32, kI16I8I32};
  Run(c, o, 2);
}

// Depths around and far beyond what 16-bit or partial sums could hold.
static void Deep(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kI8I8I32, kU8U8I32, kI8U8I32, kU8I8I32, kI8I16I32, kI16I8I32};
  o.shape.max_dim = 20;
  o.shape.max_depth = 300000;
  o.shape.deep = true;
  o.shape.max_macs = 1500000;
  Run(c, o, 300);
}

// Side lengths beyond 16 bits.
static void Long(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kI8I8I32, kU8U8I32, kI8U8I32, kU8I8I32, kI8I16I32, kI16I8I32};
  o.shape.elongated = true;
  o.shape.max_dim = 300000;
  o.shape.max_depth = 20;
  o.shape.max_macs = 1500000;
  o.guard = false;
  Run(c, o, 2);
}

// Sizes for which blocking and threads are used with usual caches too.
static void Big(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kI8I8I32, kU8U8I32, kI8U8I32, kU8I8I32, kI8I16I32, kI16I8I32};
  o.shape.max_dim = 1200;
  o.shape.max_depth = 2500;
  o.shape.max_macs = 8000000;
  o.shape.large = true;
  o.guard = false;
  Run(c, o, 2);
}

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C01";
  s.rule =
      "Generated multiplications to int32 (type pair, shape, orders, strides, "
      "zero points, fill mode, bias, channel dimension, code path, threads, "
      "simulated caches), compared entry by entry with 64-bit sums. Non-trivial:"
      " more than one entry and depth above 1 (part deep: depth above 300).";
  s.assumptions = {"the exact sum of magnitudes fits in 32 bits"};
  s.parts = {{"mul", Prop, 200000, 2500000},
             {"deep", Deep, 15000, 200000},
             {"long", Long, 5000, 60000},
             {"big", Big, 6000, 100000}};
  return pbt::Main(argc, argv, s);
}
