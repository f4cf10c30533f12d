// C03: float products stay within the rounding error bound.
#include "problem.h"

using namespace gemm;

static void Run(pbt::Case& c, const ProblemOptions& o) {
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  c.describe("%s%s | %s", p->ToString().c_str(), p->exact_float ? " exact" : "",
             s.ToString().c_str());
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p->args, ctx.get());
  std::string e = CheckFloat(*p);
  if (!e.empty()) c.fail("%s", e.c_str());
  c.label(pbt::Format("path 0x%x", static_cast<int>(s.path)));
  c.label(p->exact_float ? "exact" : "rounded");
  if (p->rows * p->cols > 1 && p->depth > 1) c.nontrivial();
}

static void Prop(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kF32, kF32, kF32, kF64, kF64F32, kF32F64};
  Run(c, o);
}

static void Deep(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kF32, kF32, kF64};
  o.shape.max_dim = 40;
  o.shape.max_depth = 300000;
  o.shape.deep = true;
  o.shape.max_macs = 1000000;
  Run(c, o);
}

static void Long(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kF32, kF32, kF64};
  o.shape.elongated = true;
  o.shape.max_dim = 300000;
  o.shape.max_depth = 20;
  o.shape.max_macs = 1000000;
  o.guard = false;
  Run(c, o);
}

static void Big(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kF32, kF32, kF32, kF64, kF64F32, kF32F64};
  o.shape.max_dim = 1200;
  o.shape.max_depth = 2500;
  o.shape.max_macs = 5000000;
  o.shape.large = true;
  o.guard = false;
  Run(c, o);
}

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C03";
  s.rule =
      "Generated float and double multiplications compared with extended "
      "precision sums: exactly for integer-valued data, else within "
      "(depth+4)*u*(sum of magnitudes). Non-trivial: more than one entry and "
      "depth above 1.";
  s.assumptions = {"no overflow to infinity, no NaN"};
  s.parts = {{"mul", Prop, 150000, 1500000}, {"deep", Deep, 10000, 100000},
             {"long", Long, 3000, 40000},
             {"big", Big, 5000, 80000}};
  return pbt::Main(argc, argv, s);
}
