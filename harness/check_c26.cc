// C26: the portable and reference multiplications are exact to the specified
// rounding.
#include <math.h>
#include <string.h>

#include "problem.h"

using namespace gemm;

static void Prop(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kU8U8U8, kI8I8I8, kI8U8I8,   kU8U8I16, kI8I8I16,
              kI8I8U8, kI8I16I16, kI16I8I16, kI8I8I32, kU8U8I32};
  o.shape.max_macs = 30000;
  o.shape.max_dim = 80;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  s.path = static_cast<ruy::Path>(c.pick<int>({1, 2, 4, 8}));
  c.describe("%s | %s", p->ToString().c_str(), s.ToString().c_str());
  std::vector<std::int64_t> acc = Accumulators(*p);
  auto check = [&](const char* which) {
    std::string e = IsRaw(p->combo) ? CheckRaw(*p, acc) : CheckQuantExact(*p, acc);
    if (!e.empty()) c.fail("%s: %s", which, e.c_str());
  };
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p->args, ctx.get());
  check("portable");
  std::vector<unsigned char> a = DstEntries(*p);
  ResetDst(p.get());
  ReferenceMul(p->args);
  check("reference");
  Snapshot none;
  std::string e = CheckUntouched(*p, none);
  if (!e.empty()) c.fail("reference: %s", e.c_str());
  // Non-trivial: some result is not a clamp bound or zero point.
  const DT dt = p->types().dst;
  std::int64_t lo = p->args.set_clamp ? p->args.clamp_min : Lowest(dt);
  std::int64_t hi = p->args.set_clamp ? p->args.clamp_max : Highest(dt);
  for (int r = 0; r < p->rows; ++r) {
    for (int j = 0; j < p->cols; ++j) {
      std::int64_t v = GetInt(dt, p->args.dst.data, p->args.dst.Index(r, j));
      if (v > lo && v < hi && v != p->args.dst.zero_point) c.nontrivial();
    }
  }
}

// A single column of accumulators that come straight from the bias, aimed at
// rounding ties, powers of two and the ends of the range.
static void Scalars(pbt::Case& c) {
  Problem p;
  p.combo = c.pick<int>({kI8I8I16, kI8I8I8, kU8U8U8, kU8U8I16, kI8I8U8});
  p.args.combo = p.combo;
  const Combo& t = p.types();
  const int n = static_cast<int>(c.range(1, 64));
  p.rows = n;
  p.depth = 1;
  p.cols = 1;
  p.args.lhs.rows = n;
  p.args.lhs.cols = 1;
  p.args.lhs.stride = n;
  p.args.rhs.rows = p.args.rhs.cols = p.args.rhs.stride = 1;
  p.args.dst.rows = n;
  p.args.dst.cols = 1;
  p.args.dst.stride = n;
  p.args.dst.read_only = false;
  std::vector<unsigned char> zeros(n, 0), one(1, 0);
  std::vector<std::int32_t> dst(n), bias(n), ms(n);
  std::vector<int> es(n);
  p.args.lhs.data = zeros.data();
  p.args.rhs.data = one.data();
  p.args.dst.data = dst.data();
  p.args.dst.zero_point = GenZeroPoint(c, t.dst);
  p.args.perchannel = c.flag();
  pbt::Rng r(c.seed());
  const int mode = c.weighted({1, 1, 1});
  for (int i = 0; i < n; ++i) {
    const bool first = i == 0 || p.args.perchannel;
    int e = first ? static_cast<int>(r.range(-31, 7)) : es[0];
    std::int64_t m;
    switch (mode) {
      case 0: m = 1ll << r.range(0, 30); break;
      case 1: m = r.next() >> (33 + r.below(20)); break;
      default: m = r.range(1ll << 30, 0x7fffffff); break;
    }
    if (!first) m = ms[0];
    // Results around the destination range and around half-integers.
    std::int64_t x;
    const double scale = ldexp(static_cast<double>(m), e - 31);
    switch (r.below(4)) {
      case 0:
        x = r.below(4) ? r.range(-0x80000000ll, 0x7fffffffll)
                       : (r.next() & 1) ? 0x7fffffffll : -0x80000000ll;
        break;
      case 1:
        x = static_cast<std::int64_t>(
            llrint((r.range(Lowest(t.dst), Highest(t.dst)) + 0.5) /
                   std::max(scale, 1e-9)));
        x += r.range(-1, 1);
        break;
      case 2:
        x = (1ll << r.range(0, 30)) * ((r.next() & 1) ? 1 : -1) + r.range(-1, 1);
        break;
      default:
        x = r.range(-300, 300);
        break;
    }
    // Only the scaled value has to fit, not the accumulator shifted left.
    std::int64_t most = 0x7fffffffll, least = -0x80000000ll;
    if (scale * 0x80000000ll > 0x7ffe0000ll) {
      most = static_cast<std::int64_t>(0x7ffe0000ll / scale);
      least = -most;
    }
    x = std::max(least, std::min(most, x));
    bias[i] = static_cast<std::int32_t>(x);
    ms[i] = static_cast<std::int32_t>(m);
    es[i] = e;
  }
  p.args.bias = bias.data();
  p.args.multipliers = ms.data();
  p.args.exponents = es.data();
  p.args.multiplier = ms[0];
  p.args.exponent = es[0];
  c.describe("%s bias0=%d", p.ToString().c_str(), bias[0]);
  std::vector<std::int64_t> acc(bias.begin(), bias.end());
  Settings s;
  s.path = static_cast<ruy::Path>(c.pick<int>({1, 2, 4, 8}));
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p.args, ctx.get());
  std::string e = CheckQuantExact(p, acc);
  if (!e.empty()) c.fail("portable: %s", e.c_str());
  std::fill(dst.begin(), dst.end(), 0x5a5a5a5a);
  ReferenceMul(p.args);
  e = CheckQuantExact(p, acc);
  if (!e.empty()) c.fail("reference: %s", e.c_str());
  c.nontrivial();
}

// Float reference.
static void Floats(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kF32, kF64, kF64F32, kF32F64};
  o.shape.max_macs = 20000;
  o.shape.max_dim = 60;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  c.describe("%s", p->ToString().c_str());
  ReferenceMul(p->args);
  std::string e = CheckFloat(*p);
  if (!e.empty()) c.fail("reference: %s", e.c_str());
  if (p->rows * p->cols > 1 && p->depth > 1) c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C26";
  s.rule =
      "Generated integer multiplications on the portable path and its three "
      "variants and with the reference implementation, compared with the exact "
      "value rounded to nearest, ties up, in 128-bit arithmetic; part scalars "
      "feeds accumulators at ties, powers of two and range ends through the "
      "bias; part floats checks the reference implementation alone. "
      "Non-trivial: a result other than clamp bound or zero point.";
  s.parts = {{"mul", Prop, 400000, 5000000},
             {"scalars", Scalars, 1000000, 4000000},
             {"floats", Floats, 100000, 1000000}};
  return pbt::Main(argc, argv, s);
}
