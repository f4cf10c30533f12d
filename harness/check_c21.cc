// C21: the caller's floating-point state is preserved, denormals alike.
#include <string.h>
#include <math.h>
#include <xmmintrin.h>

#include "problem.h"
#include "ruy/thread_pool.h"

using namespace gemm;

namespace {

unsigned GetX87() {
  unsigned short cw;
  __asm__ __volatile__("fnstcw %0" : "=m"(cw));
  return cw;
}
void SetX87(unsigned v) {
  unsigned short cw = static_cast<unsigned short>(v);
  __asm__ __volatile__("fldcw %0" : : "m"(cw));
}

constexpr unsigned kMxcsrDefault = 0x1f80;
constexpr unsigned kMxcsrControl = 0xffc0;  // all but the sticky flags
constexpr unsigned kDaz = 0x40, kFtz = 0x8000, kRounding = 0x6000;
constexpr unsigned kX87Default = 0x37f;

struct FpState {
  unsigned mxcsr = kMxcsrDefault;
  unsigned x87 = kX87Default;
};

FpState GenState(pbt::Case& c, bool only_denormal_flags) {
  FpState s;
  s.mxcsr |= c.pick<unsigned>({0, kDaz, kFtz, kDaz | kFtz});
  if (only_denormal_flags) return s;
  s.mxcsr |= c.pick<unsigned>({0, 0x2000, 0x4000, 0x6000});
  // A trap which nothing here can raise.
  if (c.chance(1, 3)) s.mxcsr &= ~0x200u;
  // Sticky flags, which are not looked at.
  if (c.chance(1, 3)) s.mxcsr |= static_cast<unsigned>(c.draw(64)) & ~4u;
  if (c.flag()) {
    s.x87 |= static_cast<unsigned>(c.draw(4)) << 10;       // rounding
    if (c.flag()) s.x87 &= ~0x4u;                          // division trap
    if (c.chance(1, 4)) s.x87 &= ~0x100u;                  // precision
  }
  return s;
}

struct FlagTask final : ruy::Task {
  void Run() override {}
};

// Multiplies with the given state; returns "" or what happened to the state.
std::string MulIn(const FpState& s, const MulArgs& a, ruy::Context* ctx) {
  _mm_setcsr(s.mxcsr);
  SetX87(s.x87);
  Mul(a, ctx);
  const unsigned m = _mm_getcsr(), x = GetX87();
  _mm_setcsr(kMxcsrDefault);
  SetX87(kX87Default);
  if ((m & kMxcsrControl) != (s.mxcsr & kMxcsrControl)) {
    return pbt::Format("control register was 0x%x, is 0x%x", s.mxcsr, m);
  }
  if (x != s.x87) return pbt::Format("x87 control was 0x%x, is 0x%x", s.x87, x);
  return "";
}

// Any state, any multiplication, several on one context.
void StateProp(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 100000;
  o.shape.max_dim = 130;
  o.cache_policies = c.chance(1, 4);
  o.float_denormals = c.flag();
  Settings s = GenSettings(c);
  std::unique_ptr<ruy::Context> ctx = s.Make();
  std::vector<std::unique_ptr<Problem>> problems;
  const int n = static_cast<int>(c.range(1, 3));
  std::string text = s.ToString();
  for (int i = 0; i < n; ++i) {
    problems.push_back(GenProblem(c, o));
    Problem* p = problems.back().get();
    if (i > 0 && c.flag()) {
      s = GenSettings(c);
      s.ApplyTo(ctx.get());
      text += " | " + s.ToString();
    }
    FpState st = GenState(c, false);
    text += pbt::Format(" [mxcsr 0x%x x87 0x%x] ", st.mxcsr, st.x87) +
            p->ToString();
    c.describe("%s", text.c_str());
    std::string e = MulIn(st, p->args, ctx.get());
    if (!e.empty()) c.fail("multiplication %d: %s", i, e.c_str());
    // Integer results do not depend on the state at all.
    if (!IsFloatCombo(p->combo)) {
      e = CheckResult(*p, s.path);
      if (!e.empty()) c.fail("multiplication %d: %s", i, e.c_str());
    }
    if (st.mxcsr != kMxcsrDefault) c.nontrivial();
  }
}

void DenormalProp(pbt::Case& c) {
  ProblemOptions o;
  o.combos = {kF32, kF32, kF64, kF64F32, kF32F64};
  o.shape.max_macs = 120000;
  o.shape.max_dim = 150;
  o.float_denormals = true;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  SettingsOptions so;
  so.multi_only = c.chance(3, 4);
  Settings s = GenSettings(c, so);
  if (c.flag()) s.strategy = ruy::NumThreadsStrategy::kForceMaxNumThreads;
  const FpState st = GenState(c, true);
  const FpState at_creation = GenState(c, true);
  const int how = static_cast<int>(c.draw(3));
  c.describe("%s | %s | mxcsr 0x%x%s", p->ToString().c_str(),
             s.ToString().c_str(), st.mxcsr,
             how == 1 ? pbt::Format(", workers created with 0x%x",
                                    at_creation.mxcsr).c_str()
             : how == 2 ? pbt::Format(", first used with 0x%x",
                                      at_creation.mxcsr).c_str()
                        : "");
  std::unique_ptr<ruy::Context> ctx = s.Make();
  if (how == 1) {
    // Workers which exist before the first multiplication.
    std::vector<FlagTask> tasks(s.threads);
    _mm_setcsr(at_creation.mxcsr);
    ctx->mutable_thread_pool()->Execute(s.threads, tasks.data());
    const unsigned m = _mm_getcsr();
    _mm_setcsr(kMxcsrDefault);
    if ((m ^ at_creation.mxcsr) & kMxcsrControl) {
      c.fail("running tasks changed the control register");
    }
  } else if (how == 2) {
    std::string e = MulIn(at_creation, p->args, ctx.get());
    if (!e.empty()) c.fail("%s", e.c_str());
    ResetDst(p.get());
  }
  std::string e = MulIn(st, p->args, ctx.get());
  if (!e.empty()) c.fail("%s", e.c_str());
  e = CheckFloat(*p, true);
  if (!e.empty()) c.fail("%s", e.c_str());
  std::vector<unsigned char> got = DstEntries(*p);
  Settings one;
  one.path = s.path;
  ctx = one.Make();
  ResetDst(p.get());
  e = MulIn(FpState(), p->args, ctx.get());
  if (!e.empty()) c.fail("%s", e.c_str());
  e = DiffEntries(*p, DstEntries(*p), got);
  if (!e.empty()) c.fail("differs from one thread with default flags: %s",
                         e.c_str());
  // Whether treating denormals as such would make a difference.
  bool any = false;
  const Combo& t = p->types();
  for (int i = 0; i < p->rows && !any; ++i) {
    for (int k = 0; k < p->depth && !any; ++k) {
      const double v = GetFloat(t.lhs, p->args.lhs.data, p->args.lhs.Index(i, k));
      any = v != 0 && fabs(v) < (t.acc == F32 ? 1e-20 : 1e-160);
    }
  }
  if (any) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C21";
  s.rule =
      "Generated control states (rounding, denormal flags, masks, x87 word) "
      "around generated histories of multiplications must come back unchanged "
      "(non-trivial: state other than the default). Generated problems with "
      "denormal or underflowing data, several threads, any denormal flags at "
      "the call and when workers were created: result within flush tolerance "
      "and bit-equal to one thread with default flags (non-trivial: small "
      "left-hand values).";
  s.parts = {{"state", StateProp, 80000, 1500000},
             {"denormals", DenormalProp, 80000, 1500000}};
  return pbt::Main(argc, argv, s);
}
