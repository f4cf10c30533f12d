// C15: the code path used is the best one allowed, compiled in and supported.
#include <stdlib.h>
#include <string.h>

#include "path_sets.h"
#include "problem.h"

using namespace gemm;

namespace {

// What automatic detection may enable for a CPU with these features.
int Supported(const fakecpu::Desc& d) {
  int bits = 0xf;
  if (!d.init_ok) return bits;
  const int f = d.features;
  auto has = [&](int all) { return (f & all) == all; };
  if (has(fakecpu::kAvx)) bits |= 0x10;
  if (has(fakecpu::kAvx2 | fakecpu::kFma3)) bits |= 0x20;
  if (has(fakecpu::kAvx512f | fakecpu::kAvx512dq | fakecpu::kAvx512cd |
          fakecpu::kAvx512bw | fakecpu::kAvx512vl)) {
    bits |= 0x40;
  }
  return bits;
}

int Runnable() {
  int bits = 0;
  for (ruy::Path p : RunnablePaths()) bits |= static_cast<int>(p);
  return bits;
}

void Prop(pbt::Case& c) {
  const int host = fakecpu::HostFeatures();
  std::string text;
  fakecpu::Desc d = fakecpu::Default();
  switch (c.weighted({2, 3, 3, 1})) {
    case 0:
      break;
    case 1:  // any subset
      d.features = host & static_cast<int>(c.draw(fakecpu::kAllFeatures + 1));
      break;
    case 2:  // all but a few
      d.features = host;
      for (int i = static_cast<int>(c.range(1, 2)); i > 0; --i) {
        d.features &= ~(1 << c.draw(fakecpu::kNumFeatures));
      }
      break;
    case 3:
      d.init_ok = false;
      break;
  }
  // The environment override, seen at the first use of a context.
  int env = 0;
  if (c.chance(1, 3)) {
    env = static_cast<int>(c.draw(128)) & Runnable();
    if (c.chance(1, 4)) env &= ~1;
    char buf[32];
    const char* fmts[] = {"%x", "0x%x", "%X", "0%x", " %x"};
    snprintf(buf, sizeof buf, fmts[c.draw(5)], env);
    setenv("RUY_PATHS", buf, 1);
    text += pbt::Format(" RUY_PATHS='%s'", buf);
  } else {
    unsetenv("RUY_PATHS");
  }
  fakecpu::Set(d);
  ruy::Context ctx;
  ProblemOptions o;
  o.shape.max_macs = 20000;
  o.shape.max_dim = 60;
  o.combos = {kI8I8I8, kF32, kI8I8I32};
  std::unique_ptr<Problem> p = GenProblem(c, o);
  int enabled = 0;  // 0: detection
  bool narrowed = false;
  const int steps = static_cast<int>(c.range(1, 5));
  for (int i = 0; i < steps; ++i) {
    if (c.flag()) {
      enabled = c.chance(1, 4) ? 0 : static_cast<int>(c.draw(128)) & Runnable();
      ctx.set_runtime_enabled_paths(static_cast<ruy::Path>(enabled));
      text += pbt::Format(" enable 0x%x", enabled);
    }
    const int set = static_cast<int>(c.draw(kNumPathSets));
    const int compiled = static_cast<int>(PathSet(set));
    text += pbt::Format(" mul[0x%x]", compiled);
    c.describe("%s;%s on %s", text.c_str(), p->ToString().c_str(),
               fakecpu::ToString(d).c_str());
    const int allowed = (enabled ? enabled | 1
                         : env   ? env | 1
                                 : Supported(d));
    int want = allowed & compiled;
    while (want & (want - 1)) want &= want - 1;
    if (c.flag()) {
      const int reported = static_cast<int>(ctx.get_runtime_enabled_paths());
      if (reported != (allowed & ~0xe)) {
        c.fail("enabled paths read 0x%x, expected 0x%x", reported,
               allowed & ~0xe);
      }
    }
    ResetDst(p.get());
    MulWithPathSet(set, p->args, &ctx);
    const int used = static_cast<int>(ctx.last_used_path());
    if (used != want) c.fail("used path 0x%x, expected 0x%x", used, want);
    // The reported path is the one whose code ran: same bits as with only that
    // path enabled.
    std::vector<unsigned char> got = DstEntries(*p);
    ruy::Context only;
    only.set_runtime_enabled_paths(static_cast<ruy::Path>(want));
    ResetDst(p.get());
    Mul(p->args, &only);
    std::string e = DiffEntries(*p, DstEntries(*p), got);
    if (!e.empty()) c.fail("path 0x%x: %s", want, e.c_str());
    c.label(pbt::Format("path 0x%x", want));
    if ((allowed & compiled) != compiled && want != 1) narrowed = true;
  }
  unsetenv("RUY_PATHS");
  std::string e = CheckResult(*p, ctx.last_used_path());
  if (!e.empty()) c.fail("%s", e.c_str());
  if (narrowed || env || !d.init_ok || d.features != host) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C15";
  s.rule =
      "Generated CPU feature sets (within those of the host), environment "
      "overrides, sequences of enabled path sets and 12 compiled path sets; "
      "the path reported must be the model's and results bit-equal to that "
      "path enabled alone. Non-trivial: features, environment or enabled set "
      "restrict the choice.";
  s.assumptions = {"the portable path is in every compiled set",
                   "only paths the CPU can run are enabled explicitly"};
  s.parts = {{"choice", Prop, 2000000, 30000000}};
  return pbt::Main(argc, argv, s);
}
