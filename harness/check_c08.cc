// C08: multi-threaded multiplication is right and ends under any interleaving.
#include "problem.h"
#include "sched.h"

using namespace gemm;

namespace {

long DstBytes(const Problem& p) {
  return p.args.dst.Extent() * SizeOf(p.types().dst);
}

void Prop(pbt::Case& c) {
  const int n = static_cast<int>(c.weighted({3, 2, 1})) + 1;
  std::vector<std::unique_ptr<Problem>> problems;
  std::vector<std::vector<unsigned char>> want;
  std::vector<Settings> settings;
  std::string text;
  for (int i = 0; i < n; ++i) {
    ProblemOptions o;
    o.shape.max_macs = c.chance(1, 4) ? 100000 : 20000;
    o.shape.max_dim = 150;
    o.shape.max_depth = 40;
    o.shape.large = true;
    o.cache_policies = c.chance(1, 5);
    problems.push_back(GenProblem(c, o));
    Settings s = GenSettings(c);
    s.threads = static_cast<int>(c.range(2, c.chance(1, 4) ? 6 : 3));
    s.set_spin = true;
    s.spin_ms = c.pick<float>({0.f, 0.3f, 2.f});
    if (!c.chance(1, 5)) {
      s.strategy = ruy::NumThreadsStrategy::kForceMaxNumThreads;
    }
    s.l1 = c.pick<std::uint32_t>({256, 32768});
    s.l2 = 2048;
    s.l3 = 8192;
    // The caches are described once, when a context is first used.
    if (i > 0) {
      s.l1 = settings[0].l1;
    }
    Problem* p = problems.back().get();
    Settings one;
    one.path = s.path;
    Mul(p->args, one.Make().get());
    std::string e = CheckResult(*p, s.path);
    if (!e.empty()) c.fail("single-threaded: %s", e.c_str());
    want.push_back(DstEntries(*p));
    ResetDst(p);
    settings.push_back(s);
    text += p->ToString() + " | " + s.ToString() + "; ";
  }
  c.describe("%s", text.c_str());
  bool repeated = false;
  sched::Stats st = sched::Run(c, text, [&] {
    std::unique_ptr<ruy::Context> ctx = settings[0].Make();
    for (int i = 0; i < n; ++i) {
      if (i > 0) settings[i].ApplyTo(ctx.get());
      sched::WatchWrites(problems[i]->dst.data(), DstBytes(*problems[i]));
      Mul(problems[i]->args, ctx.get());
      repeated |= sched::WatchWrites(nullptr, 0);
    }
    ctx.reset();
  });
  for (int i = 0; i < n; ++i) {
    std::string e = DiffEntries(*problems[i], want[i], DstEntries(*problems[i]));
    if (!e.empty()) c.fail("multiplication %d: %s", i, e.c_str());
  }
  if (repeated) c.fail("two threads wrote the same part of a destination");
  if (st.left) c.fail("%d threads left", st.left);
  c.label(pbt::Format("%d threads", st.threads));
  if (st.spurious) c.label("spurious wake-ups");
  if (st.threads > 1 && st.switches > 0) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C08";
  s.rule =
      "Generated histories of 1-3 multiplications with 2-6 threads on one "
      "context, under generated schedules: which thread goes on is chosen by "
      "the case at every synchronization operation, with stalls, spurious "
      "wake-ups, virtual time and a final fairness bound. Results must equal "
      "the single-threaded ones; no part of the destination written by two "
      "threads; no deadlock, and an end within a step bound. "
      "Non-trivial: more than one thread and a switch between them.";
  s.assumptions = {"sequentially consistent interleavings, switches at "
                   "synchronization operations (C07 covers data races)"};
  s.parts = {{"mul", Prop, 400000, 6000000}};
  return pbt::Main(argc, argv, s);
}
