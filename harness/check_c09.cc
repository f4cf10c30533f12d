// C09: the thread pool runs every task exactly once before returning.
#include <atomic>
#include <memory>

#include "ruy/thread_pool.h"
#include "sched.h"

namespace {

struct Shared {
  // Plain data: the pool has to order all accesses.
  explicit Shared(int n) : ran(n), on(n), ended(n) {}
  std::vector<int> ran, on, ended;
  std::atomic<int> started{0};
};

struct TestTask final : ruy::Task {
  void Run() override {
    ++s->ran[i];
    s->on[i] = sched::Self();
    s->started.fetch_add(1);
    if (meet) {
      // All tasks must be able to run at the same time.
      while (s->started.load() < n) sched::Point();
    }
    for (int k = 0; k < work; ++k) sched::Point();
    ++s->ended[i];
  }
  Shared* s = nullptr;
  int i = 0, n = 0, work = 0;
  bool meet = false;
  char padding[40];
};

// A larger task type, with other alignment of consecutive tasks.
struct SmallTask final : ruy::Task {
  void Run() override { t->Run(); }
  TestTask* t = nullptr;
};

struct Step {
  int n;
  float spin;  // < 0: not changed
  double pause;
  bool meet, small;
  std::vector<int> work;
};

void Run(pbt::Case& c, const std::vector<Step>& steps, const std::string& text);

void Prop(pbt::Case& c) {
  std::vector<Step> steps;
  std::string text;
  const int count = static_cast<int>(c.range(1, 5));
  for (int i = 0; i < count; ++i) {
    Step s;
    s.n = static_cast<int>(c.chance(1, 6) ? c.range(1, 9) : c.range(1, 4));
    s.spin = c.chance(1, 3) ? c.pick<float>({0.f, 0.2f, 2.f, 50.f}) : -1;
    s.pause = c.chance(1, 4) ? c.pick<double>({1, 100, 10000}) : 0;
    s.meet = c.chance(1, 3);
    s.small = c.chance(1, 4);
    for (int k = 0; k < s.n; ++k) {
      s.work.push_back(static_cast<int>(c.rarely(30, 1, 3)));
    }
    text += pbt::Format(" %d%s", s.n, s.meet ? "m" : "");
    if (s.spin >= 0) text += pbt::Format("(spin %g)", s.spin);
    if (s.pause > 0) text += pbt::Format("(pause %g)", s.pause);
    steps.push_back(s);
  }
  Run(c, steps, text);
}

// Many executions, or many tasks.
void LongProp(pbt::Case& c) {
  std::vector<Step> steps;
  const bool wide = c.chance(1, 3);
  const int count = static_cast<int>(wide ? c.range(1, 3)
                                          : pbt::GenLength(c, 10, 2000));
  const int most = static_cast<int>(wide ? pbt::GenLength(c, 10, 150)
                                         : c.range(1, 4));
  const bool change_spin = c.flag();
  const bool meet = c.flag();
  const bool same = c.flag();
  const std::string text = pbt::Format("%d executions of up to %d tasks%s%s%s",
                                       count, most, change_spin ? ", spins" : "",
                                       meet ? ", meet" : "",
                                       same ? ", same count" : "");
  pbt::Rng rng(c.seed());
  for (int i = 0; i < count; ++i) {
    Step s;
    s.n = same ? most : static_cast<int>(1 + rng.below(most));
    s.spin = change_spin && rng.below(8) == 0 ? (rng.below(2) ? 0.f : 2.f) : -1;
    s.pause = rng.below(16) == 0 ? 10000 : 0;
    s.meet = meet && rng.below(4) == 0;
    s.small = rng.below(2);
    for (int k = 0; k < s.n; ++k) {
      s.work.push_back(static_cast<int>(rng.below(3)));
    }
    steps.push_back(s);
  }
  Run(c, steps, text);
}

void Run(pbt::Case& c, const std::vector<Step>& steps,
         const std::string& text) {
  int most = 0;
  for (const Step& s : steps) most = std::max(most, s.n);
  c.describe("%s", text.c_str());
  std::string error;
  sched::Options options;
  if (steps.size() > 5 || most > 9) options.max_points = 100000000;
  options.races = c.flag();
  sched::Stats st = sched::Run(c, text, [&] {
    std::unique_ptr<ruy::ThreadPool> pool(new ruy::ThreadPool);
    for (const Step& s : steps) {
      if (s.spin >= 0) pool->set_spin_milliseconds(s.spin);
      if (s.pause > 0) sched::Sleep(s.pause);
      Shared shared(s.n);
      std::vector<TestTask> tasks(s.n);
      std::vector<SmallTask> small(s.n);
      for (int i = 0; i < s.n; ++i) {
        tasks[i].s = &shared;
        tasks[i].i = i;
        tasks[i].n = s.n;
        tasks[i].work = s.work[i];
        tasks[i].meet = s.meet;
        small[i].t = &tasks[i];
      }
      if (s.small) {
        pool->Execute(s.n, small.data());
      } else {
        pool->Execute(s.n, tasks.data());
      }
      for (int i = 0; i < s.n; ++i) {
        if (error.empty() && shared.ran[i] != 1) {
          error = pbt::Format("task %d of %d ran %d times", i, s.n,
                              shared.ran[i]);
        }
        if (error.empty() && shared.ended[i] != 1) {
          error = pbt::Format("task %d of %d not finished at return", i, s.n);
        }
      }
      if (error.empty() && shared.on[0] != 0) error = "first task on a worker";
      for (int i = 1; i < s.n; ++i) {
        if (error.empty() && shared.on[i] == 0) {
          error = pbt::Format("task %d on the calling thread", i);
        }
      }
      if (!error.empty()) break;
    }
    pool.reset();
  }, options);
  if (!error.empty()) c.fail("%s", error.c_str());
  if (st.left) c.fail("%d threads left after destruction", st.left);
  if (st.threads != most) {
    c.fail("%d threads for at most %d tasks", st.threads, most);
  }
  c.label(st.threads > 9 ? "10 or more threads"
                         : pbt::Format("%d threads", st.threads));
  if (st.threads > 1 && st.switches > 0) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C09";
  s.rule =
      "Generated sequences of 1-5 executions of 1-9 tasks (part long: up to "
      "2000 executions, or 150 tasks) on a thread pool "
      "with changed spin times, pauses, tasks that wait for each other and "
      "destruction, under generated schedules; each task once, first one on "
      "the caller, all finished with visible effects at return, threads ended "
      "at destruction, no deadlock; in half of the cases with race detection "
      "(happens-before from the memory orders used). Non-trivial: several threads and a switch.";
  s.assumptions = {"sequentially consistent interleavings, switches at "
                   "synchronization operations"};
  s.parts = {{"pool", Prop, 1000000, 12000000},
             {"long", LongProp, 1500, 20000}};
  return pbt::Main(argc, argv, s);
}
