// C25: live profiling records exactly the active scopes.
#include <string.h>

#include <atomic>
#include <map>
#include <memory>
#include <string>
#include <thread>  // NOLINT
#include <vector>

#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
#include "sched.h"

namespace {

using ruy::profiler::ScopeLabel;
using ruy::profiler::ScopeProfile;
using ruy::profiler::TreeView;

constexpr int kMaxDepth = 64;
constexpr int kMaxScopes = 1500;  // per thread

enum Kind { kOpen, kClose, kSleep, kSpawn, kJoin, kStart, kStop, kIdle };

struct Op {
  Kind kind;
  int arg = 0;
};

// A stack that a thread had, from before it could be seen until after.
struct State {
  std::vector<int> stack;
  int begin, end;
};

struct Window {
  int begin, end;
  bool enabled;
  TreeView view;
};

// Scopes have numbers, and labels from which they can be told.
std::vector<const char*> g_literals;

const char* Literal(int n) { return g_literals[n]; }

std::string Text(int n) {
  const int h = static_cast<int>(pbt::Mix(n, 5));
  switch (n % 6) {
    case 0:
      return Literal(n);
    case 1:
      return pbt::Format("one %d", n);
    case 2:
      return pbt::Format("two %x (%d)", h, n);
    case 3:
      return pbt::Format("three %d,%d of %d", n, h, h + 1);
    case 4:
      return pbt::Format("four %d %d %d %d", h, n, -n, h ^ 1);
    default:
      return pbt::Format("%d%%", n);
  }
}

ScopeLabel* Scope(int n) {
  const int h = static_cast<int>(pbt::Mix(n, 5));
  switch (n % 6) {
    case 0:
      return new ScopeLabel(Literal(n));
    case 1:
      return new ScopeLabel("one %d", n);
    case 2:
      return new ScopeLabel("two %x (%d)", h, n);
    case 3:
      return new ScopeLabel("three %d,%d of %d", n, h, h + 1);
    case 4:
      return new ScopeLabel("four %d %d %d %d", h, n, -n, h ^ 1);
    default:
      return new ScopeLabel("%d%%", n);
  }
}

// What one thread did. Only the thread itself touches it until it has ended.
struct Log {
  int first = 0;  // number of its first scope
  int opened = 0;
  int opened_first = 1 << 30;  // when the first scope was certainly open
  std::vector<std::unique_ptr<ScopeLabel>> scopes;
  std::vector<State> states;
};

// Time in the test. Relaxed, so that it orders nothing.
std::atomic<int> g_time;
int Tick() { return g_time.fetch_add(1, std::memory_order_relaxed); }

void Open(Log* log) {
  if (log->scopes.size() == kMaxDepth) return;
  const int n = log->first + log->opened++;
  const int begin = Tick();
  log->scopes.emplace_back(Scope(n));
  if (log->opened == 1) log->opened_first = Tick();
  State s;
  if (!log->states.empty()) s.stack = log->states.back().stack;
  s.stack.push_back(n);
  s.begin = begin;
  s.end = 1 << 30;
  if (!log->states.empty()) log->states.back().end = Tick();
  log->states.push_back(s);
}

void Close(Log* log) {
  if (log->scopes.empty()) return;
  const int begin = Tick();
  log->scopes.pop_back();
  State s;
  s.stack = log->states.back().stack;
  s.stack.pop_back();
  s.begin = begin;
  s.end = 1 << 30;
  log->states.back().end = Tick();
  log->states.push_back(s);
}

bool Common(const Op& op, Log* log) {
  switch (op.kind) {
    case kOpen:
      for (int i = 0; i < op.arg; ++i) Open(log);
      return true;
    case kClose:
      for (int i = 0; i < op.arg; ++i) Close(log);
      return true;
    case kSleep:
      std::this_thread::sleep_for(std::chrono::milliseconds(op.arg));
      return true;
    case kIdle:
      for (int i = 0; i < op.arg; ++i) sched::Point();
      return true;
    default:
      return false;
  }
}

void RunThread(const std::vector<Op>& ops, Log* log) {
  for (const Op& op : ops) Common(op, log);
  while (!log->scopes.empty()) Close(log);
}

Op GenCommon(pbt::Case& c) {
  Op op;
  switch (c.weighted({5, 4, 2, 2})) {
    case 0:
      op.kind = kOpen;
      op.arg = static_cast<int>(c.chance(1, 15) ? c.range(1, 64)
                                                : c.range(1, 2));
      break;
    case 1:
      op.kind = kClose;
      op.arg = static_cast<int>(c.range(1, 2));
      break;
    case 2:
      op.kind = kSleep;
      op.arg = static_cast<int>(c.range(1, 5));
      break;
    default:
      op.kind = kIdle;
      op.arg = static_cast<int>(c.range(1, 60));
  }
  return op;
}

std::string ToString(const std::vector<Op>& ops) {
  std::string s;
  for (const Op& op : ops) {
    s += pbt::Format(" %c%d", "OCZSJPFI"[op.kind], op.arg);
  }
  return s;
}

// Checks one recorded tree.
struct Checker {
  const std::vector<Log>& logs;
  std::map<std::string, int> thread_of, number_of;
  std::string error;

  explicit Checker(const std::vector<Log>& l) : logs(l) {
    for (std::size_t t = 0; t < l.size(); ++t) {
      for (int i = 0; i < l[t].opened; ++i) {
        thread_of[Text(l[t].first + i)] = static_cast<int>(t);
        number_of[Text(l[t].first + i)] = l[t].first + i;
      }
    }
  }

  void Fail(const std::string& e) {
    if (error.empty()) error = e;
  }

  void Walk(const TreeView::Node& n, const Window& w, std::vector<int>* path,
            int* thread) {
    int below = 0;
    for (const auto& child : n.children) {
      if (std::string(child->label.format()) == "[other]") continue;
      below += child->weight;
      const std::string text = child->label.Formatted();
      auto it = thread_of.find(text);
      if (it == thread_of.end()) return Fail("no such scope: " + text);
      if (*thread >= 0 && *thread != it->second) {
        return Fail("scopes of two threads in one tree");
      }
      *thread = it->second;
      path->push_back(number_of[text]);
      Walk(*child, w, path, thread);
      path->pop_back();
    }
    if (below > n.weight) return Fail("children weigh more than their parent");
    if (below == n.weight) return;
    // Samples of exactly this stack.
    if (path->empty()) return Fail("sample of an empty stack");
    for (const State& s : logs[*thread].states) {
      if (s.stack == *path && s.begin <= w.end && s.end >= w.begin) return;
    }
    std::string text;
    for (int p : *path) text += "/" + Text(p);
    Fail("sampled, but not open during the profile: " + text);
  }

  void Check(const Window& w) {
    std::map<int, int> weights;
    for (const auto& root : w.view.thread_roots()) {
      std::vector<int> path;
      int thread = -1;
      Walk(*root.second, w, &path, &thread);
      if (!error.empty()) return;
      if (weights.count(thread)) return Fail("two trees of one thread");
      weights[thread] = root.second->weight;
    }
    if (!w.enabled && !weights.empty()) return Fail("samples when disabled");
    // Each round of sampling sees every thread with open scopes.
    int most = 0;
    for (const auto& k : weights) most = std::max(most, k.second);
    for (std::size_t t = 0; t < logs.size(); ++t) {
      bool gap = false;
      int to = -1;
      for (const State& s : logs[t].states) {
        if (s.stack.empty() && s.begin <= w.end && s.end >= w.begin) gap = true;
        if (!s.stack.empty()) to = std::max(to, s.end);
      }
      if (!gap && logs[t].opened_first < w.begin && to > w.end &&
          weights[static_cast<int>(t)] != most) {
        return Fail(pbt::Format(
            "thread with scopes open all the time: %d samples of %d",
            weights[static_cast<int>(t)], most));
      }
    }
  }
};

void Prop(pbt::Case& c) {
  const int nthreads = c.weighted({1, 2, 2, 2});
  std::vector<std::vector<Op>> scripts(nthreads);
  std::string text;
  for (int t = 0; t < nthreads; ++t) {
    const int n = static_cast<int>(c.range(0, 14));
    for (int i = 0; i < n; ++i) scripts[t].push_back(GenCommon(c));
    text += pbt::Format(" T%d:%s;", t + 1, ToString(scripts[t]).c_str());
  }
  // The main script: all threads are started and joined somewhere.
  std::vector<Op> script;
  int spawned = 0, joined = 0;
  bool running = false;
  int profiles = 0;
  const int n = static_cast<int>(c.range(1, 24));
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({4, 4, 1, 3})) {
      case 0:
        script.push_back(GenCommon(c));
        break;
      case 1:
        if (spawned < nthreads) script.push_back({kSpawn, spawned++});
        break;
      case 2:
        if (joined < spawned) script.push_back({kJoin, joined++});
        break;
      case 3:
        if (running && c.chance(2, 3)) {
          script.push_back(GenCommon(c));
          break;
        } else if (running) {
          script.push_back({kStop, 0});
        } else if (profiles < 3) {
          script.push_back({kStart, c.chance(1, 10) ? 0 : 1});
          ++profiles;
        } else {
          break;
        }
        running = !running;
        break;
    }
  }
  text = "main:" + ToString(script) + ";" + text;
  c.describe("%s", text.c_str());

  std::vector<Log> logs(nthreads + 1);
  for (int t = 0; t <= nthreads; ++t) logs[t].first = t * kMaxScopes;
  std::vector<std::unique_ptr<Window>> windows;
  g_time.store(0);
  sched::Options options;
  options.races = true;
  sched::Stats st = sched::Run(c, text, [&] {
    std::vector<std::thread> threads(nthreads);
    std::unique_ptr<ScopeProfile> profile;
    auto stop = [&] {
      profile.reset();
      windows.back()->end = Tick();
    };
    int s = 0, j = 0;
    for (const Op& op : script) {
      if (Common(op, &logs[0])) continue;
      switch (op.kind) {
        case kSpawn:
          threads[s] =
              std::thread(RunThread, std::cref(scripts[s]), &logs[s + 1]);
          ++s;
          break;
        case kJoin:
          threads[j++].join();
          break;
        case kStart:
          windows.emplace_back(new Window);
          windows.back()->begin = Tick();
          windows.back()->enabled = op.arg != 0;
          if (op.arg) {
            profile.reset(new ScopeProfile);
          } else {
            profile.reset(new ScopeProfile(false));
          }
          profile->SetUserTreeView(&windows.back()->view);
          break;
        case kStop:
          stop();
          break;
        default:
          break;
      }
    }
    if (profile) stop();
    while (j < s) threads[j++].join();
    while (!logs[0].scopes.empty()) Close(&logs[0]);
  }, options);
  if (st.left) c.fail("%d threads left", st.left);
  Checker checker(logs);
  int samples = 0;
  std::size_t trees = 0;
  for (const auto& w : windows) {
    checker.Check(*w);
    if (!checker.error.empty()) {
      c.fail("profile of %d..%d: %s", w->begin, w->end, checker.error.c_str());
    }
    for (const auto& r : w->view.thread_roots()) samples += r.second->weight;
    trees = std::max(trees, w->view.thread_roots().size());
  }
  c.label(pbt::Format("%d threads seen", static_cast<int>(trees)));
  if (samples > 0) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  for (int i = 0; i < 4 * kMaxScopes; ++i) {
    g_literals.push_back(strdup(pbt::Format("literal scope %d", i).c_str()));
  }
  pbt::Spec s;
  s.id = "C25";
  s.rule =
      "Generated programs of 1-4 threads which open and close nested scopes "
      "(literal and formatted labels, to the full depth), sleep, start, end "
      "and take up to three profiles in a row, under generated schedules with "
      "virtual time and race detection. Every recorded stack must be one that "
      "its thread had during that profile; threads with scopes open all the "
      "time are in every round of sampling. Non-trivial: samples were taken.";
  s.assumptions = {"sequentially consistent interleavings, switches at "
                   "synchronization operations"};
  s.parts = {{"profiles", Prop, 150000, 3000000}};
  return pbt::Main(argc, argv, s);
}
