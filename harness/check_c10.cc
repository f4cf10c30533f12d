// C10: waiting never misses its wake-up and never returns early.
#include <atomic>
#include <condition_variable>  // NOLINT
#include <memory>
#include <mutex>   // NOLINT
#include <thread>  // NOLINT

#include "ruy/blocking_counter.h"
#include "ruy/time.h"
#include "ruy/wait.h"
#include "sched.h"

namespace {

ruy::Duration Spin(double ms) {
  return ruy::DurationFromMilliseconds(static_cast<float>(ms));
}

double GenSpin(pbt::Case& c) {
  return c.pick<double>({0, 0.2, 2, 100, 0.0001});
}

// Waiters wait for a counter to reach values; notifiers raise it.
void WaitProp(pbt::Case& c) {
  const int waiters = static_cast<int>(c.range(1, 3));
  const int notifiers = static_cast<int>(c.range(1, 2));
  const int raises = static_cast<int>(c.range(1, 4));
  const int total = notifiers * raises;
  std::vector<std::vector<int>> targets(waiters);
  std::vector<double> spins;
  std::string text = pbt::Format("%d notifiers x %d;", notifiers, raises);
  for (int w = 0; w < waiters; ++w) {
    int at = 0;
    text += " waiter";
    const int n = static_cast<int>(c.range(1, 3));
    for (int i = 0; i < n; ++i) {
      at = static_cast<int>(c.range(at, total));
      targets[w].push_back(at);
      text += pbt::Format(" %d", at);
    }
    spins.push_back(GenSpin(c));
    text += pbt::Format(" spin %g;", spins.back());
  }
  const bool main_waits = c.flag();
  const bool under_lock = c.flag();
  const bool one = waiters == 1 && c.flag();
  c.describe("%s", text.c_str());
  std::atomic<int> early{0};
  sched::Options options;
  options.races = c.flag();
  sched::Stats st = sched::Run(c, text, [&] {
    std::atomic<int> value{0};
    std::mutex mutex;
    std::condition_variable cond;
    auto wait = [&](int w) {
      for (int target : targets[w]) {
        int evaluated = 0;
        bool last = false;
        ruy::Wait(
            [&] {
              ++evaluated;
              return last = value.load() >= target;
            },
            Spin(spins[w]), &cond, &mutex);
        if (!last || evaluated == 0 || value.load() < target) early.store(1);
        // The mutex must not be left locked.
        if (!mutex.try_lock()) {
          // Somebody else may hold it now; take it properly.
          mutex.lock();
        }
        mutex.unlock();
      }
    };
    auto notify = [&] {
      for (int i = 0; i < raises; ++i) {
        if (under_lock) {
          std::lock_guard<std::mutex> lock(mutex);
          value.fetch_add(1);
          one ? cond.notify_one() : cond.notify_all();
        } else {
          value.fetch_add(1);
          mutex.lock();
          one ? cond.notify_one() : cond.notify_all();
          mutex.unlock();
        }
      }
    };
    std::vector<std::thread> threads;
    for (int w = main_waits ? 1 : 0; w < waiters; ++w) {
      threads.emplace_back(wait, w);
    }
    for (int i = 0; i < notifiers; ++i) threads.emplace_back(notify);
    if (main_waits) wait(0);
    for (std::thread& t : threads) t.join();
  }, options);
  if (early.load()) c.fail("a wait returned although its condition was false");
  if (st.left) c.fail("%d threads left", st.left);
  if (st.switches > 0) c.nontrivial();
  if (st.blocked) c.label("blocked");
}

struct Cell {
  int value = 0;
  __attribute__((noinline)) void Set(int v) { value = v; }
  __attribute__((noinline)) int Get() const { return value; }
};

// A counter armed again and again.
void CounterProp(pbt::Case& c) {
  const int threads = static_cast<int>(c.range(1, 4));
  const int rounds = static_cast<int>(c.range(1, 4));
  struct Round {
    double spin;
    std::vector<int> decrements;
    int sum;
    int own;  // decrements by the waiter itself
    bool twice;
  };
  std::vector<Round> plan;
  std::string text;
  for (int r = 0; r < rounds; ++r) {
    Round p;
    p.spin = GenSpin(c);
    p.own = static_cast<int>(c.rarely(3, 1, 3));
    p.sum = p.own;
    p.twice = c.chance(1, 5);
    text += pbt::Format(" spin %g own %d:", p.spin, p.own);
    for (int t = 0; t < threads; ++t) {
      p.decrements.push_back(static_cast<int>(c.range(0, 3)));
      p.sum += p.decrements.back();
      text += pbt::Format(" %d", p.decrements.back());
    }
    plan.push_back(p);
  }
  c.describe("%s", text.c_str());
  std::string error;
  sched::Options options;
  options.races = c.flag();
  sched::Stats st = sched::Run(c, text, [&] {
    ruy::BlockingCounter counter;
    std::atomic<int> round{-1};
    // On the heap and behind a call, so that every access is seen.
    auto plain_owner = std::make_unique<Cell[]>(64);
    Cell* plain = plain_owner.get();
    std::atomic<int> done[8];
    std::atomic<int> zero[8];
    for (int r = 0; r < 8; ++r) {
      done[r] = 0;
      zero[r] = 0;
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        for (int r = 0; r < rounds; ++r) {
          while (round.load(std::memory_order_acquire) < r) sched::Point();
          if (plan[r].decrements[t] > 0) plain[r * 8 + t].Set(r + 1);
          for (int k = 0; k < plan[r].decrements[t]; ++k) {
            // Before the decrement: the waiter must see it.
            done[r].fetch_add(1, std::memory_order_relaxed);
            if (counter.DecrementCount()) zero[r].fetch_add(1, std::memory_order_relaxed);
          }
        }
      });
    }
    for (int r = 0; r < rounds; ++r) {
      const Round& p = plan[r];
      counter.Reset(p.sum);
      round.store(r, std::memory_order_release);
      int own_zero = 0;
      for (int k = 0; k < p.own; ++k) {
        done[r].fetch_add(1, std::memory_order_relaxed);
        if (counter.DecrementCount()) ++own_zero;
      }
      counter.Wait(Spin(p.spin));
      // What the others wrote before their decrements is visible.
      for (int t = 0; t < threads; ++t) {
        if (p.decrements[t] > 0 && plain[r * 8 + t].Get() != r + 1 && error.empty()) {
          error = pbt::Format("round %d: a write is not visible", r);
        }
      }
      if (error.empty() && done[r].load(std::memory_order_relaxed) != p.sum) {
        error = pbt::Format("round %d: proceeded after %d of %d decrements", r,
                            done[r].load(std::memory_order_relaxed), p.sum);
      }
      if (p.twice) counter.Wait(Spin(p.spin));
      zero[r].fetch_add(own_zero);
    }
    for (std::thread& t : ts) t.join();
    for (int r = 0; r < rounds; ++r) {
      const int want = plan[r].sum > 0 ? 1 : 0;
      if (error.empty() && zero[r].load() != want) {
        error = pbt::Format("round %d: %d decrements reported as the last", r,
                            zero[r].load());
      }
    }
  }, options);
  if (!error.empty()) c.fail("%s", error.c_str());
  if (st.left) c.fail("%d threads left", st.left);
  if (st.switches > 0) c.nontrivial();
  if (st.blocked) c.label("blocked");
}

// Many rounds of few decrements or few rounds of many.
void LongCounterProp(pbt::Case& c) {
  const int threads = static_cast<int>(c.range(1, 3));
  const bool wide = c.flag();
  const int rounds = static_cast<int>(wide ? c.range(1, 2)
                                           : pbt::GenLength(c, 10, 2000));
  const int each = static_cast<int>(wide ? pbt::GenLength(c, 10, 70000) / threads
                                         : c.range(1, 3)) + 1;
  const double spin = wide ? 0 : c.pick<double>({0, 0.2});
  const bool own = c.flag();
  const std::string text = pbt::Format(
      "%d rounds, %d threads with %d decrements%s, spin %g", rounds, threads,
      each, own ? " and the waiter" : "", spin);
  c.describe("%s", text.c_str());
  std::string error;
  sched::Options options;
  options.max_points = 100000000;
  sched::Stats st = sched::Run(c, text, [&] {
    ruy::BlockingCounter counter;
    std::atomic<int> round{-1}, done{0}, zero{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&] {
        for (int r = 0; r < rounds; ++r) {
          while (round.load() < r) sched::Point();
          for (int k = 0; k < each; ++k) {
            done.fetch_add(1, std::memory_order_relaxed);
            if (counter.DecrementCount()) zero.fetch_add(1);
          }
        }
      });
    }
    const int sum = each * threads + (own ? each : 0);
    for (int r = 0; r < rounds; ++r) {
      counter.Reset(sum);
      round.store(r);
      for (int k = 0; own && k < each; ++k) {
        done.fetch_add(1, std::memory_order_relaxed);
        if (counter.DecrementCount()) zero.fetch_add(1);
      }
      counter.Wait(Spin(spin));
      if (error.empty() && done.load() != sum * (r + 1)) {
        error = pbt::Format("round %d: proceeded after %d decrements less", r,
                            sum * (r + 1) - done.load());
      }
    }
    for (std::thread& t : ts) t.join();
    if (error.empty() && zero.load() != rounds) {
      error = pbt::Format("%d decrements reported as the last", zero.load());
    }
  }, options);
  if (!error.empty()) c.fail("%s", error.c_str());
  if (st.left) c.fail("%d threads left", st.left);
  if (st.switches > 0) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C10";
  s.rule =
      "Generated waiters and notifiers (values waited for, spin times, notify "
      "one or all, under the lock or after it), and generated rounds of a "
      "countdown with any split of decrements over threads, under generated "
      "schedules with spurious wake-ups and virtual time: no early return, no "
      "deadlock, no race (in half of the cases), last decrement reported exactly once. Part long: up to "
      "2000 rounds, or counts up to 70000. Non-trivial: a switch "
      "between threads.";
  s.assumptions = {"sequentially consistent interleavings, switches at "
                   "synchronization operations"};
  s.parts = {{"wait", WaitProp, 1000000, 15000000},
             {"counter", CounterProp, 1000000, 15000000},
             {"long", LongCounterProp, 600, 10000}};
  return pbt::Main(argc, argv, s);
}
