// C34: hardware event counts are those of the recorded interval.
//
// Performance events are simulated: the system calls on them arrive here, and
// everything else goes on to the kernel.
#include <asm/unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/perf_event.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/types.h>
#include <unistd.h>

#include <map>
#include <memory>

#include "pbt.h"
#include "ruy/pmu.h"

namespace {

long Raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0,
         long f = 0) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r >= -4095) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// The events which the counts are made of, by the numbers that the
// architecture gives them.
const int kEvents[] = {0x03, 0x05, 0x10, 0x15, 0x17, 0x18,
                       0x23, 0x24, 0x2a, 0x2d, 0x33};
constexpr int kNumEvents = 11;

int Index(std::uint64_t config) {
  for (int i = 0; i < kNumEvents; ++i) {
    if (kEvents[i] == static_cast<int>(config)) return i;
  }
  return -1;
}

struct Event {
  int index = -1;
  bool enabled = false, threads = false, kernel = false;
  std::int64_t count = 0;
};

struct Simulation {
  std::map<int, Event> open;
  int next = 1 << 20;
  int fail_open = -1;  // counted down
  int fail_read = -1;
  // The present rates, for each call that arrives here while recording.
  std::int64_t tick[kNumEvents] = {};
  // All that happened so far.
  std::int64_t total[kNumEvents] = {};
  std::string error;

  void Happen(const std::int64_t* n, bool other_thread, bool kernel = false) {
    for (int i = 0; i < kNumEvents && !kernel; ++i) total[i] += n[i];
    for (auto& x : open) {
      Event& e = x.second;
      if (e.enabled && e.index >= 0 && (e.threads || !other_thread) &&
          (e.kernel || !kernel)) {
        e.count += n[e.index];
      }
    }
  }
};

Simulation* g_sim = nullptr;

bool IsEvent(int fd) { return g_sim && fd >= 1 << 20; }

Event* Find(int fd) {
  auto it = g_sim->open.find(fd);
  if (it == g_sim->open.end()) {
    g_sim->error = "a call on an event that is not open";
    return nullptr;
  }
  return &it->second;
}

}  // namespace

extern "C" long syscall(long n, ...) noexcept {
  va_list l;
  va_start(l, n);
  long a[6];
  for (long& x : a) x = va_arg(l, long);
  va_end(l);
  if (n != __NR_perf_event_open || !g_sim) {
    return Raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  }
  Simulation& s = *g_sim;
  if (s.fail_open >= 0 && s.fail_open-- == 0) {
    errno = ENOENT;
    return -1;
  }
  if (static_cast<int>(a[3]) != -1 && !s.open.count(static_cast<int>(a[3]))) {
    errno = EBADF;
    return -1;
  }
  const perf_event_attr* attr = reinterpret_cast<const perf_event_attr*>(a[0]);
  Event e;
  if (attr->type == PERF_TYPE_RAW) e.index = Index(attr->config);
  e.enabled = !attr->disabled;
  e.threads = attr->inherit;
  e.kernel = !attr->exclude_kernel || !attr->exclude_hv;
  if (static_cast<int>(a[1]) != 0 || static_cast<int>(a[2]) != -1) {
    s.error = "an event that does not follow the calling thread";
  }
  s.open[s.next] = e;
  return s.next++;
}

extern "C" int ioctl(int fd, unsigned long request, ...) noexcept {
  va_list l;
  va_start(l, request);
  const long arg = va_arg(l, long);
  va_end(l);
  if (!IsEvent(fd)) return static_cast<int>(Raw(__NR_ioctl, fd, request, arg));
  g_sim->Happen(g_sim->tick, false);
  Event* e = Find(fd);
  if (!e) return -1;
  if (request == PERF_EVENT_IOC_RESET) e->count = 0;
  if (request == PERF_EVENT_IOC_ENABLE) e->enabled = true;
  if (request == PERF_EVENT_IOC_DISABLE) e->enabled = false;
  return 0;
}

extern "C" ssize_t read(int fd, void* to, std::size_t n) {
  if (!IsEvent(fd)) {
    // Reading an event that could not be opened fails as it should.
    return Raw(__NR_read, fd, reinterpret_cast<long>(to), n);
  }
  g_sim->Happen(g_sim->tick, false);
  Event* e = Find(fd);
  if (g_sim->fail_read >= 0 && g_sim->fail_read-- == 0) {
    errno = EIO;
    return -1;
  }
  if (!e || n < sizeof e->count) {
    errno = EINVAL;
    return -1;
  }
  memcpy(to, &e->count, sizeof e->count);
  return sizeof e->count;
}

extern "C" int close(int fd) {
  if (!IsEvent(fd)) return static_cast<int>(Raw(__NR_close, fd));
  if (!g_sim->open.erase(fd)) {
    g_sim->error = "an event is closed that is not open";
    return -1;
  }
  return 0;
}

namespace {

struct Counter {
  const char* name;
  float (ruy::PmuEvents::*get)() const;
  int event, other;  // the larger one counts
};

const Counter kCounters[] = {
    {"L1 refills", &ruy::PmuEvents::L1RefillCount, 0x03, 0x03},
    {"L2 refills", &ruy::PmuEvents::L2RefillCount, 0x17, 0x17},
    {"L3 refills", &ruy::PmuEvents::L3RefillCount, 0x2a, 0x33},
    {"branch mispredictions", &ruy::PmuEvents::BranchMispredictionCount, 0x10,
     0x10},
    {"frontend stalls", &ruy::PmuEvents::FrontendStallCount, 0x23, 0x23},
    {"backend stalls", &ruy::PmuEvents::BackendStallCount, 0x24, 0x24},
    {"L1 TLB refills", &ruy::PmuEvents::L1TLBRefillCount, 0x05, 0x05},
    {"L2 TLB refills", &ruy::PmuEvents::L2TLBRefillCount, 0x2d, 0x2d},
    {"L1 writebacks", &ruy::PmuEvents::L1WritebackCount, 0x15, 0x15},
    {"L2 writebacks", &ruy::PmuEvents::L2WritebackCount, 0x18, 0x18},
};

struct Object {
  std::unique_ptr<ruy::PmuEvents> events;
  bool recording = false, recorded = false;
  // At least and at most, for the last recording.
  std::int64_t before[kNumEvents], started[kNumEvents];
  std::int64_t least[kNumEvents], most[kNumEvents];
};

std::int64_t GenAmount(pbt::Case& c) {
  switch (c.draw(5)) {
    case 0:
      return 0;
    case 1:
      return c.range(0, 100);
    case 2:
      return c.range(0, 1 << 25);
    case 3:
      return c.range(0, 10000000000LL);
    default:
      return c.range(0, 1LL << 50);
  }
}

void GenAmounts(pbt::Case& c, std::int64_t* to) {
  const int which = static_cast<int>(c.draw(3));
  for (int i = 0; i < kNumEvents; ++i) {
    to[i] = which == 0 ? 0 : GenAmount(c);
  }
  if (which == 0) to[c.draw(kNumEvents)] = GenAmount(c);
}

void CheckCounts(pbt::Case& c, const Object& o) {
  for (const Counter& k : kCounters) {
    const int i = Index(k.event), j = Index(k.other);
    const float least =
        static_cast<float>(std::max(o.least[i], o.least[j]));
    const float most = static_cast<float>(std::max(o.most[i], o.most[j]));
    const float got = (o.events.get()->*k.get)();
    if (!(got >= least && got <= most)) {
      c.fail("%.9g %s, should be %.9g to %.9g", got, k.name, least, most);
    }
  }
}

void CountsProp(pbt::Case& c) {
  Simulation sim;
  g_sim = &sim;
  struct Reset {
    ~Reset() { g_sim = nullptr; }
  } reset;
  std::string text;
  {
    Object o[2];
    int counted = 0;
    const int steps = static_cast<int>(c.range(1, 14));
    for (int i = 0; i < steps; ++i) {
      Object& x = o[c.rarely(2, 1, 3)];
      const int which = x.events ? c.weighted({4, 4, 2, 1, 1}) : 1;
      const int id = static_cast<int>(&x - o);
      if (which == 0) {
        // Work, on this thread or one that was created later, or not by the
        // program itself.
        std::int64_t n[kNumEvents];
        GenAmounts(c, n);
        const bool other = c.chance(1, 3);
        const bool kernel = c.chance(1, 6);
        sim.Happen(n, other, kernel);
        text += kernel ? " kernel" : other ? " work on a thread" : " work";
      } else if (which == 1) {
        if (!x.events) {
          x.events.reset(new ruy::PmuEvents);
          x.recorded = x.recording = false;
          text += pbt::Format(" %d:new", id);
        } else if (!x.recording) {
          memcpy(x.before, sim.total, sizeof sim.total);
          x.events->StartRecording();
          memcpy(x.started, sim.total, sizeof sim.total);
          x.recording = true;
          text += pbt::Format(" %d:start", id);
        } else {
          for (int j = 0; j < kNumEvents; ++j) {
            x.least[j] = sim.total[j] - x.started[j];
          }
          x.events->StopRecording();
          for (int j = 0; j < kNumEvents; ++j) {
            x.most[j] = sim.total[j] - x.before[j];
          }
          x.recording = false;
          x.recorded = true;
          text += pbt::Format(" %d:stop", id);
        }
      } else if (which == 2) {
        if (x.recorded && !x.recording) {
          c.describe("%s", text.c_str());
          CheckCounts(c, x);
          ++counted;
          text += pbt::Format(" %d:counts", id);
        }
      } else if (which == 3) {
        GenAmounts(c, sim.tick);
        text += " ticks";
      } else if (!x.recording) {
        x.events.reset();
        text += pbt::Format(" %d:delete", id);
      }
      c.describe("%s", text.c_str());
      if (!sim.error.empty()) c.fail("%s", sim.error.c_str());
    }
    for (Object& x : o) {
      if (!x.events) continue;
      if (x.recording) {
        for (int j = 0; j < kNumEvents; ++j) {
          x.least[j] = sim.total[j] - x.started[j];
        }
        x.events->StopRecording();
        for (int j = 0; j < kNumEvents; ++j) {
          x.most[j] = sim.total[j] - x.before[j];
        }
        x.recorded = true;
      }
      if (x.recorded) {
        CheckCounts(c, x);
        ++counted;
      }
    }
    if (counted) c.nontrivial();
  }
  if (!sim.error.empty()) c.fail("%s", sim.error.c_str());
  if (!sim.open.empty()) {
    c.fail("%d events are left open", static_cast<int>(sim.open.size()));
  }
}

// Misuse and failing events stop the process with a message.
void StopsProp(pbt::Case& c) {
  const int which = static_cast<int>(c.draw(7));
  const int at = static_cast<int>(c.draw(kNumEvents));
  const int counter = static_cast<int>(c.draw(10));
  const bool earlier = c.flag();
  static const char* const names[] = {
      "start twice",         "stop without start",  "stop twice",
      "count while recording", "delete while recording",
      "an event fails to open", "an event fails to be read"};
  c.describe("%s%s, event %d, counter %d", names[which],
             earlier ? " after a recording" : "", at, counter);
  Simulation sim;
  const pbt::ChildResult r = pbt::RunInChild([&] {
    g_sim = &sim;
    if (which == 5) sim.fail_open = at;
    ruy::PmuEvents* e = new ruy::PmuEvents;
    if (earlier) {
      e->StartRecording();
      e->StopRecording();
    }
    if (which == 6) sim.fail_read = at;
    if (which != 1) e->StartRecording();
    if (which == 0) e->StartRecording();
    if (which == 3) (e->*kCounters[counter].get)();
    if (which == 4) {
      delete e;
      return 0;
    }
    e->StopRecording();
    if (which == 2) e->StopRecording();
    return 0;
  });
  if (r.kind == pbt::ChildResult::kSignal && r.code == SIGKILL) _exit(3);
  if (r.kind != pbt::ChildResult::kSignal || r.code != SIGABRT ||
      r.output.empty()) {
    c.fail("%s %d instead of a diagnosed check: %s",
           r.kind == pbt::ChildResult::kExit ? "exit status" : "signal", r.code,
           r.output.c_str());
  }
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C34";
  s.rule =
      "Generated sequences of creating, starting, stopping, reading and "
      "deleting up to two sets of events, with generated amounts of each event "
      "happening in between, on this or other threads, in the kernel (not to "
      "be counted), and during the calls; "
      "each count lies between what happened from the end of the start to the "
      "beginning of the stop and what happened from the beginning of the start "
      "to the end of the stop, which is exact if nothing happens during the "
      "calls; every event is closed once (non-trivial: counts are read). Calls "
      "out of order and failing system calls stop with a message.";
  s.parts = {{"counts", CountsProp, 6000000, 120000000},
             {"stops", StopsProp, 10000, 200000}};
  return pbt::Main(argc, argv, s);
}
