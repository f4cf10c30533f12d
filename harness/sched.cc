// Must be compiled without any sanitizer.
#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <map>
#include <unordered_map>
#include <vector>

namespace {

template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

constexpr int kMaxClocks = 24;
struct Clock {
  unsigned c[kMaxClocks] = {};
  void Join(const Clock& o) {
    for (int i = 0; i < kMaxClocks; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};

struct Thread {
  int id = 0;
  Clock clock;
  Clock released;  // by a fence, for stores that follow
  Clock seen;      // by loads, for a fence that follows

  int go = 0;  // futex: 1 when it may run
  bool finished = false;
  // What it waits for, if anything.
  const void* mutex = nullptr;
  const void* cond = nullptr;
  Thread* join = nullptr;
  bool timed = false;
  long long deadline = 0;
  bool timed_out = false;
  long stalled_until = 0;
  pthread_t handle = 0;
  void* (*f)(void*) = nullptr;
  void* arg = nullptr;

  bool Blocked() const { return mutex || cond || join; }
};

bool g_active = false;
pbt::Case* g_case = nullptr;
std::string* g_text = nullptr;
std::vector<Thread*>* g_threads = nullptr;
std::map<const void*, Thread*>* g_owner = nullptr;  // locked mutexes
sched::Stats g_stats;
long g_max_points = 0;
long long g_now = 0;   // ns
long long g_tick = 0;  // ns per reading of the clock
int g_mean = 10;       // style: typical number of points between switches
bool g_spurious = false;
bool g_stalls = false;
long g_left = 0;  // points until the next switch; < 0: none planned
long g_run = 0;   // points since the current thread was switched to

// Watched memory.
char* g_watch = nullptr;
long g_watch_bytes = 0;
signed char* g_writer = nullptr;
bool g_watch_conflict = false;

thread_local Thread* t_self = nullptr;
// Code of the scheduler runs.
thread_local int t_internal = 0;
struct Internal {
  Internal() { ++t_internal; }
  ~Internal() { --t_internal; }
};

// ---------------------------------------------------------------------------
// Data races.
struct Access {
  unsigned clock;
  unsigned char thread, mask;
  bool write;
  void* pc;
};
struct Cell {
  std::vector<Access> v;
};
bool g_races = false;
std::unordered_map<unsigned long, Cell>* g_shadow = nullptr;  // by 8 bytes
std::map<const volatile void*, Clock>* g_sync = nullptr;

bool On() { return g_active && t_self != nullptr; }

void Wake(Thread* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void AwaitTurn(Thread* t) {
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}

[[noreturn]] void Die(const std::string& what) {
  g_case->describe("%s -- %s", g_text->c_str(), what.c_str());
  fprintf(stderr, "%s\n", what.c_str());
  abort();
}

std::string States() {
  std::string s;
  for (Thread* t : *g_threads) {
    s += pbt::Format(" thread %d %s;", t->id,
                     t->finished ? "ended"
                     : t->cond   ? "waits for a notification"
                     : t->mutex  ? "waits for a lock"
                     : t->join   ? "waits for a thread to end"
                                 : "can run");
  }
  return s;
}

bool Racing() { return g_races && g_active && t_self && t_internal == 0; }

void Release(const volatile void* a) {
  if (!g_races || !t_self) return;
  Internal in;
  (*g_sync)[a].Join(t_self->clock);
  ++t_self->clock.c[t_self->id];
}
void Acquire(const volatile void* a) {
  if (!g_races || !t_self) return;
  Internal in;
  auto it = g_sync->find(a);
  if (it != g_sync->end()) t_self->clock.Join(it->second);
}

bool IsAcquire(int order) {
  return order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE;
}
bool IsRelease(int order) {
  return order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL ||
         order == __ATOMIC_SEQ_CST;
}

void OnLoad(const volatile void* a, int order) {
  if (!Racing()) return;
  Internal in;
  auto it = g_sync->find(a);
  if (it == g_sync->end()) return;
  (IsAcquire(order) ? t_self->clock : t_self->seen).Join(it->second);
}
void OnStore(const volatile void* a, int order, bool rmw) {
  if (!Racing()) return;
  Internal in;
  Clock& c = (*g_sync)[a];
  // A store ends what was published there; a read-modify-write carries it on.
  if (!rmw) c = Clock();
  c.Join(IsRelease(order) ? t_self->clock : t_self->released);
  if (IsRelease(order)) ++t_self->clock.c[t_self->id];
}
void OnFence(int order) {
  if (!Racing()) return;
  if (IsAcquire(order)) t_self->clock.Join(t_self->seen);
  if (IsRelease(order)) {
    t_self->released = t_self->clock;
    ++t_self->clock.c[t_self->id];
  }
}

void OnAccess(const volatile void* p, unsigned long n, bool write, void* pc) {
  if (!Racing() || n == 0) return;
  Internal in;
  const int self = t_self->id;
  unsigned long at = reinterpret_cast<unsigned long>(p);
  const unsigned long end = at + n;
  for (; at < end; at = (at | 7) + 1) {
    const unsigned from = at & 7;
    const unsigned to = std::min<unsigned long>(8, from + (end - at));
    const unsigned mask = ((1u << to) - 1) & ~((1u << from) - 1);
    Cell& cell = (*g_shadow)[at >> 3];
    std::size_t kept = 0;
    for (const Access& a : cell.v) {
      if ((a.mask & mask) && a.thread != self && (write || a.write) &&
          a.clock > t_self->clock.c[a.thread]) {
        Dl_info info = {};
        dladdr(pc, &info);
        Die(pbt::Format(
            "data race: %s by thread %d at +0x%lx, after a %s by thread %d at "
            "+0x%lx",
            write ? "write" : "read", self,
            static_cast<unsigned long>(static_cast<char*>(pc) -
                                       static_cast<char*>(info.dli_fbase)),
            a.write ? "write" : "read", a.thread,
            static_cast<unsigned long>(static_cast<char*>(a.pc) -
                                       static_cast<char*>(info.dli_fbase))));
      }
      const bool covered = (a.mask & ~mask) == 0 &&
                           (write || (a.thread == self && !a.write));
      if (!covered) cell.v[kept++] = a;
    }
    cell.v.resize(kept);
    cell.v.push_back({t_self->clock.c[self], static_cast<unsigned char>(self),
                      static_cast<unsigned char>(mask), write, pc});
  }
}

// Memory gets a new life.
void Forget(const volatile void* p, unsigned long n) {
  if (!g_races || !p) return;
  Internal in;
  const unsigned long at = reinterpret_cast<unsigned long>(p);
  if (n > 8 * g_shadow->size()) {
    for (auto it = g_shadow->begin(); it != g_shadow->end();) {
      if (it->first >= at >> 3 && it->first <= (at + n - 1) >> 3) {
        it = g_shadow->erase(it);
      } else {
        ++it;
      }
    }
  } else if (n > 0) {
    for (unsigned long k = at >> 3; k <= (at + n - 1) >> 3; ++k) {
      g_shadow->erase(k);
    }
  }
  auto lo = g_sync->lower_bound(p);
  while (lo != g_sync->end() &&
         reinterpret_cast<unsigned long>(lo->first) < at + n) {
    lo = g_sync->erase(lo);
  }
}

// A thread whose wait is over for another reason than being woken.
void UpdateBlocked() {
  for (Thread* t : *g_threads) {
    if (t->cond && t->timed && g_now >= t->deadline) {
      t->cond = nullptr;
      t->timed_out = true;
    }
    if (t->mutex && !g_owner->count(t->mutex)) t->mutex = nullptr;
    if (t->join && t->join->finished) t->join = nullptr;
  }
}

// Lets another thread run, and returns when this one is chosen again.
void SwitchTo(Thread* to) {
  Thread* self = t_self;
  if (to == self) return;
  g_run = 0;
  Wake(to);
  if (!self->finished) AwaitTurn(self);
}

std::vector<Thread*> Others(bool with_stalled) {
  std::vector<Thread*> v;
  for (Thread* t : *g_threads) {
    if (t == t_self || t->finished || t->Blocked()) continue;
    if (!with_stalled && t->stalled_until > g_stats.points) continue;
    v.push_back(t);
  }
  return v;
}

void Plan() {
  const long v = static_cast<long>(g_case->draw(2 * g_mean + 1));
  g_left = v == 0 ? -1 : v;
}

// The current thread cannot go on.
void Block() {
  ++g_stats.blocked;
  for (;;) {
    UpdateBlocked();
    if (!t_self->finished && !t_self->Blocked()) return;
    std::vector<Thread*> v = Others(false);
    if (v.empty()) v = Others(true);
    if (v.empty()) {
      // Only time can help.
      long long first = -1;
      for (Thread* t : *g_threads) {
        if (t->cond && t->timed && (first < 0 || t->deadline < first)) {
          first = t->deadline;
        }
      }
      if (first >= 0) {
        g_now = std::max(g_now, first);
        continue;
      }
      if (t_self->finished) {
        bool all = true;
        for (Thread* t : *g_threads) all = all && t->finished;
        if (all) return;
      }
      Die("deadlock:" + States());
    }
    Thread* to = v[v.size() > 1 ? g_case->draw(v.size()) : 0];
    SwitchTo(to);
    if (t_self->finished) return;
  }
}

void PointImpl() {
  Internal internal;
  if (++g_stats.points > g_max_points) {
    Die(pbt::Format("no end after %ld steps:", g_stats.points) + States());
  }
  ++g_run;
  UpdateBlocked();
  if (g_left > 0) --g_left;
  if (g_left == 0) {
    Plan();
    // A wake-up without reason.
    if (g_spurious && g_case->rarely(2, 1, 8)) {
      std::vector<Thread*> w;
      for (Thread* t : *g_threads) {
        if (t->cond) w.push_back(t);
      }
      if (!w.empty()) {
        w[w.size() > 1 ? g_case->draw(w.size()) : 0]->cond = nullptr;
        ++g_stats.spurious;
        UpdateBlocked();
      }
    }
    std::vector<Thread*> v = Others(false);
    if (!v.empty()) {
      Thread* to = v[v.size() > 1 ? g_case->draw(v.size()) : 0];
      if (g_stalls && g_case->rarely(2, 1, 6)) {
        // This thread does not run for long.
        t_self->stalled_until =
            g_stats.points + static_cast<long>(g_case->draw(3000));
        if (g_case->rarely(2, 1, 2)) g_now += 3000000000LL;
      }
      ++g_stats.switches;
      SwitchTo(to);
      return;
    }
  }
  // Nobody waits for ever.
  if (g_run > 400) {
    std::vector<Thread*> v = Others(g_run > 4000);
    if (!v.empty()) {
      // In turn.
      Thread* to = v[0];
      for (Thread* t : v) {
        if (t->id > t_self->id) {
          to = t;
          break;
        }
      }
      ++g_stats.switches;
      SwitchTo(to);
    }
  }
}

void LockImpl(const void* m) {
  Internal internal;
  while (g_owner->count(m)) {
    if ((*g_owner)[m] == t_self) Die("a thread locks a mutex it holds");
    t_self->mutex = m;
    Block();
  }
  (*g_owner)[m] = t_self;
  Acquire(m);
}

void UnlockImpl(const void* m) {
  Internal internal;
  auto it = g_owner->find(m);
  if (it == g_owner->end() || it->second != t_self) {
    Die("a thread unlocks a mutex it does not hold");
  }
  g_owner->erase(it);
  Release(m);
}

long long Ns(const struct timespec* t) {
  return t->tv_sec * 1000000000LL + t->tv_nsec;
}

int CondWait(const void* cv, const void* m, const struct timespec* until) {
  Internal internal;
  PointImpl();
  UnlockImpl(m);
  t_self->cond = cv;
  t_self->timed = until != nullptr;
  t_self->timed_out = false;
  if (until) t_self->deadline = Ns(until);
  Block();
  t_self->timed = false;
  const bool out = t_self->timed_out;
  LockImpl(m);
  return out ? ETIMEDOUT : 0;
}

void CondWake(const void* cv, bool all) {
  Internal internal;
  PointImpl();
  std::vector<Thread*> w;
  for (Thread* t : *g_threads) {
    if (t->cond == cv) w.push_back(t);
  }
  if (!w.empty()) {
    if (all) {
      for (Thread* t : w) t->cond = nullptr;
    } else {
      w[w.size() > 1 ? g_case->draw(w.size()) : 0]->cond = nullptr;
    }
  }
  PointImpl();
}

inline void OnRead(const volatile void* p, long n, void* pc) {
  if (g_races) OnAccess(p, n, false, pc);
}
inline void OnWrite(volatile void* p, long n, void* pc) {
  if (g_races) OnAccess(p, n, true, pc);
  const long at = static_cast<volatile char*>(p) - g_watch;
  if (at < 0 || at >= g_watch_bytes || !On()) return;
  for (long i = at; i < at + n && i < g_watch_bytes; ++i) {
    if (g_writer[i] >= 0 && g_writer[i] != t_self->id) g_watch_conflict = true;
    g_writer[i] = static_cast<signed char>(t_self->id);
  }
}

// The end of a thread, after the destructors of its thread-local objects: this
// object is the first to be made, so it is the last to be destroyed.
struct Ender {
  Thread* thread = nullptr;
  ~Ender() {
    if (!thread) return;
    Internal internal;
    thread->finished = true;
    Block();
    t_self = nullptr;
  }
};
thread_local Ender t_ender;

bool SpuriousFailure() {
  if (!On() || !g_spurious) return false;
  Internal internal;
  return g_case->rarely(2, 1, 8) != 0;
}

void* Trampoline(void* v) {
  Thread* t = static_cast<Thread*>(v);
  {
    Internal internal;
    t_ender.thread = t;
    t_self = t;
    AwaitTurn(t);
    pthread_attr_t attr;
    if (pthread_getattr_np(pthread_self(), &attr) == 0) {
      void* base;
      std::size_t size;
      pthread_attr_getstack(&attr, &base, &size);
      pthread_attr_destroy(&attr);
      Forget(base, size);
    }
  }
  return t->f(t->arg);
}

}  // namespace

namespace sched {

Stats Run(pbt::Case& c, const std::string& text,
          const std::function<void()>& body, const Options& options) {
  // The structures are leaked on purpose when the body throws.
  g_text = new std::string(text);
  g_threads = new std::vector<Thread*>;
  g_owner = new std::map<const void*, Thread*>;
  g_case = &c;
  g_stats = Stats();
  g_max_points = options.max_points;
  g_races = options.races;
  g_shadow = new std::unordered_map<unsigned long, Cell>;
  g_sync = new std::map<const volatile void*, Clock>;
  g_now = 1000000000LL;
  g_tick = c.pick<long long>({50000, 1000, 500000, 5000000});
  g_mean = c.pick<int>({300, 100, 30, 10, 4, 2, 1});
  g_spurious = c.chance(1, 3);
  g_stalls = c.chance(1, 3);
  g_run = 0;
  Plan();
  Thread* self = new Thread;
  self->id = 0;
  self->clock.c[0] = 1;
  g_threads->push_back(self);
  t_self = self;
  g_active = true;
  struct Off {
    ~Off() {
      g_active = false;
      g_races = false;
      t_self = nullptr;
    }
  } off;
  body();
  g_active = false;
  g_races = false;
  delete g_shadow;
  delete g_sync;
  g_stats.threads = static_cast<int>(g_threads->size());
  for (Thread* t : *g_threads) {
    if (t != self && !t->finished) ++g_stats.left;
  }
  if (g_stats.left == 0) {
    for (Thread* t : *g_threads) delete t;
    delete g_threads;
    delete g_owner;
  }
  delete g_text;
  t_self = nullptr;
  return g_stats;
}

int Self() { return t_self ? t_self->id : -1; }
void Point() {
  if (On()) PointImpl();
}
void Sleep(double ms) {
  if (!On()) return;
  g_now += static_cast<long long>(ms * 1e6);
  PointImpl();
}

bool WatchWrites(void* p, long bytes) {
  const bool r = g_watch_conflict;
  g_watch_conflict = false;
  g_watch = static_cast<char*>(p);
  g_watch_bytes = bytes;
  g_writer = static_cast<signed char*>(realloc(g_writer, bytes + 1));
  memset(g_writer, -1, bytes);
  return r;
}

}  // namespace sched

// ---------------------------------------------------------------------------
// Interposed functions.
extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*),
                   void* arg) {
  static auto real =
      Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(
          "pthread_create");
  if (!On()) return real(h, a, f, arg);
  PointImpl();
  Internal internal;
  Thread* t = new Thread;
  t->id = static_cast<int>(g_threads->size());
  if (t->id >= kMaxClocks) g_races = false;
  if (g_races) {
    t->clock = t_self->clock;
    t->clock.c[t->id] = 1;
    ++t_self->clock.c[t_self->id];
  }
  t->f = f;
  t->arg = arg;
  int r = real(h, a, Trampoline, t);
  if (r != 0) {
    delete t;
    return r;
  }
  t->handle = *h;
  g_threads->push_back(t);
  PointImpl();
  return 0;
}

int pthread_join(pthread_t h, void** ret) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (On()) {
    Internal internal;
    PointImpl();
    for (Thread* t : *g_threads) {
      if (t->handle == h && t->id != 0) {
        if (!t->finished) {
          t_self->join = t;
          Block();
        }
        t->handle = 0;
        t_self->clock.Join(t->clock);
        break;
      }
    }
  }
  return real(h, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!On()) return real(m);
  PointImpl();
  LockImpl(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!On()) return real(m);
  PointImpl();
  if (g_owner->count(m)) return EBUSY;
  LockImpl(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!On()) return real(m);
  PointImpl();
  UnlockImpl(m);
  PointImpl();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  if (!On()) return real(m);
  if (g_owner->count(m)) Die("a locked mutex is destroyed");
  return 0;
}

int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  static auto real =
      Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!On()) return real(cv, m);
  return CondWait(cv, m, nullptr);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m,
                           const struct timespec* t) {
  static auto real =
      Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
          "pthread_cond_timedwait");
  if (!On()) return real(cv, m, t);
  return CondWait(cv, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m,
                           clockid_t clock, const struct timespec* t) {
  static auto real =
      Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                   const struct timespec*)>("pthread_cond_clockwait");
  if (!On()) return real(cv, m, clock, t);
  return CondWait(cv, m, t);
}
int pthread_cond_signal(pthread_cond_t* cv) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!On()) return real(cv);
  CondWake(cv, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!On()) return real(cv);
  CondWake(cv, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* cv) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  if (!On()) return real(cv);
  for (Thread* t : *g_threads) {
    if (t->cond == cv) Die("a condition variable is destroyed while waited on");
  }
  return 0;
}

int clock_gettime(clockid_t id, struct timespec* t) {
  static auto real = Real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
  if (!On()) return real(id, t);
  PointImpl();
  g_now += g_tick;
  t->tv_sec = g_now / 1000000000LL;
  t->tv_nsec = g_now % 1000000000LL;
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rest) {
  static auto real =
      Real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  if (!On()) return real(t, rest);
  g_now += Ns(t);
  g_left = 1;
  PointImpl();
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t,
                    struct timespec* rest) {
  static auto real = Real<int (*)(clockid_t, int, const struct timespec*,
                                  struct timespec*)>("clock_nanosleep");
  if (!On()) return real(id, flags, t, rest);
  g_now = flags & TIMER_ABSTIME ? std::max(g_now, Ns(t)) : g_now + Ns(t);
  g_left = 1;
  PointImpl();
  return 0;
}
int sched_yield() {
  static auto real = Real<int (*)()>("sched_yield");
  if (!On()) return real();
  g_left = 1;
  PointImpl();
  return 0;
}

// What compiled code calls for atomic operations. Only sequentially consistent
// executions are explored.
void __tsan_init() {}

#define ATOMICS(bits, T)                                                      \
  T __tsan_atomic##bits##_load(const volatile T* a, int o) {                  \
    sched::Point();                                                           \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
    OnLoad(a, o);                                                             \
    return v;                                                                 \
  }                                                                           \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int o) {               \
    sched::Point();                                                           \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                 \
    OnStore(a, o, false);                                                     \
    sched::Point();                                                           \
  }                                                                           \
  RMW(bits, T, exchange, exchange_n)                                          \
  RMW(bits, T, fetch_add, fetch_add)                                          \
  RMW(bits, T, fetch_sub, fetch_sub)                                          \
  RMW(bits, T, fetch_and, fetch_and)                                          \
  RMW(bits, T, fetch_or, fetch_or)                                            \
  RMW(bits, T, fetch_xor, fetch_xor)                                          \
  RMW(bits, T, fetch_nand, fetch_nand)                                        \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, \
                                                    int o, int fail) {        \
    sched::Point();                                                           \
    int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST,         \
                                        __ATOMIC_SEQ_CST);                    \
    OnLoad(a, r ? o : fail);                                                  \
    if (r) OnStore(a, o, true);                                               \
    sched::Point();                                                           \
    return r;                                                                 \
  }                                                                           \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v,   \
                                                  int o, int fail) {          \
    sched::Point();                                                           \
    if (SpuriousFailure()) {                                                  \
      *e = __atomic_load_n(a, __ATOMIC_SEQ_CST);                              \
      OnLoad(a, fail);                                                        \
      return 0;                                                               \
    }                                                                         \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, o, fail);   \
  }                                                                           \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v,       \
                                               int o, int fail) {             \
    __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, o, fail);         \
    return e;                                                                 \
  }
#define RMW(bits, T, name, builtin)                           \
  T __tsan_atomic##bits##_##name(volatile T* a, T v, int o) { \
    sched::Point();                                           \
    T r = __atomic_##builtin(a, v, __ATOMIC_SEQ_CST);         \
    OnLoad(a, o);                                             \
    OnStore(a, o, true);                                      \
    sched::Point();                                           \
    return r;                                                 \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned)
ATOMICS(64, unsigned long)

void __tsan_atomic_thread_fence(int o) {
  sched::Point();
  OnFence(o);
}
void __tsan_atomic_signal_fence(int) {}

#define PC __builtin_return_address(0)
#define ACCESS(n)                                                          \
  void __tsan_read##n(void* p) { OnRead(p, n, PC); }                       \
  void __tsan_write##n(void* p) { OnWrite(p, n, PC); }                     \
  void __tsan_volatile_read##n(void* p) { OnRead(p, n, PC); }              \
  void __tsan_volatile_write##n(void* p) { OnWrite(p, n, PC); }            \
  void __tsan_read_write##n(void* p) { OnWrite(p, n, PC); }                \
  void __tsan_unaligned_read##n(void* p) { OnRead(p, n, PC); }             \
  void __tsan_unaligned_write##n(void* p) { OnWrite(p, n, PC); }           \
  void __tsan_unaligned_volatile_read##n(void* p) { OnRead(p, n, PC); }    \
  void __tsan_unaligned_volatile_write##n(void* p) { OnWrite(p, n, PC); }  \
  void __tsan_unaligned_read_write##n(void* p) { OnWrite(p, n, PC); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, unsigned long n) { OnRead(p, n, PC); }
void __tsan_write_range(void* p, unsigned long n) { OnWrite(p, n, PC); }
void __tsan_vptr_read(void**) {}
void __tsan_vptr_update(void**, void*) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  OnRead(s, n, PC);
  OnWrite(d, n, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  OnRead(s, n, PC);
  OnWrite(d, n, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
  OnWrite(d, n, PC);
  return memset(d, v, n);
}

// Function-local statics: their guards order what the library does not show.
int __cxa_guard_acquire(void* g) {
  static auto real = Real<int (*)(void*)>("__cxa_guard_acquire");
  const int r = real(g);
  if (r == 0 && On()) Acquire(g);
  return r;
}
void __cxa_guard_release(void* g) {
  static auto real = Real<void (*)(void*)>("__cxa_guard_release");
  if (On()) Release(g);
  real(g);
}

// Memory that is allocated has no past.
void* __libc_malloc(unsigned long);
void* __libc_calloc(unsigned long, unsigned long);
void* __libc_realloc(void*, unsigned long);
void* __libc_memalign(unsigned long, unsigned long);
void __libc_free(void*);
static void* Fresh(void* p, unsigned long n) {
  if (g_races && t_internal == 0 && On()) Forget(p, n);
  return p;
}
void* malloc(unsigned long n) { return Fresh(__libc_malloc(n), n); }
void* calloc(unsigned long n, unsigned long m) {
  return Fresh(__libc_calloc(n, m), n * m);
}
void* realloc(void* p, unsigned long n) {
  return Fresh(__libc_realloc(p, n), n);
}
void* memalign(unsigned long a, unsigned long n) {
  return Fresh(__libc_memalign(a, n), n);
}
void* aligned_alloc(unsigned long a, unsigned long n) { return memalign(a, n); }
int posix_memalign(void** p, unsigned long a, unsigned long n) {
  void* r = memalign(a, n);
  if (!r) return ENOMEM;
  *p = r;
  return 0;
}
void free(void* p) {
  if (p && Racing()) Forget(p, malloc_usable_size(p));
  __libc_free(p);
}

}  // extern "C"
