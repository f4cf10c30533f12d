#include "memhook.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>

#include <atomic>
#include <new>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

std::atomic<bool> g_tracking{false};
std::atomic<long> g_fail_at{-1};
std::atomic<bool> g_fail_rest{false};
std::atomic<long> g_seen{0};
std::atomic<long> g_failures{0};
thread_local int t_nofail = 0;
// Set while the C library creates a thread: what it requests for that is kept
// for later threads.
thread_local bool t_creating = false;

std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Lock {
  Lock() {
    while (g_lock.test_and_set(std::memory_order_acquire)) {
    }
  }
  ~Lock() { g_lock.clear(std::memory_order_release); }
};

struct Slot {
  void* p;
  size_t n;
  bool aligned;
};
constexpr size_t kSlots = 1 << 16;
Slot g_slots[kSlots];
size_t g_used = 0;  // including tombstones
void* const kGone = reinterpret_cast<void*>(1);
memhook::Stats g_stats;

size_t Hash(void* p) {
  return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 40;
}

void Note(void* p, size_t n, bool aligned) {
  if (!p || t_creating || !g_tracking.load(std::memory_order_relaxed)) return;
  Lock l;
  if (g_used > kSlots * 3 / 4) return;  // never reached by the checks
  size_t i = Hash(p) % kSlots;
  while (g_slots[i].p && g_slots[i].p != kGone) i = (i + 1) % kSlots;
  if (!g_slots[i].p) ++g_used;
  g_slots[i] = {p, n, aligned};
  ++g_stats.requests;
  ++g_stats.live_blocks;
  g_stats.live_bytes += n;
  if (aligned) {
    ++g_stats.aligned_requests;
    ++g_stats.aligned_live_blocks;
    g_stats.aligned_live_bytes += n;
  }
}

void Forget(void* p) {
  if (!p || !g_tracking.load(std::memory_order_relaxed)) return;
  Lock l;
  size_t i = Hash(p) % kSlots;
  while (g_slots[i].p) {
    if (g_slots[i].p == p) {
      --g_stats.live_blocks;
      g_stats.live_bytes -= g_slots[i].n;
      if (g_slots[i].aligned) {
        --g_stats.aligned_live_blocks;
        g_stats.aligned_live_bytes -= g_slots[i].n;
      }
      g_slots[i].p = kGone;
      return;
    }
    i = (i + 1) % kSlots;
  }
}

bool ShouldFail() {
  const long at = g_fail_at.load(std::memory_order_relaxed);
  if (at < 0 || t_nofail) return false;
  const long k = g_seen.fetch_add(1);
  if (k == at || (k > at && g_fail_rest.load(std::memory_order_relaxed))) {
    g_failures.fetch_add(1);
    return true;
  }
  return false;
}

}  // namespace

namespace memhook {

void Start() {
  Lock l;
  memset(g_slots, 0, sizeof(g_slots));
  g_used = 0;
  g_stats = Stats();
  g_tracking = true;
}
void Stop() { g_tracking = false; }
Stats Get() {
  Lock l;
  return g_stats;
}
void FailAt(long n, bool all_after) {
  g_seen = 0;
  g_failures = 0;
  g_fail_rest = all_after;
  g_fail_at = n;
}
long Failures() { return g_failures; }
long Seen() { return g_seen; }
NoFail::NoFail() { ++t_nofail; }
NoFail::~NoFail() { --t_nofail; }

}  // namespace memhook

extern "C" {

void* malloc(size_t n) {
  if (ShouldFail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = __libc_malloc(n);
  Note(p, n, false);
  return p;
}
void free(void* p) {
  Forget(p);
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (ShouldFail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = __libc_calloc(a, b);
  Note(p, a * b, false);
  return p;
}
void* realloc(void* q, size_t n) {
  if (ShouldFail()) {
    errno = ENOMEM;
    return nullptr;
  }
  Forget(q);
  void* p = __libc_realloc(q, n);
  Note(p, n, false);
  return p;
}
void* memalign(size_t a, size_t n) {
  if (ShouldFail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = __libc_memalign(a, n);
  Note(p, n, true);
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  int saved = errno;
  void* p = memalign(a, n);
  errno = saved;
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

struct ThreadStart {
  void* (*f)(void*);
  void* arg;
};
static void* Trampoline(void* v) {
  ThreadStart s = *static_cast<ThreadStart*>(v);
  __libc_free(v);
  struct Ended {
    ~Ended() {
      Lock l;
      --g_stats.threads_live;
    }
  } ended;
  return s.f(s.arg);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*),
                   void* arg) {
  static auto real =
      reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*,
                               void* (*)(void*), void*)>(
          dlsym(RTLD_NEXT, "pthread_create"));
  ThreadStart* s =
      static_cast<ThreadStart*>(__libc_malloc(sizeof(ThreadStart)));
  s->f = f;
  s->arg = arg;
  {
    Lock l;
    ++g_stats.threads_created;
    ++g_stats.threads_live;
  }
  t_creating = true;
  int r = real(t, a, Trampoline, s);
  t_creating = false;
  if (r != 0) {
    Lock l;
    --g_stats.threads_created;
    --g_stats.threads_live;
  }
  return r;
}

}  // extern "C"
