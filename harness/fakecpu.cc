#include "fakecpu.h"

#include <cpuinfo.h>
#include <string.h>

#include <atomic>
#include <memory>

extern "C" {
struct cpuinfo_x86_isa cpuinfo_isa;
}

namespace fakecpu {
namespace {

struct State {
  Desc desc;
  std::vector<cpuinfo_core> cores;
  std::vector<cpuinfo_cache> caches;
  std::vector<cpuinfo_processor> procs;
  cpuinfo_cluster cluster;
  cpuinfo_package package;
  cpuinfo_uarch_info uarch;
};

State* g_state = nullptr;
std::vector<cpuinfo_uarch_info> g_uarchs;  // if chosen
std::uint32_t g_current_uarch = 0;
thread_local long g_core_queries = 0;
std::atomic<int> g_open{0};

State* Get() {
  if (!g_state) Set(Default());
  return g_state;
}

struct Init {
  Init() { Get(); }
} g_init;

}  // namespace

int HostFeatures() {
  int f = 0;
  __builtin_cpu_init();
  if (__builtin_cpu_supports("sse4.2")) f |= kSse42;
  if (__builtin_cpu_supports("avx")) f |= kAvx;
  if (__builtin_cpu_supports("avx2")) f |= kAvx2;
  if (__builtin_cpu_supports("fma")) f |= kFma3;
  if (__builtin_cpu_supports("avx512f")) f |= kAvx512f;
  if (__builtin_cpu_supports("avx512dq")) f |= kAvx512dq;
  if (__builtin_cpu_supports("avx512cd")) f |= kAvx512cd;
  if (__builtin_cpu_supports("avx512bw")) f |= kAvx512bw;
  if (__builtin_cpu_supports("avx512vl")) f |= kAvx512vl;
  if (__builtin_cpu_supports("avx512vnni")) f |= kVnni;
  return f;
}

Desc Simple(int procs, std::uint32_t l1, std::uint32_t l2, std::uint32_t l3) {
  Desc d;
  d.features = HostFeatures();
  for (int i = 0; i < procs; ++i) {
    Processor p;
    p.core = i;
    auto set = [&](Cache* c, std::uint32_t size, int start, int count) {
      c->present = size != 0;
      c->size = size;
      c->start = start;
      c->count = count;
    };
    set(&p.l1, l1, i, 1);
    set(&p.l2, l2, i, 1);
    set(&p.l3, l3, 0, procs);
    d.procs.push_back(p);
  }
  return d;
}

Desc Default() { return Simple(8, 32 << 10, 512 << 10, 8 << 20); }

void Set(const Desc& d) {
  // Earlier descriptions are kept alive: contexts may still point into them.
  State* s = new State;
  s->desc = d;
  const int n = d.procs.size();
  s->cores.resize(n + 1);
  s->caches.resize(3 * n + 3);
  s->procs.resize(n);
  memset(s->cores.data(), 0, s->cores.size() * sizeof(s->cores[0]));
  memset(s->caches.data(), 0, s->caches.size() * sizeof(s->caches[0]));
  if (n) memset(s->procs.data(), 0, n * sizeof(s->procs[0]));
  memset(&s->cluster, 0, sizeof s->cluster);
  memset(&s->package, 0, sizeof s->package);
  memset(&s->uarch, 0, sizeof s->uarch);
  s->uarch.processor_count = n;
  for (int i = 0; i < n; ++i) {
    const Processor& p = d.procs[i];
    s->procs[i].core = &s->cores[p.core];
    s->procs[i].cluster = &s->cluster;
    s->procs[i].package = &s->package;
    s->procs[i].linux_id = i;
    const Cache* in[3] = {&p.l1, &p.l2, &p.l3};
    const cpuinfo_cache** out[3] = {&s->procs[i].cache.l1d,
                                    &s->procs[i].cache.l2,
                                    &s->procs[i].cache.l3};
    for (int l = 0; l < 3; ++l) {
      if (!in[l]->present) continue;
      cpuinfo_cache& c = s->caches[3 * i + l];
      c.size = in[l]->size;
      c.associativity = 8;
      c.line_size = 64;
      c.partitions = 1;
      c.sets = c.size / (8 * 64);
      c.processor_start = in[l]->start;
      c.processor_count = in[l]->count;
      *out[l] = &c;
    }
  }
  g_state = s;
  memset(&cpuinfo_isa, 0, sizeof cpuinfo_isa);
  const int f = d.features;
  cpuinfo_isa.sse4_2 = f & kSse42;
  cpuinfo_isa.sse3 = cpuinfo_isa.ssse3 = cpuinfo_isa.sse4_1 = f & kSse42;
  cpuinfo_isa.avx = f & kAvx;
  cpuinfo_isa.avx2 = f & kAvx2;
  cpuinfo_isa.fma3 = f & kFma3;
  cpuinfo_isa.avx512f = f & kAvx512f;
  cpuinfo_isa.avx512dq = f & kAvx512dq;
  cpuinfo_isa.avx512cd = f & kAvx512cd;
  cpuinfo_isa.avx512bw = f & kAvx512bw;
  cpuinfo_isa.avx512vl = f & kAvx512vl;
  cpuinfo_isa.avx512vnni = f & kVnni;
}

std::string ToString(const Desc& d) {
  std::string s = d.init_ok ? "" : "init-fails ";
  s += "feat=0x" + [&] {
    char b[16];
    snprintf(b, sizeof b, "%x", d.features);
    return std::string(b);
  }();
  s += " procs=" + std::to_string(d.procs.size());
  int i = 0;
  for (const Processor& p : d.procs) {
    if (i++ >= 4) {
      s += " ...";
      break;
    }
    s += " [core" + std::to_string(p.core);
    for (const Cache* c : {&p.l1, &p.l2, &p.l3}) {
      if (!c->present) {
        s += " -";
      } else {
        s += " " + std::to_string(c->size) + "@" + std::to_string(c->start) +
             "+" + std::to_string(c->count);
      }
    }
    s += "]";
  }
  return s;
}

void SetInitOk(bool ok) { Get()->desc.init_ok = ok; }

void SetUarchs(const std::vector<int>& kinds, std::uint32_t current) {
  g_uarchs.assign(kinds.size(), cpuinfo_uarch_info());
  for (std::size_t i = 0; i < kinds.size(); ++i) {
    g_uarchs[i].uarch = static_cast<cpuinfo_uarch>(kinds[i]);
    g_uarchs[i].processor_count = 1;
    g_uarchs[i].core_count = 1;
  }
  g_current_uarch = current;
}

long CoreQueries() { return g_core_queries; }

int OpenCount() { return g_open.load(); }

}  // namespace fakecpu

using fakecpu::Get;

extern "C" {

bool cpuinfo_initialize(void) {
  if (!Get()->desc.init_ok) return false;
  fakecpu::g_open++;
  return true;
}
void cpuinfo_deinitialize(void) { fakecpu::g_open--; }
uint32_t cpuinfo_get_processors_count(void) { return Get()->procs.size(); }
const struct cpuinfo_processor* cpuinfo_get_processors(void) {
  return Get()->procs.data();
}
const struct cpuinfo_processor* cpuinfo_get_processor(uint32_t index) {
  if (index >= Get()->procs.size()) return nullptr;
  return &Get()->procs[index];
}
uint32_t cpuinfo_get_cores_count(void) { return Get()->cores.size() - 1; }
uint32_t cpuinfo_get_current_uarch_index(void) {
  ++fakecpu::g_core_queries;
  return fakecpu::g_current_uarch;
}
const struct cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t index) {
  if (!fakecpu::g_uarchs.empty()) {
    return index < fakecpu::g_uarchs.size() ? &fakecpu::g_uarchs[index]
                                            : nullptr;
  }
  return index == 0 ? &Get()->uarch : nullptr;
}
uint32_t cpuinfo_get_uarchs_count(void) {
  return fakecpu::g_uarchs.empty() ? 1 : fakecpu::g_uarchs.size();
}
}
