// C16: results and cache parameters are sane for any CPU description.
#include <string.h>

#include "problem.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/cpuinfo.h"

using namespace gemm;

namespace {

std::uint32_t GenSize(pbt::Case& c, std::uint32_t at_least) {
  std::uint64_t v = 0;
  switch (c.weighted({3, 2, 1, 1})) {
    case 0:
      v = 1u << c.draw(31);
      break;
    case 1:
      v = static_cast<std::uint64_t>(c.range(1, 3)) << c.draw(28);
      break;
    case 2:
      v = c.range(1, 100);
      break;
    case 3:
      v = static_cast<std::uint64_t>(c.range(1, 0x7fffffff));
      break;
  }
  v = std::max<std::uint64_t>(v, at_least);
  return static_cast<std::uint32_t>(std::min<std::uint64_t>(v, 0x7fffffff));
}

fakecpu::Desc GenDesc(pbt::Case& c) {
  fakecpu::Desc d;
  d.features = fakecpu::HostFeatures();
  if (c.chance(1, 15)) d.init_ok = false;
  const int cores = static_cast<int>(c.weighted({3, 3, 2, 1}) == 0
                                         ? 1
                                         : c.range(1, 12));
  const int smt = c.chance(1, 3) ? 2 : 1;
  const int n = cores * smt;
  const int kinds = c.chance(1, 3) ? 2 : 1;  // e.g. big and little cores
  fakecpu::Processor proto[2];
  for (int k = 0; k < kinds; ++k) {
    std::uint32_t last = 1;
    int span = smt;
    for (fakecpu::Cache* l : {&proto[k].l1, &proto[k].l2, &proto[k].l3}) {
      l->present = !c.chance(1, 4);
      // Reading order of a level: only larger levels follow.
      const bool zero = c.chance(1, 12);
      l->size = zero ? 0 : last = GenSize(c, last);
      // How many processors share it: not fewer than the level before.
      switch (c.draw(3)) {
        case 0:
          break;
        case 1:
          span = std::min(n, span * 2);
          break;
        case 2:
          span = n;
          break;
      }
      l->count = span;
    }
  }
  for (int i = 0; i < n; ++i) {
    fakecpu::Processor p = proto[kinds == 2 && i >= n / 2 ? 1 : 0];
    p.core = i / smt;
    for (fakecpu::Cache* l : {&p.l1, &p.l2, &p.l3}) {
      l->start = i / l->count * l->count;
      l->count = std::min<std::uint32_t>(l->count, n - l->start);
      // As in a process that may not look at the system.
      const int odd = static_cast<int>(c.rarely(4, 1, 30));
      if (odd == 1) l->count = 0;
      if (odd == 2) l->start = n + 3;
      if (odd == 3) l->count = n + 5;
    }
    d.procs.push_back(p);
  }
  return d;
}

void Prop(pbt::Case& c) {
  fakecpu::Desc d = GenDesc(c);
  ProblemOptions o;
  o.shape.max_macs = 150000;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  const bool detect = c.flag();
  c.describe("%s | %s%s", fakecpu::ToString(d).c_str(), p->ToString().c_str(),
             detect ? " detection" : pbt::Format(" path 0x%x threads %d",
                                                 static_cast<int>(s.path),
                                                 s.threads).c_str());
  fakecpu::Set(d);
  const int open = fakecpu::OpenCount();
  {
    ruy::CpuInfo info;
    const ruy::CpuCacheParams& a = info.CacheParams();
    if (a.local_cache_size <= 0 || a.last_level_cache_size <= 0) {
      c.fail("cache sizes %d, %d", static_cast<int>(a.local_cache_size),
             static_cast<int>(a.last_level_cache_size));
    }
    if (a.local_cache_size > a.last_level_cache_size) {
      c.fail("private cache %d larger than shared %d",
             static_cast<int>(a.local_cache_size),
             static_cast<int>(a.last_level_cache_size));
    }
    // Never larger than what some processor has, if all of them are described.
    bool regular = d.init_ok;
    std::uint32_t least_last = 0xffffffff, least_local = 0xffffffff;
    for (const fakecpu::Processor& q : d.procs) {
      std::uint32_t local = 0, last = 0;
      for (const fakecpu::Cache* l : {&q.l1, &q.l2, &q.l3}) {
        if (!l->present) continue;
        const std::uint32_t end = l->start + l->count - 1;
        if (l->count == 0 || l->size == 0 || end >= d.procs.size()) {
          regular = false;
          continue;
        }
        if (d.procs[l->start].core == d.procs[end].core) local = l->size;
        last = l->size;
      }
      if (!local) local = last;
      if (!last) regular = false;
      least_last = std::min(least_last, last);
      least_local = std::min(least_local, local);
    }
    if (regular) {
      c.label("regular");
      // Shared: the largest level that every processor has; private: the
      // largest level used by a single core.
      if (static_cast<std::uint32_t>(a.last_level_cache_size) != least_last ||
          static_cast<std::uint32_t>(a.local_cache_size) != least_local) {
        c.fail("cache sizes %d, %d, expected %u, %u",
               static_cast<int>(a.local_cache_size),
               static_cast<int>(a.last_level_cache_size), least_local,
               least_last);
      }
    }
    const ruy::CpuCacheParams again = info.CacheParams();
    if (again.local_cache_size != a.local_cache_size ||
        again.last_level_cache_size != a.last_level_cache_size) {
      c.fail("cache sizes change between queries");
    }
    if (!d.init_ok && (info.Avx() || info.Avx2Fma() || info.Avx512() ||
                       info.Sse42() || info.AvxVnni() || info.NeonDotprod())) {
      c.fail("features reported without a CPU description");
    }
    info.CurrentCpuIsA55ish();
    info.CurrentCpuIsX1();
  }
  if (fakecpu::OpenCount() < open) c.fail("released more often than acquired");
  // A multiplication with this description, and with the usual one.
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  s.ApplyTo(ctx.get());
  if (detect) ctx->set_runtime_enabled_paths(ruy::Path::kNone);
  Mul(p->args, ctx.get());
  const ruy::Path used = ctx->last_used_path();
  std::vector<unsigned char> got = DstEntries(*p);
  if (detect && !d.init_ok && !IsPortable(used)) {
    c.fail("CPU-specific path without a CPU description");
  }
  Settings usual;
  usual.path = used;
  ctx = usual.Make();
  ResetDst(p.get());
  Mul(p->args, ctx.get());
  std::string e = DiffEntries(*p, DstEntries(*p), got);
  if (!e.empty()) c.fail("%s", e.c_str());
  if (c.chance(1, 8)) {
    e = CheckResult(*p, used);
    if (!e.empty()) c.fail("%s", e.c_str());
  }
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C16";
  s.rule =
      "Generated CPU descriptions (1-24 processors, one or two kinds, levels "
      "absent, zero-sized, shared by any number, ranges outside the processor "
      "list, failed initialization, sizes up to 2 GB); cache parameters "
      "checked, and one multiplication compared byte for byte with the same "
      "path on an ordinary CPU. All cases are non-trivial.";
  s.assumptions = {"at least one processor; non-empty levels do not shrink"};
  s.parts = {{"description", Prop, 400000, 8000000}};
  return pbt::Main(argc, argv, s);
}
