// C12: the packed-operand cache is a bounded LRU map with exact accounting.
#include <string.h>

#include <list>
#include <map>

#include "memhook.h"
#include "pbt.h"
#include "ruy/mat.h"
#include "ruy/prepacked_cache.h"

namespace {

struct ModelEntry {
  int key;
  std::ptrdiff_t bytes;
  void* data;
  void* sums;
  unsigned char fill;
};

// A matrix that may be looked up.
struct Spec {
  const void* src;
  int type;  // 0 uint8, 1 int8, 2 int16, 3 float, 4 double
  int rows, cols, kernel_rows, kernel_cols;
  bool row_major_kernel;
  std::int32_t zero_point;
  bool operator==(const Spec& o) const {
    return src == o.src && rows == o.rows && cols == o.cols &&
           kernel_rows == o.kernel_rows && kernel_cols == o.kernel_cols &&
           row_major_kernel == o.row_major_kernel && zero_point == o.zero_point;
  }
};

ruy::PEMat Make(const Spec& s) {
  ruy::PEMat m;
  switch (s.type) {
    case 0: m.data_type = ruy::Type::Create<std::uint8_t>(); break;
    case 1: m.data_type = ruy::Type::Create<std::int8_t>(); break;
    case 2: m.data_type = ruy::Type::Create<std::int16_t>(); break;
    case 3: m.data_type = ruy::Type::Create<float>(); break;
    default: m.data_type = ruy::Type::Create<double>(); break;
  }
  // As the front end does it: sums of integer matrices are int32, those of
  // float matrices (never used) have the matrix's own type.
  if (s.type < 3) {
    m.sums_type = ruy::Type::Create<std::int32_t>();
  } else {
    m.sums_type = m.data_type;
  }
  m.layout.rows = s.rows;
  m.layout.cols = s.cols;
  m.layout.stride = s.rows;
  m.layout.order = ruy::Order::kColMajor;
  m.layout.kernel.rows = s.kernel_rows;
  m.layout.kernel.cols = s.kernel_cols;
  m.layout.kernel.order = s.row_major_kernel ? ruy::Order::kRowMajor
                                             : ruy::Order::kColMajor;
  m.zero_point = s.zero_point;
  return m;
}

std::ptrdiff_t DataSize(const Spec& s) {
  static const int size[] = {1, 1, 2, 4, 8};
  return static_cast<std::ptrdiff_t>(s.rows) * s.cols * size[s.type];
}
std::ptrdiff_t SumsSize(const Spec& s) {
  return s.type < 3 ? 4 * static_cast<std::ptrdiff_t>(s.cols) : 0;
}

void Prop(pbt::Case& c) {
  static unsigned char sources[64];
  // A family of matrices, some differing in a single field.
  const int n = static_cast<int>(c.range(1, 10));
  std::vector<Spec> specs;
  std::ptrdiff_t total = 0, largest = 0;
  for (int i = 0; i < n; ++i) {
    Spec s;
    if (i > 0 && c.chance(1, 2)) {
      s = specs[c.draw(specs.size())];
      switch (c.draw(5)) {
        case 0: s.src = sources + c.draw(64); s.type = static_cast<int>(c.draw(5)); break;
        case 1: s.rows = s.kernel_rows * static_cast<int>(c.range(1, 20)); break;
        case 2: s.cols = s.kernel_cols * static_cast<int>(c.range(1, 20)); break;
        case 3: s.zero_point = static_cast<int>(c.range(-128, 255)); break;
        default: s.row_major_kernel = !s.row_major_kernel; break;
      }
    } else {
      s.src = sources + c.draw(64);
      s.type = static_cast<int>(c.draw(5));
      s.kernel_rows = 1 << c.draw(5);
      s.kernel_cols = 1 << c.draw(5);
      s.rows = s.kernel_rows * static_cast<int>(c.range(1, 20));
      s.cols = s.kernel_cols * static_cast<int>(c.range(1, 20));
      s.row_major_kernel = c.flag();
      s.zero_point = c.flag() ? static_cast<int>(c.range(-128, 255)) : 0;
    }
    if (s.type >= 3) s.zero_point = 0;
    // Memory holds data of one type only: the same address always means the
    // same type.
    for (const Spec& o : specs) {
      if (o.src == s.src) s.type = o.type;
    }
    if (s.type >= 3) s.zero_point = 0;
    bool dup = false;
    for (const Spec& o : specs) dup = dup || o == s;
    if (dup) continue;
    specs.push_back(s);
    const std::ptrdiff_t b = DataSize(s) + SumsSize(s);
    total += b;
    largest = std::max(largest, b);
  }
  // Capacity between less than one entry and everything, at times exactly at
  // the sum of some entries.
  std::ptrdiff_t cap = 0;
  switch (c.weighted({3, 2, 1, 1})) {
    case 0:
      cap = c.range(largest, std::max(largest, total));
      break;
    case 1:
      for (const Spec& s : specs) {
        if (c.flag()) cap += DataSize(s) + SumsSize(s);
      }
      cap += static_cast<int>(c.draw(3)) - 1;
      cap = std::max<std::ptrdiff_t>(cap, 0);
      break;
    case 2:
      cap = c.range(0, largest);
      break;
    default:
      cap = total;
      break;
  }
  const int steps = static_cast<int>(c.range(1, 60));
  std::string text = pbt::Format("cap %ld:", static_cast<long>(cap));
  for (const Spec& s : specs) {
    text += pbt::Format(" [src+%ld t%d %dx%d k%dx%d%s zp%d %ldB]",
                        static_cast<long>(static_cast<const unsigned char*>(s.src) - sources),
                        s.type, s.rows, s.cols, s.kernel_rows, s.kernel_cols,
                        s.row_major_kernel ? "R" : "C", s.zero_point,
                        static_cast<long>(DataSize(s) + SumsSize(s)));
  }
  std::vector<int> ops;
  for (int i = 0; i < steps; ++i) {
    ops.push_back(static_cast<int>(c.draw(specs.size())));
    text += pbt::Format(" %d", ops.back());
  }
  c.describe("%s", text.c_str());
  int hits = 0, ejections = 0;
  std::list<ModelEntry> lru;  // front: least recently used
  memhook::Start();
  {
    ruy::PrepackedCache cache(static_cast<int>(cap));
    const long base = memhook::Get().aligned_live_bytes;
    for (int step = 0; step < steps; ++step) {
      const int k = ops[step];
      const Spec& s = specs[k];
      ruy::PEMat m = Make(s);
      const auto action = cache.Get(s.src, &m);
      const bool hit = action == ruy::PrepackedCache::Action::kGotExistingEntry;
      auto it = lru.begin();
      while (it != lru.end() && it->key != k) ++it;
      if (hit != (it != lru.end())) {
        c.fail("step %d: lookup of matrix %d reported a %s", step, k,
               hit ? "hit" : "miss");
      }
      if (!m.data || (SumsSize(s) && !m.sums)) c.fail("no buffer");
      if (hit) {
        ++hits;
        if (m.data != it->data || m.sums != it->sums) {
          c.fail("step %d: hit returned other buffers", step);
        }
        lru.splice(lru.end(), lru, it);
      } else {
        std::ptrdiff_t held = 0;
        for (auto& e : lru) held += e.bytes;
        const std::ptrdiff_t b = DataSize(s) + SumsSize(s);
        while (!lru.empty() && held + b > cap) {
          held -= lru.front().bytes;
          lru.pop_front();
          ++ejections;
        }
        ModelEntry e{k, b, m.data, m.sums,
                     static_cast<unsigned char>(0x11 + step)};
        for (auto& o : lru) {
          if (o.data == e.data || (e.sums && o.sums == e.sums)) {
            c.fail("step %d: buffers of two entries coincide", step);
          }
        }
        memset(e.data, e.fill, DataSize(s));
        if (SumsSize(s)) memset(e.sums, e.fill, SumsSize(s));
        lru.push_back(e);
      }
      std::ptrdiff_t held = 0;
      for (auto& e : lru) held += e.bytes;
      if (cache.MatrixCount() != static_cast<int>(lru.size())) {
        c.fail("step %d: %d matrices held, expected %d", step,
               cache.MatrixCount(), static_cast<int>(lru.size()));
      }
      if (cache.BuffersBytes() != held) {
        c.fail("step %d: accounted %ld bytes, expected %ld", step,
               static_cast<long>(cache.BuffersBytes()),
               static_cast<long>(held));
      }
      const long live = memhook::Get().aligned_live_bytes - base;
      if (live != held) {
        c.fail("step %d: buffers in use take %ld bytes, expected %ld", step,
               live, static_cast<long>(held));
      }
      for (auto& e : lru) {
        const Spec& o = specs[e.key];
        const unsigned char* d = static_cast<unsigned char*>(e.data);
        for (std::ptrdiff_t i = 0; i < DataSize(o); ++i) {
          if (d[i] != e.fill) c.fail("step %d: contents changed", step);
        }
        d = static_cast<unsigned char*>(e.sums);
        for (std::ptrdiff_t i = 0; i < SumsSize(o); ++i) {
          if (d[i] != e.fill) c.fail("step %d: sums changed", step);
        }
      }
    }
  }
  memhook::Stats st = memhook::Get();
  memhook::Stop();
  if (st.aligned_live_blocks != 0) {
    c.fail("%ld buffers left after destruction", st.aligned_live_blocks);
  }
  if (hits) c.label("hits");
  if (ejections) c.label("ejections");
  if (hits && ejections) c.nontrivial();
}

// Many matrices and lookups, so that numbers of either reach values which
// narrow types do not hold.
void LongProp(pbt::Case& c) {
  const int n = static_cast<int>(pbt::GenLength(c, 2, 700));
  const long steps = pbt::GenLength(c, 60, 200000);
  const int fit = static_cast<int>(c.range(1, n));
  const int style = static_cast<int>(c.draw(3));
  pbt::Rng rng(c.seed());
  c.describe("%d matrices, room for about %d, %ld lookups, style %d", n, fit,
             steps, style);
  static unsigned char sources[1024];
  std::vector<Spec> specs;
  std::ptrdiff_t total = 0;
  for (int i = 0; i < n; ++i) {
    Spec s;
    s.src = sources + i;
    s.type = static_cast<int>(rng.below(5));
    s.kernel_rows = 1 << rng.below(3);
    s.kernel_cols = 1 << rng.below(3);
    s.rows = s.kernel_rows * static_cast<int>(1 + rng.below(4));
    s.cols = s.kernel_cols * static_cast<int>(1 + rng.below(4));
    s.row_major_kernel = rng.below(2);
    s.zero_point = s.type < 3 ? static_cast<int>(rng.below(100)) : 0;
    specs.push_back(s);
    total += DataSize(s) + SumsSize(s);
  }
  const std::ptrdiff_t cap = total / n * fit;
  long hits = 0, ejections = 0;
  std::list<ModelEntry> lru;
  std::vector<std::list<ModelEntry>::iterator> at(n, lru.end());
  std::ptrdiff_t held = 0;
  memhook::Start();
  {
    ruy::PrepackedCache cache(static_cast<int>(cap));
    for (long step = 0; step < steps; ++step) {
      // Any matrix, mostly a few of them, or one after another.
      const int k = static_cast<int>(
          style == 0   ? rng.below(n)
          : style == 1 ? rng.below(rng.below(4) ? (n + 3) / 4 : n)
                       : (step + (rng.below(8) ? 0 : rng.below(n))) % n);
      const Spec& s = specs[k];
      ruy::PEMat m = Make(s);
      const bool hit = cache.Get(s.src, &m) ==
                       ruy::PrepackedCache::Action::kGotExistingEntry;
      if (hit != (at[k] != lru.end())) {
        c.fail("step %ld: lookup of matrix %d reported a %s", step, k,
               hit ? "hit" : "miss");
      }
      if (!m.data || (SumsSize(s) && !m.sums)) c.fail("no buffer");
      unsigned char* d = static_cast<unsigned char*>(m.data);
      if (hit) {
        ++hits;
        if (m.data != at[k]->data || m.sums != at[k]->sums) {
          c.fail("step %ld: hit returned other buffers", step);
        }
        for (std::ptrdiff_t i = 0; i < DataSize(s); ++i) {
          if (d[i] != at[k]->fill) c.fail("step %ld: contents changed", step);
        }
        lru.splice(lru.end(), lru, at[k]);
      } else {
        const std::ptrdiff_t b = DataSize(s) + SumsSize(s);
        while (!lru.empty() && held + b > cap) {
          held -= lru.front().bytes;
          at[lru.front().key] = lru.end();
          lru.pop_front();
          ++ejections;
        }
        lru.push_back({k, b, m.data, m.sums, static_cast<unsigned char>(step)});
        at[k] = std::prev(lru.end());
        held += b;
        memset(d, static_cast<unsigned char>(step), DataSize(s));
        if (SumsSize(s)) memset(m.sums, 0x5a, SumsSize(s));
      }
      if (cache.MatrixCount() != static_cast<int>(lru.size())) {
        c.fail("step %ld: %d matrices held, expected %d", step,
               cache.MatrixCount(), static_cast<int>(lru.size()));
      }
      if (cache.BuffersBytes() != held) {
        c.fail("step %ld: accounted %ld bytes, expected %ld", step,
               static_cast<long>(cache.BuffersBytes()),
               static_cast<long>(held));
      }
    }
    if (memhook::Get().aligned_live_bytes != held) {
      c.fail("buffers in use take %ld bytes, expected %ld",
             memhook::Get().aligned_live_bytes, static_cast<long>(held));
    }
  }
  const memhook::Stats st = memhook::Get();
  memhook::Stop();
  if (st.aligned_live_blocks != 0) {
    c.fail("%ld buffers left after destruction", st.aligned_live_blocks);
  }
  if (hits && ejections) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C12";
  s.rule =
      "Generated families of up to 10 matrices (many differing in one key "
      "field), capacities around sums of their sizes and lookup sequences of "
      "up to 60 steps, run against a model LRU map; hit/miss, buffer identity "
      "and contents, count, accounted bytes and the bytes really requested "
      "from the system are compared after every step. Part long: up to "
      "700 matrices and 200000 lookups. Non-trivial: at least "
      "one hit and one ejection.";
  s.assumptions = {"memory at one address holds data of one type"};
  s.parts = {{"history", Prop, 500000, 8000000},
             {"long", LongProp, 400, 8000}};
  return pbt::Main(argc, argv, s);
}
