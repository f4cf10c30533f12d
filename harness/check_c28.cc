// C28: cache policies decide which operands are kept and which are read.
#include <string.h>

#include <map>
#include <tuple>

#include "problem.h"
#include "ruy/performance_advisory.h"

using namespace gemm;

namespace {

// The block size of a code path along a side of the destination: the least
// capacity rounding for which a single channel needs no copy of the bias.
int BlockSize(int combo, ruy::Path path, ruy::ChannelDimension channel,
              ruy::Order order) {
  static auto* known = new std::map<std::tuple<int, int, int, int>, int>;
  int& found = (*known)[std::make_tuple(combo, static_cast<int>(path),
                                        static_cast<int>(channel),
                                        static_cast<int>(order))];
  for (int rounding = 1; rounding <= 64 && !found; rounding *= 2) {
    Settings s;
    s.path = path;
    std::unique_ptr<ruy::Context> ctx = s.Make();
    double lhs = 0, rhs = 0, dst = 0, bias[64] = {};
    MulArgs a;
    a.combo = combo;
    for (MatArg* m : {&a.lhs, &a.rhs, &a.dst}) {
      m->rows = m->cols = m->stride = 1;
    }
    a.dst.order = order;
    a.lhs.data = &lhs;
    a.rhs.data = &rhs;
    a.dst.data = &dst;
    a.dst.read_only = false;
    a.bias = bias;
    a.channel = channel;
    a.rounding = rounding;
    Mul(a, ctx.get());
    if (!ctx->performance_advisory(
            ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer)) {
      found = rounding;
    }
  }
  return found ? found : 64;
}

const char* PolicyName(ruy::CachePolicy p) {
  static const char* n[] = {"never", "large", "significant", "always"};
  return n[static_cast<int>(p)];
}

bool Kept(ruy::CachePolicy p, int other_width, int block) {
  switch (p) {
    case ruy::CachePolicy::kNeverCache: return false;
    case ruy::CachePolicy::kAlwaysCache: return true;
    case ruy::CachePolicy::kCacheIfLargeSpeedup: return other_width <= block;
    default: return other_width <= 4 * block;
  }
}

using Bytes = std::vector<unsigned char>;

// One operand: its buffer's contents now and as kept, per width of the view.
struct Operand {
  buffers::Buf* buf;
  DT type;
  std::map<int, Bytes> kept;
  Bytes Now() const {
    return Bytes(buf->data(), buf->data() + buf->size());
  }
  // Puts other elements into the same range of values.
  void Change(std::uint64_t seed) {
    const std::size_t size = SizeOf(type), n = buf->size() / size;
    pbt::Rng r(seed);
    Bytes b = Now();
    unsigned char* p = b.data();
    const std::size_t shift = n > 1 ? 1 + r.next() % (n - 1) : 0;
    for (std::size_t i = 0; i < n; ++i) {
      memcpy(buf->data() + i * size, p + (i + shift) % n * size, size);
    }
    if (n == 1) memset(buf->data(), 0, size);
  }
};

struct Pair {
  std::unique_ptr<Problem> p;
  Operand lhs, rhs;
  int last_rows = 0, last_cols = 0;
};

void Prop(pbt::Case& c, int most) {
  SettingsOptions so;
  so.max_threads = 3;
  Settings s = GenSettings(c, so);
  std::unique_ptr<ruy::Context> ctx = s.Make();
  ProblemOptions o;
  o.combos = {kF32,     kI8I8I32, kU8U8I32,  kI8U8I32, kU8I8I32,
              kI8I16I32, kI16I8I32, kF64, kF32F64};
  o.shape.max_dim = 90;
  o.shape.max_depth = 60;
  o.shape.max_macs = 60000;
  o.guard = false;
  o.float_exact_only = true;
  o.capacity_rounding = false;
  std::vector<Pair> pairs(c.range(1, 2));
  std::string text = s.ToString();
  for (Pair& q : pairs) {
    q.p = GenProblem(c, o);
    q.lhs = {&q.p->lhs, q.p->types().lhs, {}};
    q.rhs = {&q.p->rhs, q.p->types().rhs, {}};
    text += " | " + q.p->ToString();
  }
  const int steps = static_cast<int>(c.range(2, most));
  bool stale_seen = false, fresh_seen = false;
  for (int step = 0; step < steps; ++step) {
    Pair& q = pairs[c.draw(pairs.size())];
    const int op = c.weighted({5, 5, 1, 1});
    if (op == 2) {
      ctx->ClearPrepackedCache();
      for (Pair& x : pairs) {
        x.lhs.kept.clear();
        x.rhs.kept.clear();
      }
      text += " ; clear";
      continue;
    }
    if (op == 3) {
      const ruy::Path path = s.path;
      s = GenSettings(c, so);
      s.path = path;
      s.ApplyTo(ctx.get());
      text += " ; " + s.ToString();
      continue;
    }
    if (op == 1) {
      Operand& x = c.flag() ? q.rhs : q.lhs;
      x.Change(c.seed());
      text += pbt::Format("%schange %s of %d", text.empty() ? "" : " ; ",
                          &x == &q.lhs ? "lhs" : "rhs",
                          static_cast<int>(&q - pairs.data()));
    }
    Problem& p = *q.p;
    MulArgs a = p.args;
    // A view of the first rows and columns.
    const int bl = BlockSize(p.combo, s.path, ruy::ChannelDimension::kRow,
                             a.dst.order);
    const int br = BlockSize(p.combo, s.path, ruy::ChannelDimension::kCol,
                             a.dst.order);
    auto width = [&](int whole, int block) {
      int w = whole;
      switch (c.draw(4)) {
        case 1: w = block + static_cast<int>(c.range(-1, 1)); break;
        case 2: w = 4 * block + static_cast<int>(c.range(-1, 1)); break;
        case 3: w = static_cast<int>(c.range(1, whole)); break;
        default: break;
      }
      return std::max(1, std::min(w, whole));
    };
    const bool again = c.chance(2, 3) && q.last_rows;
    if (!again || c.chance(1, 3)) q.last_rows = width(p.rows, bl);
    if (!again || c.chance(1, 3)) q.last_cols = width(p.cols, br);
    a.lhs.rows = a.dst.rows = q.last_rows;
    a.rhs.cols = a.dst.cols = q.last_cols;
    a.lhs.cache_policy = static_cast<ruy::CachePolicy>(3 - c.draw(4));
    a.rhs.cache_policy = static_cast<ruy::CachePolicy>(c.draw(4));
    text += pbt::Format("%s%d: %dx%d %s, %s", text.empty() ? "" : " ; ",
                        static_cast<int>(&q - pairs.data()), a.dst.rows,
                        a.dst.cols, PolicyName(a.lhs.cache_policy),
                        PolicyName(a.rhs.cache_policy));
    c.describe("%s", text.c_str());
    text.clear();
    auto source = [&](Operand& x, bool kept, int w, const Bytes& now) {
      if (!kept) return now;
      auto it = x.kept.emplace(w, now).first;
      if (it->second != now) stale_seen = true;
      return it->second;
    };
    const Bytes lnow = q.lhs.Now(), rnow = q.rhs.Now();
    const Bytes l = source(q.lhs, Kept(a.lhs.cache_policy, a.dst.cols, br),
                           a.dst.rows, lnow);
    const Bytes r = source(q.rhs, Kept(a.rhs.cache_policy, a.dst.rows, bl),
                           a.dst.cols, rnow);
    if (!q.lhs.kept.empty() && l == lnow) fresh_seen = true;
    ResetDst(&p);
    Mul(a, ctx.get());
    const Bytes got = DstEntries(a.dst, p.types().dst);
    // The same on fresh copies, without any cache.
    auto expected = [&](Bytes lc, Bytes rc) {
      MulArgs b = a;
      b.lhs.cache_policy = b.rhs.cache_policy = ruy::CachePolicy::kNeverCache;
      b.lhs.data = lc.data() + (static_cast<unsigned char*>(a.lhs.data) -
                                p.lhs.data());
      b.rhs.data = rc.data() + (static_cast<unsigned char*>(a.rhs.data) -
                                p.rhs.data());
      ResetDst(&p);
      std::unique_ptr<ruy::Context> other = s.Make();
      Mul(b, other.get());
      return DstEntries(a.dst, p.types().dst);
    };
    if (got != expected(l, r)) {
      const char* what = "neither present nor earlier data";
      if (got == expected(lnow, rnow)) what = "the present data of both";
      else if (got == expected(l, rnow)) what = "the present data of the rhs";
      else if (got == expected(lnow, r)) what = "the present data of the lhs";
      c.fail("step %d (blocks %d, %d): the result is not that of the %s lhs and "
             "the %s rhs; it comes from %s", step, bl, br,
             l == lnow ? "present" : "kept", r == rnow ? "present" : "kept",
             what);
    }
  }
  if (stale_seen) c.label("kept data used");
  if (fresh_seen) c.label("present data used though kept");
  if (stale_seen) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C28";
  s.rule =
      "Generated histories on one context with any cache policy on either "
      "operand, views of several widths around the block sizes, changes of "
      "operand data without clearing, and clears. Which operand version a "
      "multiplication must have worked from follows from the policies and "
      "widths; the result equals an uncached one on that version. Non-trivial: "
      "a kept operand whose data had changed was used again.";
  s.parts = {{"history", [](pbt::Case& c) { Prop(c, 12); }, 150000, 2000000},
             {"long", [](pbt::Case& c) { Prop(c, 300); }, 1500, 20000}};
  return pbt::Main(argc, argv, s);
}
