// C11: operand caching never changes results while cached data is unchanged.
#include <string.h>

#include <map>

#include "problem.h"

using namespace gemm;

namespace {

constexpr int kElems = 4096;
constexpr int kBufsPerType = 3;

// Backing memory; each buffer only ever holds one type.
struct Pool {
  std::vector<unsigned char> bytes[6][kBufsPerType];
  explicit Pool(pbt::Rng* r) {
    for (int t = 0; t < 6; ++t) {
      if (t == I32) continue;
      for (int b = 0; b < kBufsPerType; ++b) {
        bytes[t][b].resize(static_cast<std::size_t>(kElems) * SizeOf(static_cast<DT>(t)));
        Refill(static_cast<DT>(t), b, r);
      }
    }
  }
  void Refill(DT t, int b, pbt::Rng* r) {
    Fill f;
    f.seed = r->next() >> 40;
    if (IsFloat(t)) {
      f.mode = 3;
      FillFloats(t, f, bytes[t][b].data(), kElems);
    } else {
      FillInts(t, f, 0, bytes[t][b].data(), kElems);
    }
  }
};

// How an operand looks at a buffer.
struct View {
  DT type;
  int buf, offset, rows, cols, stride;
  ruy::Order order;
  std::int32_t zp;
  ruy::CachePolicy policy;
  std::int64_t Extent() const {
    const int inner = order == ruy::Order::kColMajor ? rows : cols;
    const int outer = order == ruy::Order::kColMajor ? cols : rows;
    return static_cast<std::int64_t>(outer - 1) * stride + inner;
  }
  bool Fits() const { return rows >= 1 && cols >= 1 && offset + Extent() <= kElems; }
  std::string ToString() const {
    return pbt::Format("%s%d+%d %dx%d%c/%d zp%d p%d", Name(type), buf, offset,
                       rows, cols, order == ruy::Order::kColMajor ? 'C' : 'R',
                       stride, zp, static_cast<int>(policy));
  }
};

View Transposed(View v) {
  std::swap(v.rows, v.cols);
  v.order = v.order == ruy::Order::kColMajor ? ruy::Order::kRowMajor
                                             : ruy::Order::kColMajor;
  return v;
}

View Fresh(pbt::Case& c, DT t, int rows, int cols, bool zero_zp) {
  View v;
  v.type = t;
  v.buf = static_cast<int>(c.draw(kBufsPerType));
  v.offset = c.chance(1, 4) ? static_cast<int>(c.range(0, 64)) : 0;
  v.rows = rows;
  v.cols = cols;
  v.order = c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
  v.stride = (v.order == ruy::Order::kColMajor ? rows : cols) +
             (c.chance(1, 4) ? static_cast<int>(c.draw(4)) : 0);
  v.zp = zero_zp || IsFloat(t) ? 0 : GenZeroPoint(c, t);
  v.policy = static_cast<ruy::CachePolicy>(3 - c.draw(4));
  return v;
}

// A view sharing most with an earlier one. keep_rows/keep_cols: that number is
// given by the other operand.
View Vary(pbt::Case& c, View v, bool keep_rows, bool keep_cols, bool zero_zp) {
  switch (c.draw(8)) {
    case 0:
      break;
    case 1:
      if (!keep_rows) v.rows += static_cast<int>(c.range(-3, 3));
      break;
    case 2:
      if (!keep_cols) v.cols += static_cast<int>(c.range(-3, 3));
      break;
    case 3:
      v.order = v.order == ruy::Order::kColMajor ? ruy::Order::kRowMajor
                                                 : ruy::Order::kColMajor;
      v.stride = v.order == ruy::Order::kColMajor ? v.rows : v.cols;
      break;
    case 4:
      v.stride += static_cast<int>(c.range(1, 3));
      break;
    case 5:
      if (!IsFloat(v.type)) v.zp = GenZeroPoint(c, v.type);
      break;
    case 6:
      v.policy = static_cast<ruy::CachePolicy>(c.draw(4));
      break;
    default:
      v.offset += static_cast<int>(c.range(0, 2));
      break;
  }
  v.rows = std::max(1, v.rows);
  v.cols = std::max(1, v.cols);
  v.stride = std::max(v.stride,
                      v.order == ruy::Order::kColMajor ? v.rows : v.cols);
  if (zero_zp) v.zp = 0;
  return v;
}

MatArg Arg(const Pool& pool, const View& v) {
  MatArg m;
  m.data = const_cast<unsigned char*>(pool.bytes[v.type][v.buf].data()) +
           static_cast<std::size_t>(v.offset) * SizeOf(v.type);
  m.rows = v.rows;
  m.cols = v.cols;
  m.stride = v.stride;
  m.order = v.order;
  m.zero_point = v.zp;
  m.cache_policy = v.policy;
  return m;
}

void Prop(pbt::Case& c, int most) {
  pbt::Rng rng(c.seed());
  Pool pool(&rng);
  SettingsOptions so;
  so.max_threads = 3;
  Settings s = GenSettings(c, so);
  std::unique_ptr<ruy::Context> ctx = s.Make();
  std::vector<View> history;
  const int steps = static_cast<int>(c.range(1, most));
  std::string text = s.ToString();
  int muls = 0, reused = 0;
  for (int step = 0; step < steps; ++step) {
    const int op = c.weighted({20, 1, 1, 2, 1, 1});
    if (op == 1) {
      ctx->ClearPrepackedCache();
      text += " ; clear";
      continue;
    }
    if (op == 2) {
      const DT t = c.pick<DT>({U8, I8, I16, F32, F64});
      const int b = static_cast<int>(c.draw(kBufsPerType));
      pool.Refill(t, b, &rng);
      ctx->ClearPrepackedCache();
      text += pbt::Format(" ; change %s%d, clear", Name(t), b);
      continue;
    }
    if (op == 3) {
      const auto& paths = RunnablePaths();
      s.path = paths[c.draw(paths.size())];
      s.ApplyTo(ctx.get());
      text += pbt::Format(" ; path 0x%x", static_cast<int>(s.path));
      continue;
    }
    if (op == 4) {
      s.threads = static_cast<int>(c.range(1, 4));
      s.strategy = c.flag() ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                            : ruy::NumThreadsStrategy::kDefault;
      s.ApplyTo(ctx.get());
      text += pbt::Format(" ; threads %d", s.threads);
      continue;
    }
    if (op == 5) {
      ctx = s.Make();
      text += " ; new context";
      continue;
    }
    // A multiplication.
    const int combo = c.pick<int>({kI8I8I32, kI8I8I8, kF32, kU8U8U8, kI8I16I32,
                                   kI8U8I32, kF64, kI16I8I16, kU8U8I32});
    const Combo& t = kCombos[combo];
    const bool z = Has16(combo) || IsFloatCombo(combo);
    std::vector<View> cand;
    for (const View& v : history) {
      if (v.type == t.lhs) cand.push_back(v);
    }
    View l;
    if (!cand.empty() && c.chance(3, 4)) {
      l = cand[c.draw(cand.size())];
      if (c.chance(1, 4)) l = Transposed(l);
      l = Vary(c, l, false, false, z);
    } else {
      l = Fresh(c, t.lhs, static_cast<int>(c.range(1, 40)),
                static_cast<int>(c.range(1, 40)), z);
    }
    if (!l.Fits()) continue;
    const int depth = l.cols;
    cand.clear();
    for (const View& v : history) {
      if (v.type == t.rhs && v.rows == depth) cand.push_back(v);
      if (v.type == t.rhs && v.cols == depth) cand.push_back(Transposed(v));
    }
    View r;
    if (!cand.empty() && c.chance(3, 4)) {
      r = Vary(c, cand[c.draw(cand.size())], true, false, z);
    } else {
      r = Fresh(c, t.rhs, depth,
                c.chance(1, 3) ? 1 : static_cast<int>(c.range(1, 40)), z);
    }
    if (r.rows != depth || !r.Fits()) continue;
    if (!(t.lhs == U8 && t.rhs == U8) && !IsFloat(t.lhs) && !Has16(combo) &&
        l.zp == Lowest(t.lhs) && r.zp == Lowest(t.rhs)) {
      r.zp++;
    }
    MulArgs a;
    a.combo = combo;
    a.lhs = Arg(pool, l);
    a.rhs = Arg(pool, r);
    a.dst.rows = l.rows;
    a.dst.cols = r.cols;
    a.dst.order = c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
    a.dst.stride = a.dst.order == ruy::Order::kColMajor ? l.rows : r.cols;
    a.dst.read_only = false;
    if (IsQuant(combo)) {
      a.multiplier = 0x5a000000;
      a.exponent = t.dst == I16 ? -4 : -9;
    }
    text += pbt::Format(" ; %s * %s -> %c", l.ToString().c_str(),
                        r.ToString().c_str(),
                        a.dst.order == ruy::Order::kColMajor ? 'C' : 'R');
    c.describe("%s", text.c_str());
    const std::size_t n =
        static_cast<std::size_t>(a.dst.rows) * a.dst.cols * SizeOf(t.dst);
    std::vector<unsigned char> got(n, 0xaa), want(n, 0x55);
    a.dst.data = got.data();
    Mul(a, ctx.get());
    MulArgs b = a;
    b.lhs.cache_policy = b.rhs.cache_policy = ruy::CachePolicy::kNeverCache;
    b.dst.data = want.data();
    Settings plain;
    plain.path = s.path;
    std::unique_ptr<ruy::Context> fresh = plain.Make();
    Mul(b, fresh.get());
    ++muls;
    for (const View& v : history) {
      if ((v.type == l.type && v.buf == l.buf && v.offset == l.offset) ||
          (v.type == r.type && v.buf == r.buf && v.offset == r.offset)) {
        ++reused;
        break;
      }
    }
    if (memcmp(got.data(), want.data(), n) != 0) {
      Problem p;
      p.combo = combo;
      p.rows = a.dst.rows;
      p.cols = a.dst.cols;
      std::vector<unsigned char> x = DstEntries(a.dst, t.dst);
      std::vector<unsigned char> y = DstEntries(b.dst, t.dst);
      c.fail("step %d: result with caching differs: %s", step,
             DiffEntries(p, x, y).c_str());
    }
    history.push_back(l);
    history.push_back(r);
  }
  c.describe("%s", text.c_str());
  if (reused > 0) c.nontrivial();
  c.label(muls > 8 ? "more than 8 muls" : "up to 8 muls");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C11";
  s.rule =
      "Generated histories of up to 24 (part long: 400) operations on one context "
      "(multiplications whose operands are views of a few buffers with any "
      "cache policy, often varying one aspect of an earlier view or used on "
      "the other side; clearing the cache; changing data and clearing; "
      "changing code path, threads, context), each result compared bit for "
      "bit with an uncached multiplication on a fresh context. Built with the "
      "cache limited to 24000 bytes so that ejection is frequent, and with "
      "address sanitizer. Non-trivial: some buffer is used again.";
  s.assumptions = {"memory at one address holds data of one type"};
  s.parts = {{"history", [](pbt::Case& c) { Prop(c, 24); }, 60000, 800000},
             {"long", [](pbt::Case& c) { Prop(c, 400); }, 600, 10000}};
  return pbt::Main(argc, argv, s);
}
