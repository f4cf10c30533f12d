// C05: each destination entry depends only on its own row, column, channel.
#include <math.h>
#include <string.h>

#include "problem.h"

using namespace gemm;

static const std::vector<int> kAll = {
    kI8I8I32, kU8U8I32, kI8I16I32, kU8U8U8, kI8I8I8,   kI8I8I8, kU8U8I16,
    kI8I8I16, kI8I8U8,  kI8I16I16, kF32,    kF32,      kF32,    kF32,
    kF64,     kF64F32};

namespace {

void RandomElement(DT t, pbt::Rng* r, void* data, std::int64_t i) {
  if (IsFloat(t)) {
    double v;
    switch (r->below(8)) {
      case 0: v = NAN; break;
      case 1: v = INFINITY; break;
      case 2: v = -INFINITY; break;
      case 3: v = ldexp(1.0, 120); break;
      default: v = 200 * r->unit() - 100; break;
    }
    SetFloat(t, data, i, v);
    return;
  }
  std::int64_t v = r->range(Lowest(t), Highest(t));
  memcpy(static_cast<char*>(data) + i * SizeOf(t), &v, SizeOf(t));
}

// Puts the kept rows and columns of `from` into a second problem with other
// data everywhere else. row_map[i]: row of the new problem holding row i of
// the old one, or -1.
void CopyRow(const Problem& from, int r, Problem* to, int r2) {
  const int sz = SizeOf(from.types().lhs);
  for (int k = 0; k < from.depth; ++k) {
    memcpy(static_cast<char*>(to->args.lhs.data) + to->args.lhs.Index(r2, k) * sz,
           static_cast<const char*>(from.args.lhs.data) +
               from.args.lhs.Index(r, k) * sz,
           sz);
  }
}
void CopyCol(const Problem& from, int j, Problem* to, int j2) {
  const int sz = SizeOf(from.types().rhs);
  for (int k = 0; k < from.depth; ++k) {
    memcpy(static_cast<char*>(to->args.rhs.data) + to->args.rhs.Index(k, j2) * sz,
           static_cast<const char*>(from.args.rhs.data) +
               from.args.rhs.Index(k, j) * sz,
           sz);
  }
}

buffers::Buf NewBuf(pbt::Case& c, std::size_t n, int sz) {
  int off;
  buffers::Placement pl = GenPlacement(c, true, sz, &off);
  return buffers::Buf(n * sz, pl, off);
}

}  // namespace

static void Run(pbt::Case& c, bool reshape) {
  ProblemOptions o;
  o.combos = kAll;
  o.shape.max_macs = 120000;
  o.shape.max_dim = 150;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  const Combo& t = p->types();
  Settings s = GenSettings(c);
  // Second problem: same shape, or (reshape) other numbers of rows and columns
  // with the kept ones at other places.
  Problem q;
  q.combo = p->combo;
  q.args = p->args;
  q.rows = p->rows;
  q.cols = p->cols;
  q.depth = p->depth;
  if (reshape) {
    q.rows = GenDim(c, 100);
    q.cols = c.chance(1, 4) ? 1 : GenDim(c, 100);
  }
  const bool other_layout = c.flag();
  auto lay = [&](MatArg* m, int rows, int cols) {
    m->rows = rows;
    m->cols = cols;
    if (other_layout) {
      // The destination's order decides which operand plays which role in the
      // kernels, which may round differently.
      if (m != &q.args.dst) m->order = c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
      m->stride = 0;
    }
    const int inner = m->order == ruy::Order::kColMajor ? rows : cols;
    if (m->stride < inner) m->stride = inner;
    if (other_layout) m->stride = GenStride(c, inner);
  };
  lay(&q.args.lhs, q.rows, q.depth);
  lay(&q.args.rhs, q.depth, q.cols);
  lay(&q.args.dst, q.rows, q.cols);
  q.lhs = NewBuf(c, q.args.lhs.Extent(), SizeOf(t.lhs));
  q.rhs = NewBuf(c, q.args.rhs.Extent(), SizeOf(t.rhs));
  q.dst = NewBuf(c, q.args.dst.Extent(), SizeOf(t.dst));
  q.args.lhs.data = q.lhs.data();
  q.args.rhs.data = q.rhs.data();
  q.args.dst.data = q.dst.data();
  // Which rows and columns are kept, and where they go.
  const std::uint64_t seed = c.seed();
  const int mode = c.weighted({2, 2, 3});
  pbt::Rng r(seed);
  std::vector<int> rowto(p->rows, -1), colto(p->cols, -1);
  auto choose = [&](std::vector<int>* to, int n, int m) {
    // n: old count, m: new count.
    if (!reshape) {
      const int one = static_cast<int>(r.below(n));
      for (int i = 0; i < n; ++i) {
        if (mode == 0 ? i == one : mode == 1 ? r.below(4) != 0 : (r.next() & 1) != 0) {
          (*to)[i] = i;
        }
      }
      (*to)[one] = one;
      return;
    }
    std::vector<int> slots(m);
    for (int i = 0; i < m; ++i) slots[i] = i;
    for (int i = m - 1; i > 0; --i) std::swap(slots[i], slots[r.below(i + 1)]);
    const int keep = std::min(n, mode == 0 ? 1 : m);
    const int first = static_cast<int>(r.below(n));
    for (int k = 0; k < keep; ++k) (*to)[(first + k) % n] = slots[k];
  };
  choose(&rowto, p->rows, q.rows);
  choose(&colto, p->cols, q.cols);
  const bool ch_row = p->args.channel == ruy::ChannelDimension::kRow;
  for (std::int64_t i = 0; i < q.args.lhs.Extent(); ++i) {
    RandomElement(t.lhs, &r, q.lhs.data(), i);
  }
  for (std::int64_t i = 0; i < q.args.rhs.Extent(); ++i) {
    RandomElement(t.rhs, &r, q.rhs.data(), i);
  }
  for (std::size_t i = 0; i < q.dst.size(); ++i) {
    q.dst.data()[i] = static_cast<unsigned char>(r.next());
  }
  for (int i = 0; i < p->rows; ++i) {
    if (rowto[i] >= 0) CopyRow(*p, i, &q, rowto[i]);
  }
  for (int i = 0; i < p->cols; ++i) {
    if (colto[i] >= 0) CopyCol(*p, i, &q, colto[i]);
  }
  const std::vector<int>& chto = ch_row ? rowto : colto;
  const int n2 = q.channels();
  if (p->args.rounding && reshape) q.args.rounding = 1 << c.draw(7);
  const int rd = q.args.rounding ? q.args.rounding : 1;
  const int cap = (n2 + rd - 1) / rd * rd;
  if (p->args.bias) {
    const int sz = SizeOf(t.acc);
    q.bias = NewBuf(c, cap, sz);
    for (int i = 0; i < cap; ++i) {
      if (i >= n2) {
        memset(q.bias.data() + i * sz, 0, sz);
      } else if (IsFloat(t.acc)) {
        RandomElement(t.acc, &r, q.bias.data(), i);
      } else {
        q.bias.as<std::int32_t>()[i] =
            static_cast<std::int32_t>(r.range(-100000, 100000));
      }
    }
    for (std::size_t i = 0; i < chto.size(); ++i) {
      if (chto[i] >= 0) {
        memcpy(q.bias.data() + chto[i] * sz,
               static_cast<const char*>(p->args.bias) + i * sz, sz);
      }
    }
    q.args.bias = q.bias.data();
  }
  if (IsQuant(p->combo) && p->args.perchannel) {
    q.multipliers = NewBuf(c, cap, 4);
    q.exponents = NewBuf(c, cap, 4);
    for (int i = 0; i < cap; ++i) {
      q.multipliers.as<std::int32_t>()[i] =
          i < n2 ? static_cast<std::int32_t>(r.next() >> 33) : 0;
      // Within the domain for any accumulator.
      q.exponents.as<int>()[i] = i < n2 ? -static_cast<int>(r.below(20)) : 0;
    }
    for (std::size_t i = 0; i < chto.size(); ++i) {
      if (chto[i] >= 0) {
        q.multipliers.as<std::int32_t>()[chto[i]] = p->args.multipliers[i];
        q.exponents.as<int>()[chto[i]] = p->args.exponents[i];
      }
    }
    q.args.multipliers = q.multipliers.as<std::int32_t>();
    q.args.exponents = q.exponents.as<int>();
  }
  c.describe("%s | %s || second %dx%dx%d orders %d%d%d strides %d,%d,%d, keep "
             "mode %d",
             p->ToString().c_str(), s.ToString().c_str(), q.rows, q.depth,
             q.cols, static_cast<int>(q.args.lhs.order),
             static_cast<int>(q.args.rhs.order),
             static_cast<int>(q.args.dst.order), q.args.lhs.stride,
             q.args.rhs.stride, q.args.dst.stride, mode);
  // Kept channels with a positive exponent were generated within the domain of
  // the first problem's accumulators only.
  if (IsQuant(p->combo)) {
    bool bad = false;
    std::vector<std::int64_t> acc = Accumulators(q);
    for (int i = 0; i < q.rows && !bad; ++i) {
      for (int j = 0; j < q.cols; ++j) {
        const int ch = q.ChannelOf(i, j);
        const int e =
            q.args.perchannel ? q.args.exponents[ch] : q.args.exponent;
        std::int64_t a = std::llabs(acc[static_cast<std::size_t>(i) * q.cols + j]);
        if ((e > 0 ? a << e : a) >= 0x7fff0000ll) bad = true;
      }
    }
    if (bad) c.discard();
  }
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p->args, ctx.get());
  if (c.chance(1, 8)) {
    std::vector<unsigned char> first = DstEntries(*p);
    ResetDst(p.get());
    Mul(p->args, ctx.get());
    std::string e = DiffEntries(*p, first, DstEntries(*p));
    if (!e.empty()) c.fail("repeated call: %s", e.c_str());
  }
  Mul(q.args, ctx.get());
  const int sz = SizeOf(t.dst);
  int compared = 0;
  for (int i = 0; i < p->rows; ++i) {
    if (rowto[i] < 0) continue;
    for (int j = 0; j < p->cols; ++j) {
      if (colto[j] < 0) continue;
      // With channels along one dimension the other one has no arrays.
      const void* a = static_cast<char*>(p->args.dst.data) +
                      p->args.dst.Index(i, j) * sz;
      const void* b = static_cast<char*>(q.args.dst.data) +
                      q.args.dst.Index(rowto[i], colto[j]) * sz;
      ++compared;
      if (memcmp(a, b, sz) != 0) {
        double x = IsFloat(t.dst) ? GetFloat(t.dst, a, 0) : GetInt(t.dst, a, 0);
        double y = IsFloat(t.dst) ? GetFloat(t.dst, b, 0) : GetInt(t.dst, b, 0);
        c.fail("entry (%d,%d) is %.17g, but %.17g at (%d,%d) of the second "
               "problem with the same row, column and channel",
               i, j, x, y, rowto[i], colto[j]);
      }
    }
  }
  c.label(pbt::Format("path 0x%x", static_cast<int>(s.path)));
  if (compared > 0 && (q.rows * q.cols > compared || reshape)) c.nontrivial();
}

static void Same(pbt::Case& c) { Run(c, false); }
static void Reshape(pbt::Case& c) { Run(c, true); }

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C05";
  s.rule =
      "Pairs of multiplications sharing some lhs rows, rhs columns and their "
      "channels' bias and multipliers while everything else (other rows and "
      "columns including NaN and infinities, padding, layout, addresses, stale "
      "destination, in part reshape also the shape and the positions) differs; "
      "shared entries must be bit-identical. Non-trivial: at least one shared "
      "entry and something that differs.";
  s.parts = {{"same shape", Same, 80000, 1000000},
             {"reshape", Reshape, 80000, 1000000}};
  return pbt::Main(argc, argv, s);
}
