#include "problem.h"

#include <float.h>
#include <math.h>
#include <string.h>

#include <algorithm>

#include "ruy/thread_pool.h"

namespace gemm {

using pbt::Case;
using pbt::Format;
using pbt::Rng;
using std::int64_t;

const std::vector<ruy::Path>& RunnablePaths() {
  static const std::vector<ruy::Path>* v = [] {
    auto* r = new std::vector<ruy::Path>;
    for (int b : {1, 2, 4, 8}) r->push_back(static_cast<ruy::Path>(b));
    const int f = fakecpu::HostFeatures();
#if RUY_PLATFORM_X86
    if (f & fakecpu::kAvx) r->push_back(ruy::Path::kAvx);
    if ((f & fakecpu::kAvx2) && (f & fakecpu::kFma3)) {
      r->push_back(ruy::Path::kAvx2Fma);
    }
    const int a512 = fakecpu::kAvx512f | fakecpu::kAvx512dq |
                     fakecpu::kAvx512cd | fakecpu::kAvx512bw |
                     fakecpu::kAvx512vl;
    if ((f & a512) == a512) r->push_back(ruy::Path::kAvx512);
#endif
    return r;
  }();
  return *v;
}

// ---------------------------------------------------------------------------
// Settings

std::string Settings::ToString() const {
  return Format("path=0x%x threads=%d strategy=%s tuning=%d spin=%s%g "
                "caches=%u/%u/%u",
                static_cast<int>(path), threads,
                strategy == ruy::NumThreadsStrategy::kDefault ? "default"
                                                              : "force",
                static_cast<int>(tuning), set_spin ? "" : "unset ", spin_ms, l1,
                l2, l3);
}

std::unique_ptr<ruy::Context> Settings::Make() const {
  fakecpu::Set(fakecpu::Simple(8, l1, l2, l3));
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  ApplyTo(ctx.get());
  return ctx;
}

void Settings::ApplyTo(ruy::Context* ctx) const {
  ctx->set_runtime_enabled_paths(path);
  ctx->set_max_num_threads(threads);
  ctx->set_num_threads_strategy(strategy);
  ctx->set_explicit_tuning(tuning);
  if (set_spin) ctx->mutable_thread_pool()->set_spin_milliseconds(spin_ms);
}

Settings GenSettings(Case& c, const SettingsOptions& o) {
  Settings s;
  const auto& paths = RunnablePaths();
  // CPU-specific paths get two thirds of the cases.
  const int narch = static_cast<int>(paths.size()) - 4;
  int k = c.draw(12);
  if (narch > 0 && k >= 4) {
    s.path = paths[4 + c.draw(narch)];
  } else {
    s.path = paths[k % 4];
  }
  if (o.detection && c.chance(1, 8)) s.path = ruy::Path::kNone;
  if (o.multi_only) {
    s.threads = static_cast<int>(c.range(2, o.max_threads));
  } else if (o.max_threads > 1 && c.chance(2, 5)) {
    s.threads = static_cast<int>(c.range(1, o.max_threads));
  }
  if (s.threads > 1 && c.chance(2, 3)) {
    s.strategy = ruy::NumThreadsStrategy::kForceMaxNumThreads;
  }
  s.tuning = static_cast<ruy::Tuning>(
      c.pick<int>({static_cast<int>(ruy::Tuning::kAuto),
                   static_cast<int>(ruy::Tuning::kGeneric),
                   static_cast<int>(ruy::Tuning::kA55ish),
                   static_cast<int>(ruy::Tuning::kX1)}));
  if (s.threads > 1) {
    s.set_spin = c.flag();
    if (s.set_spin) s.spin_ms = c.pick<float>({0.f, 0.05f, 1.f});
  }
  switch (c.weighted({5, 4, 3})) {
    case 0:
      break;
    case 1:  // tiny caches: many blocks
      s.l1 = 256u << c.draw(4);
      s.l2 = s.l1 << c.draw(4);
      s.l3 = s.l2 << c.draw(5);
      break;
    case 2:
      s.l1 = 1024u << c.draw(6);
      s.l2 = s.l1 << c.draw(6);
      s.l3 = s.l2 << c.draw(6);
      break;
  }
  return s;
}

// ---------------------------------------------------------------------------
// Shapes and layouts

int GenDim(Case& c, int max) {
  int v = 1;
  switch (c.weighted({3, 5, 4, 3, 1})) {
    case 0:
      v = c.range(1, 4);
      break;
    case 1: {  // around multiples of kernel block sizes
      int unit = c.pick<int>({4, 8, 16});
      v = unit * c.range(1, 5) + static_cast<int>(c.range(0, 2)) - 1;
      break;
    }
    case 2:
      v = c.range(1, 40);
      break;
    case 3:
      v = c.range(1, 130);
      break;
    case 4:
      v = c.range(1, std::max(1, max));
      break;
  }
  return std::max(1, std::min(v, max));
}

void GenShape(Case& c, const ShapeOptions& o, int* rows, int* depth,
              int* cols) {
  auto GenDim = [&](Case& c, int max) {
    return o.large && c.flag() ? static_cast<int>(c.range(1, max))
                               : gemm::GenDim(c, max);
  };
  // Between 1 and max, every order of magnitude equally often.
  auto GenMagnitude = [](Case& c, int64_t max) {
    int bits = 1;
    while (bits < 31 && (1ll << bits) <= max) ++bits;
    const int64_t top = std::min<int64_t>(max, 2ll << (bits - 1 - c.draw(bits)));
    return static_cast<int>(c.range(std::max<int64_t>(1, top / 2), top));
  };
  switch (o.elongated ? 5 : c.weighted({10, 3, 2, 1, 1})) {
    case 5:
      *rows = static_cast<int>(c.range(1, 20));
      *cols = GenMagnitude(c, o.max_dim);
      if (c.flag()) std::swap(*rows, *cols);
      break;
    case 0:
      *rows = GenDim(c, o.max_dim);
      *cols = GenDim(c, o.max_dim);
      break;
    case 1:  // matrix times vector
      *rows = GenDim(c, o.max_dim);
      *cols = 1;
      break;
    case 2:
      *rows = 1;
      *cols = GenDim(c, o.max_dim);
      break;
    case 3:  // elongated
      *rows = static_cast<int>(c.range(1, o.max_dim * 4));
      *cols = static_cast<int>(c.range(1, 9));
      break;
    case 4:
      *rows = static_cast<int>(c.range(1, 9));
      *cols = static_cast<int>(c.range(1, o.max_dim * 4));
      break;
  }
  *cols = std::min<int64_t>(*cols, std::max<int64_t>(1, o.max_macs / *rows));
  const int64_t area = static_cast<int64_t>(*rows) * *cols;
  int64_t dmax = std::max<int64_t>(1, o.max_macs / area);
  dmax = std::min<int64_t>(dmax, o.max_depth);
  if (c.chance(1, 12)) {
    *depth = static_cast<int>(c.range(1, dmax));
  } else if (o.deep && c.flag()) {
    *depth = GenMagnitude(c, dmax);
  } else {
    *depth = std::min<int64_t>(GenDim(c, o.max_depth), dmax);
  }
}

int GenStride(Case& c, int minimum) {
  switch (c.weighted({6, 2, 2, 1, 1})) {
    case 0:
      return minimum;
    case 1:
      return minimum + 1;
    case 2:
      return minimum + static_cast<int>(c.range(1, 20));
    case 3: {
      int p = 1;
      while (p < minimum) p *= 2;
      return p;
    }
    default:
      return (minimum + 63) / 64 * 64 + 64 * static_cast<int>(c.draw(2));
  }
}

std::int32_t GenZeroPoint(Case& c, DT t) {
  const int64_t lo = Lowest(t), hi = Highest(t);
  switch (c.weighted({4, 1, 1, 2, 3})) {
    case 0:
      return 0;
    case 1:
      return lo;
    case 2:
      return hi;
    case 3:
      return t == U8 ? 128 : 1 - static_cast<int>(c.draw(3));
    default:
      return static_cast<std::int32_t>(c.range(lo, hi));
  }
}

buffers::Placement GenPlacement(Case& c, bool guard, int elem_size,
                                int* offset) {
  *offset = 0;
  if (guard) {
    switch (c.weighted({5, 2, 2})) {
      case 0:
        return buffers::kEndsAtGuard;
      case 1:
        return buffers::kStartsAtGuard;
      default:
        break;
    }
  }
  *offset = elem_size * static_cast<int>(c.draw(64 / elem_size));
  return buffers::kInside;
}

Fill GenIntFill(Case& c) {
  Fill f;
  f.mode = c.weighted({6, 3, 2, 1, 1, 2, 2, 2});
  f.seed = c.seed();
  return f;
}

void FillInts(DT t, const Fill& f, int64_t zp, void* data, int64_t n) {
  Rng r(pbt::Mix(f.seed, 77 + f.mode));
  const int64_t lo = Lowest(t), hi = Highest(t);
  for (int64_t i = 0; i < n; ++i) {
    int64_t v = 0;
    switch (f.mode) {
      case 0:  // uniform
        v = r.range(lo, hi);
        break;
      case 1:  // extremes only
        v = (r.next() & 1) ? lo : hi;
        break;
      case 2:  // near the zero point
        v = zp + r.range(-2, 2);
        break;
      case 3:
        v = lo;
        break;
      case 4:
        v = hi;
        break;
      case 5:  // sparse
        v = r.below(12) == 0 ? r.range(lo, hi) : zp;
        break;
      case 6:  // ramps
        v = lo + static_cast<int64_t>((i * 7 + f.seed) % (hi - lo + 1));
        break;
      default:  // mostly extremes, some uniform
        v = r.below(3) ? ((r.next() & 1) ? lo : hi) : r.range(lo, hi);
        break;
    }
    v = std::max(lo, std::min(hi, v));
    switch (t) {
      case U8: static_cast<std::uint8_t*>(data)[i] = v; break;
      case I8: static_cast<std::int8_t*>(data)[i] = v; break;
      case I16: static_cast<std::int16_t*>(data)[i] = v; break;
      default: static_cast<std::int32_t*>(data)[i] = v; break;
    }
  }
}

// Moves entries to within the given distance of the zero point.
void LimitInts(DT t, int64_t zp, int64_t distance, void* data, int64_t n) {
  const int64_t lo = zp - distance, hi = zp + distance;
  for (int64_t i = 0; i < n; ++i) {
    switch (t) {
      case U8: {
        auto& v = static_cast<std::uint8_t*>(data)[i];
        v = std::max(lo, std::min<int64_t>(hi, v));
        break;
      }
      case I8: {
        auto& v = static_cast<std::int8_t*>(data)[i];
        v = std::max(lo, std::min<int64_t>(hi, v));
        break;
      }
      default: {
        auto& v = static_cast<std::int16_t*>(data)[i];
        v = std::max(lo, std::min<int64_t>(hi, v));
        break;
      }
    }
  }
}

Fill GenFloatFill(Case& c, bool exact_only, bool denormals) {
  Fill f;
  if (exact_only) {
    f.mode = c.weighted({3, 2, 1});
  } else if (denormals) {
    f.mode = 10 + c.weighted({2, 2, 3, 2, 2});
  } else {
    f.mode = 3 + c.weighted({4, 2, 2, 2});
  }
  f.seed = c.seed();
  return f;
}

void SetFloat(DT t, void* data, int64_t i, double v) {
  if (t == F32) {
    static_cast<float*>(data)[i] = static_cast<float>(v);
  } else {
    static_cast<double*>(data)[i] = v;
  }
}

void FillFloats(DT t, const Fill& f, void* data, int64_t n) {
  Rng r(pbt::Mix(f.seed, 99 + f.mode));
  for (int64_t i = 0; i < n; ++i) {
    double v = 0;
    switch (f.mode) {
      case 0:  // small integers: exact
        v = r.range(-8, 8);
        break;
      case 1:  // distinct-ish integers, exact
        v = r.range(-31, 31);
        break;
      case 2:  // sparse integers
        v = r.below(8) == 0 ? r.range(-63, 63) : 0;
        break;
      case 3:
        v = 2 * r.unit() - 1;
        break;
      case 4:  // wide dynamic range
        v = ldexp(2 * r.unit() - 1, static_cast<int>(r.range(-25, 25)));
        break;
      case 5:  // cancellation
        v = ((i & 1) ? -1 : 1) * (1000.0 + r.unit() * 1e-3);
        break;
      case 6:  // sparse
        v = r.below(6) == 0 ? 2 * r.unit() - 1 : 0;
        break;
      case 10: {  // denormal operands
        int e = t == F32 ? -149 : -1074;
        v = ldexp(static_cast<double>(r.range(-1000, 1000)), e);
        break;
      }
      case 11: {  // products underflow
        int e = t == F32 ? -70 : -530;
        v = ldexp(2 * r.unit() - 1, e + static_cast<int>(r.range(-8, 8)));
        break;
      }
      case 13:  // ordinary values up to large ones
        v = ldexp(2 * r.unit() - 1, static_cast<int>(r.range(0, 40)));
        break;
      case 14:  // not denormal, but close to it as a float
        v = ldexp(2 * r.unit() - 1,
                  static_cast<int>(t == F32 ? r.range(-126, -100)
                                            : r.range(-150, -120)));
        break;
      default: {  // mixture
        switch (r.below(4)) {
          case 0:
            v = ldexp(2 * r.unit() - 1, t == F32 ? -130 : -1030);
            break;
          case 1:
            v = 2 * r.unit() - 1;
            break;
          case 2:
            v = ldexp(2 * r.unit() - 1, t == F32 ? -64 : -512);
            break;
          default:
            v = ldexp(2 * r.unit() - 1, 30);
            break;
        }
        break;
      }
    }
    SetFloat(t, data, i, v);
  }
}

int64_t GetInt(DT t, const void* data, int64_t i) {
  switch (t) {
    case U8: return static_cast<const std::uint8_t*>(data)[i];
    case I8: return static_cast<const std::int8_t*>(data)[i];
    case I16: return static_cast<const std::int16_t*>(data)[i];
    default: return static_cast<const std::int32_t*>(data)[i];
  }
}

double GetFloat(DT t, const void* data, int64_t i) {
  if (t == F32) return static_cast<const float*>(data)[i];
  return static_cast<const double*>(data)[i];
}

// ---------------------------------------------------------------------------
// Problems

std::string Problem::ToString() const {
  const Combo& t = types();
  auto ord = [](const MatArg& m) {
    return m.order == ruy::Order::kColMajor ? 'C' : 'R';
  };
  std::string s = Format(
      "%s x %s -> %s %dx%dx%d orders %c%c%c strides %d,%d,%d zp %d,%d,%d "
      "cache %d,%d",
      Name(t.lhs), Name(t.rhs), Name(t.dst), rows, depth, cols, ord(args.lhs),
      ord(args.rhs), ord(args.dst), args.lhs.stride, args.rhs.stride,
      args.dst.stride, args.lhs.zero_point, args.rhs.zero_point,
      args.dst.zero_point, static_cast<int>(args.lhs.cache_policy),
      static_cast<int>(args.rhs.cache_policy));
  s += args.bias ? " bias" : "";
  s += args.channel == ruy::ChannelDimension::kRow ? " ch=row" : " ch=col";
  if (args.rounding) s += Format(" rounding %d", args.rounding);
  if (IsQuant(combo)) {
    if (args.perchannel) {
      s += Format(" perchannel m0=%d e0=%d", args.multipliers[0],
                  args.exponents[0]);
    } else {
      s += Format(" m=%d e=%d", args.multiplier, args.exponent);
    }
    if (args.set_clamp) {
      s += Format(" clamp [%lld,%lld]", static_cast<long long>(args.clamp_min),
                  static_cast<long long>(args.clamp_max));
    }
  } else if (IsFloatCombo(combo) && args.set_clamp) {
    s += Format(" clamp [%g,%g]", args.fclamp_min, args.fclamp_max);
  }
  return s;
}

namespace {

void LayOut(Case& c, MatArg* m, int rows, int cols) {
  m->rows = rows;
  m->cols = cols;
  m->order = c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
  m->stride = GenStride(c, m->order == ruy::Order::kColMajor ? rows : cols);
}

buffers::Buf NewBuf(Case& c, std::size_t count, int elem, bool guard) {
  int off;
  buffers::Placement pl = GenPlacement(c, guard, elem, &off);
  return buffers::Buf(count * elem, pl, off);
}

ruy::CachePolicy GenPolicy(Case& c) {
  return static_cast<ruy::CachePolicy>(c.draw(4));
}

int Capacity(int channels, int rounding) {
  return rounding ? (channels + rounding - 1) / rounding * rounding : channels;
}

}  // namespace

std::vector<int64_t> Accumulators(const Problem& p) {
  const Combo& t = p.types();
  std::vector<int64_t> acc(static_cast<std::size_t>(p.rows) * p.cols);
  std::vector<std::int32_t> a(static_cast<std::size_t>(p.rows) * p.depth),
      b(static_cast<std::size_t>(p.cols) * p.depth);
  for (int r = 0; r < p.rows; ++r) {
    for (int k = 0; k < p.depth; ++k) {
      a[static_cast<std::size_t>(r) * p.depth + k] =
          GetInt(t.lhs, p.args.lhs.data, p.args.lhs.Index(r, k)) -
          p.args.lhs.zero_point;
    }
  }
  for (int j = 0; j < p.cols; ++j) {
    for (int k = 0; k < p.depth; ++k) {
      b[static_cast<std::size_t>(j) * p.depth + k] =
          GetInt(t.rhs, p.args.rhs.data, p.args.rhs.Index(k, j)) -
          p.args.rhs.zero_point;
    }
  }
  for (int r = 0; r < p.rows; ++r) {
    for (int j = 0; j < p.cols; ++j) {
      int64_t s = 0;
      const std::int32_t* pa = &a[static_cast<std::size_t>(r) * p.depth];
      const std::int32_t* pb = &b[static_cast<std::size_t>(j) * p.depth];
      for (int k = 0; k < p.depth; ++k) {
        s += static_cast<int64_t>(pa[k]) * pb[k];
      }
      if (p.args.bias) {
        s += static_cast<const std::int32_t*>(p.args.bias)[p.ChannelOf(r, j)];
      }
      acc[static_cast<std::size_t>(r) * p.cols + j] = s;
    }
  }
  return acc;
}

void GenQuantization(Case& c, Problem* p, const std::vector<int64_t>& acc,
                     bool spare_bit) {
  const DT dt = p->types().dst;
  const int n = p->channels();
  // Largest magnitude per channel.
  std::vector<int64_t> mx(n, 0);
  for (int r = 0; r < p->rows; ++r) {
    for (int j = 0; j < p->cols; ++j) {
      int64_t v = std::llabs(acc[static_cast<std::size_t>(r) * p->cols + j]);
      int64_t& m = mx[p->ChannelOf(r, j)];
      m = std::max(m, v);
    }
  }
  p->args.perchannel = c.flag();
  const int count = p->args.perchannel ? n : 1;
  if (!p->args.perchannel) mx[0] = *std::max_element(mx.begin(), mx.end());
  std::vector<std::int32_t> ms(count);
  std::vector<int> es(count);
  const int mode = c.weighted({6, 3, 3, 2});
  const std::uint64_t seed = c.seed();
  const int spread = static_cast<int>(c.draw(5));
  Rng r(pbt::Mix(seed, 5 + mode));
  for (int i = 0; i < count; ++i) {
    int64_t m = 0;
    int e = 0;
    switch (mode) {
      case 0: {  // results spread over and a little beyond the range
        m = r.range(1ll << 30, 0x7fffffff);
        double want = (Highest(dt) - Lowest(dt)) * (0.25 + r.unit()) *
                      (1 << spread) / 2;
        double scale = want / std::max<double>(1.0, mx[i]);
        e = static_cast<int>(floor(log2(scale))) + 1;
        break;
      }
      case 1:  // anything
        m = r.next() >> (33 + r.below(31));
        e = static_cast<int>(r.range(-31, 7));
        break;
      case 2:  // powers of two: ties
        m = 1ll << r.range(20, 30);
        e = static_cast<int>(r.range(-12, 7));
        break;
      default: {  // extremes
        static const std::int32_t xs[] = {0, 1, 2, 1 << 30, 0x7fffffff,
                                          0x40000001, 0x7ffffffe};
        m = xs[r.below(7)];
        static const int ys[] = {-31, -30, -16, -1, 0, 1, 7};
        e = ys[r.below(7)];
        break;
      }
    }
    m = std::min<int64_t>(m, 0x7fffffff);
    e = std::max(-31, std::min(7, e));
    // The accumulator shifted by a positive exponent has to fit, with room
    // for the destination zero point.
    while (e > 0 && (mx[i] << e) >= 0x7fff0000ll) --e;
    while (spare_bit && e >= 0 && (mx[i] << (e + 1)) >= 0x7fff0000ll) --e;
    ms[i] = static_cast<std::int32_t>(m);
    es[i] = e;
  }
  if (p->args.perchannel) {
    const int cap = Capacity(n, p->args.rounding);
    int off;
    buffers::Placement pl = GenPlacement(c, true, 4, &off);
    p->multipliers = buffers::Buf(cap * 4, pl, off);
    p->exponents = buffers::Buf(cap * 4, pl, off);
    for (int i = 0; i < cap; ++i) {
      p->multipliers.as<std::int32_t>()[i] = i < n ? ms[i] : 0;
      p->exponents.as<int>()[i] = i < n ? es[i] : 0;
    }
    p->args.multipliers = p->multipliers.as<std::int32_t>();
    p->args.exponents = p->exponents.as<int>();
  } else {
    p->args.multiplier = ms[0];
    p->args.exponent = es[0];
  }
  const int64_t lo = Lowest(dt), hi = Highest(dt);
  p->args.clamp_min = lo;
  p->args.clamp_max = hi;
  switch (c.weighted({4, 1, 2, 1})) {
    case 0:
      break;
    case 1:
      p->args.set_clamp = true;
      break;
    case 2: {
      p->args.set_clamp = true;
      int64_t x = c.range(lo, hi), y = c.range(lo, hi);
      p->args.clamp_min = std::min(x, y);
      p->args.clamp_max = std::max(x, y);
      break;
    }
    default:  // like an activation function
      p->args.set_clamp = true;
      p->args.clamp_min = p->args.dst.zero_point;
      break;
  }
}

std::unique_ptr<Problem> GenProblem(Case& c, const ProblemOptions& o) {
  std::unique_ptr<Problem> p(new Problem);
  p->combo = static_cast<int>(o.combos.empty()
                                  ? c.draw(kNumCombos)
                                  : o.combos[c.draw(o.combos.size())]);
  p->args.combo = p->combo;
  const Combo& t = p->types();
  ShapeOptions so = o.shape;
  // Keeps the exact sum of magnitudes within 32 bits.
  if (Has16(p->combo) && !so.deep) so.max_depth = std::min(so.max_depth, 480);
  GenShape(c, so, &p->rows, &p->depth, &p->cols);
  LayOut(c, &p->args.lhs, p->rows, p->depth);
  LayOut(c, &p->args.rhs, p->depth, p->cols);
  LayOut(c, &p->args.dst, p->rows, p->cols);
  p->args.dst.read_only = false;
  if (!IsFloatCombo(p->combo) && !Has16(p->combo)) {
    p->args.lhs.zero_point = GenZeroPoint(c, t.lhs);
    p->args.rhs.zero_point = GenZeroPoint(c, t.rhs);
    // Both zero points at the lowest value are not supported, except for
    // uint8 on both sides.
    if ((o.lhs_above_lowest || !(t.lhs == U8 && t.rhs == U8)) &&
        p->args.lhs.zero_point == Lowest(t.lhs) &&
        p->args.rhs.zero_point == Lowest(t.rhs)) {
      p->args.rhs.zero_point++;
    }
    if (IsQuant(p->combo)) p->args.dst.zero_point = GenZeroPoint(c, t.dst);
  }
  if (o.cache_policies) {
    p->args.lhs.cache_policy = GenPolicy(c);
    p->args.rhs.cache_policy = GenPolicy(c);
  }
  p->args.channel = c.flag() ? ruy::ChannelDimension::kCol
                             : ruy::ChannelDimension::kRow;
  if (o.capacity_rounding && c.chance(2, 5)) {
    p->args.rounding = 1 << c.draw(7);
  }
  const int64_t nl = p->args.lhs.Extent(), nr = p->args.rhs.Extent(),
                nd = p->args.dst.Extent();
  p->lhs = NewBuf(c, nl, SizeOf(t.lhs), o.guard);
  p->rhs = NewBuf(c, nr, SizeOf(t.rhs), o.guard);
  p->dst = NewBuf(c, nd, SizeOf(t.dst), o.guard);
  p->args.lhs.data = p->lhs.data();
  p->args.rhs.data = p->rhs.data();
  p->args.dst.data = p->dst.data();
  const bool want_bias = c.flag();
  const int cap = Capacity(p->channels(), p->args.rounding);
  if (IsFloatCombo(p->combo)) {
    p->exact_float =
        o.float_exact_only || (!o.float_denormals && c.chance(1, 2));
    Fill fl = GenFloatFill(c, p->exact_float, o.float_denormals);
    Fill fr = GenFloatFill(c, p->exact_float, o.float_denormals);
    FillFloats(t.lhs, fl, p->lhs.data(), nl);
    FillFloats(t.rhs, fr, p->rhs.data(), nr);
    c.label(Format("float fill %d", fl.mode));
    if (want_bias) {
      p->bias = NewBuf(c, cap, SizeOf(t.acc), o.guard);
      Fill fb = GenFloatFill(c, p->exact_float, o.float_denormals);
      FillFloats(t.acc, fb, p->bias.data(), p->channels());
      for (int i = p->channels(); i < cap; ++i) {
        SetFloat(t.acc, p->bias.data(), i, 0);
      }
      p->args.bias = p->bias.data();
    }
    switch (c.weighted({3, 1, 1})) {
      case 0:
        break;
      case 1: {
        p->args.set_clamp = true;
        double x = static_cast<double>(c.range(-2000, 2000)) / 8;
        double y = static_cast<double>(c.range(-2000, 2000)) / 8;
        p->args.fclamp_min = std::min(x, y);
        p->args.fclamp_max = std::max(x, y);
        break;
      }
      default:
        p->args.set_clamp = true;
        p->args.fclamp_min = 0;
        p->args.fclamp_max = c.flag() ? 6 : INFINITY;
        break;
    }
  } else {
    Fill fl = GenIntFill(c), fr = GenIntFill(c);
    FillInts(t.lhs, fl, p->args.lhs.zero_point, p->lhs.data(), nl);
    FillInts(t.rhs, fr, p->args.rhs.zero_point, p->rhs.data(), nr);
    if (o.lhs_above_lowest && SizeOf(t.lhs) == 1) {
      const int low = static_cast<int>(Lowest(t.lhs)) & 0xff;
      unsigned char* x = static_cast<unsigned char*>(p->lhs.data());
      for (int64_t i = 0; i < nl; ++i) {
        if (x[i] == low) ++x[i];
      }
    }
    c.label(Format("int fill %d", fl.mode));
    int64_t unit = Has16(p->combo) ? 128ll * 32768 : 255ll * 255;
    if (unit * p->depth > 0x7ffe0000ll) {
      // Too deep for any data: stay near enough to the zero points.
      const int64_t room = std::max<int64_t>(1, 0x7ffe0000ll / p->depth);
      int64_t left = 1;
      if (c.flag()) {
        while ((left + 1) * (left + 1) <= room) ++left;
      } else {
        left = std::min(room, c.flag() ? Highest(t.lhs) : 1);
      }
      const int64_t right = room / left;
      LimitInts(t.lhs, p->args.lhs.zero_point, left, p->lhs.data(), nl);
      LimitInts(t.rhs, p->args.rhs.zero_point, right, p->rhs.data(), nr);
      unit = left * right;
      c.label("limited data");
    }
    if (want_bias) {
      p->bias = NewBuf(c, cap, 4, o.guard);
      const int64_t room =
          std::max<int64_t>(0, 0x7ffe0000ll - unit * p->depth);
      int64_t mag = 0;
      switch (c.weighted({3, 2, 2})) {
        case 0:
          mag = std::min<int64_t>(room, 100000);
          break;
        case 1:
          mag = room;
          break;
        default:
          mag = std::min<int64_t>(room, 50);
          break;
      }
      Rng r(c.seed());
      for (int i = 0; i < cap; ++i) {
        p->bias.as<std::int32_t>()[i] =
            i < p->channels() ? static_cast<std::int32_t>(r.range(-mag, mag))
                              : 0;
      }
      p->args.bias = p->bias.data();
    }
    if (IsQuant(p->combo)) {
      GenQuantization(c, p.get(), Accumulators(*p), o.spare_bit);
    }
  }
  // Stale destination contents.
  Rng rd(c.seed());
  for (std::size_t i = 0; i < p->dst.size(); ++i) {
    p->dst.data()[i] = static_cast<unsigned char>(rd.next());
  }
  p->dst_initial.assign(p->dst.data(), p->dst.data() + p->dst.size());
  c.label(std::string("types ") + Name(t.lhs) + "," + Name(t.rhs) + "->" +
          Name(t.dst));
  return p;
}

// ---------------------------------------------------------------------------
// Oracles

std::string CheckRaw(const Problem& p, const std::vector<int64_t>& acc) {
  for (int r = 0; r < p.rows; ++r) {
    for (int j = 0; j < p.cols; ++j) {
      int64_t want = acc[static_cast<std::size_t>(r) * p.cols + j];
      int64_t got = GetInt(I32, p.args.dst.data, p.args.dst.Index(r, j));
      if (want != got) {
        return Format("entry (%d,%d): got %lld, expected %lld", r, j,
                      static_cast<long long>(got),
                      static_cast<long long>(want));
      }
    }
  }
  return "";
}

namespace {
__int128 FloorShift(__int128 v, int s) { return v >> s; }
__int128 CeilShift(__int128 v, int s) {
  return -((-v) >> s);
}
}  // namespace

std::string CheckQuant(const Problem& p, const std::vector<int64_t>& acc,
                       bool portable) {
  const DT dt = p.types().dst;
  const int64_t cmin = p.args.set_clamp ? p.args.clamp_min : Lowest(dt);
  const int64_t cmax = p.args.set_clamp ? p.args.clamp_max : Highest(dt);
  for (int r = 0; r < p.rows; ++r) {
    for (int j = 0; j < p.cols; ++j) {
      const int64_t x = acc[static_cast<std::size_t>(r) * p.cols + j];
      const int ch = p.ChannelOf(r, j);
      const int64_t m =
          p.args.perchannel ? p.args.multipliers[ch] : p.args.multiplier;
      const int e = p.args.perchannel ? p.args.exponents[ch] : p.args.exponent;
      const int s = 31 - e;
      const __int128 n = static_cast<__int128>(x) * m;
      __int128 tol = static_cast<__int128>(1) << (s - 1);
      if (!portable && e < 0) tol += static_cast<__int128>(1) << (s - 1 + e);
      auto clamp = [&](__int128 v) {
        v += p.args.dst.zero_point;
        if (v > cmax) return cmax;
        if (v < cmin) return cmin;
        return static_cast<int64_t>(v);
      };
      const int64_t lo = clamp(CeilShift(n - tol, s));
      const int64_t hi = clamp(FloorShift(n + tol, s));
      const int64_t got = GetInt(dt, p.args.dst.data, p.args.dst.Index(r, j));
      if (got < lo || got > hi) {
        return Format(
            "entry (%d,%d): got %lld, expected %lld..%lld (accumulator %lld, "
            "multiplier %lld, exponent %d)",
            r, j, static_cast<long long>(got), static_cast<long long>(lo),
            static_cast<long long>(hi), static_cast<long long>(x),
            static_cast<long long>(m), e);
      }
    }
  }
  return "";
}

std::string CheckQuantExact(const Problem& p,
                            const std::vector<int64_t>& acc) {
  const DT dt = p.types().dst;
  const int64_t cmin = p.args.set_clamp ? p.args.clamp_min : Lowest(dt);
  const int64_t cmax = p.args.set_clamp ? p.args.clamp_max : Highest(dt);
  for (int r = 0; r < p.rows; ++r) {
    for (int j = 0; j < p.cols; ++j) {
      const int64_t x = acc[static_cast<std::size_t>(r) * p.cols + j];
      const int ch = p.ChannelOf(r, j);
      const int64_t m =
          p.args.perchannel ? p.args.multipliers[ch] : p.args.multiplier;
      const int e = p.args.perchannel ? p.args.exponents[ch] : p.args.exponent;
      const int s = 31 - e;
      __int128 v = FloorShift(static_cast<__int128>(x) * m +
                                  (static_cast<__int128>(1) << (s - 1)),
                              s);
      v += p.args.dst.zero_point;
      if (v > cmax) v = cmax;
      if (v < cmin) v = cmin;
      const int64_t got = GetInt(dt, p.args.dst.data, p.args.dst.Index(r, j));
      if (got != static_cast<int64_t>(v)) {
        return Format(
            "entry (%d,%d): got %lld, expected exactly %lld (accumulator %lld, "
            "multiplier %lld, exponent %d)",
            r, j, static_cast<long long>(got), static_cast<long long>(v),
            static_cast<long long>(x), static_cast<long long>(m), e);
      }
    }
  }
  return "";
}

namespace {
bool IsDenormal(DT t, double v) {
  return v != 0 && fabs(v) < (t == F32 ? FLT_MIN : DBL_MIN);
}
}  // namespace

std::string CheckFloat(const Problem& p, bool flush) {
  const Combo& t = p.types();
  // Unit roundoff of the accumulation, which may happen in the operand type.
  const double u = t.acc == F32 ? ldexp(1, -24) : ldexp(1, -53);
  const double tiny = t.acc == F32 ? FLT_MIN : DBL_MIN;
  for (int r = 0; r < p.rows; ++r) {
    for (int j = 0; j < p.cols; ++j) {
      long double s = 0, mag = 0, flushed = 0;
      for (int k = 0; k < p.depth; ++k) {
        const double a =
            GetFloat(t.lhs, p.args.lhs.data, p.args.lhs.Index(r, k));
        const double b =
            GetFloat(t.rhs, p.args.rhs.data, p.args.rhs.Index(k, j));
        const long double x = static_cast<long double>(a) * b;
        s += x;
        mag += fabsl(x);
        if (IsDenormal(t.lhs, a) || IsDenormal(t.rhs, b)) flushed += fabsl(x);
      }
      if (p.args.bias) {
        double b = GetFloat(t.acc, p.args.bias, p.ChannelOf(r, j));
        s += b;
        mag += fabs(b);
      }
      long double tol = p.exact_float
                            ? 0
                            : (p.depth + 4) * (u * 1.01L * mag + tiny) +
                                  ldexpl(mag, -60);
      if (flush) tol += flushed + (p.depth + 4) * static_cast<long double>(tiny);
      long double lo = s - tol, hi = s + tol;
      if (p.args.set_clamp) {
        // The bounds are given in the destination type.
        long double cmin = p.args.fclamp_min, cmax = p.args.fclamp_max;
        if (t.dst == F32) {
          cmin = static_cast<float>(p.args.fclamp_min);
          cmax = static_cast<float>(p.args.fclamp_max);
        }
        lo = std::max(cmin, std::min(cmax, lo));
        hi = std::max(cmin, std::min(cmax, hi));
      }
      if (t.dst == F32 && t.acc == F64 && !p.exact_float) {
        long double q = ldexpl(std::max(fabsl(lo), fabsl(hi)), -23) + FLT_MIN;
        lo -= q;
        hi += q;
      }
      const double got = GetFloat(t.dst, p.args.dst.data,
                                  p.args.dst.Index(r, j));
      if (!(got >= lo && got <= hi)) {
        return Format(
            "entry (%d,%d): got %.17g, expected %.17g +- %.3g%s", r, j, got,
            static_cast<double>(s), static_cast<double>(tol),
            p.args.set_clamp ? " (clamped)" : "");
      }
    }
  }
  return "";
}

std::string CheckResult(const Problem& p, ruy::Path path) {
  if (IsFloatCombo(p.combo)) return CheckFloat(p);
  std::vector<int64_t> acc = Accumulators(p);
  if (IsRaw(p.combo)) return CheckRaw(p, acc);
  return CheckQuant(p, acc, path != ruy::Path::kNone && IsPortable(path));
}

Snapshot TakeSnapshot(const Problem& p) {
  auto copy = [](const buffers::Buf& b) {
    return b.data() ? std::vector<unsigned char>(b.data(), b.data() + b.size())
                    : std::vector<unsigned char>();
  };
  Snapshot s;
  s.lhs = copy(p.lhs);
  s.rhs = copy(p.rhs);
  s.bias = copy(p.bias);
  s.multipliers = copy(p.multipliers);
  s.exponents = copy(p.exponents);
  return s;
}

std::string CheckUntouched(const Problem& p, const Snapshot& s) {
  auto same = [](const buffers::Buf& b, const std::vector<unsigned char>& v) {
    return v.empty() || (memcmp(b.data(), v.data(), v.size()) == 0 &&
                         b.MarginsIntact());
  };
  if (!same(p.lhs, s.lhs)) return "lhs memory was written";
  if (!same(p.rhs, s.rhs)) return "rhs memory was written";
  if (!same(p.bias, s.bias)) return "bias memory was written";
  if (!same(p.multipliers, s.multipliers)) return "multipliers were written";
  if (!same(p.exponents, s.exponents)) return "exponents were written";
  if (!p.dst.MarginsIntact()) return "memory next to the destination was written";
  const MatArg& d = p.args.dst;
  const int sz = SizeOf(p.types().dst);
  const bool cm = d.order == ruy::Order::kColMajor;
  const int inner = cm ? d.rows : d.cols, outer = cm ? d.cols : d.rows;
  for (int o = 0; o + 1 < outer; ++o) {
    const std::size_t from = (static_cast<std::size_t>(o) * d.stride + inner) * sz;
    const std::size_t to = static_cast<std::size_t>(o + 1) * d.stride * sz;
    if (to > from && memcmp(p.dst.data() + from, &p.dst_initial[from], to - from)) {
      return Format("destination padding after line %d was written", o);
    }
  }
  return "";
}

void ResetDst(Problem* p) {
  memcpy(p->dst.data(), p->dst_initial.data(), p->dst.size());
}

std::vector<unsigned char> DstEntries(const MatArg& m, DT t) {
  const int sz = SizeOf(t);
  std::vector<unsigned char> v(static_cast<std::size_t>(m.rows) * m.cols * sz);
  const unsigned char* d = static_cast<const unsigned char*>(m.data);
  std::size_t o = 0;
  for (int r = 0; r < m.rows; ++r) {
    for (int j = 0; j < m.cols; ++j) {
      memcpy(&v[o], d + m.Index(r, j) * sz, sz);
      o += sz;
    }
  }
  return v;
}

std::vector<unsigned char> DstEntries(const Problem& p) {
  return DstEntries(p.args.dst, p.types().dst);
}

std::string DiffEntries(const Problem& p, const std::vector<unsigned char>& a,
                        const std::vector<unsigned char>& b) {
  if (a == b) return "";
  const DT t = p.types().dst;
  const int sz = SizeOf(t);
  for (std::size_t i = 0; i * sz < a.size(); ++i) {
    if (memcmp(&a[i * sz], &b[i * sz], sz) != 0) {
      double x = IsFloat(t) ? GetFloat(t, a.data(), i) : GetInt(t, a.data(), i);
      double y = IsFloat(t) ? GetFloat(t, b.data(), i) : GetInt(t, b.data(), i);
      return Format("entry (%d,%d) differs: %.17g vs %.17g",
                    static_cast<int>(i / p.cols), static_cast<int>(i % p.cols),
                    x, y);
    }
  }
  return "sizes differ";
}

}  // namespace gemm
