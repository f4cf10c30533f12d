// C31: matrix and parameter objects hold what was set and address by layout.
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <limits>
#include <sstream>
#include <type_traits>

#include "pbt.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"

namespace {

template <typename T>
T GenValue(pbt::Case& c) {
  using L = std::numeric_limits<T>;
  if (std::is_floating_point<T>::value) {
    const T v[] = {T(0),       T(1),      T(-1),
                   L::max(),   L::lowest(), L::infinity(),
                   -L::infinity(), T(0.1), L::denorm_min()};
    if (c.flag()) return v[c.draw(9)];
    return static_cast<T>(c.range(-1000000, 1000000)) / T(7);
  }
  const T v[] = {T(0), T(1), L::max(), L::lowest(), T(L::max() / 2)};
  if (c.flag()) return v[c.draw(5)];
  return static_cast<T>(c.range(static_cast<std::int64_t>(L::lowest()),
                                static_cast<std::int64_t>(L::max())));
}

template <typename T>
bool Same(T a, T b) {
  return memcmp(&a, &b, sizeof a) == 0;
}

int GenInt(pbt::Case& c) {
  switch (c.draw(3)) {
    case 0:
      return static_cast<int>(c.range(0, 20));
    case 1:
      return c.pick<int>({0, 1, 255, 256, 32767, 32768, 65535, 65536,
                          0x7fffffff, 0x7ffffffe});
    default:
      return static_cast<int>(c.range(0, 0x7fffffff));
  }
}

// Address space only, never accessed.
char* Reserved() {
  static char* const p = static_cast<char*>(
      mmap(nullptr, std::size_t{17} << 30, PROT_NONE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED) _exit(3);
  return p;
}

template <typename T>
struct MatrixModel {
  const T* data = nullptr;
  int rows = 0, cols = 0, stride = 0;
  ruy::Order order = ruy::Order::kColMajor;
  T zero_point = 0;
  ruy::CachePolicy policy = ruy::CachePolicy::kNeverCache;
};

template <typename T>
void Compare(pbt::Case& c, const ruy::Matrix<T>& m, const MatrixModel<T>& e) {
  const ruy::Layout& l = m.layout();
  if (m.data() != e.data) c.fail("data");
  if (l.rows() != e.rows) c.fail("rows %d, not %d", l.rows(), e.rows);
  if (l.cols() != e.cols) c.fail("cols %d, not %d", l.cols(), e.cols);
  if (l.stride() != e.stride) c.fail("stride %d, not %d", l.stride(), e.stride);
  if (l.order() != e.order) c.fail("order");
  if (!Same(m.zero_point(), e.zero_point)) c.fail("zero point");
  if (m.cache_policy() != e.policy) c.fail("cache policy");
}

template <typename T>
void ObjectsOf(pbt::Case& c) {
  enum { kData, kConstData, kNull, kRows, kCols, kStride, kOrder, kSimple,
         kZeroPoint, kPolicy, kAssign, kCopy, kSwap, kOps };
  static const char* names[] = {"data", "const data", "null", "rows", "cols",
                                "stride", "order", "simple", "zero point",
                                "policy", "assign", "copy", "swap"};
  static T store[4];
  ruy::Matrix<T> m[2];
  MatrixModel<T> e[2];
  std::string text;
  for (int i = 0; i < 2; ++i) Compare<T>(c, m[i], e[i]);
  const int n = static_cast<int>(c.range(1, 10));
  bool shared = false;
  for (int i = 0; i < n; ++i) {
    const int op = static_cast<int>(c.draw(kOps));
    const int at = static_cast<int>(c.draw(2));
    const int v = GenInt(c), w = GenInt(c);
    const ruy::Order order =
        c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
    text += pbt::Format(" %d:%s", at, names[op]);
    c.describe("%s", text.c_str());
    switch (op) {
      case kData:
        m[at].set_data(store + v % 4);
        e[at].data = store + v % 4;
        break;
      case kConstData:
        m[at].set_data(static_cast<const T*>(store + v % 4));
        e[at].data = store + v % 4;
        break;
      case kNull:
        m[at].set_data(nullptr);
        e[at].data = nullptr;
        break;
      case kRows:
        m[at].mutable_layout()->set_rows(v);
        e[at].rows = v;
        break;
      case kCols:
        m[at].mutable_layout()->set_cols(v);
        e[at].cols = v;
        break;
      case kStride:
        m[at].mutable_layout()->set_stride(v);
        e[at].stride = v;
        break;
      case kOrder:
        m[at].mutable_layout()->set_order(order);
        e[at].order = order;
        break;
      case kSimple:
        ruy::MakeSimpleLayout(v, w, order, m[at].mutable_layout());
        e[at].rows = v;
        e[at].cols = w;
        e[at].order = order;
        e[at].stride = order == ruy::Order::kColMajor ? v : w;
        break;
      case kZeroPoint: {
        const T z = GenValue<T>(c);
        m[at].set_zero_point(z);
        e[at].zero_point = z;
        break;
      }
      case kPolicy: {
        const ruy::CachePolicy p = c.pick<ruy::CachePolicy>(
            {ruy::CachePolicy::kNeverCache,
             ruy::CachePolicy::kCacheIfLargeSpeedup,
             ruy::CachePolicy::kCacheIfSignificantSpeedup,
             ruy::CachePolicy::kAlwaysCache});
        m[at].set_cache_policy(p);
        e[at].policy = p;
        break;
      }
      case kAssign:
        m[at] = m[1 - at];
        e[at] = e[1 - at];
        shared = true;
        break;
      case kCopy: {
        ruy::Matrix<T> copy(m[at]);
        Compare<T>(c, copy, e[at]);
        copy.mutable_layout()->set_rows(v);
        copy.set_zero_point(T(1));
        copy.set_data(nullptr);
        shared = true;
        break;
      }
      case kSwap:
        std::swap(m[0], m[1]);
        std::swap(e[0], e[1]);
        shared = true;
        break;
    }
    for (int j = 0; j < 2; ++j) Compare<T>(c, m[j], e[j]);
  }
  if (shared) c.nontrivial();
}

// Addresses, elements and printing.
template <typename T>
void ElementsOf(pbt::Case& c) {
  const bool far = c.chance(1, 3);
  const ruy::Order order =
      c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
  const bool row_major = order == ruy::Order::kRowMajor;
  int rows, cols, stride;
  const std::int64_t limit = std::int64_t{1} << 31;
  if (far) {
    // Every offset fits the type of offsets.
    const int minor = static_cast<int>(
        c.flag() ? c.range(1, 70000) : c.range(1, c.pick<int>({4, 1000000000})));
    const std::int64_t most = limit / minor;
    stride = static_cast<int>(std::min<std::int64_t>(
        minor + (c.flag() ? 0 : c.range(0, c.flag() ? 20 : 2000000)),
        limit - 1));
    const int major = static_cast<int>(
        c.range(1, std::max<std::int64_t>(
                       1, std::min<std::int64_t>(most, limit / stride))));
    rows = row_major ? major : minor;
    cols = row_major ? minor : major;
  } else {
    rows = static_cast<int>(c.range(0, 12));
    cols = static_cast<int>(c.range(0, 12));
    stride = (row_major ? cols : rows) +
             static_cast<int>(c.chance(1, 2) ? c.range(0, 5) : 0);
  }
  c.describe("%s %dx%d stride %d %s", far ? "far" : "near", rows, cols, stride,
             row_major ? "row-major" : "column-major");
  ruy::Matrix<T> m;
  m.mutable_layout()->set_rows(rows);
  m.mutable_layout()->set_cols(cols);
  m.mutable_layout()->set_stride(stride);
  m.mutable_layout()->set_order(order);
  auto offset = [&](int r, int k) {
    return row_major ? std::int64_t{r} * stride + k
                     : std::int64_t{k} * stride + r;
  };
  if (far) {
    T* const base = reinterpret_cast<T*>(Reserved());
    m.set_data(base);
    for (int i = 0; i < 8; ++i) {
      auto gen = [&](int n) {
        switch (c.draw(3)) {
          case 0:
            return n - 1;
          case 1:
            return 0;
          default:
            return static_cast<int>(c.draw(n));
        }
      };
      const int r = gen(rows), k = gen(cols);
      const std::int64_t want = offset(r, k);
      if (ruy::Offset(m.layout(), r, k) != want) {
        c.fail("(%d, %d) has offset %d", r, k, ruy::Offset(m.layout(), r, k));
      }
      const ruy::Matrix<T>& view = m;
      if (ruy::ElementPtr(view, r, k) != base + want ||
          ruy::ElementPtr(&m, r, k) != base + want) {
        c.fail("(%d, %d) has another address", r, k);
      }
    }
    if (rows > 1 && cols > 1) c.nontrivial();
    c.label("far");
    return;
  }
  const std::size_t n =
      static_cast<std::size_t>(stride) * (row_major ? rows : cols);
  // Values tell the places apart as far as the type permits.
  std::vector<T> data(n + 1);
  for (T& v : data) v = GenValue<T>(c);
  m.set_data(data.data());
  std::ostringstream want, got;
  const int precision = c.pick<int>({6, 6, 3, 17});
  want.precision(precision);
  got.precision(precision);
  for (int r = 0; r < rows; ++r) {
    for (int k = 0; k < cols; ++k) {
      const std::size_t at = static_cast<std::size_t>(offset(r, k));
      if (ruy::Offset(m.layout(), r, k) != static_cast<int>(at)) {
        c.fail("(%d, %d) has offset %d", r, k, ruy::Offset(m.layout(), r, k));
      }
      if (!Same(ruy::Element(m, r, k), data[at])) {
        c.fail("(%d, %d) is another element", r, k);
      }
      if (ruy::ElementPtr(&m, r, k) != data.data() + at) {
        c.fail("(%d, %d) has another address", r, k);
      }
      want << static_cast<double>(data[at]) << " ";
    }
    want << "\n";
  }
  got << m << "|";
  want << "|";
  if (got.str() != want.str()) {
    c.fail("printed as \"%s\" instead of \"%s\"", got.str().c_str(),
           want.str().c_str());
  }
  if (rows > 1 && cols > 1) c.nontrivial();
  c.label("near");
}

template <typename F>
void WithScalar(pbt::Case& c, const F& f) {
  switch (c.draw(6)) {
    case 0: return f(std::uint8_t());
    case 1: return f(std::int8_t());
    case 2: return f(std::int16_t());
    case 3: return f(std::int32_t());
    case 4: return f(float());
    default: return f(double());
  }
}

void MatrixProp(pbt::Case& c) {
  WithScalar(c, [&](auto t) { ObjectsOf<decltype(t)>(c); });
}

void ElementsProp(pbt::Case& c) {
  WithScalar(c, [&](auto t) { ElementsOf<decltype(t)>(c); });
}

template <typename A, typename D>
struct ParamsModel {
  const A* bias = nullptr;
  D clamp_min = std::is_floating_point<D>::value
                    ? -std::numeric_limits<D>::infinity()
                    : std::numeric_limits<D>::lowest();
  D clamp_max = std::is_floating_point<D>::value
                    ? std::numeric_limits<D>::infinity()
                    : std::numeric_limits<D>::max();
  ruy::ChannelDimension dimension = ruy::ChannelDimension::kRow;
  int rounding = 1;
  bool perchannel = false;
  A fixedpoint = 0;
  int exponent = 0;
  const A* fixedpoints = nullptr;
  const int* exponents = nullptr;
};

template <typename A, typename D>
void Compare(pbt::Case& c, const ruy::MulParams<A, D>& p,
             const ParamsModel<A, D>& e) {
  if (p.bias() != e.bias) c.fail("bias");
  if (!Same(p.clamp_min(), e.clamp_min)) c.fail("lower clamp bound");
  if (!Same(p.clamp_max(), e.clamp_max)) c.fail("upper clamp bound");
  if (p.channel_dimension() != e.dimension) c.fail("channel dimension");
  if (p.perchannel_buffers_capacity_rounding() != e.rounding) {
    c.fail("capacity rounding %d, not %d",
           p.perchannel_buffers_capacity_rounding(), e.rounding);
  }
  if (!Same(p.multiplier_fixedpoint(), e.perchannel ? A(0) : e.fixedpoint)) {
    c.fail("multiplier");
  }
  if (p.multiplier_exponent() != (e.perchannel ? 0 : e.exponent)) {
    c.fail("exponent %d", p.multiplier_exponent());
  }
  if (p.multiplier_fixedpoint_perchannel() !=
      (e.perchannel ? e.fixedpoints : nullptr)) {
    c.fail("multipliers");
  }
  if (p.multiplier_exponent_perchannel() !=
      (e.perchannel ? e.exponents : nullptr)) {
    c.fail("exponents");
  }
}

// The multiplier part, for types that have one.
template <typename A, typename D>
void SetMultiplier(pbt::Case& c, ruy::MulParams<A, D>* p, ParamsModel<A, D>* e,
                   std::true_type) {
  static const A mults[3] = {};
  static const int exps[3] = {};
  const bool perchannel = c.flag();
  if (perchannel != e->perchannel) {
    // As documented, set back to the defaults before the mode is changed.
    if (e->perchannel) {
      p->set_multiplier_fixedpoint_perchannel(nullptr);
      p->set_multiplier_exponent_perchannel(nullptr);
      e->fixedpoints = nullptr;
      e->exponents = nullptr;
    } else {
      p->set_multiplier_fixedpoint(0);
      p->set_multiplier_exponent(0);
      e->fixedpoint = 0;
      e->exponent = 0;
    }
  }
  const bool fixedpoint = c.flag();
  if (perchannel) {
    const int i = static_cast<int>(c.draw(3));
    if (fixedpoint) {
      p->set_multiplier_fixedpoint_perchannel(mults + i);
      e->fixedpoints = mults + i;
    } else {
      p->set_multiplier_exponent_perchannel(exps + i);
      e->exponents = exps + i;
    }
  } else if (fixedpoint) {
    e->fixedpoint = GenValue<A>(c);
    p->set_multiplier_fixedpoint(e->fixedpoint);
  } else {
    e->exponent = static_cast<int>(c.range(-31, 31));
    p->set_multiplier_exponent(e->exponent);
  }
  e->perchannel = perchannel;
}

template <typename A, typename D>
void SetMultiplier(pbt::Case&, ruy::MulParams<A, D>*, ParamsModel<A, D>*,
                   std::false_type) {}

// Raw accumulators are not clamped.
template <typename A, typename D>
void SetClamp(bool upper, D v, ruy::MulParams<A, D>* p, ParamsModel<A, D>* e) {
  if (upper) {
    p->set_clamp_max(v);
    e->clamp_max = v;
  } else {
    p->set_clamp_min(v);
    e->clamp_min = v;
  }
}

void SetClamp(bool, std::int32_t, ruy::MulParams<std::int32_t, std::int32_t>*,
              ParamsModel<std::int32_t, std::int32_t>*) {}

template <typename A, typename D>
void ParamsOf(pbt::Case& c) {
  enum { kMultiplier, kBias, kMin, kMax, kDimension, kRounding, kAssign, kCopy,
         kOps };
  static const char* names[] = {"multiplier", "bias", "min", "max",
                                "dimension", "rounding", "assign", "copy"};
  static const A biases[3] = {};
  using HasMultiplier =
      std::integral_constant<bool, std::is_same<A, std::int32_t>::value &&
                                       !std::is_same<D, std::int32_t>::value>;
  ruy::MulParams<A, D> p[2];
  ParamsModel<A, D> e[2];
  for (int j = 0; j < 2; ++j) Compare<A, D>(c, p[j], e[j]);
  std::string text;
  const int n = static_cast<int>(c.range(1, 10));
  int set = 0;
  for (int i = 0; i < n; ++i) {
    const int op = static_cast<int>(c.draw(kOps));
    const int at = static_cast<int>(c.draw(2));
    text += pbt::Format(" %d:%s", at, names[op]);
    c.describe("%s", text.c_str());
    switch (op) {
      case kMultiplier:
        SetMultiplier<A, D>(c, &p[at], &e[at], HasMultiplier());
        break;
      case kBias:
        e[at].bias = c.chance(1, 3) ? nullptr : biases + c.draw(3);
        p[at].set_bias(e[at].bias);
        break;
      case kMin:
        SetClamp(false, GenValue<D>(c), &p[at], &e[at]);
        break;
      case kMax:
        SetClamp(true, GenValue<D>(c), &p[at], &e[at]);
        break;
      case kDimension:
        e[at].dimension = c.flag() ? ruy::ChannelDimension::kCol
                                   : ruy::ChannelDimension::kRow;
        p[at].set_channel_dimension(e[at].dimension);
        break;
      case kRounding:
        e[at].rounding = 1 << c.draw(31);
        p[at].set_perchannel_buffers_capacity_rounding(e[at].rounding);
        break;
      case kAssign:
        p[at] = p[1 - at];
        e[at] = e[1 - at];
        break;
      case kCopy: {
        const ruy::MulParams<A, D> copy(p[at]);
        Compare<A, D>(c, copy, e[at]);
        break;
      }
    }
    if (op < kAssign) set |= 1 << op;
    for (int j = 0; j < 2; ++j) Compare<A, D>(c, p[j], e[j]);
  }
  if (__builtin_popcount(set) > 1) c.nontrivial();
}

void ParamsProp(pbt::Case& c) {
  switch (c.draw(7)) {
    case 0: return ParamsOf<std::int32_t, std::int8_t>(c);
    case 1: return ParamsOf<std::int32_t, std::uint8_t>(c);
    case 2: return ParamsOf<std::int32_t, std::int16_t>(c);
    case 3: return ParamsOf<std::int32_t, std::int32_t>(c);
    case 4: return ParamsOf<float, float>(c);
    case 5: return ParamsOf<double, double>(c);
    default: return ParamsOf<double, float>(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C31";
  s.rule =
      "Generated sequences of setters, copies and assignments on two objects; "
      "after every step all getters of both are compared with a model "
      "(non-trivial: for matrices, a copy or assignment among them; for "
      "parameters, two different settings). Generated layouts: offset, address "
      "and value of elements, and the printed matrix (non-trivial: several rows "
      "and columns).";
  s.parts = {{"matrix", MatrixProp, 6000000, 120000000},
             {"elements", ElementsProp, 3000000, 60000000},
             {"params", ParamsProp, 6000000, 120000000}};
  return pbt::Main(argc, argv, s);
}
