// C23: debug builds reject unsupported arguments and accept supported ones.
#include <signal.h>
#include <string.h>
#include <sys/mman.h>

#include "problem.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/ruy.h"

using namespace gemm;

namespace {

// Destination memory which the parent sees as the child left it.
struct Shared {
  explicit Shared(std::size_t n) : n(n) {
    p = static_cast<unsigned char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(p, 0x5a, n);
  }
  ~Shared() { munmap(p, n); }
  bool Intact() const {
    for (std::size_t i = 0; i < n; ++i) {
      if (p[i] != 0x5a) return false;
    }
    return true;
  }
  std::size_t n;
  unsigned char* p;
};

void ExpectStopped(pbt::Case& c, const pbt::ChildResult& r, const char* what) {
  if (r.kind == pbt::ChildResult::kExit) {
    c.fail("%s: not rejected", what);
  }
  if (r.kind == pbt::ChildResult::kHang) c.fail("%s: does not end", what);
  if (r.code != SIGABRT) c.fail("%s: signal %d", what, r.code);
  if (r.output.empty()) c.fail("%s: stopped without a message", what);
}

std::int64_t GenNonZero(pbt::Case& c, DT t) {
  const std::int64_t lo = IsFloat(t) ? -100 : Lowest(t);
  const std::int64_t hi = IsFloat(t) ? 100 : Highest(t);
  for (int i = 0; i < 20; ++i) {
    std::int64_t v = c.pick<std::int64_t>({1, 2, hi, lo, hi / 2, lo / 2, -1});
    if (c.flag()) v = c.range(lo, hi);
    if (v != 0 && v >= lo && v <= hi) return v;
  }
  return 1;
}

void RejectProp(pbt::Case& c) {
  enum { kFloatZp, k16BitZp, kBothLowest, kReadOnly };
  const int kind = c.weighted({2, 2, 2, 1});
  ProblemOptions o;
  o.shape.max_macs = 60000;
  o.shape.max_dim = 100;
  switch (kind) {
    case kFloatZp:
      o.combos = {kF32, kF64, kF64F32, kF32F64};
      break;
    case k16BitZp:
      o.combos = {kI8I16I32, kI16I8I32, kI8I16I16, kI16I8I16};
      break;
    case kBothLowest:
      o.combos = {kI8I8I32, kI8I8I8, kI8I8I16, kI8I8U8};
      break;
    case kReadOnly:
      break;
  }
  std::unique_ptr<Problem> p = GenProblem(c, o);
  const Settings s = GenSettings(c);
  MulArgs a = p->args;
  const Combo& t = p->types();
  std::string what;
  switch (kind) {
    case kFloatZp:
    case k16BitZp: {
      // On the destination alone only where it could have one.
      const int sides = kind == k16BitZp && IsRaw(p->combo) ? 2 : 3;
      const int side = static_cast<int>(c.draw(sides));
      MatArg* m[] = {&a.lhs, &a.rhs, &a.dst};
      const DT types[] = {t.lhs, t.rhs, t.dst};
      m[side]->zero_point =
          static_cast<std::int32_t>(GenNonZero(c, types[side]));
      const char* names[] = {"lhs", "rhs", "dst"};
      what = pbt::Format("%s zero point %d", names[side], m[side]->zero_point);
      break;
    }
    case kBothLowest:
      a.lhs.zero_point = a.rhs.zero_point = -128;
      what = "both zero points lowest";
      break;
    case kReadOnly:
      a.dst.read_only = true;
      what = "read-only destination";
      break;
  }
  c.describe("%s: %s | %s", what.c_str(), p->ToString().c_str(),
             s.ToString().c_str());
  Shared mem(static_cast<std::size_t>(a.dst.Extent()) * SizeOf(t.dst));
  a.dst.data = mem.p;
  const bool warm = c.chance(1, 4);
  pbt::ChildResult r = pbt::RunInChild([&]() noexcept -> int {
    std::unique_ptr<ruy::Context> ctx = s.Make();
    // After an accepted multiplication on the same context, at times.
    if (warm) Mul(p->args, ctx.get());
    Mul(a, ctx.get());
    return 0;
  });
  ExpectStopped(c, r, what.c_str());
  if (!mem.Intact()) c.fail("%s: destination modified", what.c_str());
  c.label(what.substr(0, what.find_first_of("-0123456789")));
  c.nontrivial();
}

// Zero points at the ends of the supported range, on all paths.
void AcceptProp(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 60000;
  o.shape.max_dim = 100;
  o.cache_policies = c.chance(1, 4);
  std::unique_ptr<Problem> p = GenProblem(c, o);
  const Settings s = GenSettings(c);
  const Combo& t = p->types();
  MulArgs& a = p->args;
  bool extreme = false;
  if (IsRaw(p->combo) && !Has16(p->combo)) {
    // Sums fit easily for these depths.
    auto gen = [&](DT d) {
      return static_cast<std::int32_t>(
          c.pick<std::int64_t>({Lowest(d), Highest(d), Lowest(d) + 1, 0, 1}));
    };
    a.lhs.zero_point = gen(t.lhs);
    a.rhs.zero_point = gen(t.rhs);
    const bool u8 = t.lhs == U8 && t.rhs == U8;
    if (!u8 && a.lhs.zero_point == Lowest(t.lhs) &&
        a.rhs.zero_point == Lowest(t.rhs)) {
      (c.flag() ? a.lhs : a.rhs).zero_point += 1;
    }
    extreme = true;
  }
  // Operands that need not be read-only.
  a.lhs.read_only = c.flag();
  a.rhs.read_only = c.flag();
  c.describe("%s | %s", p->ToString().c_str(), s.ToString().c_str());
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(a, ctx.get());
  std::string e = CheckResult(*p, s.path);
  if (!e.empty()) c.fail("%s", e.c_str());
  if (extreme) c.nontrivial();
}

template <typename Dst>
void Setters(pbt::Case& c) {
  using Params = ruy::MulParams<std::int32_t, Dst>;
  static const std::int32_t mults[4] = {1 << 30, 5, 0, 1};
  static const int exps[4] = {0, 1, -1, 2};
  struct Op {
    int kind;
    int value;  // number, or index + 1 of an array, 0: null
  };
  std::vector<Op> ops;
  std::string text;
  // The model.
  bool perchannel = false;
  std::int32_t m = 0;
  int e = 0, pm = 0, pe = 0;
  bool stop = false;
  const int n = static_cast<int>(c.range(1, 7));
  for (int i = 0; i < n && !stop; ++i) {
    Op o;
    o.kind = static_cast<int>(c.draw(4));
    if (o.kind == 0) {
      o.value = c.pick<int>({1 << 30, 0, 1, 0x7fffffff});
    } else if (o.kind == 1) {
      o.value = c.pick<int>({0, 1, -1, 7, -31});
    } else {
      o.value = static_cast<int>(c.draw(3));
    }
    const bool to = o.kind >= 2;
    if (to != perchannel) {
      stop = to ? m != 0 || e != 0 : pm != 0 || pe != 0;
      perchannel = to;
    }
    if (o.kind == 0) m = o.value;
    if (o.kind == 1) e = o.value;
    if (o.kind == 2) pm = o.value;
    if (o.kind == 3) pe = o.value;
    const char* names[] = {"m", "e", "pm", "pe"};
    text += pbt::Format(" %s=%d", names[o.kind], o.value);
    ops.push_back(o);
  }
  c.describe("%s%s", text.c_str(), stop ? " (rejected)" : "");
  auto run = [&](Params* p) {
    for (const Op& o : ops) {
      if (o.kind == 0) p->set_multiplier_fixedpoint(o.value);
      if (o.kind == 1) p->set_multiplier_exponent(o.value);
      if (o.kind == 2) {
        p->set_multiplier_fixedpoint_perchannel(o.value ? mults + o.value - 1
                                                        : nullptr);
      }
      if (o.kind == 3) {
        p->set_multiplier_exponent_perchannel(o.value ? exps + o.value - 1
                                                      : nullptr);
      }
    }
  };
  if (stop) {
    pbt::ChildResult r = pbt::RunInChild([&]() noexcept -> int {
      Params p;
      run(&p);
      return 0;
    });
    ExpectStopped(c, r, "mixed multipliers");
    c.label("mixed");
  } else {
    Params p;
    run(&p);
    if (p.multiplier_fixedpoint() != (perchannel ? 0 : m) ||
        p.multiplier_exponent() != (perchannel ? 0 : e) ||
        p.multiplier_fixedpoint_perchannel() !=
            (perchannel && pm ? mults + pm - 1 : nullptr) ||
        p.multiplier_exponent_perchannel() !=
            (perchannel && pe ? exps + pe - 1 : nullptr)) {
      c.fail("multipliers do not read back as set");
    }
    c.label("not mixed");
  }
  c.nontrivial();
}

void SettersProp(pbt::Case& c) {
  switch (c.draw(3)) {
    case 0:
      return Setters<std::int8_t>(c);
    case 1:
      return Setters<std::uint8_t>(c);
    default:
      return Setters<std::int16_t>(c);
  }
}

// Matrix objects used over and over, with constant and with mutable data.
template <typename T, typename Dst>
void Views(pbt::Case& c) {
  // Two objects, one of them possibly a copy of the other.
  enum State { kMutable, kConst, kUnset };
  enum { kSetMutable, kSetConst, kSetNull, kCopy, kLayout, kOps };
  static Dst store[2][64];
  struct Op {
    int kind, at, buffer;
  };
  std::vector<Op> ops;
  State state[2] = {kMutable, kMutable};
  int buffer[2] = {-1, -1};
  std::string text;
  const int n = static_cast<int>(c.range(1, 8));
  bool changed = false;
  for (int i = 0; i < n; ++i) {
    Op o;
    o.kind = static_cast<int>(c.draw(kOps));
    o.at = static_cast<int>(c.draw(2));
    o.buffer = static_cast<int>(c.draw(2));
    const char* names[] = {"mutable", "const", "null", "copy", "layout"};
    text += pbt::Format(" %d:%s", o.at, names[o.kind]);
    switch (o.kind) {
      case kSetMutable:
        if (state[o.at] == kConst) changed = true;
        state[o.at] = kMutable;
        buffer[o.at] = o.buffer;
        break;
      case kSetConst:
        if (state[o.at] == kMutable && buffer[o.at] >= 0) changed = true;
        state[o.at] = kConst;
        buffer[o.at] = o.buffer;
        break;
      case kSetNull:
        // What a null pointer is tracked as is not specified.
        state[o.at] = kUnset;
        buffer[o.at] = -1;
        break;
      case kCopy:
        state[o.at] = state[1 - o.at];
        buffer[o.at] = buffer[1 - o.at];
        break;
    }
    ops.push_back(o);
  }
  int used = static_cast<int>(c.draw(2));
  if (buffer[used] < 0) used = 1 - used;
  if (buffer[used] < 0) c.discard();
  enum { kDestination, kPointer };
  const int use = static_cast<int>(c.draw(2));
  const bool stop = state[used] == kConst;
  c.describe("%s; %s %d%s", text.c_str(),
             use == kDestination ? "destination" : "pointer", used,
             stop ? " (rejected)" : "");
  memset(store, 0x5a, sizeof store);
  const int rows = static_cast<int>(c.range(1, 7));
  const int cols = static_cast<int>(c.range(1, 7));
  auto run = [&]() -> std::string {
    ruy::Matrix<Dst> m[2];
    for (const Op& o : ops) {
      if (o.kind == kSetMutable) m[o.at].set_data(store[o.buffer]);
      if (o.kind == kSetConst) {
        m[o.at].set_data(static_cast<const Dst*>(store[o.buffer]));
      }
      if (o.kind == kSetNull) m[o.at].set_data(nullptr);
      if (o.kind == kCopy) m[o.at] = m[1 - o.at];
      if (o.kind == kLayout) {
        ruy::MakeSimpleLayout(8, 8, ruy::Order::kColMajor,
                              m[o.at].mutable_layout());
      }
    }
    const ruy::Matrix<Dst>& seen = m[used];
    if (seen.data() != store[buffer[used]]) return "constant pointer";
    if (use == kPointer) {
      return m[used].data() == store[buffer[used]] ? "" : "pointer";
    }
    ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor,
                          m[used].mutable_layout());
    std::vector<T> l(rows, T(2)), r(cols, T(3));
    ruy::Matrix<T> lhs, rhs;
    ruy::MakeSimpleLayout(rows, 1, ruy::Order::kColMajor, lhs.mutable_layout());
    ruy::MakeSimpleLayout(1, cols, ruy::Order::kColMajor, rhs.mutable_layout());
    lhs.set_data(l.data());
    rhs.set_data(static_cast<const T*>(r.data()));
    ruy::Context ctx;
    ruy::MulParams<Dst, Dst> params;
    ruy::Mul(lhs, rhs, params, &ctx, &m[used]);
    for (int i = 0; i < rows * cols; ++i) {
      if (store[buffer[used]][i] != Dst(6)) return "result";
    }
    return "";
  };
  if (stop) {
    pbt::ChildResult r = pbt::RunInChild([&]() noexcept -> int {
      run();
      return 0;
    });
    ExpectStopped(c, r, "mutable use of constant data");
    c.label("constant");
  } else {
    const std::string e = run();
    if (!e.empty()) c.fail("mutable data: wrong %s", e.c_str());
    c.label("mutable");
  }
  if (changed) c.nontrivial();
}

void ViewsProp(pbt::Case& c) {
  switch (c.draw(3)) {
    case 0:
      return Views<float, float>(c);
    case 1:
      return Views<std::int8_t, std::int32_t>(c);
    default:
      return Views<std::uint8_t, std::int32_t>(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C23";
  s.rule =
      "Generated multiplications made invalid in one way, each in a process of "
      "its own with shared destination memory: stopped by a signal from a "
      "check, with a message, destination unchanged (all non-trivial). "
      "Generated valid ones with zero points at the ends of the range: right "
      "results (non-trivial: such zero points). Generated sequences of "
      "multiplier setters against a model. Generated sequences of constant and "
      "mutable data set on two matrix objects, copied at times: mutable use is "
      "stopped exactly if the data set last is constant (non-trivial: the kind "
      "changed on the way).";
  s.assumptions = {"assertions enabled"};
  s.parts = {{"reject", RejectProp, 60000, 900000},
             {"accept", AcceptProp, 200000, 2500000},
             {"setters", SettersProp, 60000, 900000},
             {"views", ViewsProp, 60000, 900000}};
  return pbt::Main(argc, argv, s);
}
