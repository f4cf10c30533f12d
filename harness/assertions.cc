// Built with VARIANT_NS=usual, and with VARIANT_NS=ndebug and NDEBUG.
#include "assertions.h"

#include "ruy/check_macros.h"

namespace assertions {
namespace VARIANT_NS {
namespace {

enum class SmallEnum : std::uint8_t {};
enum class IntEnum : int {};

struct Opaque {
  std::int32_t v;
};
bool operator==(const Opaque& a, const Opaque& b) { return a.v == b.v; }
bool operator!=(const Opaque& a, const Opaque& b) { return a.v != b.v; }
bool operator>=(const Opaque& a, const Opaque& b) { return a.v >= b.v; }
bool operator>(const Opaque& a, const Opaque& b) { return a.v > b.v; }
bool operator<=(const Opaque& a, const Opaque& b) { return a.v <= b.v; }
bool operator<(const Opaque& a, const Opaque& b) { return a.v < b.v; }

template <Type T>
struct Of;
#define OF(t, type, member)                                       \
  template <>                                                     \
  struct Of<t> {                                                  \
    static type Get(const Value& v) { return static_cast<type>(v.member); } \
  };
OF(kBool, bool, b)
OF(kI8, std::int8_t, i8)
OF(kU8, std::uint8_t, u8)
OF(kI16, std::int16_t, i16)
OF(kU16, std::uint16_t, u16)
OF(kI32, std::int32_t, i32)
OF(kU32, std::uint32_t, u32)
OF(kI64, std::int64_t, i64)
OF(kU64, std::uint64_t, u64)
OF(kFloat, float, f)
OF(kDouble, double, d)
OF(kPointer, const char*, p)
OF(kSmallEnum, SmallEnum, u8)
OF(kIntEnum, IntEnum, i32)
template <>
struct Of<kOpaque> {
  static Opaque Get(const Value& v) { return Opaque{v.i32}; }
};

// As a condition.
template <Type T>
struct Truth {
  static auto Get(const Value& v) -> decltype(Of<T>::Get(v)) {
    return Of<T>::Get(v);
  }
};
template <>
struct Truth<kSmallEnum> {
  static bool Get(const Value& v) { return v.u8 != 0; }
};
template <>
struct Truth<kIntEnum> {
  static bool Get(const Value& v) { return v.i32 != 0; }
};
template <>
struct Truth<kOpaque> {
  static bool Get(const Value& v) { return v.i32 != 0; }
};

#define ONE(op, macro)                                            \
  case op:                                                        \
    out->line = __LINE__;                                         \
    out->lhs_text = "(++out->lhs_count, Of<L>::Get(lhs))";        \
    out->rhs_text = "(++out->rhs_count, Of<R>::Get(rhs))";        \
    if (debug) {                                                  \
      RUY_DCHECK_##macro((++out->lhs_count, Of<L>::Get(lhs)),     \
                         (++out->rhs_count, Of<R>::Get(rhs)));    \
    } else {                                                      \
      RUY_CHECK_##macro((++out->lhs_count, Of<L>::Get(lhs)),      \
                        (++out->rhs_count, Of<R>::Get(rhs)));     \
    }                                                             \
    break;

// On one line, as the above.
#define CONDITION()                                               \
  default:                                                        \
    out->line = __LINE__;                                         \
    out->lhs_text = "(++out->lhs_count, Truth<L>::Get(lhs))";     \
    if (debug) {                                                  \
      RUY_DCHECK((++out->lhs_count, Truth<L>::Get(lhs)));         \
    } else {                                                      \
      RUY_CHECK((++out->lhs_count, Truth<L>::Get(lhs)));          \
    }

template <Type L, Type R>
void RunOne(Op op, bool debug, const Value& lhs, const Value& rhs,
            Outcome* out) {
  out->file = __FILE__;
  switch (op) {
    ONE(kEq, EQ)
    ONE(kNe, NE)
    ONE(kGe, GE)
    ONE(kGt, GT)
    ONE(kLe, LE)
    ONE(kLt, LT)
    CONDITION()
  }
  out->after = true;
}

template <Type L>
Run WithLhs(Type rhs) {
  switch (rhs) {
#define R(t) \
  case t:    \
    return RunOne<L, t>;
    R(kBool) R(kI8) R(kU8) R(kI16) R(kU16) R(kI32) R(kU32) R(kI64) R(kU64)
    R(kFloat) R(kDouble)
#undef R
    default: return nullptr;
  }
}

}  // namespace

Run Get(Type lhs, Type rhs) {
  if (lhs >= kNumArithmetic || rhs >= kNumArithmetic) {
    if (lhs != rhs) return nullptr;
    switch (lhs) {
      case kPointer: return RunOne<kPointer, kPointer>;
      case kSmallEnum: return RunOne<kSmallEnum, kSmallEnum>;
      case kIntEnum: return RunOne<kIntEnum, kIntEnum>;
      default: return RunOne<kOpaque, kOpaque>;
    }
  }
  switch (lhs) {
#define L(t) \
  case t:    \
    return WithLhs<t>(rhs);
    L(kBool) L(kI8) L(kU8) L(kI16) L(kU16) L(kI32) L(kU32) L(kI64) L(kU64)
    L(kFloat) L(kDouble)
#undef L
    default: return nullptr;
  }
}

}  // namespace VARIANT_NS
}  // namespace assertions
