// The assertion macros applied to operands of many types; built twice, with
// and without NDEBUG.
#ifndef VERIF_ASSERTIONS_H_
#define VERIF_ASSERTIONS_H_

#include <cstdint>
#include <string>

namespace assertions {

enum Type {
  kBool, kI8, kU8, kI16, kU16, kI32, kU32, kI64, kU64, kFloat, kDouble,
  kNumArithmetic,
  // Only with operands of the same type.
  kPointer = kNumArithmetic, kSmallEnum, kIntEnum, kOpaque,
  kNumTypes
};

union Value {
  bool b;
  std::int8_t i8;
  std::uint8_t u8;
  std::int16_t i16;
  std::uint16_t u16;
  std::int32_t i32;
  std::uint32_t u32;
  std::int64_t i64;
  std::uint64_t u64;
  float f;
  double d;
  const char* p;
};

enum Op { kEq, kNe, kGe, kGt, kLe, kLt, kCondition, kNumOps };

struct Outcome {
  int lhs_count = 0, rhs_count = 0;  // evaluations
  bool after = false;                // the next statement was reached
  const char* file = nullptr;
  int line = 0;
  const char* lhs_text = nullptr;
  const char* rhs_text = nullptr;
};

// Runs one macro. `rhs` is not used for kCondition. Written to *out before a
// possible abort.
using Run = void (*)(Op op, bool debug, const Value& lhs, const Value& rhs,
                     Outcome* out);
// Null for types which cannot be compared.
namespace usual { Run Get(Type lhs, Type rhs); }
namespace ndebug { Run Get(Type lhs, Type rhs); }

}  // namespace assertions

#endif
