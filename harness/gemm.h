// Type-erased access to ruy's public multiplication interface, and exact
// oracles for it.
#ifndef VERIF_GEMM_H_
#define VERIF_GEMM_H_

#include <cstdint>
#include <string>
#include <vector>

#include "ruy/context.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/path.h"

namespace gemm {

enum DT : int { U8, I8, I16, I32, F32, F64 };
inline int SizeOf(DT t) {
  static const int s[] = {1, 1, 2, 4, 4, 8};
  return s[t];
}
inline bool IsFloat(DT t) { return t >= F32; }
const char* Name(DT t);
std::int64_t Lowest(DT t);   // integer types
std::int64_t Highest(DT t);  // integer types

struct Combo {
  DT lhs, rhs, acc, dst;
};

// Instantiated type combinations.
constexpr int kNumCombos = 18;
extern const Combo kCombos[kNumCombos];
enum ComboId {
  kI8I8I32, kU8U8I32, kI8U8I32, kU8I8I32, kI8I16I32, kI16I8I32,   // raw
  kU8U8U8, kI8I8I8, kI8U8I8, kU8U8I16, kI8I8I16, kI8I8U8, kI8I16I16,
  kI16I8I16,                                                      // quantized
  kF32, kF64F32, kF32F64, kF64,                                   // float
};
inline bool IsRaw(int combo) { return combo <= kI16I8I32; }
inline bool IsQuant(int combo) { return combo > kI16I8I32 && combo < kF32; }
inline bool IsFloatCombo(int combo) { return combo >= kF32; }
inline bool Has16(int combo) {
  return kCombos[combo].lhs == I16 || kCombos[combo].rhs == I16;
}

struct MatArg {
  void* data = nullptr;
  bool read_only = true;
  int rows = 0, cols = 0, stride = 0;
  ruy::Order order = ruy::Order::kColMajor;
  std::int32_t zero_point = 0;
  ruy::CachePolicy cache_policy = ruy::CachePolicy::kNeverCache;
  std::int64_t Index(int r, int c) const {
    return order == ruy::Order::kColMajor
               ? r + static_cast<std::int64_t>(c) * stride
               : c + static_cast<std::int64_t>(r) * stride;
  }
  // Number of elements from the first to the last entry.
  std::int64_t Extent() const { return Index(rows - 1, cols - 1) + 1; }
};

struct MulArgs {
  int combo = 0;
  MatArg lhs, rhs, dst;
  const void* bias = nullptr;
  // Multipliers; used for quantized combinations only.
  bool perchannel = false;
  std::int32_t multiplier = 0;
  int exponent = 0;
  const std::int32_t* multipliers = nullptr;
  const int* exponents = nullptr;
  // Clamp bounds; used if set_clamp, not for raw combinations.
  bool set_clamp = false;
  std::int64_t clamp_min = 0, clamp_max = 0;
  double fclamp_min = 0, fclamp_max = 0;
  ruy::ChannelDimension channel = ruy::ChannelDimension::kRow;
  int rounding = 0;  // 0: not set
};

// ruy::Mul with all code paths (including internal ones) compiled in.
void Mul(const MulArgs& a, ruy::Context* context);
// ruy::ReferenceMul.
void ReferenceMul(const MulArgs& a);

}  // namespace gemm

#endif
