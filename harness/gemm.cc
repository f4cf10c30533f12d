#include "gemm.h"

#include <limits>

namespace gemm {

const Combo kCombos[kNumCombos] = {
    {I8, I8, I32, I32},  {U8, U8, I32, I32},  {I8, U8, I32, I32},
    {U8, I8, I32, I32},  {I8, I16, I32, I32}, {I16, I8, I32, I32},
    {U8, U8, I32, U8},   {I8, I8, I32, I8},   {I8, U8, I32, I8},
    {U8, U8, I32, I16},  {I8, I8, I32, I16},  {I8, I8, I32, U8},
    {I8, I16, I32, I16}, {I16, I8, I32, I16}, {F32, F32, F32, F32},
    {F64, F32, F64, F32}, {F32, F64, F64, F64}, {F64, F64, F64, F64},
};

const char* Name(DT t) {
  static const char* n[] = {"u8", "i8", "i16", "i32", "f32", "f64"};
  return n[t];
}

std::int64_t Lowest(DT t) {
  static const std::int64_t v[] = {0, -128, -32768, -2147483648LL};
  return v[t];
}
std::int64_t Highest(DT t) {
  static const std::int64_t v[] = {255, 127, 32767, 2147483647LL};
  return v[t];
}

#define COMBOS(X)                                                             \
  X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) \
  X(14) X(15) X(16) X(17)
#define DECL(i)                                   \
  void Mul##i(const MulArgs&, ruy::Context*);     \
  void ReferenceMul##i(const MulArgs&);
COMBOS(DECL)

void Mul(const MulArgs& a, ruy::Context* context) {
#define REF(i) Mul##i,
  static void (*const f[])(const MulArgs&, ruy::Context*) = {COMBOS(REF)};
  f[a.combo](a, context);
}

void ReferenceMul(const MulArgs& a) {
#define REFR(i) ReferenceMul##i,
  static void (*const f[])(const MulArgs&) = {COMBOS(REFR)};
  f[a.combo](a);
}

}  // namespace gemm
