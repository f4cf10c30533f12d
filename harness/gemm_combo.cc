// Compiled once per type combination, with COMBO, LHS, RHS, ACC, DST defined.
#include <cstdint>

#include "gemm.h"
#include "ruy/reference_mul.h"
#include "ruy/ruy.h"

namespace gemm {
namespace {

using u8 = std::uint8_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using f32 = float;
using f64 = double;

template <typename T>
ruy::Matrix<T> ToMatrix(const MatArg& m) {
  ruy::Matrix<T> r;
  r.mutable_layout()->set_rows(m.rows);
  r.mutable_layout()->set_cols(m.cols);
  r.mutable_layout()->set_stride(m.stride);
  r.mutable_layout()->set_order(m.order);
  if (m.read_only) {
    r.set_data(static_cast<const T*>(m.data));
  } else {
    r.set_data(static_cast<T*>(m.data));
  }
  r.set_zero_point(static_cast<T>(m.zero_point));
  r.set_cache_policy(m.cache_policy);
  return r;
}

template <typename Acc, typename Dst>
struct Params {
  // Floating point.
  static void Fill(const MulArgs& a, ruy::MulParams<Acc, Dst>* p) {
    if (a.set_clamp) {
      p->set_clamp_min(static_cast<Dst>(a.fclamp_min));
      p->set_clamp_max(static_cast<Dst>(a.fclamp_max));
    }
  }
};
template <typename Dst>
struct Params<i32, Dst> {
  static void Fill(const MulArgs& a, ruy::MulParams<i32, Dst>* p) {
    if (a.perchannel) {
      p->set_multiplier_fixedpoint_perchannel(a.multipliers);
      p->set_multiplier_exponent_perchannel(a.exponents);
    } else {
      p->set_multiplier_fixedpoint(a.multiplier);
      p->set_multiplier_exponent(a.exponent);
    }
    if (a.set_clamp) {
      p->set_clamp_min(static_cast<Dst>(a.clamp_min));
      p->set_clamp_max(static_cast<Dst>(a.clamp_max));
    }
  }
};
template <>
struct Params<i32, i32> {
  static void Fill(const MulArgs&, ruy::MulParams<i32, i32>*) {}
};

ruy::MulParams<ACC, DST> ToParams(const MulArgs& a) {
  ruy::MulParams<ACC, DST> p;
  if (a.bias) p.set_bias(static_cast<const ACC*>(a.bias));
  Params<ACC, DST>::Fill(a, &p);
  p.set_channel_dimension(a.channel);
  if (a.rounding) p.set_perchannel_buffers_capacity_rounding(a.rounding);
  return p;
}

}  // namespace

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

void CAT(Mul, COMBO)(const MulArgs& a, ruy::Context* context) {
  ruy::Matrix<LHS> lhs = ToMatrix<LHS>(a.lhs);
  ruy::Matrix<RHS> rhs = ToMatrix<RHS>(a.rhs);
  ruy::Matrix<DST> dst = ToMatrix<DST>(a.dst);
  ruy::MulParams<ACC, DST> p = ToParams(a);
  ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, p, context, &dst);
}

void CAT(ReferenceMul, COMBO)(const MulArgs& a) {
  ruy::Matrix<LHS> lhs = ToMatrix<LHS>(a.lhs);
  ruy::Matrix<RHS> rhs = ToMatrix<RHS>(a.rhs);
  ruy::Matrix<DST> dst = ToMatrix<DST>(a.dst);
  ruy::MulParams<ACC, DST> p = ToParams(a);
  ruy::ReferenceMul(lhs, rhs, p, &dst);
}

}  // namespace gemm
