#include "path_sets.h"

#include "ruy/ruy.h"

namespace gemm {
namespace {

constexpr int kSets[kNumPathSets] = {
    static_cast<int>(ruy::kAllPathsIncludingInternalVariants),
    static_cast<int>(ruy::kAllPaths),
    static_cast<int>(ruy::kDefaultPaths),
    0x1, 0x11, 0x21, 0x41, 0x31, 0x51, 0x61, 0x71, 0x7};

template <typename T>
ruy::Matrix<T> ToMatrix(const MatArg& m) {
  ruy::Matrix<T> r;
  r.mutable_layout()->set_rows(m.rows);
  r.mutable_layout()->set_cols(m.cols);
  r.mutable_layout()->set_stride(m.stride);
  r.mutable_layout()->set_order(m.order);
  r.set_data(static_cast<T*>(m.data));
  r.set_zero_point(static_cast<T>(m.zero_point));
  r.set_cache_policy(m.cache_policy);
  return r;
}

template <int Set, typename Src, typename Acc, typename Dst>
void Run(const MulArgs& a, const ruy::MulParams<Acc, Dst>& p,
         ruy::Context* context) {
  ruy::Matrix<Src> lhs = ToMatrix<Src>(a.lhs);
  ruy::Matrix<Src> rhs = ToMatrix<Src>(a.rhs);
  ruy::Matrix<Dst> dst = ToMatrix<Dst>(a.dst);
  ruy::Mul<static_cast<ruy::Path>(kSets[Set])>(lhs, rhs, p, context, &dst);
}

template <int Set>
void One(const MulArgs& a, ruy::Context* context) {
  if (a.combo == kF32) {
    ruy::MulParams<float, float> p;
    if (a.bias) p.set_bias(static_cast<const float*>(a.bias));
    if (a.set_clamp) {
      p.set_clamp_min(static_cast<float>(a.fclamp_min));
      p.set_clamp_max(static_cast<float>(a.fclamp_max));
    }
    p.set_channel_dimension(a.channel);
    if (a.rounding) p.set_perchannel_buffers_capacity_rounding(a.rounding);
    Run<Set, float>(a, p, context);
  } else if (a.combo == kI8I8I8) {
    ruy::MulParams<std::int32_t, std::int8_t> p;
    if (a.bias) p.set_bias(static_cast<const std::int32_t*>(a.bias));
    if (a.perchannel) {
      p.set_multiplier_fixedpoint_perchannel(a.multipliers);
      p.set_multiplier_exponent_perchannel(a.exponents);
    } else {
      p.set_multiplier_fixedpoint(a.multiplier);
      p.set_multiplier_exponent(a.exponent);
    }
    if (a.set_clamp) {
      p.set_clamp_min(static_cast<std::int8_t>(a.clamp_min));
      p.set_clamp_max(static_cast<std::int8_t>(a.clamp_max));
    }
    p.set_channel_dimension(a.channel);
    if (a.rounding) p.set_perchannel_buffers_capacity_rounding(a.rounding);
    Run<Set, std::int8_t>(a, p, context);
  } else {
    ruy::MulParams<std::int32_t, std::int32_t> p;
    if (a.bias) p.set_bias(static_cast<const std::int32_t*>(a.bias));
    p.set_channel_dimension(a.channel);
    if (a.rounding) p.set_perchannel_buffers_capacity_rounding(a.rounding);
    Run<Set, std::int8_t>(a, p, context);
  }
}

}  // namespace

ruy::Path PathSet(int set) { return static_cast<ruy::Path>(kSets[set]); }

void MulWithPathSet(int set, const MulArgs& a, ruy::Context* context) {
  static void (*const f[])(const MulArgs&, ruy::Context*) = {
      One<0>, One<1>, One<2>, One<3>, One<4>,  One<5>,
      One<6>, One<7>, One<8>, One<9>, One<10>, One<11>};
  f[set](a, context);
}

}  // namespace gemm
