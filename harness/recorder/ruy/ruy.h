// Takes the place of ruy/ruy.h where a program under test is to have its
// multiplications recorded instead of done.
#ifndef VERIF_RECORDER_RUY_RUY_H_
#define VERIF_RECORDER_RUY_RUY_H_

#include <cstdint>
#include <vector>

#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/path.h"

namespace recorder {

struct Operand {
  int type = 0;  // size in bytes; negative if unsigned; 100 + size if float
  int rows = 0, cols = 0, stride = 0;
  bool row_major = false;
  double zero_point = 0;
  int cache_policy = 0;
};

struct Multiplication {
  Operand lhs, rhs, dst;
  int threads = 0, paths = 0;
  bool plain = true;  // default parameters
  double sum = 0;     // of all operand elements
};

// Defined by the check.
extern std::vector<Multiplication>* list;

template <typename T>
Operand Describe(const ruy::Matrix<T>& m) {
  Operand o;
  const int size = static_cast<int>(sizeof(T));
  o.type = std::is_floating_point<T>::value ? 100 + size
           : std::is_signed<T>::value       ? size
                                            : -size;
  o.rows = m.layout().rows();
  o.cols = m.layout().cols();
  o.stride = m.layout().stride();
  o.row_major = m.layout().order() == ruy::Order::kRowMajor;
  o.zero_point = static_cast<double>(m.zero_point());
  o.cache_policy = static_cast<int>(m.cache_policy());
  return o;
}

template <typename T>
double Sum(const ruy::Matrix<T>& m) {
  double sum = 0;
  for (int i = 0; i < m.layout().rows(); ++i) {
    for (int j = 0; j < m.layout().cols(); ++j) {
      const std::int64_t at =
          m.layout().order() == ruy::Order::kRowMajor
              ? static_cast<std::int64_t>(i) * m.layout().stride() + j
              : static_cast<std::int64_t>(j) * m.layout().stride() + i;
      sum += static_cast<double>(m.data()[at]);
    }
  }
  return sum;
}

}  // namespace recorder

namespace ruy {

template <Path CompiledPaths, typename LhsScalar, typename RhsScalar,
          typename AccumScalar, typename DstScalar>
void Mul(const Matrix<LhsScalar>& lhs, const Matrix<RhsScalar>& rhs,
         const MulParams<AccumScalar, DstScalar>& mul_params, Context* context,
         Matrix<DstScalar>* dst) {
  recorder::Multiplication m;
  m.lhs = recorder::Describe(lhs);
  m.rhs = recorder::Describe(rhs);
  m.dst = recorder::Describe(*dst);
  m.threads = context->max_num_threads();
  m.paths = static_cast<int>(get_ctx(context)->GetRuntimeEnabledPaths());
  m.plain = mul_params.bias() == nullptr &&
            std::is_same<AccumScalar,
                         typename std::conditional<
                             std::is_floating_point<DstScalar>::value,
                             DstScalar, std::int32_t>::type>::value;
  // The whole extent of each matrix is used, as a multiplication would.
  m.sum = recorder::Sum(lhs) + recorder::Sum(rhs);
  for (int i = 0; i < dst->layout().rows(); ++i) {
    for (int j = 0; j < dst->layout().cols(); ++j) {
      const std::int64_t at =
          dst->layout().order() == Order::kRowMajor
              ? static_cast<std::int64_t>(i) * dst->layout().stride() + j
              : static_cast<std::int64_t>(j) * dst->layout().stride() + i;
      dst->data()[at] = static_cast<DstScalar>(1);
    }
  }
  recorder::list->push_back(m);
}

template <typename LhsScalar, typename RhsScalar, typename AccumScalar,
          typename DstScalar>
void Mul(const Matrix<LhsScalar>& lhs, const Matrix<RhsScalar>& rhs,
         const MulParams<AccumScalar, DstScalar>& mul_params, Context* context,
         Matrix<DstScalar>* dst) {
  Mul<kDefaultPaths>(lhs, rhs, mul_params, context, dst);
}

}  // namespace ruy

#endif  // VERIF_RECORDER_RUY_RUY_H_
