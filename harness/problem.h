// Generated multiplication problems.
#ifndef VERIF_PROBLEM_H_
#define VERIF_PROBLEM_H_

#include <memory>
#include <string>
#include <vector>

#include "buffers.h"
#include "fakecpu.h"
#include "gemm.h"
#include "pbt.h"
#include "ruy/context.h"
#include "ruy/strategy_controls.h"
#include "ruy/tune.h"

namespace gemm {

// Code paths which this CPU can run, each a single bit: the portable ones, the
// internal variants, then the CPU-specific ones.
const std::vector<ruy::Path>& RunnablePaths();
inline bool IsPortable(ruy::Path p) {
  return (static_cast<int>(p) & 0xf) != 0;
}

// How a context is set up.
struct Settings {
  ruy::Path path = ruy::Path::kNone;  // kNone: detection
  int threads = 1;
  ruy::NumThreadsStrategy strategy = ruy::NumThreadsStrategy::kDefault;
  ruy::Tuning tuning = ruy::Tuning::kAuto;
  bool set_spin = false;
  float spin_ms = 0;
  std::uint32_t l1 = 32 << 10, l2 = 512 << 10, l3 = 8 << 20;

  std::string ToString() const;
  // Also sets the simulated CPU.
  std::unique_ptr<ruy::Context> Make() const;
  void ApplyTo(ruy::Context* ctx) const;
};

struct SettingsOptions {
  int max_threads = 8;
  bool multi_only = false;     // at least two threads
  bool detection = false;      // allow automatic path choice
};
Settings GenSettings(pbt::Case& c, const SettingsOptions& o = {});

struct ShapeOptions {
  std::int64_t max_macs = 600000;
  int max_dim = 300;
  int max_depth = 1500;
  bool large = false;  // half of the dimensions over their whole range
  bool deep = false;   // half of the depths over orders of magnitude
  bool elongated = false;  // one side over orders of magnitude, the other small
};

struct Problem {
  int combo = 0;
  int rows = 1, depth = 1, cols = 1;
  MulArgs args;
  buffers::Buf lhs, rhs, dst, bias, multipliers, exponents;
  // Float data are small integers, so that sums are exact.
  bool exact_float = false;
  std::vector<unsigned char> dst_initial;

  std::string ToString() const;
  int channels() const {
    return args.channel == ruy::ChannelDimension::kRow ? rows : cols;
  }
  int ChannelOf(int r, int c) const {
    return args.channel == ruy::ChannelDimension::kRow ? r : c;
  }
  const Combo& types() const { return kCombos[combo]; }
};

struct ProblemOptions {
  std::vector<int> combos;  // empty: all
  ShapeOptions shape;
  bool guard = true;      // place operands against inaccessible pages
  bool cache_policies = false;
  bool capacity_rounding = true;
  // Float fill modes.
  bool float_exact_only = false;
  bool float_denormals = false;
  // What the NEON kernels support: no lowest value in 8-bit lhs data where
  // they add two products in 16 bits, and accumulators which fit in 32 bits
  // when shifted by one more than a non-negative exponent.
  bool lhs_above_lowest = false;
  bool spare_bit = false;
};

// Shape, layouts, zero points, data, bias, multipliers, clamp.
std::unique_ptr<Problem> GenProblem(pbt::Case& c, const ProblemOptions& o);

// Pieces, for checks which build problems their own way.
int GenDim(pbt::Case& c, int max);
void GenShape(pbt::Case& c, const ShapeOptions& o, int* rows, int* depth,
              int* cols);
int GenStride(pbt::Case& c, int minimum);
std::int32_t GenZeroPoint(pbt::Case& c, DT t);
buffers::Placement GenPlacement(pbt::Case& c, bool guard, int elem_size,
                                int* offset);
// Fills n elements from a drawn mode and seed.
struct Fill {
  int mode = 0;
  std::uint64_t seed = 0;
};
Fill GenIntFill(pbt::Case& c);
void FillInts(DT t, const Fill& f, std::int64_t zero_point, void* data,
              std::int64_t n);
Fill GenFloatFill(pbt::Case& c, bool exact_only, bool denormals);
void FillFloats(DT t, const Fill& f, void* data, std::int64_t n);

std::int64_t GetInt(DT t, const void* data, std::int64_t i);
double GetFloat(DT t, const void* data, std::int64_t i);
void SetFloat(DT t, void* data, std::int64_t i, double v);

// Exact accumulators (products plus bias), row-major rows x cols.
std::vector<std::int64_t> Accumulators(const Problem& p);
// Quantization parameters for the accumulators; within the documented domain.
void GenQuantization(pbt::Case& c, Problem* p,
                     const std::vector<std::int64_t>& acc, bool spare_bit = false);

// Oracles: return "" or what is wrong with the destination.
std::string CheckRaw(const Problem& p, const std::vector<std::int64_t>& acc);
std::string CheckQuant(const Problem& p, const std::vector<std::int64_t>& acc,
                       bool portable);
// Exact rounding with ties toward plus infinity.
std::string CheckQuantExact(const Problem& p,
                            const std::vector<std::int64_t>& acc);
// `flush`: denormal operands and intermediate results may count as zero.
std::string CheckFloat(const Problem& p, bool flush = false);
// Whichever applies to the problem.
std::string CheckResult(const Problem& p, ruy::Path path);

// "" or which caller memory other than destination entries has changed since
// the snapshot.
struct Snapshot {
  std::vector<unsigned char> lhs, rhs, bias, multipliers, exponents;
};
Snapshot TakeSnapshot(const Problem& p);
std::string CheckUntouched(const Problem& p, const Snapshot& s);

// Restores the destination buffer to its initial contents.
void ResetDst(Problem* p);
// Destination entries only, row-major, packed.
std::vector<unsigned char> DstEntries(const Problem& p);
std::vector<unsigned char> DstEntries(const MatArg& m, DT t);
// "" or where two results differ.
std::string DiffEntries(const Problem& p, const std::vector<unsigned char>& a,
                        const std::vector<unsigned char>& b);

}  // namespace gemm

#endif
