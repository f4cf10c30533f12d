// Stand-in for the cpuinfo library: the CPU description is chosen by the test
// case. Defaults to the features of the real CPU and typical cache sizes.
#ifndef VERIF_FAKECPU_H_
#define VERIF_FAKECPU_H_

#include <cstdint>
#include <string>
#include <vector>

namespace fakecpu {

enum Feature {
  kSse42 = 1 << 0,
  kAvx = 1 << 1,
  kAvx2 = 1 << 2,
  kFma3 = 1 << 3,
  kAvx512f = 1 << 4,
  kAvx512dq = 1 << 5,
  kAvx512cd = 1 << 6,
  kAvx512bw = 1 << 7,
  kAvx512vl = 1 << 8,
  kVnni = 1 << 9,
};
constexpr int kNumFeatures = 10;
constexpr int kAllFeatures = (1 << kNumFeatures) - 1;

struct Cache {
  bool present = false;
  std::uint32_t size = 0;
  std::uint32_t start = 0;
  std::uint32_t count = 1;
};

struct Processor {
  int core = 0;
  Cache l1, l2, l3;
};

struct Desc {
  bool init_ok = true;
  int features = 0;
  std::vector<Processor> procs;
};

// Features of the CPU the test runs on.
int HostFeatures();
// A homogeneous CPU: each core has its own L1 and L2, all share L3. A size of
// 0 means that the level is absent.
Desc Simple(int procs, std::uint32_t l1, std::uint32_t l2, std::uint32_t l3);
Desc Default();
// Takes effect for ruy contexts which have not looked at the CPU yet.
void Set(const Desc& d);
std::string ToString(const Desc& d);
// Of the present description.
void SetInitOk(bool ok);
// Kinds of cores by index, and the index of the core that runs; may be past the
// end, where the library reports none.
void SetUarchs(const std::vector<int>& kinds, std::uint32_t current);
// How often the calling thread asked which core it is on.
long CoreQueries();
// Successful initializations minus deinitializations.
int OpenCount();

}  // namespace fakecpu

#endif
