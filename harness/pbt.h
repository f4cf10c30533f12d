// A small property-based testing engine.
//
// A test case is a sequence of recorded integer choices. Generation draws them
// from a seeded generator, replay feeds recorded ones back, shrinking edits the
// sequence. Choice 0 is always the simplest alternative. All randomness of a
// case must come from Case.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

// SplitMix64; used for bulk data derived from a drawn seed.
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(below(hi - lo + 1));
  }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

std::uint64_t Mix(std::uint64_t a, std::uint64_t b);

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

class Case {
 public:
  // Generating.
  explicit Case(std::uint64_t seed) : rng_(seed), replay_(false) {}
  // Replaying.
  explicit Case(std::vector<std::uint64_t> choices)
      : rng_(0), replay_(true), input_(std::move(choices)) {}

  // Uniform in [0, n).
  std::uint64_t draw(std::uint64_t n);
  // As draw, but while generating picks 0 most of the time: probability
  // num/den of anything else.
  std::uint64_t rarely(std::uint64_t n, int num, int den);
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(draw(hi - lo + 1));
  }
  // True with probability num/den; shrinks to false.
  bool chance(int num, int den) {
    return draw(den) >= static_cast<std::uint64_t>(den - num);
  }
  bool flag() { return draw(2) != 0; }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return l.begin()[draw(l.size())];
  }
  template <typename T>
  const T& pick(const std::vector<T>& l) {
    return l[draw(l.size())];
  }
  // Weighted choice of an index; shrinks to index 0.
  int weighted(std::initializer_list<int> weights);
  std::uint64_t seed() { return draw(1u << 24); }
  // Lets code outside (e.g. a scheduler) see whether recorded choices remain.
  bool replaying() const { return replay_; }

  void label(const std::string& s);
  void nontrivial() { nontrivial_ = true; }
  void describe(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));
  [[noreturn]] void discard() { throw Discard(); }

  const std::vector<std::uint64_t>& choices() const { return used_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::string& description() const { return text_; }
  const std::vector<std::string>& labels() const { return labels_; }

 private:
  std::uint64_t record(std::uint64_t v);
  Rng rng_;
  bool replay_;
  std::vector<std::uint64_t> input_;
  std::size_t pos_ = 0;
  std::vector<std::uint64_t> used_;
  bool nontrivial_ = false;
  std::string text_;
  std::vector<std::string> labels_;
};

// A length of a long history, spread over the orders of magnitude.
std::int64_t GenLength(Case& c, std::int64_t lo, std::int64_t hi);

struct Part {
  std::string name;
  std::function<void(Case&)> prop;
  long quick_cases;
  long thorough_cases;
};

struct Spec {
  std::string id;
  std::string rule;
  std::string level = "exploration";
  std::vector<std::string> assumptions;
  std::vector<Part> parts;
  // The run is an error, not a pass, if fewer cases than this fraction of the
  // planned ones were run when the time cap was reached.
  double min_fraction = 0.1;
  double quick_cap_s = 330;
  double thorough_cap_s = 3000;
  int workers = 8;
  double case_cpu_limit_s = 60;
  // Exit code of a case process which means "race report", 0 if none.
  int report_exit_code = 0;
  // Exit status by which a case says that it cannot be evaluated: an error.
  int error_exit_code = 0;
  // Known findings: a failing case for which this returns a non-empty text is
  // reported as KNOWN-FINDING and not as a violation.
  std::function<std::string(const std::string& message)> known;
};

int Main(int argc, char** argv, const Spec& spec);

std::string Format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
double NowSeconds();

// Runs f in a forked child, and tells how it ended.
struct ChildResult {
  enum Kind { kExit, kSignal, kHang } kind;
  int code;            // exit code or signal number
  std::string output;  // what it wrote to stderr (truncated)
};
ChildResult RunInChild(const std::function<int()>& f,
                       double cpu_limit_s = 30);

}  // namespace pbt

#endif  // VERIF_PBT_H_
