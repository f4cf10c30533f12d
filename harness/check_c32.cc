// C32: automatic tuning follows the processor; durations keep their value.
#include <cpuinfo.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <memory>
#include <set>

#include "fakecpu.h"
#include "pbt.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/time.h"
#include "ruy/tune.h"

namespace {

bool g_virtual = false;
std::int64_t g_now = 0;  // nanoseconds

struct VirtualTime {
  explicit VirtualTime(std::int64_t at) {
    g_now = at;
    g_virtual = true;
  }
  ~VirtualTime() { g_virtual = false; }
};

}  // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!g_virtual) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
  t->tv_sec = g_now / 1000000000;
  t->tv_nsec = g_now % 1000000000;
  return 0;
}

namespace {

using ruy::Tuning;

const char* Name(Tuning t) {
  return t == Tuning::kAuto      ? "auto"
         : t == Tuning::kGeneric ? "generic"
         : t == Tuning::kA55ish  ? "A55ish"
         : t == Tuning::kX1      ? "X1"
                                 : "?";
}

constexpr std::int64_t kExpiry = 250000000;

std::int64_t GenAdvance(pbt::Case& c) {
  switch (c.draw(5)) {
    case 0:
      return 0;
    case 1:
      return c.range(0, kExpiry);
    case 2:
      return kExpiry + c.range(-2, 2);
    case 3:
      return c.range(kExpiry, 3 * kExpiry);
    default:
      return c.range(0, c.flag() ? 5000000000LL : 10000000LL * 1000000000LL);
  }
}

struct Moment {
  std::int64_t from;
  Tuning tuning;
};

void TuningProp(pbt::Case& c) {
  static const struct {
    int uarch;
    Tuning tuning;
  } kinds[] = {
      {cpuinfo_uarch_unknown, Tuning::kGeneric},
      {cpuinfo_uarch_cortex_a53, Tuning::kA55ish},
      {cpuinfo_uarch_cortex_x1, Tuning::kX1},
      {cpuinfo_uarch_cortex_a55r0, Tuning::kA55ish},
      {cpuinfo_uarch_cortex_a55, Tuning::kA55ish},
      {cpuinfo_uarch_cortex_a57, Tuning::kGeneric},
      {cpuinfo_uarch_cortex_a76, Tuning::kGeneric},
      {cpuinfo_uarch_cortex_a35, Tuning::kGeneric},
      {cpuinfo_uarch_cortex_a78, Tuning::kGeneric},
      {cpuinfo_uarch_sky_lake, Tuning::kGeneric},
  };
  std::string text;
  const bool known = !c.chance(1, 12);
  fakecpu::SetInitOk(known);
  if (!known) text += " unknown CPU";
  // A CPU of one to three kinds of cores.
  const int n = static_cast<int>(c.range(1, 3));
  std::vector<int> uarchs;
  std::vector<Tuning> tunings;
  for (int i = 0; i < n; ++i) {
    const int k = static_cast<int>(c.draw(sizeof kinds / sizeof kinds[0]));
    uarchs.push_back(kinds[k].uarch);
    tunings.push_back(known ? kinds[k].tuning : Tuning::kGeneric);
    text += pbt::Format(" %s", Name(tunings.back()));
  }
  tunings.push_back(Tuning::kGeneric);  // past the end
  VirtualTime time(c.flag() ? 0 : c.range(0, 1000000000000000LL));
  std::vector<Moment> past;
  auto move = [&](int to) {
    fakecpu::SetUarchs(uarchs, to);
    past.push_back({g_now, tunings[to]});
  };
  move(static_cast<int>(c.draw(n)));
  ruy::CpuInfo info;
  ruy::TuningResolver resolvers[2];
  ruy::Context context;
  // The third one is that of a context.
  Tuning set[3] = {Tuning::kAuto, Tuning::kAuto, Tuning::kAuto};
  bool resolved[3] = {false, false, false};
  // When the processor was last asked, if ever.
  std::int64_t asked[3] = {-1, -1, -1};
  bool later = false;
  const int steps = static_cast<int>(c.range(1, 16));
  for (int i = 0; i < steps; ++i) {
    const int which = static_cast<int>(c.draw(3));
    switch (c.weighted({4, 2, 2, 1})) {
      case 0: {
        const long queries = fakecpu::CoreQueries();
        const Tuning got = which < 2
                               ? resolvers[which].Resolve(&info)
                               : ruy::get_ctx(&context)->GetMainThreadTuning();
        text += pbt::Format(" %d:%s", which, Name(got));
        c.describe("%s", text.c_str());
        if (fakecpu::CoreQueries() != queries) {
          if (asked[which] >= 0 && g_now - asked[which] < kExpiry) {
            c.fail("the processor was asked again after %.9g ms",
                   (g_now - asked[which]) * 1e-6);
          }
          asked[which] = g_now;
        }
        if (set[which] != Tuning::kAuto) {
          if (got != set[which]) c.fail("set to %s", Name(set[which]));
          break;
        }
        std::set<Tuning> possible = {past.back().tuning};
        if (resolved[which]) {
          for (std::size_t j = 0; j + 1 < past.size(); ++j) {
            if (past[j + 1].from >= g_now - kExpiry) {
              possible.insert(past[j].tuning);
            }
          }
          if (past.size() > 1) later = true;
        }
        if (!possible.count(got)) {
          c.fail("the processor has not been that kind within 250 ms, it is %s",
                 Name(past.back().tuning));
        }
        if (possible.size() > 1) c.label("several possible");
        resolved[which] = true;
        break;
      }
      case 1: {
        const std::int64_t by = GenAdvance(c);
        g_now += by;
        text += pbt::Format(" +%.9gms", by * 1e-6);
        break;
      }
      case 2: {
        const int to =
            c.chance(1, 10) ? n : static_cast<int>(c.draw(n));
        move(to);
        text += pbt::Format(" core %d", to);
        break;
      }
      case 3: {
        const Tuning t = c.pick<Tuning>({Tuning::kAuto, Tuning::kGeneric,
                                         Tuning::kA55ish, Tuning::kX1});
        set[which] = t;
        if (which < 2) {
          resolvers[which].SetTuning(t);
        } else {
          context.set_explicit_tuning(t);
          if (context.explicit_tuning() != t) c.fail("does not read back");
        }
        text += pbt::Format(" %d=%s", which, Name(t));
        break;
      }
    }
  }
  c.describe("%s", text.c_str());
  if (later) c.nontrivial();
}

void DurationsProp(pbt::Case& c) {
  const std::int64_t units[] = {1000000000, 1000000, 1};
  const int unit = static_cast<int>(c.draw(3));
  const std::int64_t limit = 9000000000000000000LL / units[unit];
  std::int64_t n;
  switch (c.draw(4)) {
    case 0:
      n = c.range(-20, 20);
      break;
    case 1:
      n = c.range(-1000000, 1000000);
      break;
    case 2:
      n = c.pick<std::int64_t>({limit, -limit, 1000, 999, 1001, 2147483647,
                                2147483648LL, 4294967296LL});
      break;
    default:
      n = c.range(-limit, limit);
  }
  if (n > limit || n < -limit) n = limit;
  c.describe("%lld units of %lld ns", static_cast<long long>(n),
             static_cast<long long>(units[unit]));
  auto convert = [&](auto v) {
    return unit == 0   ? ruy::DurationFromSeconds(v)
           : unit == 1 ? ruy::DurationFromMilliseconds(v)
                       : ruy::DurationFromNanoseconds(v);
  };
  const std::int64_t want = n * units[unit];
  const ruy::Duration exact = convert(n);
  if (exact.count() != want) c.fail("integer: %lld ns", (long long)exact.count());
  if (ruy::ToInt64Nanoseconds(exact) != want) c.fail("back to nanoseconds");
  // A fraction in floating point, off by no more than its rounding.
  const double fraction = c.range(0, 1023) / 1024.0;
  const double v = static_cast<double>(n) + fraction;
  const double ns = v * static_cast<double>(units[unit]);
  if (std::fabs(ns) < 9e18) {
    const double got = static_cast<double>(convert(v).count());
    if (std::fabs(got - ns) > 1 + std::fabs(ns) * 1e-15) {
      c.fail("%.17g: %.17g ns", v, got);
    }
  }
  const double s = static_cast<double>(want) * 1e-9;
  if (std::fabs(ruy::ToFloatSeconds(exact) - s) > std::fabs(s) * 1e-6) {
    c.fail("%g seconds", ruy::ToFloatSeconds(exact));
  }
  if (std::fabs(ruy::ToFloatMilliseconds(exact) - s * 1e3) >
      std::fabs(s) * 1e3 * 1e-6) {
    c.fail("%g milliseconds", ruy::ToFloatMilliseconds(exact));
  }
  if (want >= 0) {
    VirtualTime time(want);
    if (ruy::ToInt64Nanoseconds(ruy::CoarseNow().time_since_epoch()) != want) {
      c.fail("coarse time");
    }
    if (ruy::ToInt64Nanoseconds(ruy::Now().time_since_epoch()) != want) {
      c.fail("time");
    }
  }
  if (n) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C32";
  s.rule =
      "Generated histories of 1-16 steps: time passing (virtual, from 0 to "
      "months, often right around 250 ms), moves between up to three kinds of "
      "cores, explicit tunings set and unset, and resolutions by two resolvers "
      "and a context; each answer is the tuning set, or that of a core the "
      "thread was on within the last 250 ms, at the first time exactly the "
      "present one, and none asks about the processor again within 250 ms "
      "(non-trivial: a later automatic resolution after a move). "
      "Generated durations in three units against integer arithmetic.";
  s.parts = {{"tuning", TuningProp, 16000000, 300000000},
             {"durations", DurationsProp, 8000000, 100000000}};
  return pbt::Main(argc, argv, s);
}
