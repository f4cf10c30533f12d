#include "pbt.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <sstream>

namespace pbt {

std::uint64_t Mix(std::uint64_t a, std::uint64_t b) {
  Rng r(a * 0xff51afd7ed558ccdull + b);
  r.next();
  return r.next();
}

static std::uint64_t HashStr(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

static std::string VFormat(const char* fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}

std::string Format(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = VFormat(fmt, ap);
  va_end(ap);
  return s;
}

double NowSeconds() {
  // CLOCK_BOOTTIME differs from what ruy uses, should that one be simulated.
  struct timespec ts;
  clock_gettime(CLOCK_BOOTTIME, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void (*g_on_choice)(std::uint64_t) = nullptr;

std::uint64_t Case::record(std::uint64_t v) {
  used_.push_back(v);
  if (g_on_choice) g_on_choice(v);
  return v;
}

std::uint64_t Case::draw(std::uint64_t n) {
  if (n == 0) n = 1;
  if (replay_) {
    std::uint64_t v = pos_ < input_.size() ? input_[pos_] : 0;
    ++pos_;
    return record(v < n ? v : n - 1);
  }
  return record(rng_.below(n));
}

std::uint64_t Case::rarely(std::uint64_t n, int num, int den) {
  if (n <= 1) return draw(1);
  if (replay_) return draw(n);
  if (rng_.below(den) >= static_cast<std::uint64_t>(num)) return record(0);
  return record(1 + rng_.below(n - 1));
}

int Case::weighted(std::initializer_list<int> weights) {
  std::uint64_t total = 0;
  for (int w : weights) total += w;
  // The recorded choice is the index itself so that it shrinks well.
  if (replay_) return static_cast<int>(draw(weights.size()));
  std::uint64_t v = rng_.below(total);
  int i = 0;
  for (int w : weights) {
    if (v < static_cast<std::uint64_t>(w)) break;
    v -= w;
    ++i;
  }
  return static_cast<int>(record(i));
}

void Case::label(const std::string& s) { labels_.push_back(s); }

static char* g_text_mirror = nullptr;
static std::size_t g_text_mirror_size = 0;

void Case::describe(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (text_.size() < 3000) {
    std::string t = VFormat(fmt, ap);
    // A continuation of the present text replaces it.
    if (t.compare(0, text_.size(), text_) == 0) {
      text_ = std::move(t);
    } else {
      text_ += "; " + t;
    }
    if (text_.size() > 3000) text_.resize(3000);
    if (g_text_mirror) {
      snprintf(g_text_mirror, g_text_mirror_size, "%s", text_.c_str());
    }
  }
  va_end(ap);
}

void Case::fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = VFormat(fmt, ap);
  va_end(ap);
  throw Failure(s);
}

namespace {

constexpr int kMaxLabels = 160;
constexpr int kMaxWorkers = 16;
constexpr int kMaxChoices = 1 << 16;

enum Status : std::uint8_t { kNone = 0, kOk, kDiscard, kFail };

struct LabelSlot {
  char name[56];
  long count;
};

struct WorkerArea {
  std::atomic<long> current;  // case index being run, -1 if none
  std::atomic<long> failed;   // failed case index, -1 if none
  char message[4096];
  LabelSlot labels[kMaxLabels];
  int nsamples;
  char samples[3][3500];
};

struct Shared {
  std::atomic<long> next;
  std::atomic<int> stop;
  WorkerArea w[kMaxWorkers];
};

struct CandArea {
  int status;
  char message[4096];
  char text[3500];
  int nchoices;
  std::uint64_t choices[kMaxChoices];
};

template <typename T>
T* SharedAlloc(std::size_t count = 1) {
  void* p = mmap(nullptr, sizeof(T) * count, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<T*>(p);
}

void CopyStr(char* dst, std::size_t cap, const std::string& s) {
  std::size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// CPU seconds used by a process (all threads).
double CpuSeconds(pid_t pid) {
  std::ifstream f(Format("/proc/%d/stat", static_cast<int>(pid)));
  std::string s;
  std::getline(f, s);
  std::size_t p = s.rfind(')');
  if (p == std::string::npos) return 0;
  std::istringstream is(s.substr(p + 2));
  std::string tok;
  double ut = 0, st = 0;
  for (int i = 3; i <= 15 && (is >> tok); ++i) {
    if (i == 14) ut = atof(tok.c_str());
    if (i == 15) st = atof(tok.c_str());
  }
  return (ut + st) / sysconf(_SC_CLK_TCK);
}

// True if some thread of the process is running or runnable, or in an
// uninterruptible wait.
bool AnyRunnable(pid_t pid) {
  DIR* d = opendir(Format("/proc/%d/task", static_cast<int>(pid)).c_str());
  if (!d) return true;
  bool any = false;
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    std::ifstream f(Format("/proc/%d/task/%s/stat", static_cast<int>(pid),
                           e->d_name));
    std::string s;
    std::getline(f, s);
    std::size_t p = s.rfind(')');
    if (p == std::string::npos || p + 2 >= s.size()) continue;
    char st = s[p + 2];
    if (st == 'R' || st == 'D') any = true;
  }
  closedir(d);
  return any;
}

// Decides from CPU use, not from the clock, whether a process is stuck: it
// either burns far more CPU than a case can need, or is asleep in all threads
// for many consecutive samples without using any CPU.
struct HangDetector {
  double cpu_limit;
  double last_poll = 0;
  double cpu0 = -1;
  double last_cpu = -1;
  int idle_samples = 0;
  explicit HangDetector(double limit) : cpu_limit(limit) {}
  void Reset() {
    cpu0 = -1;
    last_cpu = -1;
    idle_samples = 0;
  }
  bool Poll(pid_t pid) {
    double now = NowSeconds();
    if (now - last_poll < 0.5) return false;
    last_poll = now;
    double cpu = CpuSeconds(pid);
    if (cpu0 < 0) {
      cpu0 = last_cpu = cpu;
      return false;
    }
    if (cpu - cpu0 > cpu_limit) return true;
    if (cpu - last_cpu < 0.015 && !AnyRunnable(pid)) {
      ++idle_samples;
    } else {
      idle_samples = 0;
    }
    last_cpu = cpu;
    return idle_samples >= 50;  // about 25 s
  }
};

void ChildInit() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

std::uint64_t CaseSeed(std::uint64_t seed, const Spec& spec, long index) {
  return Mix(Mix(seed, HashStr(spec.id)), index);
}

struct Plan {
  std::vector<long> counts;  // per part
  long total = 0;
  // Interleaves the parts so that a time cap cuts all of them evenly.
  int PartOf(long index) const {
    return part_of[index];
  }
  std::vector<std::uint8_t> part_of;
};

Plan MakePlan(const Spec& spec, bool thorough, double scale, int only_part) {
  Plan p;
  for (std::size_t i = 0; i < spec.parts.size(); ++i) {
    long n = thorough ? spec.parts[i].thorough_cases : spec.parts[i].quick_cases;
    n = static_cast<long>(n * scale);
    if (n < 1) n = 1;
    if (only_part >= 0 && static_cast<int>(i) != only_part) n = 0;
    p.counts.push_back(n);
    p.total += n;
  }
  std::vector<double> acc(spec.parts.size(), 0.0);
  for (long k = 0; k < p.total; ++k) {
    int b = 0;
    for (std::size_t i = 0; i < acc.size(); ++i) {
      acc[i] += static_cast<double>(p.counts[i]) / p.total;
      if (acc[i] > acc[b]) b = i;
    }
    acc[b] -= 1;
    p.part_of.push_back(b);
  }
  return p;
}

// Runs one case in this process.
Status RunOne(const Part& part, Case* c, std::string* message) {
  try {
    part.prop(*c);
    return kOk;
  } catch (const Failure& f) {
    *message = f.what();
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    *message = std::string("exception: ") + e.what();
    return kFail;
  }
}

[[noreturn]] void WorkerMain(const Spec& spec, const Plan& plan,
                             std::uint64_t seed, Shared* sh, int wi,
                             std::uint8_t* status, std::uint64_t* hashes) {
  ChildInit();
  WorkerArea& w = sh->w[wi];
  // Quiet: expected assertion messages would flood the log.
  if (!getenv("PBT_VERBOSE")) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
  }
  while (!sh->stop.load()) {
    long i = sh->next.fetch_add(1);
    if (i >= plan.total) break;
    w.current.store(i);
    Case c(CaseSeed(seed, spec, i));
    std::string msg;
    const Part& part = spec.parts[plan.PartOf(i)];
    Status st = RunOne(part, &c, &msg);
    status[i] = st;
    if (st == kFail) {
      CopyStr(w.message, sizeof w.message, msg);
      w.failed.store(i);
      w.current.store(-1);
      sh->stop.store(1);
      break;
    }
    if (st == kOk) {
      if (c.is_nontrivial()) {
        std::uint64_t h = 0x1234 + plan.PartOf(i);
        for (std::uint64_t v : c.choices()) h = Mix(h, v);
        hashes[i] = h ? h : 1;
        if (w.nsamples < 3 && !c.description().empty() &&
            (i / 7) % 3 == 0) {
          CopyStr(w.samples[w.nsamples], sizeof w.samples[0],
                  part.name + ": " + c.description());
          w.nsamples++;
        }
      }
      for (const std::string& l : c.labels()) {
        for (int k = 0; k < kMaxLabels; ++k) {
          if (w.labels[k].name[0] == 0) {
            CopyStr(w.labels[k].name, sizeof w.labels[k].name, l);
          }
          if (l.compare(0, 55, w.labels[k].name) == 0) {
            w.labels[k].count++;
            break;
          }
        }
      }
    }
    w.current.store(-1);
  }
  // Skips destructors; sanitizer runtimes report on _exit paths of their own.
  _exit(0);
}

struct Outcome {
  bool failed = false;
  bool hang = false;
  std::string message;
  std::string text;
  std::vector<std::uint64_t> choices;
};

CandArea* g_cand;

void MirrorChoice(std::uint64_t v) {
  if (g_cand->nchoices < kMaxChoices) g_cand->choices[g_cand->nchoices++] = v;
}

Outcome RunCandidate(const Spec& spec, const Part& part,
                     const std::function<Case()>& make, bool verbose) {
  CandArea* a = g_cand;
  a->status = kNone;
  a->nchoices = 0;
  a->message[0] = a->text[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    ChildInit();
    if (!verbose) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    Case c = make();
    g_on_choice = MirrorChoice;
    g_text_mirror = a->text;
    g_text_mirror_size = sizeof a->text;
    std::string msg;
    Status st = RunOne(part, &c, &msg);
    CopyStr(a->message, sizeof a->message, msg);
    a->status = st;
    _exit(0);
  }
  HangDetector hd(spec.case_cpu_limit_s);
  Outcome o;
  int ws = 0;
  long spins = 0;
  for (;;) {
    pid_t r = waitpid(pid, &ws, WNOHANG);
    if (r == pid) break;
    struct timespec ts = {0, spins < 200 ? 200000 : 5000000};
    ++spins;
    nanosleep(&ts, nullptr);
    if (spins > 200 && hd.Poll(pid)) {
      kill(pid, SIGKILL);
      waitpid(pid, &ws, 0);
      o.failed = o.hang = true;
      o.message = "hang: the case does not finish (all threads blocked, or far "
                  "more CPU time than any case needs)";
      o.text = a->text;
      o.choices.assign(a->choices, a->choices + a->nchoices);
      return o;
    }
  }
  o.text = a->text;
  o.choices.assign(a->choices, a->choices + a->nchoices);
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && a->status != kNone) {
    o.failed = a->status == kFail;
    o.message = a->message;
  } else {
    o.failed = true;
    if (WIFSIGNALED(ws)) {
      o.hang = WTERMSIG(ws) == SIGKILL;
      o.message = Format("crash: signal %d (%s)", WTERMSIG(ws),
                         strsignal(WTERMSIG(ws)));
    } else if (spec.error_exit_code &&
               WEXITSTATUS(ws) == spec.error_exit_code) {
      fprintf(stderr, "error: the case cannot be evaluated\n");
      exit(2);
    } else if (spec.report_exit_code &&
               WEXITSTATUS(ws) == spec.report_exit_code) {
      o.message = "sanitizer report (data race)";
    } else {
      o.message = Format("unexpected exit status %d", WEXITSTATUS(ws));
    }
  }
  return o;
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20) {
      o += Format("\\u%04x", c);
    } else if (c < 0x80) {
      o += c;
    } else {
      o += '?';
    }
  }
  return o + "\"";
}

struct ReplayFile {
  std::string part;
  std::vector<std::uint64_t> choices;
};

bool ReadReplay(const std::string& path, ReplayFile* r) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 5, "part=") == 0) r->part = line.substr(5);
    if (line.compare(0, 8, "choices=") == 0) {
      std::istringstream is(line.substr(8));
      std::uint64_t v;
      while (is >> v) r->choices.push_back(v);
    }
  }
  return true;
}

}  // namespace

std::int64_t GenLength(Case& c, std::int64_t lo, std::int64_t hi) {
  int doublings = 0;
  while ((lo << (doublings + 1)) <= hi) ++doublings;
  const std::int64_t base = lo << c.draw(doublings + 1);
  return std::min(hi, base + static_cast<std::int64_t>(c.draw(base)));
}

ChildResult RunInChild(const std::function<int()>& f, double cpu_limit_s) {
  int fds[2];
  if (pipe(fds) != 0) {
    perror("pipe");
    _exit(3);
  }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    ChildInit();
    dup2(fds[1], 2);
    close(fds[0]);
    close(fds[1]);
    _exit(f());
  }
  close(fds[1]);
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  ChildResult r;
  HangDetector hd(cpu_limit_s);
  int ws;
  long spins = 0;
  bool hung = false;
  auto drain = [&] {
    char buf[1024];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) {
      if (r.output.size() < 8192) r.output.append(buf, n);
    }
  };
  for (;;) {
    drain();
    pid_t w = waitpid(pid, &ws, WNOHANG);
    if (w == pid) break;
    struct timespec ts = {0, spins < 500 ? 50000 : 2000000};
    ++spins;
    nanosleep(&ts, nullptr);
    if (spins > 500 && hd.Poll(pid)) {
      kill(pid, SIGKILL);
      waitpid(pid, &ws, 0);
      hung = true;
      break;
    }
  }
  drain();
  close(fds[0]);
  if (hung) {
    r.kind = ChildResult::kHang;
    r.code = 0;
  } else if (WIFSIGNALED(ws)) {
    r.kind = ChildResult::kSignal;
    r.code = WTERMSIG(ws);
  } else {
    r.kind = ChildResult::kExit;
    r.code = WEXITSTATUS(ws);
  }
  return r;
}

int Main(int argc, char** argv, const Spec& spec) {
  std::uint64_t seed = 1;
  if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
  bool thorough = false;
  if (const char* s = getenv("VERIF_TIER")) thorough = !strcmp(s, "thorough");
  std::string evidence_dir = "evidence", replay, regress;
  double scale = 1;
  int workers = spec.workers;
  int only_part = -1;
  long only_case = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--evidence-dir") evidence_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--regress") regress = val();
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--case") only_case = atol(val().c_str());
    else if (a == "--part") {
      std::string n = val();
      for (std::size_t k = 0; k < spec.parts.size(); ++k) {
        if (spec.parts[k].name == n) only_part = k;
      }
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  workers = std::max(1, std::min(workers, kMaxWorkers));
  setvbuf(stdout, nullptr, _IOLBF, 0);
  g_cand = SharedAlloc<CandArea>();
  auto find_part = [&](const std::string& n) -> const Part* {
    for (const Part& p : spec.parts) {
      if (p.name == n) return &p;
    }
    return nullptr;
  };

  if (!replay.empty()) {
    ReplayFile rf;
    if (!ReadReplay(replay, &rf)) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 2;
    }
    const Part* part = find_part(rf.part);
    if (!part) part = &spec.parts[0];
    Outcome o = RunCandidate(spec, *part, [&] { return Case(rf.choices); },
                             true);
    printf("case: %s\n", o.text.c_str());
    if (o.failed) {
      printf("%s\n", o.message.c_str());
      printf("VIOLATION property=%s replay=%s\n", spec.id.c_str(),
             replay.c_str());
      return 1;
    }
    printf("held\n");
    return 0;
  }

  const double t0 = NowSeconds();
  Plan plan = MakePlan(spec, thorough, scale, only_part);
  if (only_case >= 0) {
    const Part& part = spec.parts[plan.PartOf(only_case)];
    Outcome o = RunCandidate(
        spec, part, [&] { return Case(CaseSeed(seed, spec, only_case)); },
        true);
    printf("part %s: %s\n%s %s\n", part.name.c_str(), o.text.c_str(),
           o.failed ? "FAILED" : "ok", o.message.c_str());
    return o.failed;
  }

  std::string fail_message, fail_text;
  const Part* fail_part = nullptr;
  std::vector<std::uint64_t> fail_choices;
  std::uint64_t fail_seed = 0;
  bool have_choices = false;
  bool failed = false, hang = false;
  std::set<std::string> known_printed;

  // Earlier failures first.
  long regress_count = 0;
  if (!regress.empty()) {
    std::vector<std::string> files;
    if (DIR* d = opendir(regress.c_str())) {
      while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 7 && n.substr(n.size() - 7) == ".replay") {
          files.push_back(regress + "/" + n);
        }
      }
      closedir(d);
    }
    std::sort(files.begin(), files.end());
    for (const std::string& f : files) {
      ReplayFile rf;
      if (!ReadReplay(f, &rf)) continue;
      const Part* part = find_part(rf.part);
      if (!part) continue;
      ++regress_count;
      Outcome o = RunCandidate(spec, *part, [&] { return Case(rf.choices); },
                               false);
      if (o.failed && !(spec.known && !spec.known(o.message).empty())) {
        failed = true;
        hang = o.hang;
        fail_message = o.message;
        fail_part = part;
        fail_choices = rf.choices;
        have_choices = true;
        break;
      }
    }
  }

  Shared* sh = SharedAlloc<Shared>();
  new (&sh->next) std::atomic<long>(0);
  new (&sh->stop) std::atomic<int>(0);
  for (auto& w : sh->w) {
    new (&w.current) std::atomic<long>(-1);
    new (&w.failed) std::atomic<long>(-1);
  }
  std::uint8_t* status = SharedAlloc<std::uint8_t>(plan.total + 1);
  std::uint64_t* hashes = SharedAlloc<std::uint64_t>(plan.total + 1);

  const double cap = thorough ? spec.thorough_cap_s : spec.quick_cap_s;
  bool capped = false;
  if (!failed) {
    fflush(nullptr);
    std::vector<pid_t> pids(workers, -1);
    std::vector<HangDetector> hd(workers, HangDetector(spec.case_cpu_limit_s));
    std::vector<long> seen(workers, -2);
    auto start = [&](int wi) {
      pid_t p = fork();
      if (p < 0) {
        perror("fork");
        exit(3);
      }
      if (p == 0) WorkerMain(spec, plan, seed, sh, wi, status, hashes);
      pids[wi] = p;
    };
    for (int i = 0; i < workers; ++i) start(i);
    int alive = workers;
    std::map<long, std::string> failures;
    std::map<long, bool> hangs;
    while (alive > 0) {
      int ws;
      pid_t p = waitpid(-1, &ws, WNOHANG);
      if (p > 0) {
        for (int i = 0; i < workers; ++i) {
          if (pids[i] != p) continue;
          pids[i] = -1;
          --alive;
          WorkerArea& w = sh->w[i];
          long cur = w.current.load();
          if (w.failed.load() >= 0) {
            failures[w.failed.load()] = w.message;
          } else if (cur >= 0) {
            std::string m;
            if (WIFSIGNALED(ws)) {
              m = Format("crash: signal %d (%s)", WTERMSIG(ws),
                         strsignal(WTERMSIG(ws)));
            } else if (spec.error_exit_code &&
                       WEXITSTATUS(ws) == spec.error_exit_code) {
              fprintf(stderr, "error: case %ld cannot be evaluated\n", cur);
              exit(2);
            } else if (spec.report_exit_code &&
                       WEXITSTATUS(ws) == spec.report_exit_code) {
              m = "sanitizer report (data race)";
            } else {
              m = Format("unexpected exit status %d", WEXITSTATUS(ws));
            }
            failures[cur] = m;
            // Killed from outside, for instance as memory ran out: like a
            // hang, only what happens again counts.
            if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) hangs[cur] = true;
            sh->stop.store(1);
          }
        }
        continue;
      }
      struct timespec ts = {0, 5000000};
      nanosleep(&ts, nullptr);
      for (int i = 0; i < workers; ++i) {
        if (pids[i] < 0) continue;
        long cur = sh->w[i].current.load();
        if (cur != seen[i]) {
          seen[i] = cur;
          hd[i].Reset();
          continue;
        }
        if (cur >= 0 && hd[i].Poll(pids[i])) {
          kill(pids[i], SIGKILL);
          waitpid(pids[i], &ws, 0);
          pids[i] = -1;
          --alive;
          failures[cur] = "hang: the case does not finish";
          hangs[cur] = true;
          sh->stop.store(1);
        }
      }
      if (NowSeconds() - t0 > cap && !sh->stop.load()) {
        capped = true;
        sh->stop.store(1);
      }
      if (!failures.empty() && alive > 0 && NowSeconds() - t0 > cap + 60) {
        for (int i = 0; i < workers; ++i) {
          if (pids[i] > 0) kill(pids[i], SIGKILL);
        }
      }
    }
    // Prefers failures that are not hangs, then the earliest.
    long pick = -1;
    for (auto& kv : failures) {
      if (pick < 0 || (hangs.count(pick) && !hangs.count(kv.first))) {
        pick = kv.first;
      }
    }
    if (pick >= 0) {
      failed = true;
      hang = hangs.count(pick) > 0;
      fail_message = failures[pick];
      fail_part = &spec.parts[plan.PartOf(pick)];
      fail_seed = CaseSeed(seed, spec, pick);
      fprintf(stderr, "case %ld (%s) failed: %s\n", pick,
              fail_part->name.c_str(), fail_message.c_str());
    }
  }

  // Counts.
  long evals = regress_count, nontrivial = 0, discards = 0;
  std::set<std::uint64_t> distinct;
  for (long i = 0; i < plan.total; ++i) {
    if (status[i] == kOk || status[i] == kFail) ++evals;
    if (status[i] == kDiscard) ++discards;
    if (hashes[i]) {
      ++nontrivial;
      distinct.insert(hashes[i]);
    }
  }

  std::string replay_path;
  bool violation = false;
  if (failed) {
    // Confirms and shrinks. A generated case is replayed from its seed until
    // its choices are known.
    auto make_orig = [&]() -> Case {
      return have_choices ? Case(fail_choices) : Case(fail_seed);
    };
    const bool flaky_ok = !hang;
    int reproduced = 0, tries = 0;
    Outcome best, last;
    best.message = fail_message;
    for (; tries < (hang ? 3 : 12) && reproduced < 1; ++tries) {
      Outcome o = RunCandidate(spec, *fail_part, make_orig, false);
      last = o;
      if (o.failed) {
        ++reproduced;
        best = o;
        hang = o.hang;
      }
    }
    if (!have_choices) {
      // Drawn choices reach shared memory even if the case crashes or hangs.
      fail_choices = last.choices;
      have_choices = true;
    }
    std::vector<std::uint64_t> cur = fail_choices;
    if (reproduced && !hang) {
      const double ts0 = NowSeconds();
      const double budget = thorough ? 240 : 90;
      long attempts = 0;
      auto attempt = [&](const std::vector<std::uint64_t>& cand) {
        if (NowSeconds() - ts0 > budget || attempts > 4000) return false;
        ++attempts;
        Outcome o = RunCandidate(spec, *fail_part, [&] { return Case(cand); },
                                 false);
        if (!o.failed || o.hang) return false;
        best = o;
        cur = cand;
        if (!o.choices.empty() && o.choices.size() < cur.size()) {
          cur.resize(o.choices.size());
        }
        return true;
      };
      bool progress = true;
      int rounds = 0;
      while (progress && rounds++ < 8 && NowSeconds() - ts0 < budget) {
        progress = false;
        for (std::size_t chunk : {64, 32, 16, 8, 4, 2, 1}) {
          for (std::size_t i = cur.size(); i-- > 0;) {
            if (i + chunk > cur.size()) continue;
            std::vector<std::uint64_t> c = cur;
            c.erase(c.begin() + i, c.begin() + i + chunk);
            if (attempt(c)) progress = true;
            if (NowSeconds() - ts0 > budget) break;
          }
        }
        for (std::size_t chunk : {16, 4, 1}) {
          for (std::size_t i = 0; i + chunk <= cur.size(); i += chunk) {
            std::vector<std::uint64_t> c = cur;
            bool any = false;
            for (std::size_t k = i; k < i + chunk; ++k) {
              if (c[k]) any = true;
              c[k] = 0;
            }
            if (any && attempt(c)) progress = true;
          }
        }
        for (std::size_t i = 0; i < cur.size(); ++i) {
          std::uint64_t lo = 0;
          while (i < cur.size() && lo < cur[i]) {
            std::uint64_t mid = lo + (cur[i] - lo) / 2;
            std::vector<std::uint64_t> c = cur;
            c[i] = mid;
            if (attempt(c)) {
              progress = true;
            } else {
              lo = mid + 1;
            }
            if (NowSeconds() - ts0 > budget) break;
          }
        }
      }
      fprintf(stderr, "shrunk to %zu choices in %ld attempts\n", cur.size(),
              attempts);
    }
    int confirmed = 0, runs = 0;
    if (reproduced) {
      const int want = 3;
      for (; runs < (hang ? 3 : 15) && confirmed < want; ++runs) {
        Outcome o = RunCandidate(spec, *fail_part, [&] { return Case(cur); },
                                 false);
        if (o.failed) {
          ++confirmed;
          best.message = o.message;
          if (!o.text.empty()) best.text = o.text;
        } else if (hang) {
          break;
        }
      }
    }
    std::string k = spec.known ? spec.known(best.message) : "";
    if (!k.empty()) {
      printf("KNOWN-FINDING: property=%s %s\n", spec.id.c_str(), k.c_str());
    } else if (confirmed >= (hang ? 3 : 1) || flaky_ok) {
      violation = true;
      mkdir(evidence_dir.c_str(), 0777);
      mkdir((evidence_dir + "/replay").c_str(), 0777);
      replay_path = evidence_dir + "/replay/" + spec.id + ".replay";
      std::ofstream f(replay_path);
      f << "# property " << spec.id << ", seed " << seed << ", "
        << (thorough ? "thorough" : "quick") << "\n";
      f << "# reproduced " << confirmed << " of " << runs << " replays\n";
      std::string m = best.message.empty() ? fail_message : best.message;
      std::replace(m.begin(), m.end(), '\n', ' ');
      f << "# failure: " << m << "\n";
      std::string t = best.text;
      std::replace(t.begin(), t.end(), '\n', ' ');
      f << "# case: " << t << "\n";
      f << "part=" << fail_part->name << "\nchoices=";
      for (std::uint64_t v : cur) f << " " << v;
      f << "\n";
      f.close();
      printf("failure: %s\ncase: %s\n", m.c_str(), t.c_str());
      printf("reproduced %d of %d replays\n", confirmed, runs);
    } else {
      if (!getenv("PBT_AGAIN")) {
        fprintf(stderr, "a case seemed to hang or was killed, but not when "
                        "replayed; starting over\n");
        setenv("PBT_AGAIN", "1", 1);
        fflush(nullptr);
        execv("/proc/self/exe", argv);
      }
      fprintf(stderr, "cases seem to hang but do not when replayed\n");
      return 3;
    }
  }

  const double wall = NowSeconds() - t0;
  // Evidence.
  mkdir(evidence_dir.c_str(), 0777);
  {
    std::ofstream f(evidence_dir + "/" + spec.id + ".json");
    f << "{\n \"property\": " << JsonStr(spec.id) << ",\n \"tier\": "
      << (thorough ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << seed
      << ",\n \"level\": " << JsonStr(spec.level) << ",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": "
      << distinct.size() << ",\n  \"nontrivial\": " << nontrivial
      << ",\n  \"discarded\": " << discards << ",\n  \"regressions_replayed\": "
      << regress_count << ",\n  \"planned\": " << plan.total
      << ",\n  \"time_capped\": " << (capped ? "true" : "false")
      << ",\n  \"rule\": " << JsonStr(spec.rule) << ",\n  \"parts\": {";
    std::map<std::string, long> per_part;
    for (long i = 0; i < plan.total; ++i) {
      if (status[i] == kOk || status[i] == kFail) {
        per_part[spec.parts[plan.PartOf(i)].name]++;
      }
    }
    bool first = true;
    for (auto& kv : per_part) {
      f << (first ? "" : ", ") << JsonStr(kv.first) << ": " << kv.second;
      first = false;
    }
    f << "},\n  \"labels\": {";
    std::map<std::string, long> labels;
    for (auto& w : sh->w) {
      for (auto& l : w.labels) {
        if (l.name[0]) labels[l.name] += l.count;
      }
    }
    first = true;
    for (auto& kv : labels) {
      f << (first ? "" : ", ") << JsonStr(kv.first) << ": " << kv.second;
      first = false;
    }
    f << "},\n  \"samples\": [";
    first = true;
    int ns = 0;
    std::vector<std::string> samples;
    for (int k = 0; k < 3; ++k) {
      for (auto& w : sh->w) {
        if (k < w.nsamples) samples.push_back(w.samples[k]);
      }
    }
    // One of each part first.
    std::set<std::string> seen_parts;
    std::vector<std::string> ordered;
    for (auto& s : samples) {
      if (seen_parts.insert(s.substr(0, s.find(':'))).second) {
        ordered.push_back(s);
      }
    }
    for (auto& s : samples) {
      if (std::find(ordered.begin(), ordered.end(), s) == ordered.end()) {
        ordered.push_back(s);
      }
    }
    for (auto& s : ordered) {
      if (ns++ >= 10) break;
      f << (first ? "\n   " : ",\n   ") << JsonStr(s);
      first = false;
    }
    f << "]\n },\n \"assumptions\": [";
    first = true;
    for (auto& s : spec.assumptions) {
      f << (first ? "" : ", ") << JsonStr(s);
      first = false;
    }
    f << "],\n \"violations\": " << (violation ? 1 : 0) << ",\n \"wall_s\": "
      << wall << "\n}\n";
  }
  printf("%s %s seed=%llu: %ld cases (%zu distinct non-trivial, %ld discarded) "
         "in %.1f s%s\n",
         spec.id.c_str(), thorough ? "thorough" : "quick",
         static_cast<unsigned long long>(seed), evals, distinct.size(),
         discards, wall, capped ? " [time cap]" : "");
  if (violation) {
    printf("VIOLATION property=%s replay=%s\n", spec.id.c_str(),
           replay_path.c_str());
    return 1;
  }
  if (evals < plan.total * spec.min_fraction || distinct.empty()) {
    fprintf(stderr, "too few cases were run to judge\n");
    return 3;
  }
  return 0;
}

}  // namespace pbt
