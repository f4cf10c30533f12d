// C27: build options do not change results.
//
// The same program is built several times. The one which drives the test sends
// the choices of every case to the others, which run the same history and send
// back what they observed.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <map>

#include "problem.h"
#include "ruy/performance_advisory.h"
#ifdef RUY_PROFILER
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
#endif

using namespace gemm;

namespace {

std::uint64_t Digest(const void* data, std::size_t n) {
  std::uint64_t h = 1469598103934665603ull;
  const unsigned char* p = static_cast<const unsigned char*>(data);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
  return h;
}

// One line per multiplication: what the caller can see of it.
std::string History(pbt::Case& c, bool large) {
  fakecpu::Set(fakecpu::Default());
  const bool profile = c.chance(1, 6);
  std::string seen, text;
  bool changed = true;
  {
#ifdef RUY_PROFILER
    ruy::profiler::TreeView tree;
    std::unique_ptr<ruy::profiler::ScopeProfile> profiling;
    if (profile) {
      profiling.reset(new ruy::profiler::ScopeProfile(true));
      profiling->SetUserTreeView(&tree);
    }
#endif
    std::unique_ptr<ruy::Context> ctx;
    std::vector<std::unique_ptr<Problem>> problems;
    const int steps = static_cast<int>(c.range(1, large ? 2 : 5));
    for (int i = 0; i < steps; ++i) {
      SettingsOptions so;
      so.detection = true;
      const Settings s = GenSettings(c, so);
      if (!ctx || c.chance(1, 4)) {
        ctx = s.Make();
        text += " new";
      } else {
        s.ApplyTo(ctx.get());
      }
      if (c.chance(1, 12)) ctx->ClearPrepackedCache();
      Problem* p;
      if (!problems.empty() && c.chance(1, 3)) {
        p = problems[c.draw(problems.size())].get();
        text += " again";
      } else {
        ProblemOptions o;
        if (large) {
          o.shape.max_dim = 700;
          o.shape.max_depth = 900;
          o.shape.max_macs = 4000000;
          o.shape.large = true;
        } else {
          o.shape.max_dim = 130;
          o.shape.max_macs = 60000;
        }
        o.guard = !large;
        o.cache_policies = c.chance(1, 3);
        o.float_denormals = true;
        problems.push_back(GenProblem(c, o));
        p = problems.back().get();
      }
      text += pbt::Format(" %s | %s;", p->ToString().c_str(),
                          s.ToString().c_str());
      ResetDst(p);
      const std::uint64_t before = Digest(p->dst.data(), p->dst.size());
      Mul(p->args, ctx.get());
      const std::uint64_t after = Digest(p->dst.data(), p->dst.size());
      if (before == after) changed = false;
      seen += pbt::Format(
          "multiplication %d: path 0x%x, advisory %d, destination %016llx\n", i,
          static_cast<int>(ctx->last_used_path()),
          static_cast<int>(ctx->performance_advisory(
              ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer)),
          static_cast<unsigned long long>(after));
      c.label(pbt::Format("path 0x%x",
                          static_cast<int>(ctx->last_used_path())));
      c.label(s.threads > 1 ? "several threads" : "one thread");
    }
  }
  c.label(profile ? "profiled" : "not profiled");
  c.describe("%s", text.c_str());
  if (changed) c.nontrivial();
  return seen;
}

bool WriteAll(int fd, const void* data, std::size_t n) {
  const char* p = static_cast<const char*>(data);
  while (n > 0) {
    const ssize_t k = write(fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    p += k;
    n -= k;
  }
  return true;
}

bool ReadAll(int fd, void* data, std::size_t n) {
  char* p = static_cast<char*>(data);
  while (n > 0) {
    const ssize_t k = read(fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    p += k;
    n -= k;
  }
  return true;
}

// The other side: runs histories until its input ends.
int Serve(int in, int out) {
  for (;;) {
    std::uint64_t head[2];
    if (!ReadAll(in, head, sizeof head)) return 0;
    std::vector<std::uint64_t> choices(head[1]);
    if (!ReadAll(in, choices.data(), choices.size() * 8)) return 0;
    pbt::Case c(choices);
    const std::string seen = History(c, head[0] != 0);
    const std::uint64_t size = seen.size();
    if (!WriteAll(out, &size, sizeof size) ||
        !WriteAll(out, seen.data(), seen.size())) {
      return 0;
    }
  }
}

struct Twin {
  pid_t pid = 0;
  int to = -1, from = -1;
};

const char* const kBuilds[] = {"ndebug", "prof", "noopt", "someopt"};

std::map<std::string, Twin>* g_twins = nullptr;
pid_t g_owner = 0;

Twin* GetTwin(const std::string& build) {
  if (g_owner != getpid()) {
    // Those of a parent process are not ours.
    g_twins = new std::map<std::string, Twin>;
    g_owner = getpid();
  }
  Twin& t = (*g_twins)[build];
  if (t.pid != 0) return &t;
  const char* root = getenv("VERIF_BUILD");
  if (!root) {
    fprintf(stderr, "VERIF_BUILD is not set\n");
    _exit(3);
  }
  const std::string exe = std::string(root) + "/" + build + "/check_c27";
  int a[2], b[2];
  if (access(exe.c_str(), X_OK) != 0 || pipe2(a, O_CLOEXEC) != 0 ||
      pipe2(b, O_CLOEXEC) != 0) {
    fprintf(stderr, "cannot start %s\n", exe.c_str());
    _exit(3);
  }
  t.pid = fork();
  if (t.pid < 0) _exit(3);
  if (t.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(a[0], 0);
    dup2(b[1], 1);
    execl(exe.c_str(), exe.c_str(), "--serve", static_cast<char*>(nullptr));
    _exit(3);
  }
  close(a[0]);
  close(b[1]);
  t.to = a[1];
  t.from = b[0];
  return &t;
}

std::string FirstDifference(const std::string& a, const std::string& b) {
  std::size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    if (a[i] == '\n') line = i + 1;
    ++i;
  }
  auto at = [&](const std::string& s) {
    return line < s.size() ? s.substr(line, s.find('\n', line) - line)
                           : std::string("nothing");
  };
  return "\"" + at(a) + "\" and \"" + at(b) + "\"";
}

void Run(pbt::Case& c, bool large) {
  const std::string mine = History(c, large);
  const std::vector<std::uint64_t> choices = c.choices();
  const std::uint64_t head[2] = {large, choices.size()};
  // All of them at work at once.
  for (const char* build : kBuilds) {
    Twin* t = GetTwin(build);
    WriteAll(t->to, head, sizeof head);
    WriteAll(t->to, choices.data(), choices.size() * 8);
  }
  std::string error;
  for (const char* build : kBuilds) {
    Twin* t = GetTwin(build);
    std::uint64_t size;
    std::string theirs;
    bool ok = ReadAll(t->from, &size, sizeof size);
    if (ok) {
      theirs.resize(size);
      ok = ReadAll(t->from, &theirs[0], size);
    }
    if (!ok) {
      int status = 0;
      waitpid(t->pid, &status, 0);
      close(t->to);
      close(t->from);
      t->pid = 0;
      if (WIFEXITED(status)) _exit(3);
      // Nobody's fault here: killed from outside.
      if (WTERMSIG(status) == SIGKILL) _exit(3);
      error = pbt::Format("the %s build ends with signal %d", build,
                          WTERMSIG(status));
    } else if (mine != theirs && error.empty()) {
      error = pbt::Format("the usual and the %s build differ: %s", build,
                          FirstDifference(mine, theirs).c_str());
    }
  }
  if (!error.empty()) c.fail("%s", error.c_str());
}

}  // namespace

int main(int argc, char** argv) {
  if (argc == 2 && strcmp(argv[1], "--serve") == 0) {
    // What the library prints must not get into the answers.
    const int out = dup(1);
    dup2(2, 1);
    return Serve(0, out);
  }
  signal(SIGPIPE, SIG_IGN);
  pbt::Spec s;
  s.id = "C27";
  s.rule =
      "Generated histories of 1-5 multiplications run by five builds of the "
      "same sources (as usual; without assertions; with the profiler, at times "
      "while profiling; without the optional optimizations which apply to this "
      "CPU; without some of them): destination bytes, path used and advisory "
      "must be the same in all. Non-trivial: every multiplication changed its "
      "destination.";
  s.assumptions = {"optimizations which remove whole code paths stay on"};
  s.parts = {{"history", [](pbt::Case& c) { Run(c, false); }, 40000, 1000000},
             {"large", [](pbt::Case& c) { Run(c, true); }, 2000, 60000}};
  return pbt::Main(argc, argv, s);
}
