// C30: the trace of a traced build tells what happened.
//
// Every case runs in a child process, because a trace is printed when the
// process exits.
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <map>
#include <set>
#include <thread>

#include "problem.h"

using namespace gemm;

namespace {

struct Entry {
  std::string text, location, color;
  int indent = 0;
};

struct Section {
  int thread = 0;
  std::vector<Entry> entries;
};

const char* const kPathNames[] = {
    "kStandardCpp", "kInternalStandardCppVariant1",
    "kInternalStandardCppVariant2", "kInternalStandardCppVariant3",
    "kAvx", "kAvx2Fma", "kAvx512"};

std::string PathNames(int paths) {
  std::string s;
  for (int i = 0; i < 7; ++i) {
    if (paths >> i & 1) s += (s.empty() ? "" : " | ") + std::string(kPathNames[i]);
  }
  return s;
}

bool StartsWith(const std::string& s, const char* prefix) {
  return s.compare(0, strlen(prefix), prefix) == 0;
}

// "rest" of "prefix rest", or null.
const char* After(const std::string& s, const char* prefix) {
  return StartsWith(s, prefix) ? s.c_str() + strlen(prefix) : nullptr;
}

std::string Unescape(const std::string& s, bool* ok) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '<' || s[i] == '>') *ok = false;
    if (s.compare(i, 4, "&lt;") == 0) {
      r += '<';
      i += 3;
    } else if (s.compare(i, 4, "&gt;") == 0) {
      r += '>';
      i += 3;
    } else {
      r += s[i];
    }
  }
  return r;
}

// Splits the printed trace; returns what is wrong with its form.
std::string Parse(const std::string& text, bool html,
                  std::vector<Section>* sections) {
  std::vector<std::string> lines;
  std::size_t pos = 0;
  while (pos < text.size()) {
    const std::size_t e = text.find('\n', pos);
    if (e == std::string::npos) return "the last line is not complete";
    lines.push_back(text.substr(pos, e - pos));
    pos = e + 1;
  }
  std::size_t i = 0;
  auto expect = [&](const char* s) {
    return i < lines.size() && lines[i++] == s;
  };
  std::map<std::string, std::string> colors;
  while (i < lines.size()) {
    Section s;
    if (html && (!expect("<html><body><pre>") ||
                 !expect("<span style=\"font-weight:bold\">"))) {
      return "an HTML section does not begin as one";
    }
    int used = 0;
    if (i >= lines.size() ||
        sscanf(lines[i].c_str(), "Ruy trace for thread %d:%n", &s.thread,
               &used) != 1 ||
        used != static_cast<int>(lines[i].size())) {
      return "a section does not begin with its thread";
    }
    ++i;
    if (html && !expect("</span>")) return "unclosed heading";
    for (; i < lines.size() && !lines[i].empty(); ++i) {
      std::string l = lines[i];
      const std::string open = html ? "<span style=\"background-color:#" : "\x1b[";
      const std::string close = html ? "</span>" : "\x1b[0m";
      const char open_end = html ? '>' : 'm';
      const std::size_t e = l.find(open_end);
      if (l.compare(0, open.size(), open) != 0 || e == std::string::npos ||
          l.size() < e + 1 + close.size() ||
          l.compare(l.size() - close.size(), close.size(), close) != 0) {
        return "a line without its colors: " + l;
      }
      Entry n;
      n.color = l.substr(0, e);
      l = l.substr(e + 1, l.size() - close.size() - e - 1);
      const std::size_t colon = l.find(':');
      std::size_t d = colon + 1;
      while (colon != std::string::npos && d < l.size() && isdigit(l[d])) ++d;
      if (colon == std::string::npos || d == colon + 1) {
        return "a line without its location: " + l;
      }
      n.location = l.substr(0, d);
      const std::string file = l.substr(0, colon);
      if (file.find('/') != std::string::npos) {
        return "a location with directories: " + l;
      }
      if (!colors.emplace(file, n.color).second && colors[file] != n.color) {
        return "two colors for one file: " + file;
      }
      while (d < 32 && d < l.size() && l[d] == ' ') ++d;
      if (d < 32) return "text before column 32: " + l;
      std::size_t t = d;
      while (t < l.size() && l[t] == ' ') ++t;
      if ((t - d) % 2) return "odd indentation: " + l;
      n.indent = static_cast<int>(t - d) / 2;
      n.text = l.substr(t);
      if (html) {
        bool ok = true;
        n.text = Unescape(n.text, &ok);
        if (!ok) return "unescaped text: " + l;
      }
      s.entries.push_back(n);
    }
    if (!expect("")) return "a section does not end with an empty line";
    if (html && !expect("</pre></body></html>")) {
      return "an HTML section does not end as one";
    }
    sections->push_back(s);
  }
  return "";
}

// Every scope is closed by its own end, and indentation is nesting.
std::string CheckNesting(const Section& s) {
  std::vector<const Entry*> open;
  for (const Entry& e : s.entries) {
    if (const char* name = After(e.text, "}  // end of ")) {
      if (open.empty() || open.back()->text != std::string(name) + " {" ||
          open.back()->location != e.location) {
        return "\"" + e.text + "\" at " + e.location + " closes \"" +
               (open.empty() ? "nothing" : open.back()->text) + "\"";
      }
      open.pop_back();
    }
    if (e.indent != static_cast<int>(open.size())) {
      return pbt::Format("\"%s\" is %d levels deep but indented by %d",
                         e.text.c_str(), static_cast<int>(open.size()),
                         e.indent);
    }
    if (e.text.size() > 2 && e.text.compare(e.text.size() - 2, 2, " {") == 0) {
      open.push_back(&e);
    }
  }
  return open.empty() ? "" : "never closed: " + open.back()->text;
}

std::string LayoutText(int rows, int cols, bool col_major, int stride) {
  std::string s = pbt::Format("%dx%d, %s", rows, cols,
                              col_major ? "column-major" : "row-major");
  s += stride == (col_major ? rows : cols) ? ", unstrided"
                                           : pbt::Format(", stride=%d", stride);
  return s;
}

std::string MatText(const char* kind, const MatArg& m, bool transposed) {
  const bool col = m.order == ruy::Order::kColMajor;
  std::string s = kind;
  s += ", ";
  s += transposed ? LayoutText(m.cols, m.rows, !col, m.stride)
                  : LayoutText(m.rows, m.cols, col, m.stride);
  if (m.zero_point) s += pbt::Format(", zero_point=%d", m.zero_point);
  if (m.cache_policy != ruy::CachePolicy::kNeverCache) {
    s += pbt::Format(", cache_policy=%d", static_cast<int>(m.cache_policy));
  }
  return s;
}

std::string UserText(const MatArg& m, DT t) {
  static const char* n[] = {"uint8_t", "int8_t", "int16_t",
                            "int32_t", "float",  "double"};
  return MatText(pbt::Format("Matrix<%s>", n[t]).c_str(), m, false);
}

std::string InnerText(const MatArg& m, DT t, bool transposed) {
  static const char* n[] = {"u8", "i8", "i16", "i32", "f32", "f64"};
  return MatText(pbt::Format("EMat, data_type=%s", n[t]).c_str(), m,
                 transposed);
}

// One multiplication: as called, and what the trace says of it.
struct Call {
  const Problem* p = nullptr;
  int step = 0;
  int path = 0;
  // Of the destination reduced to column-major.
  std::string user[3];  // lhs, rhs, dst
  std::string src[2], dst;
  int width[2];
  bool from_rhs[2];  // the side's operand is the caller's rhs
  // From the trace.
  std::string packed[2];
  int kernel[2] = {0, 0}, padded[2] = {0, 0};
  int caching[2] = {-1, -1};  // 0: not, 1: new, 2: again
  bool simple = false, general = false;
  int grid[2] = {0, 0}, large[2], large_size[2], small_size[2];
  int threads = 0, tasks = 0, tentative = 0;
  std::string layout[2], reason, traversal;
  std::map<int, int> scores;
  int chosen = -1;
};

struct Block {
  int id = -1, at[2], size[2], start[2];
};

// Rows and columns in the description of a matrix.
void Shape(pbt::Case& c, const std::string& text, int shape[2]) {
  for (std::size_t at = text.find(", "); at != std::string::npos;
       at = text.find(", ", at + 1)) {
    if (sscanf(text.c_str() + at, ", %dx%d", shape, shape + 1) == 2) return;
  }
  c.fail("no shape: %s", text.c_str());
}

// A remark is to follow entry i if and only if it is true.
void CheckRemark(pbt::Case& c, bool expected, const std::vector<Entry>& e,
                 std::size_t i, const char* text) {
  bool found = false;
  for (std::size_t j = i + 1; j < e.size() && j <= i + 2; ++j) {
    found |= StartsWith(e[j].text, text);
  }
  if (found != expected) {
    c.fail("\"%s\" is %s after \"%s\"", text,
           found ? "listed" : "not listed", e[i].text.c_str());
  }
}

struct Coverage {
  std::vector<int> count;
  int n[2];
};

struct Shared {
  int path[64];
  char error[1024];
};

void Prop(pbt::Case& c, bool large) {
  SettingsOptions so;
  so.detection = true;
  const Settings s = GenSettings(c, so);
  const bool html = c.chance(1, 4);
  const bool to_stdout = c.chance(1, 4);
  const int callers = 1 + static_cast<int>(c.chance(1, 6));
  ProblemOptions o;
  o.guard = false;
  o.cache_policies = true;
  o.float_exact_only = true;
  if (large) {
    o.shape.max_dim = 600;
    o.shape.max_depth = 300;
    o.shape.max_macs = 3000000;
    o.shape.large = true;
  } else {
    o.shape.max_dim = 130;
    o.shape.max_depth = 200;
    o.shape.max_macs = 100000;
  }
  std::vector<std::unique_ptr<Problem>> problems;
  std::vector<std::vector<Call>> calls(callers);
  std::string text = s.ToString();
  int total = 0;
  for (int i = 0; i < callers; ++i) {
    const std::size_t first = problems.size();
    const int n = static_cast<int>(c.range(1, large ? 2 : 4));
    for (int j = 0; j < n; ++j) {
      if (j == 0 || !c.chance(1, 3)) {
        problems.push_back(GenProblem(c, o));
        text += " | " + problems.back()->ToString();
      } else {
        text += " | again";
      }
      const Problem& p =
          *problems[first + c.draw(problems.size() - first)];
      Call k;
      k.p = &p;
      k.step = total++;
      const Combo& t = p.types();
      const MulArgs& a = p.args;
      k.user[0] = UserText(a.lhs, t.lhs);
      k.user[1] = UserText(a.rhs, t.rhs);
      k.user[2] = UserText(a.dst, t.dst);
      const bool swap = a.dst.order == ruy::Order::kRowMajor;
      const std::string l = InnerText(a.lhs, t.lhs, true);
      const std::string r = InnerText(a.rhs, t.rhs, false);
      k.src[0] = swap ? r : l;
      k.src[1] = swap ? l : r;
      k.from_rhs[0] = swap;
      k.from_rhs[1] = !swap;
      k.dst = InnerText(a.dst, t.dst, swap);
      k.width[0] = swap ? p.cols : p.rows;
      k.width[1] = swap ? p.rows : p.cols;
      calls[i].push_back(k);
    }
    text += " ;";
  }
  text += html ? " html" : " terminal";
  c.describe("%s", text.c_str());

  const int fd = memfd_create("trace", 0);
  Shared* shared = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (fd < 0 || shared == MAP_FAILED) _exit(3);
  memset(shared, 0, sizeof *shared);
  const pbt::ChildResult r = pbt::RunInChild([&] {
    if (html) {
      setenv("RUY_TRACE_HTML", "1", 1);
    } else {
      unsetenv("RUY_TRACE_HTML");
    }
    if (to_stdout) {
      unsetenv("RUY_TRACE_FILE");
      dup2(fd, 1);
    } else {
      setenv("RUY_TRACE_FILE",
             pbt::Format("/proc/self/fd/%d", fd).c_str(), 1);
    }
    std::vector<std::unique_ptr<ruy::Context>> contexts;
    for (int i = 0; i < callers; ++i) contexts.push_back(s.Make());
    auto run = [&](int i) {
      for (const Call& k : calls[i]) {
        Problem* p = const_cast<Problem*>(k.p);
        ResetDst(p);
        Mul(p->args, contexts[i].get());
        const ruy::Path path = contexts[i]->last_used_path();
        shared->path[k.step] = static_cast<int>(path);
        const std::string e = CheckResult(*p, path);
        if (!e.empty()) {
          snprintf(shared->error, sizeof shared->error, "%s", e.c_str());
        }
      }
      contexts[i].reset();
    };
    if (callers == 1) {
      run(0);
    } else {
      std::vector<std::thread> threads;
      for (int i = 0; i < callers; ++i) threads.emplace_back(run, i);
      for (std::thread& t : threads) t.join();
    }
    exit(0);
    return 0;
  });
  std::string printed;
  char buf[65536];
  ssize_t got;
  for (off_t at = 0; (got = pread(fd, buf, sizeof buf, at)) > 0; at += got) {
    printed.append(buf, got);
  }
  close(fd);
  const std::string result_error = shared->error;
  for (auto& list : calls) {
    for (Call& k : list) k.path = shared->path[k.step];
  }
  munmap(shared, sizeof *shared);
  if (r.kind == pbt::ChildResult::kHang) c.fail("the traced process hangs");
  if (r.kind == pbt::ChildResult::kSignal && r.code == SIGKILL) _exit(3);
  if (r.kind != pbt::ChildResult::kExit || r.code != 0) {
    c.fail("the traced process ends with %s %d: %s",
           r.kind == pbt::ChildResult::kExit ? "status" : "signal", r.code,
           r.output.c_str());
  }
  if (!result_error.empty()) {
    c.fail("wrong result when traced: %s", result_error.c_str());
  }

  std::vector<Section> sections;
  std::string error = Parse(printed, html, &sections);
  if (!error.empty()) c.fail("%s", error.c_str());
  for (std::size_t i = 0; i < sections.size(); ++i) {
    if (i && sections[i].thread < sections[i - 1].thread) {
      c.fail("thread %d is printed before thread %d", sections[i - 1].thread,
             sections[i].thread);
    }
    error = CheckNesting(sections[i]);
    if (!error.empty()) {
      c.fail("thread %d: %s", sections[i].thread, error.c_str());
    }
  }

  // As described to the library: the largest private level and the last one.
  const int local_cache = static_cast<int>(s.l2 ? s.l2 : s.l1);
  const int last_cache = static_cast<int>(s.l3 ? s.l3 : local_cache);

  // The callers' view.
  std::vector<bool> found(callers);
  for (const Section& section : sections) {
    // The calls in this section, in order.
    std::vector<std::size_t> begins;
    const auto& e = section.entries;
    for (std::size_t i = 0; i < e.size(); ++i) {
      if (StartsWith(e[i].text, "CompiledPaths: ")) begins.push_back(i);
    }
    if (begins.empty()) continue;
    auto listed = [&](const Call& k, std::size_t at) {
      return at + 3 < e.size() && e[at + 1].text == "LHS: " + k.user[0] &&
             e[at + 2].text == "RHS: " + k.user[1] &&
             e[at + 3].text == "Destination: " + k.user[2];
    };
    int caller = -1;
    std::string why;
    for (int i = 0; i < callers && caller < 0; ++i) {
      if (found[i] || calls[i].size() != begins.size()) continue;
      bool all = true;
      for (std::size_t j = 0; j < begins.size(); ++j) {
        if (listed(calls[i][j], begins[j])) continue;
        all = false;
        const std::size_t at = begins[j];
        why = pbt::Format(
            "; multiplication %d of %s, %s, %s is listed as %s, %s, %s",
            static_cast<int>(j), calls[i][j].user[0].c_str(),
            calls[i][j].user[1].c_str(), calls[i][j].user[2].c_str(),
            at + 1 < e.size() ? e[at + 1].text.c_str() : "",
            at + 2 < e.size() ? e[at + 2].text.c_str() : "",
            at + 3 < e.size() ? e[at + 3].text.c_str() : "");
        break;
      }
      if (all) caller = i;
    }
    if (caller < 0) {
      c.fail("thread %d lists %d multiplications, not those of a caller%s",
             section.thread, static_cast<int>(begins.size()), why.c_str());
    }
    found[caller] = true;
    std::map<std::pair<const Problem*, bool>, bool> cached;
    for (std::size_t j = 0; j < begins.size(); ++j) {
      Call& k = calls[caller][j];
      const std::string path = PathNames(k.path);
      if (e[begins[j]].text != "CompiledPaths: " + PathNames(0x7f)) {
        c.fail("compiled paths listed as %s", e[begins[j]].text.c_str());
      }
      const std::size_t end = j + 1 < begins.size() ? begins[j + 1] : e.size();
      int selected = 0, sent = 0;
      bool swapped = false;
      for (std::size_t i = begins[j] + 4; i < end; ++i) {
        const std::string& x = e[i].text;
        int v[8], used = 0;
        char side_char = 0;
        if (x == "Swapping LHS<->RHS and flipping all storage orders.") {
          swapped = true;
        } else if (const char* y = After(x, "SetRuntimeEnabledPaths forcing paths: ")) {
          // After the first multiplication a detected set counts as set.
          if (s.path != ruy::Path::kNone &&
              y != PathNames(static_cast<int>(s.path) | 1) &&
              y != PathNames(static_cast<int>(s.path))) {
            c.fail("path %s set, but: %s", path.c_str(), x.c_str());
          }
          if (s.path == ruy::Path::kNone && j == 0) {
            c.fail("no path was set, but: %s", x.c_str());
          }
        } else if (const char* y = After(x, "Runtime-selected path: ")) {
          ++selected;
          if (path != y) {
            c.fail("the context used %s, the trace says %s", path.c_str(), y);
          }
          if (i + 3 >= end || e[i + 1].text != "LHS: " + k.src[0] ||
              e[i + 2].text != "RHS: " + k.src[1] ||
              e[i + 3].text != "Destination: " + k.dst) {
            c.fail("multiplication %d of %s, %s to %s was reduced to \"%s\", "
                   "\"%s\", \"%s\"", static_cast<int>(j), k.src[0].c_str(),
                   k.src[1].c_str(), k.dst.c_str(), e[i + 1].text.c_str(),
                   e[i + 2].text.c_str(), e[i + 3].text.c_str());
          }
        } else if (StartsWith(x, "Packed LHS matrix: ") ||
                   StartsWith(x, "Packed RHS matrix: ")) {
          const int side = x[7] == 'R';
          k.packed[side] = x.substr(19);
          const std::size_t d = k.packed[side].find("data_type=");
          const std::size_t comma = k.packed[side].find(", ", d);
          const std::size_t kb = k.packed[side].find("kernel blocks: ");
          if (d == std::string::npos || comma == std::string::npos ||
              kb == std::string::npos ||
              sscanf(k.packed[side].c_str() + comma, ", %dx%d", v, v + 1) != 2 ||
              sscanf(k.packed[side].c_str() + kb, "kernel blocks: %dx%d", v + 2,
                     v + 3) != 2 ||
              v[2] < 1 || v[3] < 1) {
            c.fail("no packed matrix: %s", x.c_str());
          }
          k.kernel[side] = v[3];
          k.padded[side] = v[1];
          if (v[0] != (k.p->depth + v[2] - 1) / v[2] * v[2] ||
              v[1] != (k.width[side] + v[3] - 1) / v[3] * v[3]) {
            c.fail("%s is not %dx%d rounded up", x.c_str(), k.p->depth,
                   k.width[side]);
          }
        } else if (StartsWith(x, "Caching the packed ") ||
                   StartsWith(x, "Not caching the packed ")) {
          const bool rhs = x.find("RHS") != std::string::npos;
          if (k.caching[rhs] >= 0) c.fail("twice: %s", x.c_str());
          k.caching[rhs] = x[0] == 'N' ? 0
                           : x.find("cache: no") != std::string::npos ? 1 : 2;
        } else if (StartsWith(x, "Entering the simple loop")) {
          k.simple = true;
        } else if (StartsWith(x, "Entering the general case")) {
          k.general = true;
        } else if (sscanf(x.c_str(),
                          "For BlockMap block size_log2 %d, score=%d "
                          "(multithreading_score=%d + cache_locality_score=%d "
                          "+ kernel_amortization_score=%d)",
                          v, v + 1, v + 2, v + 3, v + 4) == 5) {
          if (v[1] != v[2] + v[3] + v[4]) c.fail("no sum: %s", x.c_str());
          k.scores[v[0]] = v[1];
        } else if (sscanf(x.c_str(), "Selecting BlockMap block size_log2: %d",
                          &k.chosen) == 1) {
          if (!k.scores.count(k.chosen)) {
            c.fail("block size %d was not considered", k.chosen);
          }
          for (auto& y : k.scores) {
            if (y.second > k.scores[k.chosen]) {
              c.fail("block size %d chosen though %d has a better score",
                     k.chosen, y.first);
            }
          }
        } else if (sscanf(x.c_str(), "BlockMap shape: %dx%d", v, v + 1) == 2) {
          if (v[0] != k.padded[0] || v[1] != k.padded[1]) {
            c.fail("%s, but the packed widths are %d, %d", x.c_str(),
                   k.padded[0], k.padded[1]);
          }
        } else if (sscanf(x.c_str(), "Kernel block: %dx%d", v, v + 1) == 2) {
          if (v[0] != k.kernel[0] || v[1] != k.kernel[1]) {
            c.fail("%s, but the kernel widths are %d, %d", x.c_str(),
                   k.kernel[0], k.kernel[1]);
          }
        } else if (StartsWith(x, "Kernel LHS block layout: ") ||
                   StartsWith(x, "Kernel RHS block layout: ")) {
          k.layout[x[7] == 'R'] = x.substr(25);
        } else if (sscanf(x.c_str(), "%cHS scalar type size: %d", &side_char,
                          v) == 2) {
          const std::string& packed = k.packed[side_char == 'R'];
          const std::size_t d = packed.find("data_type=");
          if (d == std::string::npos ||
              atoi(packed.c_str() + d + 11) != v[0] * 8) {
            c.fail("%s, packed matrix %s", x.c_str(), packed.c_str());
          }
        } else if (sscanf(x.c_str(), "Tentative thread count: %d", v) == 1) {
          k.tentative = v[0];
          if (v[0] < 1 || v[0] > s.threads ||
              (s.strategy == ruy::NumThreadsStrategy::kForceMaxNumThreads &&
               v[0] != s.threads)) {
            c.fail("%s, at most %d", x.c_str(), s.threads);
          }
        } else if (const char* y = After(
                       x, "Choosing to use the general case code path in TrMul "
                          "because of: ")) {
          k.reason = y;
        } else if (const char* y = After(x, "Traversal order: ")) {
          k.traversal = y;
        } else if (sscanf(x.c_str(),
                          "CPU cache params: local_cache_size=%d, "
                          "last_level_cache_size=%d",
                          v, v + 1) == 2) {
          if (v[0] != local_cache || v[1] != last_cache) {
            c.fail("%s instead of %d, %d", x.c_str(), local_cache, last_cache);
          }
        } else if (sscanf(x.c_str(), "Accumulation depth: %d", v) == 1) {
          if (v[0] != k.p->depth) {
            c.fail("%s, not %d", x.c_str(), k.p->depth);
          }
        } else if (sscanf(x.c_str(),
                          "BlockMap has %dx%d blocks, each of size between "
                          "%dx%d and %dx%d",
                          v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) {
          for (int side = 0; side < 2; ++side) {
            k.grid[side] = v[side];
            k.small_size[side] = v[2 + side];
            k.large_size[side] = v[4 + side];
          }
        } else if (sscanf(x.c_str(),
                          "The first %d rows of blocks have %d rows, the "
                          "remaining ones have %d rows%n",
                          v, v + 1, v + 2, &used) == 3 ||
                   sscanf(x.c_str(),
                          "The first %d columns of blocks have %d columns, "
                          "the remaining ones have %d columns%n",
                          v, v + 1, v + 2, &used) == 3) {
          if (!used) c.fail("incomplete: %s", x.c_str());
          const int side = x.find("columns of") != std::string::npos;
          k.large[side] = v[0];
          if (v[1] != k.large_size[side] || v[2] != k.small_size[side] ||
              v[0] > k.grid[side] ||
              v[0] * v[1] + (k.grid[side] - v[0]) * v[2] != k.padded[side]) {
            c.fail("\"%s\" does not describe %d blocks of %d or %d making up "
                   "%d", x.c_str(), k.grid[side], k.small_size[side],
                   k.large_size[side], k.padded[side]);
          }
        } else if (sscanf(x.c_str(), "Finalized thread count: %d",
                          &k.threads) == 1) {
          if (k.threads < 1 || k.threads > s.threads ||
              k.threads > k.grid[0] * k.grid[1]) {
            c.fail("%d threads of at most %d for %dx%d blocks", k.threads,
                   s.threads, k.grid[0], k.grid[1]);
          }
        } else if (sscanf(x.c_str(), "Sending task #%d to", v) == 1) {
          if (v[0] != ++sent) c.fail("task %d sent after %d", v[0], sent - 1);
        } else if (sscanf(x.c_str(), "Running task #%d on the current", v) ==
                   1) {
          if (v[0] != 0) c.fail("%s", x.c_str());
        }
      }
      if (selected != 1) c.fail("%d paths selected in one call", selected);
      if (swapped != (k.p->args.dst.order == ruy::Order::kRowMajor)) {
        c.fail("reduction to column-major %s", swapped ? "listed" : "not listed");
      }
      if (k.simple == k.general) c.fail("simple loop and general case");
      for (int side = 0; side < 2; ++side) {
        const std::size_t kb = k.packed[side].find("kernel blocks: ");
        if (k.packed[side].compare(kb + 15, k.layout[side].size(),
                                   k.layout[side]) != 0 ||
            k.layout[side].empty()) {
          c.fail("side %d: kernel layout %s, packed matrix %s", side,
                 k.layout[side].c_str(), k.packed[side].c_str());
        }
      }
      if (k.general) {
        if (k.reason != (k.tentative > 1 ? "multi-threading"
                                         : "non-linear traversal order")) {
          c.fail("general case because of %s, with %d threads",
                 k.reason.c_str(), k.tentative);
        }
        if (k.threads > k.tentative) {
          c.fail("%d threads though %d were to be used", k.threads,
                 k.tentative);
        }
        if (k.traversal != "linear" && k.traversal != "fractal Z-curve" &&
            k.traversal != "fractal U-curve" &&
            k.traversal != "fractal Hilbert curve") {
          c.fail("traversal order \"%s\"", k.traversal.c_str());
        }
      }
      if (k.general && sent != k.threads - 1) {
        c.fail("%d tasks sent, %d threads", sent, k.threads);
      }
      for (int side = 0; side < 2; ++side) {
        const MatArg& m = k.from_rhs[side] ? k.p->args.rhs : k.p->args.lhs;
        const int other = k.width[!side], block = k.kernel[!side];
        bool keep = false;
        switch (m.cache_policy) {
          case ruy::CachePolicy::kNeverCache: break;
          case ruy::CachePolicy::kAlwaysCache: keep = true; break;
          case ruy::CachePolicy::kCacheIfLargeSpeedup:
            keep = other <= block;
            break;
          default: keep = other <= 4 * block;
        }
        bool& kept = cached[{k.p, k.from_rhs[side]}];
        const int expected = !keep ? 0 : kept ? 2 : 1;
        if (k.caching[side] != expected) {
          static const char* n[] = {"no mention", "not cached", "new", "again"};
          c.fail("multiplication %d, side %d: caching is %s, should be %s",
                 static_cast<int>(j), side, n[k.caching[side] + 1],
                 n[expected + 1]);
        }
        if (keep) kept = true;
      }
    }
  }
  for (int i = 0; i < callers; ++i) {
    if (!found[i]) c.fail("no trace of caller %d", i);
  }

  // The work done, on whatever thread.
  std::map<std::string, std::vector<const Call*>> by_dst;
  std::map<std::string, std::vector<std::pair<const Call*, int>>> by_src;
  std::map<std::string, Coverage> kernels, packs;
  int expected_tasks = 0, tasks = 0;
  for (auto& list : calls) {
    for (const Call& k : list) {
      by_dst[k.dst].push_back(&k);
      for (int side = 0; side < 2; ++side) {
        by_src[k.src[side]].emplace_back(&k, side);
      }
      expected_tasks += k.threads;
    }
  }
  for (auto& x : by_dst) {
    Coverage& v = kernels[x.first];
    v.n[0] = v.n[1] = 0;
    for (const Call* k : x.second) {
      v.n[0] = std::max(v.n[0], k->padded[0]);
      v.n[1] = std::max(v.n[1], k->padded[1]);
    }
    v.count.assign(static_cast<std::size_t>(v.n[0]) * v.n[1], 0);
    for (const Call* k : x.second) {
      for (int i = 0; i < k->padded[0]; ++i) {
        for (int j = 0; j < k->padded[1]; ++j) --v.count[i + v.n[0] * j];
      }
    }
  }
  for (auto& x : by_src) {
    Coverage& v = packs[x.first];
    v.n[0] = 0;
    for (auto& k : x.second) {
      v.n[0] = std::max(v.n[0], k.first->padded[k.second]);
    }
    v.count.assign(v.n[0], 0);
    for (auto& k : x.second) {
      if (k.first->caching[k.second] == 2) continue;
      for (int i = 0; i < k.first->padded[k.second]; ++i) --v.count[i];
    }
  }
  int blocks_seen = 0;
  std::map<std::string, std::multiset<int>> ids;
  for (const Section& section : sections) {
    std::string path;
    Block b;
    int src_from = 0, src_to = 0;
    std::string src, lhs, rhs;
    for (std::size_t i = 0; i < section.entries.size(); ++i) {
      const std::string& x = section.entries[i].text;
      int v[5], n = 0;
      if (x == "TrMulTask::Run {") ++tasks;
      if (const char* y = After(x, "Path: ")) {
        path = y;
      } else if (sscanf(x.c_str(),
                        "Block #%d is at position (%d, %d) in the BlockMap.%n",
                        v, v + 1, v + 2, &n) == 3 && n) {
        if (b.id >= 0) c.fail("block %d was not computed", b.id);
        b.id = v[0];
        b.at[0] = v[1];
        b.at[1] = v[2];
        if (section.thread < 0) c.fail("blocks on a thread without number");
      } else if (sscanf(x.c_str(),
                        "Block #%d has shape %dx%d and starts at position "
                        "(%d, %d) in",
                        v, v + 1, v + 2, v + 3, v + 4) == 5) {
        if (v[0] != b.id) c.fail("after block %d: %s", b.id, x.c_str());
        b.size[0] = v[1];
        b.size[1] = v[2];
        b.start[0] = v[3];
        b.start[1] = v[4];
      } else if (sscanf(x.c_str(),
                        "Block #%d depends on LHS panel #%d and RHS panel #%d",
                        v, v + 1, v + 2) == 3) {
        if (v[0] != b.id || v[1] != b.at[0] || v[2] != b.at[1]) {
          c.fail("block %d at (%d, %d): %s", b.id, b.at[0], b.at[1], x.c_str());
        }
      } else if (sscanf(x.c_str(), "Source: columns [%d, %d) of %n", v, v + 1,
                        &n) == 2 && n) {
        src = x.c_str() + n;
        src_from = v[0];
        src_to = v[1];
        auto it = packs.find(src);
        if (it == packs.end()) c.fail("packs no operand: %s", x.c_str());
        bool known = false;
        for (auto& k : by_src[src]) known |= PathNames(k.first->path) == path;
        if (!known) c.fail("packs on path %s: %s", path.c_str(), x.c_str());
        if (v[0] < 0 || v[1] > it->second.n[0] || v[0] >= v[1]) {
          c.fail("of %d columns: %s", it->second.n[0], x.c_str());
        }
        for (int j = v[0]; j < v[1]; ++j) ++it->second.count[j];
      } else if (sscanf(x.c_str(), "Destination: columns [%d, %d) of %n", v,
                        v + 1, &n) == 2 && n) {
        bool known = false;
        for (auto& k : by_src[src]) {
          known |= k.first->packed[k.second] == x.c_str() + n;
        }
        if (!known || v[0] != src_from || v[1] != src_to) {
          c.fail("columns [%d, %d) of %s are packed to: %s", src_from, src_to,
                 src.c_str(), x.c_str());
        }
        const std::vector<Entry>& e = section.entries;
        int from[2], to[2];
        Shape(c, src, from);
        Shape(c, x, to);
        CheckRemark(c, v[1] > from[1], e, i, "This runs past the last column");
        CheckRemark(c, to[0] > from[0], e, i,
                    "The packed matrix has more rows than the source");
      } else if (sscanf(x.c_str(), "LHS: columns [%d, %d) of %n", v, v + 1,
                        &n) == 2 && n) {
        lhs = x.substr(5);
      } else if (sscanf(x.c_str(), "RHS: columns [%d, %d) of %n", v, v + 1,
                        &n) == 2 && n) {
        rhs = x.substr(5);
      } else if (sscanf(x.c_str(), "Destination: block [%d, %d)x[%d, %d) of %n",
                        v, v + 1, v + 2, v + 3, &n) == 4 && n) {
        const std::string dst = x.c_str() + n;
        auto it = kernels.find(dst);
        if (it == kernels.end()) c.fail("no destination: %s", x.c_str());
        Coverage& cover = it->second;
        if (v[0] < 0 || v[1] > cover.n[0] || v[0] >= v[1] || v[2] < 0 ||
            v[3] > cover.n[1] || v[2] >= v[3]) {
          c.fail("of %dx%d: %s", cover.n[0], cover.n[1], x.c_str());
        }
        for (int q = v[2]; q < v[3]; ++q) {
          for (int p = v[0]; p < v[1]; ++p) ++cover.count[p + cover.n[0] * q];
        }
        bool known = false, fits = b.id < 0;
        for (const Call* k : by_dst[dst]) {
          known |= PathNames(k->path) == path &&
                   lhs == pbt::Format("columns [%d, %d) of %s", v[0], v[1],
                                      k->packed[0].c_str()) &&
                   rhs == pbt::Format("columns [%d, %d) of %s", v[2], v[3],
                                      k->packed[1].c_str());
          if (b.id < 0 || !k->general) continue;
          bool same = b.start[0] == v[0] && b.start[0] + b.size[0] == v[1] &&
                      b.start[1] == v[2] && b.start[1] + b.size[1] == v[3];
          for (int side = 0; side < 2; ++side) {
            same &= b.at[side] < k->grid[side] &&
                    b.size[side] == (b.at[side] < k->large[side]
                                         ? k->large_size[side]
                                         : k->small_size[side]);
          }
          fits |= same;
        }
        const std::vector<Entry>& e = section.entries;
        int shape[2];
        Shape(c, dst, shape);
        CheckRemark(c, v[1] > shape[0] || v[3] > shape[1], e, i,
                    "This runs over the destination matrix boundaries");
        int loops[4] = {0, 0, 0, 0};
        for (std::size_t j = i + 1; j < e.size() && j <= i + 2; ++j) {
          sscanf(e[j].text.c_str(),
                 "The kernel's inner loop only produces a %dx%d block, so the "
                 "kernel's outer loops will run %dx%d times.",
                 loops, loops + 1, loops + 2, loops + 3);
        }
        if (loops[0] * loops[2] != v[1] - v[0] ||
            loops[1] * loops[3] != v[3] - v[2]) {
          c.fail("%dx%d times %dx%d: %s", loops[0], loops[1], loops[2],
                 loops[3], x.c_str());
        }
        if (!known) {
          c.fail("kernel on path %s with \"%s\", \"%s\": %s", path.c_str(),
                 lhs.c_str(), rhs.c_str(), x.c_str());
        }
        if (!fits) {
          c.fail("block %d at (%d, %d) of %dx%d from (%d, %d) is no block of "
                 "its map, or not this: %s", b.id, b.at[0], b.at[1], b.size[0],
                 b.size[1], b.start[0], b.start[1], x.c_str());
        }
        if (b.id >= 0) {
          ids[dst].insert(b.id);
          ++blocks_seen;
          b.id = -1;
        }
      }
    }
    if (b.id >= 0) c.fail("block %d was not computed", b.id);
  }
  if (tasks != expected_tasks) {
    c.fail("%d tasks run, should be %d", tasks, expected_tasks);
  }
  for (auto& x : by_dst) {
    std::multiset<int> all;
    for (const Call* k : x.second) {
      if (!k->general) continue;
      for (int i = 0; i < k->grid[0] * k->grid[1]; ++i) all.insert(i);
    }
    if (all != ids[x.first]) {
      c.fail("%d blocks computed for %s, should be %d, each once",
             static_cast<int>(ids[x.first].size()), x.first.c_str(),
             static_cast<int>(all.size()));
    }
  }
  for (auto& x : kernels) {
    for (int n : x.second.count) {
      if (n) {
        c.fail("an entry of %s is computed %d times %s", x.first.c_str(),
               abs(n), n > 0 ? "too often" : "too few");
      }
    }
  }
  for (auto& x : packs) {
    for (int n : x.second.count) {
      if (n) {
        c.fail("a column of %s is packed %d times %s", x.first.c_str(), abs(n),
               n > 0 ? "too often" : "too few");
      }
    }
  }
  bool several = false, hit = false, asymmetric = false;
  for (auto& list : calls) {
    for (const Call& k : list) {
      several |= k.threads > 1;
      hit |= k.caching[0] == 2 || k.caching[1] == 2;
      asymmetric |= k.general && k.kernel[0] != k.kernel[1];
    }
  }
  if (several) c.label("several threads");
  if (hit) c.label("cached operand");
  if (blocks_seen) c.label("block map");
  if (asymmetric) c.label("block map with unequal kernel sides");
  if (callers > 1) c.label("two callers");
  if (several || hit) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C30";
  s.rule =
      "Generated histories of multiplications in a build with tracing, by one "
      "or two callers, printed as text or HTML, to a file or to the output. "
      "The trace must be well formed and properly nested, list each call's "
      "operands, path and caching as called, and describe work which covers "
      "every destination entry and every operand column exactly once. "
      "Non-trivial: several threads took part, or a cached operand was used "
      "again.";
  s.parts = {{"history", [](pbt::Case& c) { Prop(c, false); }, 60000, 1200000},
             {"large", [](pbt::Case& c) { Prop(c, true); }, 3000, 60000}};
  return pbt::Main(argc, argv, s);
}
