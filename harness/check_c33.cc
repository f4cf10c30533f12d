// C33: the example program multiplies what its flags describe.
//
// The program is linked in as __real_main; its multiplications are recorded by
// recorder/ruy/ruy.h.
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdlib>

#include "pbt.h"
#include "ruy/ruy.h"

extern "C" int __real_main(int argc, char** argv);

namespace recorder {
std::vector<Multiplication>* list = nullptr;
}

namespace {

struct Types {
  const char* name;
  int lhs, rhs, dst;
};

const Types kTypes[] = {
    {"f32xf32->f32", 104, 104, 104}, {"i8xi8->i8", 1, 1, 1},
    {"i8xi8->i16", 1, 1, 2},         {"i8xi8->i32", 1, 1, 4},
    {"u8xu8->i16", -1, -1, 2},       {"u8xi8->u8", -1, 1, -1},
    {"i8xi16->i16", 1, 2, 2},        {"i16xi8->i16", 2, 1, 2},
};

const char* const kFlags[] = {
    "types",      "shape",          "paths",          "num_threads",
    "repeat",     "lhs_cache_policy", "rhs_cache_policy", "lhs_stride",
    "rhs_stride", "dst_stride",     "lhs_zero_point", "rhs_zero_point",
    "dst_zero_point", "lhs_order",  "rhs_order",      "dst_order"};
constexpr int kNumFlags = sizeof kFlags / sizeof kFlags[0];

struct Flags {
  std::string value[kNumFlags];
  bool given[kNumFlags] = {};
  std::vector<std::string> args;
};

struct Expected {
  recorder::Multiplication m;
  int repeat = 1;
};

int GenDim(pbt::Case& c) {
  return static_cast<int>(c.chance(1, 20) ? c.range(1, 300) : c.range(1, 20));
}

// A zero point of an operand with the given type.
int GenZeroPoint(pbt::Case& c, int type, bool dst) {
  if (type > 100 || type == 4 || (type == 2 && !dst)) return 0;
  const int lo = type == -1 ? 0 : type == 1 ? -127 : -32768;
  const int hi = type == -1 ? 255 : type == 1 ? 127 : 32767;
  return c.chance(1, 8) ? c.pick<int>({lo, hi})
                        : static_cast<int>(c.range(lo, hi));
}

// Which flags are given, their values, and what they mean.
Flags GenFlags(pbt::Case& c, Expected* e) {
  Flags f;
  const int density = static_cast<int>(c.draw(4));
  auto give = [&](int i, const std::string& value) {
    f.given[i] = true;
    f.value[i] = value;
  };
  auto wanted = [&] { return density && c.chance(density, 4); };
  const Types* t = &kTypes[0];
  if (wanted()) {
    t = &kTypes[c.draw(sizeof kTypes / sizeof kTypes[0])];
    give(0, t->name);
  }
  int m = 100, k = 100, n = 100;
  if (c.chance(9, 10)) {
    m = GenDim(c);
    k = GenDim(c);
    n = GenDim(c);
    give(1, pbt::Format("%dx%dx%d", m, k, n));
  }
  int paths = 0;
  if (wanted()) {
    paths = static_cast<int>(c.range(0, 0x7f));
    give(2, pbt::Format(c.flag() ? "%x" : "%02x", paths));
  }
  e->m.threads = 1;
  if (wanted()) {
    e->m.threads = static_cast<int>(c.range(1, 20));
    give(3, pbt::Format("%d", e->m.threads));
  }
  e->repeat = 1;
  if (wanted()) {
    e->repeat = static_cast<int>(c.range(0, 12));
    give(4, pbt::Format("%d", e->repeat));
  }
  recorder::Operand* o[3] = {&e->m.lhs, &e->m.rhs, &e->m.dst};
  o[0]->type = t->lhs;
  o[1]->type = t->rhs;
  o[2]->type = t->dst;
  o[0]->rows = o[2]->rows = m;
  o[0]->cols = o[1]->rows = k;
  o[1]->cols = o[2]->cols = n;
  for (int i = 0; i < 3; ++i) {
    if (i < 2 && wanted()) {
      o[i]->cache_policy = static_cast<int>(c.draw(4));
      give(5 + i, pbt::Format("%d", o[i]->cache_policy));
    }
    o[i]->row_major = true;
    if (wanted()) {
      o[i]->row_major = c.flag();
      give(13 + i, o[i]->row_major ? "row-major" : "column-major");
    }
    o[i]->stride = o[i]->row_major ? o[i]->cols : o[i]->rows;
    if (wanted()) {
      if (c.chance(1, 4)) {
        give(7 + i, "0");
      } else {
        o[i]->stride += static_cast<int>(c.draw(c.chance(1, 10) ? 500 : 9));
        give(7 + i, pbt::Format("%d", o[i]->stride));
      }
    }
    if (wanted()) {
      const int z = GenZeroPoint(c, o[i]->type, i == 2);
      o[i]->zero_point = z;
      give(10 + i, pbt::Format("%d", z));
    }
  }
  ruy::Context context;
  context.set_runtime_enabled_paths(static_cast<ruy::Path>(paths));
  e->m.paths = static_cast<int>(
      ruy::get_ctx(&context)->GetRuntimeEnabledPaths());
  return f;
}

// In a generated order.
void Arrange(pbt::Case& c, Flags* f) {
  std::vector<int> order;
  for (int i = 0; i < kNumFlags; ++i) {
    if (f->given[i]) order.push_back(i);
  }
  for (std::size_t i = 0; i + 1 < order.size(); ++i) {
    std::swap(order[i], order[i + c.draw(order.size() - i)]);
  }
  for (int i : order) {
    f->args.push_back(pbt::Format("--%s=%s", kFlags[i], f->value[i].c_str()));
  }
}

std::string Text(const std::vector<std::string>& args) {
  std::string s;
  for (const std::string& a : args) s += (s.empty() ? "" : " ") + a;
  return s;
}

int RunProgram(const std::vector<std::string>& args) {
  std::vector<std::string> copy = args;
  copy.insert(copy.begin(), "example");
  std::vector<char*> argv;
  for (std::string& s : copy) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  return __real_main(static_cast<int>(copy.size()), argv.data());
}

std::string OperandText(const recorder::Operand& o) {
  return pbt::Format("type %d, %dx%d %s-major, stride %d, zero point %g, "
                     "cache policy %d",
                     o.type, o.rows, o.cols, o.row_major ? "row" : "column",
                     o.stride, o.zero_point, o.cache_policy);
}

std::string MulText(const recorder::Multiplication& m) {
  return pbt::Format("lhs %s; rhs %s; dst %s; %d threads, paths %x%s%s",
                     OperandText(m.lhs).c_str(), OperandText(m.rhs).c_str(),
                     OperandText(m.dst).c_str(), m.threads, m.paths,
                     m.plain ? "" : ", not plain",
                     m.sum ? ", data not zero" : "");
}

void LegalProp(pbt::Case& c) {
  Expected e;
  Flags f = GenFlags(c, &e);
  Arrange(c, &f);
  if (f.args.empty()) f.args.push_back("--repeat=1");
  c.describe("%s", Text(f.args).c_str());
  std::vector<recorder::Multiplication> list;
  recorder::list = &list;
  const int status = RunProgram(f.args);
  recorder::list = nullptr;
  if (status) c.fail("exit status %d", status);
  if (static_cast<int>(list.size()) != e.repeat) {
    c.fail("%d multiplications instead of %d", static_cast<int>(list.size()),
           e.repeat);
  }
  const std::string expected = MulText(e.m);
  for (const recorder::Multiplication& m : list) {
    if (MulText(m) != expected) {
      c.fail("multiplies %s\ninstead of %s", MulText(m).c_str(),
             expected.c_str());
    }
  }
  if (f.args.size() >= 3 && e.repeat) c.nontrivial();
}

void IllegalProp(pbt::Case& c) {
  Expected e;
  Flags f = GenFlags(c, &e);
  const bool help = c.chance(1, 12);
  std::string bad;
  if (help) {
    f.args.clear();
    if (c.flag()) f.args.push_back("--help");
  } else {
    const int i = static_cast<int>(c.draw(kNumFlags));
    if (i == 0) {
      bad = c.pick<const char*>({"i4xi4->i4", "f32xf32->f16", "f32", "i8xi8",
                                 "u8xu8->u16", "i8xi8->i8x", "F32xF32->F32",
                                 "i8xi8->", "x"});
    } else if (i == 1) {
      const int a = GenDim(c), b = GenDim(c);
      bad = c.pick<std::string>(
          {pbt::Format("%dx%d", a, b), pbt::Format("%d", a),
           pbt::Format("%dx%dx", a, b), pbt::Format("%d,%d,%d", a, b, a),
           "axbxc", "x", pbt::Format("x%dx%d", a, b)});
    } else if (i == 5 || i == 6) {
      bad = c.pick<const char*>({"4", "7", "9", "-1", "x", "10", "00"});
    } else if (i >= 13) {
      bad = c.pick<const char*>({"row", "column", "rowmajor", "major", "-",
                                 "col-major", "Row-major", "row-major1", "r"});
    } else {
      bad = c.pick<const char*>(
          {"x", "", "-", "zero", "g", ".5", "+", "--repeat"});
    }
    f.given[i] = true;
    f.value[i] = bad;
    Arrange(c, &f);
  }
  c.describe("%s", Text(f.args).c_str());
  int* count = static_cast<int*>(mmap(nullptr, sizeof(int),
                                      PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (count == MAP_FAILED) _exit(3);
  const pbt::ChildResult r = pbt::RunInChild([&] {
    std::vector<recorder::Multiplication> list;
    static std::vector<recorder::Multiplication>* keep;
    keep = recorder::list = &list;
    static int* counter;
    counter = count;
    atexit([] { *counter = static_cast<int>(keep->size()); });
    const int status = RunProgram(f.args);
    *count = static_cast<int>(list.size());
    fflush(nullptr);
    return status;
  });
  const int done = *count;
  munmap(count, sizeof(int));
  if (r.kind == pbt::ChildResult::kSignal && r.code == SIGKILL) _exit(3);
  if (r.kind != pbt::ChildResult::kExit || r.code != 1) {
    c.fail("%s %d instead of exit status 1: %s",
           r.kind == pbt::ChildResult::kExit ? "exit status" : "signal", r.code,
           r.output.c_str());
  }
  if (done) c.fail("%d multiplications", done);
  if (help) {
    for (const char* flag : kFlags) {
      if (r.output.find(pbt::Format("--%s ", flag)) == std::string::npos) {
        c.fail("--%s is not listed: %s", flag, r.output.c_str());
      }
    }
    for (const Types& t : kTypes) {
      if (r.output.find(t.name) == std::string::npos) {
        c.fail("types %s are not listed: %s", t.name, r.output.c_str());
      }
    }
  } else if (r.output.empty() ||
             r.output.find(bad) == std::string::npos) {
    c.fail("the message does not name \"%s\": %s", bad.c_str(),
           r.output.c_str());
  }
  c.nontrivial();
}

}  // namespace

extern "C" int __wrap_main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C33";
  s.rule =
      "Generated command lines with any subset of the 16 flags in any order; "
      "the recorded multiplications have exactly the types, shapes, orders, "
      "strides, zero points, cache policies, threads and paths described, as "
      "many times as described, on buffers which hold them (AddressSanitizer) "
      "(non-trivial: three flags or more). With one value illegal: exit "
      "status 1 and a message naming the value, before any multiplication "
      "(always non-trivial).";
  s.parts = {{"legal", LegalProp, 300000, 6000000},
             {"illegal", IllegalProp, 10000, 200000}};
  return pbt::Main(argc, argv, s);
}
