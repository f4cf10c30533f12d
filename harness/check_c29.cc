// C29: assertions stop a program exactly when they are false.
#include <setjmp.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <limits>

#include "assertions.h"
#include "pbt.h"

using namespace assertions;

namespace {

sigjmp_buf g_back;
volatile sig_atomic_t g_armed = 0;

void OnAbort(int) {
  if (g_armed) siglongjmp(g_back, 1);
}

const char* const kTypeNames[] = {"bool",   "int8",   "uint8",   "int16",
                                  "uint16", "int32",  "uint32",  "int64",
                                  "uint64", "float",  "double",  "pointer",
                                  "enum8",  "enum32", "opaque"};
const char* const kOpNames[] = {"EQ", "NE", "GE", "GT", "LE", "LT", ""};
const char* const kOpSymbols[] = {"==", "!=", ">=", ">", "<=", "<", ""};

// As a number which every type here can be made from.
struct Number {
  std::int64_t i = 0;
  double d = 0;
};

char g_array[64];

Value Make(Type t, const Number& n) {
  Value v;
  memset(&v, 0, sizeof v);
  switch (t) {
    case kBool: v.b = (n.i & 1) != 0; break;
    case kI8: v.i8 = static_cast<std::int8_t>(n.i); break;
    case kU8: case kSmallEnum: v.u8 = static_cast<std::uint8_t>(n.i); break;
    case kI16: v.i16 = static_cast<std::int16_t>(n.i); break;
    case kU16: v.u16 = static_cast<std::uint16_t>(n.i); break;
    case kI32: case kIntEnum: case kOpaque:
      v.i32 = static_cast<std::int32_t>(n.i);
      break;
    case kU32: v.u32 = static_cast<std::uint32_t>(n.i); break;
    case kI64: v.i64 = n.i; break;
    case kU64: v.u64 = static_cast<std::uint64_t>(n.i); break;
    case kFloat: v.f = static_cast<float>(n.d); break;
    case kDouble: v.d = n.d; break;
    default: v.p = n.i % 8 == 0 ? nullptr : g_array + (n.i & 63); break;
  }
  return v;
}

Number GenNumber(pbt::Case& c) {
  Number n;
  switch (c.draw(5)) {
    case 0: n.i = c.range(0, 4); break;
    case 1: n.i = -static_cast<std::int64_t>(c.range(1, 4)); break;
    case 2: {  // near the bounds of the types
      const int bits = c.pick<int>({7, 8, 15, 16, 31, 32, 52, 53, 63});
      const std::uint64_t power = 1ull << bits;
      n.i = static_cast<std::int64_t>(power + static_cast<std::uint64_t>(
                                                  c.range(-2, 2)));
      if (c.flag()) n.i = static_cast<std::int64_t>(0 - static_cast<std::uint64_t>(n.i));
      break;
    }
    case 3: n.i = static_cast<std::int64_t>(pbt::Rng(c.seed()).next()) >>
                  c.draw(64);
            break;
    default: n.i = c.range(-200, 200); break;
  }
  switch (c.draw(6)) {
    case 1: n.d = n.i + 0.5; break;
    case 2: n.d = std::ldexp(static_cast<double>(n.i), -static_cast<int>(c.draw(80))); break;
    case 3:
      n.d = c.pick<double>({-0.0, std::numeric_limits<double>::infinity(),
                            -std::numeric_limits<double>::infinity(),
                            std::numeric_limits<double>::quiet_NaN(),
                            std::numeric_limits<double>::denorm_min(),
                            std::numeric_limits<float>::max()});
      break;
    default: n.d = static_cast<double>(n.i); break;
  }
  return n;
}

// The language's comparison, after conversion to the common type.
template <typename T>
bool Compare(Op op, T a, T b) {
  switch (op) {
    case kEq: return a == b;
    case kNe: return a != b;
    case kGe: return a >= b;
    case kGt: return a > b;
    case kLe: return a <= b;
    default: return a < b;
  }
}

// The value of an arithmetic type converted to T.
template <typename T>
T As(Type t, const Value& v) {
  switch (t) {
    case kBool: return static_cast<T>(v.b);
    case kI8: return static_cast<T>(v.i8);
    case kU8: case kSmallEnum: return static_cast<T>(v.u8);
    case kI16: return static_cast<T>(v.i16);
    case kU16: return static_cast<T>(v.u16);
    case kI32: case kIntEnum: case kOpaque: return static_cast<T>(v.i32);
    case kU32: return static_cast<T>(v.u32);
    case kI64: return static_cast<T>(v.i64);
    case kU64: return static_cast<T>(v.u64);
    case kFloat: return static_cast<T>(v.f);
    default: return static_cast<T>(v.d);
  }
}

bool Holds(Op op, Type lt, const Value& l, Type rt, const Value& r) {
  if (op == kCondition) {
    if (lt == kPointer) return l.p != nullptr;
    if (lt == kFloat) return l.f != 0;
    if (lt == kDouble) return l.d != 0;
    return As<std::int64_t>(lt, l) != 0;
  }
  if (lt == kPointer) {
    return Compare(op, reinterpret_cast<std::uintptr_t>(l.p),
                   reinterpret_cast<std::uintptr_t>(r.p));
  }
  auto either = [&](Type t) { return lt == t || rt == t; };
  if (either(kDouble)) return Compare(op, As<double>(lt, l), As<double>(rt, r));
  if (either(kFloat)) return Compare(op, As<float>(lt, l), As<float>(rt, r));
  if (either(kU64)) {
    return Compare(op, As<std::uint64_t>(lt, l), As<std::uint64_t>(rt, r));
  }
  if (either(kI64)) {
    return Compare(op, As<std::int64_t>(lt, l), As<std::int64_t>(rt, r));
  }
  if (either(kU32)) {
    return Compare(op, As<std::uint32_t>(lt, l), As<std::uint32_t>(rt, r));
  }
  return Compare(op, As<std::int32_t>(lt, l), As<std::int32_t>(rt, r));
}

// Whether the text tells the value.
bool Tells(const std::string& text, Type t, const Value& v) {
  char* end;
  switch (t) {
    case kPointer: {
      if (!v.p) return !text.empty();
      return strtoull(text.c_str(), &end, 16) ==
                 reinterpret_cast<std::uintptr_t>(v.p) && !*end;
    }
    case kOpaque: return !text.empty();
    case kSmallEnum:
    case kIntEnum: {
      const std::string n = std::to_string(As<int>(t, v));
      const std::size_t at = text.find(n);
      if (at == std::string::npos) return false;
      const char next = at + n.size() < text.size() ? text[at + n.size()] : 0;
      return !isdigit(next) &&
             (at == 0 || (!isdigit(text[at - 1]) && text[at - 1] != '-'));
    }
    case kFloat:
    case kDouble: {
      const double d = t == kFloat ? v.f : v.d;
      const double got = strtod(text.c_str(), &end);
      if (*end || text.empty()) return false;
      if (std::isnan(d)) return std::isnan(got);
      if (t == kFloat) {
        return static_cast<float>(got) == v.f;
      }
      if (std::isinf(d) || d == 0) return got == d;
      return std::fabs(got - d) <= 1e-15 * std::fabs(d) ||
             std::fabs(d) < 1e-300;
    }
    default:
      // Larger ones than a signed 64-bit integer are not covered.
      if (t == kU64 && v.u64 >> 63) return !text.empty();
      return text == std::to_string(As<std::int64_t>(t, v));
  }
}

std::string Text(Type t, const Value& v) {
  switch (t) {
    case kPointer: return pbt::Format("%p", v.p);
    case kFloat: case kDouble: return pbt::Format("%.17g", As<double>(t, v));
    case kU64: return pbt::Format("%llu", static_cast<unsigned long long>(v.u64));
    default: return std::to_string(As<std::int64_t>(t, v));
  }
}

void Prop(pbt::Case& c) {
  static const int fd = memfd_create("stderr", MFD_CLOEXEC);
  const Op op = static_cast<Op>(c.draw(kNumOps));
  const Type lt = static_cast<Type>(c.draw(kNumTypes));
  const Type rt = lt >= kNumArithmetic
                      ? lt
                      : static_cast<Type>(c.draw(kNumArithmetic));
  const bool debug = c.flag();
  const bool ndebug = c.flag();
  const Number a = GenNumber(c);
  Number b = a;
  if (!c.chance(1, 3)) b = GenNumber(c);
  const Value l = Make(lt, a), r = Make(rt, b);
  c.describe("RUY_%sCHECK%s%s of %s %s and %s %s%s", debug ? "D" : "",
             op == kCondition ? "" : "_", kOpNames[op], kTypeNames[lt],
             Text(lt, l).c_str(), kTypeNames[rt], Text(rt, r).c_str(),
             ndebug ? ", NDEBUG" : "");
  const Run run = ndebug ? assertions::ndebug::Get(lt, rt)
                         : assertions::usual::Get(lt, rt);

  if (ftruncate(fd, 0) != 0 || lseek(fd, 0, SEEK_SET) != 0) _exit(3);
  fflush(stderr);
  const int saved = dup(2);
  dup2(fd, 2);
  struct sigaction action, old;
  memset(&action, 0, sizeof action);
  action.sa_handler = OnAbort;
  sigaction(SIGABRT, &action, &old);
  Outcome out;
  volatile bool stopped = false;
  if (sigsetjmp(g_back, 1) == 0) {
    g_armed = 1;
    run(op, debug, l, r, &out);
  } else {
    stopped = true;
  }
  g_armed = 0;
  sigaction(SIGABRT, &old, nullptr);
  fflush(stderr);
  dup2(saved, 2);
  close(saved);
  std::string message;
  char buf[4096];
  const ssize_t n = pread(fd, buf, sizeof buf, 0);
  if (n > 0) message.assign(buf, n);

  const bool active = !(debug && ndebug);
  const bool holds = Holds(op, lt, l, rt, r);
  c.label(!active ? "compiled out" : holds ? "true" : "false");
  c.label(pbt::Format("op %s", op == kCondition ? "condition" : kOpNames[op]));
  if (active && !holds) c.nontrivial();
  const int evaluations = active ? 1 : 0;
  if (out.lhs_count != evaluations ||
      out.rhs_count != (op == kCondition ? 0 : evaluations)) {
    c.fail("operands evaluated %d and %d times", out.lhs_count, out.rhs_count);
  }
  if (stopped != (active && !holds)) {
    c.fail("%s, though %s", stopped ? "stopped" : "went on",
           !active ? "compiled out" : holds ? "true" : "false");
  }
  if (stopped == out.after) c.fail("next statement %s",
                                   out.after ? "reached" : "not reached");
  if (!stopped) {
    if (!message.empty()) c.fail("printed: %s", message.c_str());
    return;
  }
  const std::string file = strrchr(out.file, '/') ? strrchr(out.file, '/') + 1
                                                  : out.file;
  auto has = [&](const std::string& s) {
    if (message.find(s) == std::string::npos) {
      c.fail("\"%s\" is not in the message: %s", s.c_str(), message.c_str());
    }
  };
  has(file + ":" + std::to_string(out.line));
  has(op == kCondition ? std::string("CHECK")
                       : std::string("CHECK_") + kOpNames[op]);
  has(out.lhs_text);
  if (op == kCondition) return;
  has(out.rhs_text);
  // The last bracket holds "value op value".
  const std::size_t from = message.rfind('['), to = message.rfind(']');
  const std::string middle = std::string(" ") + kOpSymbols[op] + " ";
  std::string values = from == std::string::npos || to == std::string::npos ||
                               to < from
                           ? ""
                           : message.substr(from + 1, to - from - 1);
  const std::size_t at = values.find(middle);
  if (at == std::string::npos) c.fail("no values: %s", message.c_str());
  auto trim = [](std::string s) {
    while (!s.empty() && s.back() == ' ') s.pop_back();
    while (!s.empty() && s.front() == ' ') s.erase(0, 1);
    return s;
  };
  if (!Tells(trim(values.substr(0, at)), lt, l) ||
      !Tells(trim(values.substr(at + middle.size())), rt, r)) {
    c.fail("wrong values: %s", message.c_str());
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C29";
  s.rule =
      "Generated uses of the 14 assertion macros on operands of 15 types (all "
      "pairs of the 11 arithmetic ones) and values near the types' bounds, "
      "with and without NDEBUG. The program must stop exactly if the "
      "comparison in the common type is false, after evaluating each operand "
      "once, with a message telling place, texts and values; debug ones do "
      "nothing at all with NDEBUG. Non-trivial: the assertion was false.";
  s.parts = {{"macros", Prop, 12000000, 300000000}};
  return pbt::Main(argc, argv, s);
}
