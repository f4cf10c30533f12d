#include "a64.h"

#include <dlfcn.h>
#include <elf.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <type_traits>
#include <vector>

namespace a64 {

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using i128 = __int128;

namespace {

u64 g_lo = 0, g_hi = 0;
std::map<std::string, u64> g_symbols;
// Where calls from outside return to.
constexpr u64 kEnd = 0x1000;

[[noreturn]] void Unsupported(const Cpu& c, u32 w, const char* what) {
  fprintf(stderr, "interpreter: instruction %08x at offset 0x%llx: %s\n", w,
          static_cast<unsigned long long>(c.pc - g_lo), what);
  // Not a failure of what is checked.
  _exit(77);
}

template <typename T>
T Get(u64 a) {
  T t;
  memcpy(&t, reinterpret_cast<const void*>(a), sizeof t);
  return t;
}
template <typename T>
void Store(u64 a, T t) {
  memcpy(reinterpret_cast<void*>(a), &t, sizeof t);
}
template <typename T>
T Lane(const Vec& v, int i) {
  T t;
  memcpy(&t, v.b + i * sizeof t, sizeof t);
  return t;
}
template <typename T>
void SetLane(Vec* v, int i, T t) {
  memcpy(v->b + i * sizeof t, &t, sizeof t);
}

inline u32 Bits(u32 w, int hi, int lo) {
  return (w >> lo) & ((hi - lo == 31) ? ~0u : ((1u << (hi - lo + 1)) - 1));
}
inline i64 Sext(u64 v, int bits) {
  return static_cast<i64>(v << (64 - bits)) >> (64 - bits);
}

template <typename T>
T Saturate(i128 v) {
  if (v > std::numeric_limits<T>::max()) return std::numeric_limits<T>::max();
  if (v < std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
  return static_cast<T>(v);
}

i128 ShiftLeftBy(i128 v, int s, bool rounding) {
  if (s >= 0) return s > 70 ? 0 : v << s;
  s = -s;
  if (s > 100) s = 100;
  if (rounding) v += static_cast<i128>(1) << (s - 1);
  return v >> s;
}

template <typename T>
T Min(T a, T b) {
  if (a != a) return a;
  if (b != b) return b;
  if (a == b) return std::signbit(static_cast<double>(a)) ? a : b;
  return a < b ? a : b;
}
template <typename T>
T Max(T a, T b) {
  if (a != a) return a;
  if (b != b) return b;
  if (a == b) return std::signbit(static_cast<double>(a)) ? b : a;
  return a > b ? a : b;
}

template <typename T>
struct Wider;
template <> struct Wider<i8> { using T = i16; };
template <> struct Wider<i16> { using T = i32; };
template <> struct Wider<i32> { using T = i64; };
template <> struct Wider<u8> { using T = u16; };
template <> struct Wider<u16> { using T = u32; };
template <> struct Wider<u32> { using T = u64; };

// Calls f with a value of the element type.
template <typename F>
void ByType(int size, bool is_unsigned, F f) {
  switch (size * 2 + is_unsigned) {
    case 0: f(i8()); break;
    case 1: f(u8()); break;
    case 2: f(i16()); break;
    case 3: f(u16()); break;
    case 4: f(i32()); break;
    case 5: f(u32()); break;
    case 6: f(i64()); break;
    case 7: f(u64()); break;
  }
}
template <typename F>
void ByNarrowType(int size, bool is_unsigned, F f) {
  switch (size * 2 + is_unsigned) {
    case 0: f(i8()); break;
    case 1: f(u8()); break;
    case 2: f(i16()); break;
    case 3: f(u16()); break;
    case 4: f(i32()); break;
    case 5: f(u32()); break;
  }
}

bool Condition(const Cpu& c, u32 cond) {
  bool r = false;
  switch (cond >> 1) {
    case 0: r = c.z; break;
    case 1: r = c.c; break;
    case 2: r = c.n; break;
    case 3: r = c.o; break;
    case 4: r = c.c && !c.z; break;
    case 5: r = c.n == c.o; break;
    case 6: r = c.n == c.o && !c.z; break;
    case 7: return true;
  }
  return (cond & 1) ? !r : r;
}

u64 AddFlags(Cpu* c, u64 a, u64 b, bool carry, bool sf, bool set) {
  if (sf) {
    const unsigned __int128 s = static_cast<unsigned __int128>(a) + b + carry;
    const u64 r = static_cast<u64>(s);
    if (set) {
      c->n = r >> 63;
      c->z = r == 0;
      c->c = (s >> 64) != 0;
      c->o = ((a ^ r) & (b ^ r)) >> 63;
    }
    return r;
  }
  const u32 x = static_cast<u32>(a), y = static_cast<u32>(b);
  const u64 s = static_cast<u64>(x) + y + carry;
  const u32 r = static_cast<u32>(s);
  if (set) {
    c->n = r >> 31;
    c->z = r == 0;
    c->c = (s >> 32) != 0;
    c->o = ((x ^ r) & (y ^ r)) >> 31;
  }
  return r;
}

u64 ShiftValue(u64 v, int type, unsigned by, bool sf) {
  const unsigned bits = sf ? 64 : 32;
  by %= bits;
  if (!sf) v = static_cast<u32>(v);
  u64 r;
  switch (type) {
    case 0: r = v << by; break;
    case 1: r = v >> by; break;
    case 2:
      r = sf ? static_cast<u64>(static_cast<i64>(v) >> by)
             : static_cast<u32>(static_cast<i32>(v) >> by);
      break;
    default: r = by ? (v >> by) | (v << (bits - by)) : v;
  }
  return sf ? r : static_cast<u32>(r);
}

u64 Extend(u64 v, int option, int by) {
  u64 r;
  switch (option) {
    case 0: r = static_cast<u8>(v); break;
    case 1: r = static_cast<u16>(v); break;
    case 2: r = static_cast<u32>(v); break;
    case 4: r = static_cast<u64>(static_cast<i64>(static_cast<i8>(v))); break;
    case 5: r = static_cast<u64>(static_cast<i64>(static_cast<i16>(v))); break;
    case 6: r = static_cast<u64>(static_cast<i64>(static_cast<i32>(v))); break;
    default: r = v;
  }
  return r << by;
}

u64 Ror(u64 v, unsigned by, unsigned width) {
  const u64 mask = width == 64 ? ~0ull : (1ull << width) - 1;
  v &= mask;
  by %= width;
  return by ? ((v >> by) | (v << (width - by))) & mask : v;
}

// Immediates of logical instructions and bit fields.
void BitMasks(u32 n, u32 imms, u32 immr, u64* wmask, u64* tmask) {
  int len = 6;
  const u32 combined = (n << 6) | (~imms & 0x3f);
  while (len >= 0 && !((combined >> len) & 1)) --len;
  const unsigned esize = 1u << len;
  const u32 levels = esize - 1;
  const u32 s = imms & levels, r = immr & levels;
  const u32 diff = (s - r) & levels;
  auto ones = [](u32 k) { return k >= 64 ? ~0ull : (1ull << k) - 1; };
  u64 w = Ror(ones(s + 1), r, esize), t = ones(diff + 1);
  for (unsigned e = esize; e < 64; e *= 2) {
    w |= w << e;
    t |= t << e;
  }
  *wmask = w;
  *tmask = t;
}

double FpImmediate(u32 imm) {
  const int sign = imm >> 7 ? -1 : 1;
  const int e = static_cast<int>((imm >> 4) & 3) + ((imm >> 6) & 1 ? -3 : 1);
  return sign * std::ldexp(1 + (imm & 15) / 16.0, e);
}

template <typename To, typename From>
To ToInt(From v) {
  if (v != v) return 0;
  const long double t = std::trunc(static_cast<long double>(v));
  if (t >= static_cast<long double>(std::numeric_limits<To>::max())) {
    return std::numeric_limits<To>::max();
  }
  if (t <= static_cast<long double>(std::numeric_limits<To>::min())) {
    return std::numeric_limits<To>::min();
  }
  return static_cast<To>(t);
}

struct Machine {
  Cpu& c;
  u32 w = 0;

  explicit Machine(Cpu* cpu) : c(*cpu) {}

  u64 X(u32 r) const { return c.x[r]; }
  u64 Xsp(u32 r) const { return r == 31 ? c.sp : c.x[r]; }
  void Set(u32 r, u64 v, bool sf = true) {
    if (r != 31) c.x[r] = sf ? v : static_cast<u32>(v);
  }
  void SetSp(u32 r, u64 v, bool sf = true) {
    if (!sf) v = static_cast<u32>(v);
    (r == 31 ? c.sp : c.x[r]) = v;
  }
  u32 Rd() const { return w & 31; }
  u32 Rn() const { return (w >> 5) & 31; }
  u32 Rm() const { return (w >> 16) & 31; }
  u32 Ra() const { return (w >> 10) & 31; }

  // Whether the program goes on.
  void Run() {
    while (c.pc != kEnd) {
      if (c.pc < g_lo || c.pc >= g_hi) {
        HostCall();
        continue;
      }
      w = Get<u32>(c.pc);
      ++c.steps;
      Step();
    }
  }

  void HostCall() {
    using F = unsigned __int128 (*)(u64, u64, u64, u64, u64, u64, u64, u64);
    const unsigned __int128 r = reinterpret_cast<F>(c.pc)(
        c.x[0], c.x[1], c.x[2], c.x[3], c.x[4], c.x[5], c.x[6], c.x[7]);
    c.x[0] = static_cast<u64>(r);
    c.x[1] = static_cast<u64>(r >> 64);
    c.pc = c.x[30];
  }

  void Step() {
    const u32 op0 = Bits(w, 28, 25);
    if ((op0 & 0xe) == 8) {
      Immediate();
    } else if ((op0 & 0xe) == 0xa) {
      Branch();
      return;
    } else if ((op0 & 5) == 4) {
      Memory();
    } else if ((op0 & 7) == 5) {
      Register();
    } else if ((op0 & 7) == 7) {
      Simd();
    } else {
      Unsupported(c, w, "unallocated");
    }
    c.pc += 4;
  }

  void Immediate() {
    const bool sf = w >> 31;
    switch (Bits(w, 28, 23)) {
      case 0x20: case 0x21: {  // adr, adrp
        const i64 imm = Sext((Bits(w, 23, 5) << 2) | Bits(w, 30, 29), 21);
        Set(Rd(), sf ? (c.pc & ~0xfffull) + (static_cast<u64>(imm) << 12)
                     : c.pc + imm);
        return;
      }
      case 0x22: {
        u64 imm = Bits(w, 21, 10);
        if (w & (1u << 22)) imm <<= 12;
        const bool sub = w & (1u << 30), set = w & (1u << 29);
        const u64 r = AddFlags(&c, Xsp(Rn()), sub ? ~imm : imm, sub, sf, set);
        if (set) Set(Rd(), r, sf); else SetSp(Rd(), r, sf);
        return;
      }
      case 0x24: {
        u64 m, t;
        BitMasks(Bits(w, 22, 22), Bits(w, 15, 10), Bits(w, 21, 16), &m, &t);
        const u32 opc = Bits(w, 30, 29);
        u64 r = opc == 1 ? X(Rn()) | m : opc == 2 ? X(Rn()) ^ m : X(Rn()) & m;
        if (!sf) r = static_cast<u32>(r);
        if (opc == 3) {
          LogicFlags(r, sf);
          Set(Rd(), r, sf);
        } else {
          SetSp(Rd(), r, sf);
        }
        return;
      }
      case 0x25: {
        const int by = Bits(w, 22, 21) * 16;
        const u64 imm = static_cast<u64>(Bits(w, 20, 5)) << by;
        switch (Bits(w, 30, 29)) {
          case 0: Set(Rd(), ~imm, sf); return;
          case 2: Set(Rd(), imm, sf); return;
          case 3:
            Set(Rd(), (X(Rd()) & ~(0xffffull << by)) | imm, sf);
            return;
        }
        break;
      }
      case 0x26: {
        u64 wm, tm;
        const u32 immr = Bits(w, 21, 16), imms = Bits(w, 15, 10);
        BitMasks(Bits(w, 22, 22), imms, immr, &wm, &tm);
        const unsigned width = sf ? 64 : 32;
        const u64 src = X(Rn());
        const u64 rot = Ror(src, immr, width);
        const u32 opc = Bits(w, 30, 29);
        if (opc == 1) {
          const u64 dst = X(Rd());
          const u64 bot = (dst & ~wm) | (rot & wm);
          Set(Rd(), (dst & ~tm) | (bot & tm), sf);
        } else {
          const u64 bot = rot & wm;
          const u64 top = opc == 0 && ((src >> (imms % width)) & 1) ? ~0ull : 0;
          Set(Rd(), (top & ~tm) | (bot & tm), sf);
        }
        return;
      }
      case 0x27: {
        const u32 lsb = Bits(w, 15, 10);
        const unsigned width = sf ? 64 : 32;
        const u64 hi = X(Rn()), lo = sf ? X(Rm()) : static_cast<u32>(X(Rm()));
        Set(Rd(), lsb ? (lo >> lsb) | (hi << (width - lsb)) : lo, sf);
        return;
      }
    }
    Unsupported(c, w, "immediate");
  }

  void LogicFlags(u64 r, bool sf) {
    c.n = sf ? r >> 63 : (r >> 31) & 1;
    c.z = r == 0;
    c.c = c.o = false;
  }

  void Branch() {
    const u64 next = c.pc + 4;
    if (Bits(w, 30, 26) == 5) {  // b, bl
      if (w >> 31) c.x[30] = next;
      c.pc += static_cast<u64>(Sext(Bits(w, 25, 0), 26)) * 4;
      return;
    }
    if (Bits(w, 30, 25) == 0x1a) {
      const u64 v = (w >> 31) ? X(Rd()) : static_cast<u32>(X(Rd()));
      const bool taken = (v != 0) == ((w >> 24) & 1);
      c.pc = taken ? c.pc + static_cast<u64>(Sext(Bits(w, 23, 5), 19)) * 4 : next;
      return;
    }
    if (Bits(w, 30, 25) == 0x1b) {
      const u32 bit = ((w >> 31) << 5) | Bits(w, 23, 19);
      const bool taken = ((X(Rd()) >> bit) & 1) == ((w >> 24) & 1);
      c.pc = taken ? c.pc + static_cast<u64>(Sext(Bits(w, 18, 5), 14)) * 4 : next;
      return;
    }
    if (Bits(w, 31, 24) == 0x54) {
      const bool taken = Condition(c, w & 15);
      c.pc = taken ? c.pc + static_cast<u64>(Sext(Bits(w, 23, 5), 19)) * 4 : next;
      return;
    }
    if (Bits(w, 31, 25) == 0x6b) {
      const u64 to = X(Rn());
      switch (Bits(w, 24, 21)) {
        case 1: c.x[30] = next; break;
        case 0: case 2: break;
        default: Unsupported(c, w, "branch");
      }
      c.pc = to;
      return;
    }
    if (Bits(w, 31, 22) == 0x354) {  // system
      const u32 reg = w & ~31u;
      if (reg == 0xd53b4400u) Set(Rd(), c.fpcr);
      else if (reg == 0xd51b4400u) c.fpcr = X(Rd());
      else if (reg == 0xd53b4420u) Set(Rd(), c.fpsr);
      else if (reg == 0xd51b4420u) c.fpsr = X(Rd());
      else if ((w & 0xfffff01fu) == 0xd503201fu) {}  // hints
      else if ((w & 0xfffff01fu) == 0xd503301fu) {   // barriers, clrex
        if (Bits(w, 7, 5) == 2) c.marked = 0;
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
      } else {
        Unsupported(c, w, "system");
      }
      c.pc = next;
      return;
    }
    if (Bits(w, 31, 24) == 0xd4) {
      fprintf(stderr, "interpreter: breakpoint\n");
      abort();
    }
    Unsupported(c, w, "branch");
  }

  void Register() {
    const bool sf = w >> 31;
    const u32 k = Bits(w, 28, 21);
    if ((k >> 3) == 0x0a) {  // logical
      u64 m = ShiftValue(X(Rm()), Bits(w, 23, 22), Bits(w, 15, 10), sf);
      if (w & (1u << 21)) m = ~m;
      const u32 opc = Bits(w, 30, 29);
      u64 r = opc == 1 ? X(Rn()) | m : opc == 2 ? X(Rn()) ^ m : X(Rn()) & m;
      if (!sf) r = static_cast<u32>(r);
      if (opc == 3) LogicFlags(r, sf);
      Set(Rd(), r, sf);
      return;
    }
    if ((k >> 3) == 0x0b) {  // add, sub
      const bool sub = w & (1u << 30), set = w & (1u << 29);
      u64 a, b;
      const bool extended = w & (1u << 21);
      if (extended) {
        a = Xsp(Rn());
        b = Extend(X(Rm()), Bits(w, 15, 13), Bits(w, 12, 10));
      } else {
        a = X(Rn());
        b = ShiftValue(X(Rm()), Bits(w, 23, 22), Bits(w, 15, 10), sf);
      }
      const u64 r = AddFlags(&c, a, sub ? ~b : b, sub, sf, set);
      if (extended && !set) SetSp(Rd(), r, sf); else Set(Rd(), r, sf);
      return;
    }
    if (k == 0xd0 && Bits(w, 15, 10) == 0) {
      const bool sub = w & (1u << 30), set = w & (1u << 29);
      Set(Rd(), AddFlags(&c, X(Rn()), sub ? ~X(Rm()) : X(Rm()), c.c, sf, set), sf);
      return;
    }
    if (k == 0xd2) {  // conditional compare
      if (Condition(c, Bits(w, 15, 12))) {
        const u64 b = (w & (1u << 11)) ? Rm() : X(Rm());
        const bool sub = w & (1u << 30);
        AddFlags(&c, X(Rn()), sub ? ~b : b, sub, sf, true);
      } else {
        c.n = w & 8;
        c.z = w & 4;
        c.c = w & 2;
        c.o = w & 1;
      }
      return;
    }
    if (k == 0xd4) {  // conditional select
      u64 r;
      if (Condition(c, Bits(w, 15, 12))) {
        r = X(Rn());
      } else {
        r = X(Rm());
        if (w & (1u << 30)) r = ~r;
        if (w & (1u << 10)) r += 1;
      }
      Set(Rd(), r, sf);
      return;
    }
    if (k == 0xd6 && !(w & (1u << 30))) {
      const u64 a = sf ? X(Rn()) : static_cast<u32>(X(Rn()));
      const u64 b = sf ? X(Rm()) : static_cast<u32>(X(Rm()));
      switch (Bits(w, 15, 10)) {
        case 2: Set(Rd(), b ? a / b : 0, sf); return;
        case 3: {
          const i64 x = sf ? static_cast<i64>(a) : static_cast<i32>(a);
          const i64 y = sf ? static_cast<i64>(b) : static_cast<i32>(b);
          Set(Rd(), y == 0 ? 0 : y == -1 ? 0 - static_cast<u64>(x)
                                         : static_cast<u64>(x / y), sf);
          return;
        }
        case 8: case 9: case 10: case 11:
          Set(Rd(), ShiftValue(a, Bits(w, 11, 10), b % (sf ? 64 : 32), sf), sf);
          return;
      }
    }
    if (k == 0xd6 && (w & (1u << 30))) {
      const u64 a = sf ? X(Rn()) : static_cast<u32>(X(Rn()));
      switch (Bits(w, 15, 10)) {
        case 0: {
          u64 r = 0;
          for (int i = 0; i < (sf ? 64 : 32); ++i) {
            if ((a >> i) & 1) r |= 1ull << ((sf ? 63 : 31) - i);
          }
          Set(Rd(), r, sf);
          return;
        }
        case 2: 
          if (!sf) {
            Set(Rd(), __builtin_bswap32(static_cast<u32>(a)), sf);
            return;
          }
          break;
        case 3: Set(Rd(), __builtin_bswap64(a), sf); return;
        case 4:
          Set(Rd(), sf ? (a ? __builtin_clzll(a) : 64)
                       : (a ? __builtin_clz(static_cast<u32>(a)) : 32), sf);
          return;
      }
    }
    if ((k >> 3) == 0x1b) {  // three sources
      const bool sub = w & (1u << 15);
      const u64 a = X(Ra()), n = X(Rn()), m = X(Rm());
      u64 p;
      switch (Bits(w, 23, 21)) {
        case 0: p = n * m; break;
        case 1: p = static_cast<u64>(static_cast<i64>(static_cast<i32>(n)) *
                                     static_cast<i32>(m)); break;
        case 5: p = static_cast<u64>(static_cast<u32>(n)) * static_cast<u32>(m);
          break;
        case 2: Set(Rd(), static_cast<u64>((static_cast<i128>(static_cast<i64>(n)) *
                                            static_cast<i64>(m)) >> 64)); return;
        case 6: Set(Rd(), static_cast<u64>((static_cast<unsigned __int128>(n) * m) >> 64));
          return;
        default: Unsupported(c, w, "multiply");
      }
      Set(Rd(), sub ? a - p : a + p, sf);
      return;
    }
    Unsupported(c, w, "register");
  }

  // Loads or stores one register.
  void Access(u64 addr, bool vec, u32 size, u32 opc, u32 rt) {
    if (vec) {
      const u32 bytes = 1u << (size | ((opc & 2) << 1));
      if (bytes > 16) Unsupported(c, w, "size");
      if (opc & 1) {
        Vec r;
        memcpy(r.b, reinterpret_cast<const void*>(addr), bytes);
        c.v[rt] = r;
      } else {
        memcpy(reinterpret_cast<void*>(addr), c.v[rt].b, bytes);
      }
      return;
    }
    if (opc == 0) {
      const u64 v = X(rt);
      memcpy(reinterpret_cast<void*>(addr), &v, 1u << size);
      return;
    }
    if (size == 3 && opc == 2) return;  // prefetch
    u64 v = 0;
    memcpy(&v, reinterpret_cast<const void*>(addr), 1u << size);
    if (opc >= 2) v = static_cast<u64>(Sext(v, 8 << size));
    Set(rt, v, opc != 3);
  }

  void Memory() {
    const u32 size = Bits(w, 31, 30);
    const bool vec = w & (1u << 26);
    const u32 k = Bits(w, 29, 27);
    if (Bits(w, 29, 24) == 8) return Exclusive();
    if (k == 3 && Bits(w, 25, 24) == 0) {  // literal
      const u64 addr = c.pc + static_cast<u64>(Sext(Bits(w, 23, 5), 19)) * 4;
      if (vec) {
        Vec r;
        memcpy(r.b, reinterpret_cast<const void*>(addr), 4u << size);
        c.v[Rd()] = r;
      } else if (size == 0) {
        Set(Rd(), Get<u32>(addr));
      } else if (size == 1) {
        Set(Rd(), Get<u64>(addr));
      } else if (size == 2) {
        Set(Rd(), static_cast<u64>(static_cast<i64>(Get<i32>(addr))));
      }
      return;
    }
    if (k == 5) {  // pair
      const u32 mode = Bits(w, 24, 23);
      const u32 bytes = vec ? 4u << size : (size & 2) ? 8 : 4;
      const i64 off = Sext(Bits(w, 21, 15), 7) * static_cast<i64>(bytes);
      const u64 base = Xsp(Rn());
      const u64 addr = mode == 1 ? base : base + static_cast<u64>(off);
      const bool load = w & (1u << 22);
      const u32 t1 = Rd(), t2 = Ra();
      if (vec) {
        if (load) {
          Vec a, b;
          memcpy(a.b, reinterpret_cast<const void*>(addr), bytes);
          memcpy(b.b, reinterpret_cast<const void*>(addr + bytes), bytes);
          c.v[t1] = a;
          c.v[t2] = b;
        } else {
          memcpy(reinterpret_cast<void*>(addr), c.v[t1].b, bytes);
          memcpy(reinterpret_cast<void*>(addr + bytes), c.v[t2].b, bytes);
        }
      } else if (load) {
        u64 a = 0, b = 0;
        memcpy(&a, reinterpret_cast<const void*>(addr), bytes);
        memcpy(&b, reinterpret_cast<const void*>(addr + bytes), bytes);
        if (size == 1) {
          a = static_cast<u64>(Sext(a, 32));
          b = static_cast<u64>(Sext(b, 32));
        }
        Set(t1, a);
        Set(t2, b);
      } else {
        const u64 a = X(t1), b = X(t2);
        memcpy(reinterpret_cast<void*>(addr), &a, bytes);
        memcpy(reinterpret_cast<void*>(addr + bytes), &b, bytes);
      }
      if (mode & 1) SetSp(Rn(), base + static_cast<u64>(off));
      return;
    }
    if (k == 7) {
      const u32 opc = Bits(w, 23, 22);
      const u64 base = Xsp(Rn());
      if (Bits(w, 25, 24) == 1) {
        const u32 scale = vec ? (size | ((opc & 2) << 1)) : size;
        Access(base + (static_cast<u64>(Bits(w, 21, 10)) << scale), vec, size,
               opc, Rd());
        return;
      }
      if (Bits(w, 25, 24) == 0 && !(w & (1u << 21))) {
        const u64 off = static_cast<u64>(Sext(Bits(w, 20, 12), 9));
        const u32 mode = Bits(w, 11, 10);
        if (mode == 2) Unsupported(c, w, "memory");
        Access(mode == 1 ? base : base + off, vec, size, opc, Rd());
        if (mode & 1) SetSp(Rn(), base + off);
        return;
      }
      if (Bits(w, 25, 24) == 0 && Bits(w, 11, 10) == 2) {
        const u32 scale = vec ? (size | ((opc & 2) << 1)) : size;
        const u64 off = Extend(X(Rm()), Bits(w, 15, 13),
                               (w & (1u << 12)) ? scale : 0);
        Access(base + off, vec, size, opc, Rd());
        return;
      }
    }
    if (Bits(w, 31, 31) == 0 && Bits(w, 29, 24) == 0xc) return Multiple();
    if (Bits(w, 31, 31) == 0 && Bits(w, 29, 24) == 0xd) return Single();
    Unsupported(c, w, "memory");
  }

  template <typename T>
  void ExclusiveOf(bool load, bool ordered_only) {
    T* p = reinterpret_cast<T*>(Xsp(Rn()));
    if (ordered_only) {
      if (load) Set(Rd(), __atomic_load_n(p, __ATOMIC_SEQ_CST));
      else __atomic_store_n(p, static_cast<T>(X(Rd())), __ATOMIC_SEQ_CST);
    } else if (load) {
      const T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
      c.marked = Xsp(Rn());
      c.seen = v;
      Set(Rd(), v);
    } else {
      T expected = static_cast<T>(c.seen);
      const bool ok = c.marked == Xsp(Rn()) &&
                      __atomic_compare_exchange_n(p, &expected, static_cast<T>(X(Rd())),
                                                  false, __ATOMIC_SEQ_CST,
                                                  __ATOMIC_SEQ_CST);
      c.marked = 0;
      Set(Rm(), ok ? 0 : 1);
    }
  }

  void Exclusive() {
    if (w & (1u << 21)) Unsupported(c, w, "exclusive pair");
    const bool load = w & (1u << 22), ordered = w & (1u << 23);
    switch (Bits(w, 31, 30)) {
      case 0: ExclusiveOf<u8>(load, ordered); break;
      case 1: ExclusiveOf<u16>(load, ordered); break;
      case 2: ExclusiveOf<u32>(load, ordered); break;
      case 3: ExclusiveOf<u64>(load, ordered); break;
    }
  }

  void Multiple() {
    const bool q = w & (1u << 30), load = w & (1u << 22), post = w & (1u << 23);
    int regs, interleave = 1;
    switch (Bits(w, 15, 12)) {
      case 7: regs = 1; break;
      case 10: regs = 2; break;
      case 6: regs = 3; break;
      case 2: regs = 4; break;
      case 8: regs = interleave = 2; break;
      case 4: regs = interleave = 3; break;
      case 0: regs = interleave = 4; break;
      default: Unsupported(c, w, "structures");
    }
    const int bytes = q ? 16 : 8;
    const u64 base = Xsp(Rn());
    unsigned char* p = reinterpret_cast<unsigned char*>(base);
    const int esize = 1 << Bits(w, 11, 10);
    for (int i = 0; i < regs; ++i) {
      Vec& v = c.v[(Rd() + i) % 32];
      Vec r = load ? Vec() : v;
      for (int k = 0; k < bytes; ++k) {
        unsigned char* at =
            interleave == 1 ? p + i * bytes + k
                            : p + (k / esize * regs + i) * esize + k % esize;
        if (load) r.b[k] = *at; else *at = r.b[k];
      }
      if (load) v = r;
    }
    if (post) SetSp(Rn(), base + (Rm() == 31 ? static_cast<u64>(regs * bytes) : X(Rm())));
  }

  void Single() {
    const bool q = w & (1u << 30), load = w & (1u << 22), post = w & (1u << 23);
    const u32 opcode = Bits(w, 15, 13), s = Bits(w, 12, 12), size = Bits(w, 11, 10);
    const u64 base = Xsp(Rn());
    if ((opcode & 1) || (w & (1u << 21))) Unsupported(c, w, "structure");
    u32 bytes;
    if (opcode == 6) {  // to all lanes
      bytes = 1u << size;
      Vec r;
      for (u32 i = 0; i < (q ? 16u : 8u); i += bytes) {
        memcpy(r.b + i, reinterpret_cast<const void*>(base), bytes);
      }
      c.v[Rd()] = r;
    } else {
      u32 index;
      if (opcode == 0) {
        bytes = 1;
        index = (q << 3) | (s << 2) | size;
      } else if (opcode == 2) {
        bytes = 2;
        index = (q << 2) | (s << 1) | (size >> 1);
      } else if (size & 1) {
        bytes = 8;
        index = q;
      } else {
        bytes = 4;
        index = (q << 1) | s;
      }
      unsigned char* lane = c.v[Rd()].b + index * bytes;
      if (load) memcpy(lane, reinterpret_cast<const void*>(base), bytes);
      else memcpy(reinterpret_cast<void*>(base), lane, bytes);
    }
    if (post) SetSp(Rn(), base + (Rm() == 31 ? bytes : X(Rm())));
  }

  // ---- Floating point and vectors.

  void SetF(u32 r, float f) { Vec v; SetLane(&v, 0, f); c.v[r] = v; }
  void SetF(u32 r, double f) { Vec v; SetLane(&v, 0, f); c.v[r] = v; }

  void Simd() {
    const u32 top = Bits(w, 31, 24);
    if ((top & 0x7f) == 0x1e) {
      return Bits(w, 23, 22) == 0 ? Scalar<float>() : Scalar<double>();
    }
    if (top == 0x1f) return Bits(w, 23, 22) ? FusedScalar<double>() : FusedScalar<float>();
    if ((top & 0x9f) == 0x0e) return Vector();
    if ((top & 0x9f) == 0x0f) {
      if (w & (1u << 10)) {
        if (w & (1u << 23)) Unsupported(c, w, "immediate");
        return Bits(w, 22, 19) ? ShiftImmediate() : ModifiedImmediate();
      }
      return ByElement();
    }
    if ((w & 0xffe08400u) == 0x5e000400u && Bits(w, 14, 11) == 0) {
      // A lane to a scalar.
      const u32 imm = Rm();
      const int size = __builtin_ctz(imm | 16);
      Vec r;
      memcpy(r.b, c.v[Rn()].b + ((imm >> (size + 1)) << size), 1u << size);
      c.v[Rd()] = r;
      return;
    }
    if ((w & 0xdfbffc00u) == 0x5e21d800u) {  // scvtf, ucvtf
      const bool u = w & (1u << 29);
      const Vec& n = c.v[Rn()];
      if (w & (1u << 22)) {
        SetF(Rd(), u ? static_cast<double>(Lane<u64>(n, 0))
                     : static_cast<double>(Lane<i64>(n, 0)));
      } else {
        SetF(Rd(), u ? static_cast<float>(Lane<u32>(n, 0))
                     : static_cast<float>(Lane<i32>(n, 0)));
      }
      return;
    }
    Unsupported(c, w, "scalar vector operation");
  }

  template <typename T>
  void FusedScalar() {
    const T a = Lane<T>(c.v[Ra()], 0), n = Lane<T>(c.v[Rn()], 0),
            m = Lane<T>(c.v[Rm()], 0);
    const bool o1 = w & (1u << 21), o0 = w & (1u << 15);
    SetF(Rd(), std::fma(o0 != o1 ? -n : n, m, o1 ? -a : a));
  }

  template <typename T>
  void Scalar() {
    const u32 type = Bits(w, 23, 22);
    const bool sf = w >> 31;
    if (!(w & (1u << 21))) Unsupported(c, w, "fixed point");
    if (Bits(w, 15, 10) == 0) {
      const u32 op = Bits(w, 20, 16);
      const T n = Lane<T>(c.v[Rn()], 0);
      switch (op) {
        case 2: SetF(Rd(), sf ? static_cast<T>(static_cast<i64>(X(Rn())))
                              : static_cast<T>(static_cast<i32>(X(Rn()))));
          return;
        case 3: SetF(Rd(), sf ? static_cast<T>(X(Rn()))
                              : static_cast<T>(static_cast<u32>(X(Rn()))));
          return;
        case 6: Set(Rd(), sf ? Lane<u64>(c.v[Rn()], 0) : Lane<u32>(c.v[Rn()], 0));
          return;
        case 7: {
          Vec r;
          if (sf) SetLane<u64>(&r, 0, X(Rn()));
          else SetLane<u32>(&r, 0, static_cast<u32>(X(Rn())));
          c.v[Rd()] = r;
          return;
        }
        case 14: if (type == 2) { Set(Rd(), Lane<u64>(c.v[Rn()], 1)); return; } break;
        case 15: if (type == 2) { SetLane<u64>(&c.v[Rd()], 1, X(Rn())); return; } break;
        case 24:
          if (sf) Set(Rd(), static_cast<u64>(ToInt<i64>(n)));
          else Set(Rd(), static_cast<u64>(ToInt<i32>(n)), false);
          return;
        case 25:
          if (sf) Set(Rd(), ToInt<u64>(n));
          else Set(Rd(), ToInt<u32>(n), false);
          return;
        case 4:
          if (sf) Set(Rd(), static_cast<u64>(ToInt<i64>(std::round(n))));
          else Set(Rd(), static_cast<u64>(ToInt<i32>(std::round(n))), false);
          return;
      }
      Unsupported(c, w, "conversion");
    }
    if (type > 1) Unsupported(c, w, "half precision");
    if (Bits(w, 14, 10) == 0x10) {
      const T n = Lane<T>(c.v[Rn()], 0);
      switch (Bits(w, 20, 15)) {
        case 0: SetF(Rd(), n); return;
        case 1: SetF(Rd(), std::fabs(n)); return;
        case 2: SetF(Rd(), -n); return;
        case 3: SetF(Rd(), std::sqrt(n)); return;
        case 4: SetF(Rd(), static_cast<float>(n)); return;
        case 5: SetF(Rd(), static_cast<double>(n)); return;
        case 8: SetF(Rd(), std::nearbyint(n)); return;
        case 9: SetF(Rd(), std::ceil(n)); return;
        case 10: SetF(Rd(), std::floor(n)); return;
        case 11: SetF(Rd(), std::trunc(n)); return;
        case 12: SetF(Rd(), std::round(n)); return;
      }
      Unsupported(c, w, "one source");
    }
    if (Bits(w, 13, 10) == 8) {
      const T n = Lane<T>(c.v[Rn()], 0);
      const T m = (w & 8) ? T(0) : Lane<T>(c.v[Rm()], 0);
      Compare(n, m);
      return;
    }
    if (Bits(w, 12, 10) == 4) {
      SetF(Rd(), static_cast<T>(FpImmediate(Bits(w, 20, 13))));
      return;
    }
    const T n = Lane<T>(c.v[Rn()], 0), m = Lane<T>(c.v[Rm()], 0);
    switch (Bits(w, 11, 10)) {
      case 1:
        if (Condition(c, Bits(w, 15, 12))) {
          Compare(n, m);
        } else {
          c.n = w & 8;
          c.z = w & 4;
          c.c = w & 2;
          c.o = w & 1;
        }
        return;
      case 2:
        switch (Bits(w, 15, 12)) {
          case 0: SetF(Rd(), n * m); return;
          case 1: SetF(Rd(), n / m); return;
          case 2: SetF(Rd(), n + m); return;
          case 3: SetF(Rd(), n - m); return;
          case 4: SetF(Rd(), Max(n, m)); return;
          case 5: SetF(Rd(), Min(n, m)); return;
          case 6: SetF(Rd(), n != n ? m : m != m ? n : Max(n, m)); return;
          case 7: SetF(Rd(), n != n ? m : m != m ? n : Min(n, m)); return;
          case 8: SetF(Rd(), -(n * m)); return;
        }
        break;
      case 3:
        SetF(Rd(), Condition(c, Bits(w, 15, 12)) ? n : m);
        return;
    }
    Unsupported(c, w, "floating point");
  }

  template <typename T>
  void Compare(T n, T m) {
    const bool unordered = n != n || m != m;
    c.n = n < m;
    c.z = n == m;
    c.c = unordered || n >= m;
    c.o = unordered;
  }

  int Bytes() const { return (w & (1u << 30)) ? 16 : 8; }

  template <typename T, typename F>
  void Map(F f) {
    const Vec &n = c.v[Rn()], &m = c.v[Rm()], &d = c.v[Rd()];
    Vec r;
    for (int i = 0; i < Bytes() / static_cast<int>(sizeof(T)); ++i) {
      SetLane<T>(&r, i, static_cast<T>(f(Lane<T>(n, i), Lane<T>(m, i), Lane<T>(d, i))));
    }
    c.v[Rd()] = r;
  }
  template <typename F>
  void MapInts(int size, bool is_unsigned, F f) {
    ByType(size, is_unsigned, [&](auto t) { Map<decltype(t)>(f); });
  }
  template <typename T, typename F>
  void MapPairs(F f) {
    const Vec &n = c.v[Rn()], &m = c.v[Rm()];
    const int k = Bytes() / static_cast<int>(sizeof(T));
    Vec r;
    for (int i = 0; i < k; ++i) {
      const Vec& s = i < k / 2 ? n : m;
      const int j = i % (k / 2) * 2;
      SetLane<T>(&r, i, static_cast<T>(f(Lane<T>(s, j), Lane<T>(s, j + 1))));
    }
    c.v[Rd()] = r;
  }

  void Vector() {
    const bool b21 = w & (1u << 21), b15 = w & (1u << 15), b10 = w & 1024;
    const bool u = w & (1u << 29);
    if (b21 && b10) return ThreeSame();
    if (b21 && Bits(w, 11, 10) == 0) return ThreeDifferent();
    if (b21 && Bits(w, 11, 10) == 2 && Bits(w, 20, 17) == 0) return TwoMisc();
    if (b21 && Bits(w, 11, 10) == 2 && Bits(w, 20, 17) == 8) return Across();
    if (!b21 && b15 && b10 && Bits(w, 14, 11) == 2) return Dot(c.v[Rm()], -1);
    if (!b21 && !b15 && b10 && Bits(w, 23, 22) == 0) return Copy();
    if (!b21 && !b15 && Bits(w, 11, 10) == 2 && !u) return Permute();
    if (!b21 && !b15 && !b10 && u && Bits(w, 23, 22) == 0) {  // ext
      const int from = Bits(w, 14, 11);
      Vec r;
      for (int i = 0; i < Bytes(); ++i) {
        const int j = from + i;
        r.b[i] = j < Bytes() ? c.v[Rn()].b[j] : c.v[Rm()].b[j - Bytes()];
      }
      c.v[Rd()] = r;
      return;
    }
    if (!b21 && !b15 && Bits(w, 11, 10) == 0 && !u && Bits(w, 23, 22) == 0) {
      // Table lookup.
      const int regs = Bits(w, 14, 13) + 1;
      Vec r;
      if (w & (1u << 12)) r = c.v[Rd()];
      Vec index = c.v[Rm()];
      for (int i = 0; i < Bytes(); ++i) {
        const int j = index.b[i];
        if (j < regs * 16) r.b[i] = c.v[(Rn() + j / 16) % 32].b[j % 16];
      }
      if (Bytes() == 8) memset(r.b + 8, 0, 8);
      c.v[Rd()] = r;
      return;
    }
    Unsupported(c, w, "vector");
  }

  void Dot(const Vec& m, int index) {
    if (Bits(w, 23, 22) != 2) Unsupported(c, w, "dot product");
    const bool u = w & (1u << 29);
    const Vec n = c.v[Rn()], mm = m;
    Vec r;
    for (int i = 0; i < Bytes() / 4; ++i) {
      u32 s = Lane<u32>(c.v[Rd()], i);
      for (int k = 0; k < 4; ++k) {
        const int j = (index < 0 ? i : index) * 4 + k;
        s += u ? static_cast<u32>(n.b[i * 4 + k]) * mm.b[j]
               : static_cast<u32>(static_cast<i8>(n.b[i * 4 + k]) *
                                  static_cast<i8>(mm.b[j]));
      }
      SetLane(&r, i, s);
    }
    c.v[Rd()] = r;
  }

  void Copy() {
    const u32 imm5 = Rm(), imm4 = Bits(w, 14, 11);
    if (!(imm5 & 15)) Unsupported(c, w, "copy");
    const int size = __builtin_ctz(imm5);
    const int bytes = 1 << size, index = imm5 >> (size + 1);
    const bool u = w & (1u << 29);
    if (u) {  // between lanes
      const Vec n = c.v[Rn()];
      memcpy(c.v[Rd()].b + index * bytes, n.b + (imm4 >> size) * bytes, bytes);
      return;
    }
    switch (imm4) {
      case 0: {
        Vec r;
        for (int i = 0; i < Bytes(); i += bytes) {
          memcpy(r.b + i, c.v[Rn()].b + index * bytes, bytes);
        }
        c.v[Rd()] = r;
        return;
      }
      case 1: {
        const u64 v = X(Rn());
        Vec r;
        for (int i = 0; i < Bytes(); i += bytes) memcpy(r.b + i, &v, bytes);
        c.v[Rd()] = r;
        return;
      }
      case 3: {
        const u64 v = X(Rn());
        memcpy(c.v[Rd()].b + index * bytes, &v, bytes);
        return;
      }
      case 5: case 7: {
        u64 v = 0;
        memcpy(&v, c.v[Rn()].b + index * bytes, bytes);
        if (imm4 == 5) v = static_cast<u64>(Sext(v, bytes * 8));
        Set(Rd(), v, Bytes() == 16);
        return;
      }
    }
    Unsupported(c, w, "copy");
  }

  void Permute() {
    const int esize = 1 << Bits(w, 23, 22);
    const Vec n = c.v[Rn()], m = c.v[Rm()];
    const int k = Bytes() / esize;
    const u32 op = Bits(w, 14, 12);
    const int part = op >> 2;
    Vec r;
    auto put = [&](int i, const Vec& v, int j) {
      memcpy(r.b + i * esize, v.b + j * esize, esize);
    };
    for (int i = 0; i < k / 2; ++i) {
      switch (op & 3) {
        case 1:  // unzip
          put(i, n, 2 * i + part);
          put(k / 2 + i, m, 2 * i + part);
          break;
        case 2:  // transpose
          put(2 * i, n, 2 * i + part);
          put(2 * i + 1, m, 2 * i + part);
          break;
        case 3:  // zip
          put(2 * i, n, part * k / 2 + i);
          put(2 * i + 1, m, part * k / 2 + i);
          break;
        default:
          Unsupported(c, w, "permute");
      }
    }
    c.v[Rd()] = r;
  }

  template <typename T>
  void FloatThreeSame(u32 key) {
    switch (key) {  // U, bit 23, opcode
      case 0x19: Map<T>([](T n, T m, T d) { return std::fma(n, m, d); }); return;
      case 0x39: Map<T>([](T n, T m, T d) { return std::fma(-n, m, d); }); return;
      case 0x1a: Map<T>([](T n, T m, T) { return n + m; }); return;
      case 0x3a: Map<T>([](T n, T m, T) { return n - m; }); return;
      case 0x5b: Map<T>([](T n, T m, T) { return n * m; }); return;
      case 0x5f: Map<T>([](T n, T m, T) { return n / m; }); return;
      case 0x1e: Map<T>([](T n, T m, T) { return Max(n, m); }); return;
      case 0x3e: Map<T>([](T n, T m, T) { return Min(n, m); }); return;
      case 0x5a: MapPairs<T>([](T a, T b) { return a + b; }); return;
    }
    Unsupported(c, w, "three floats");
  }

  void ThreeSame() {
    const u32 opcode = Bits(w, 15, 11), size = Bits(w, 23, 22);
    const bool u = w & (1u << 29);
    if (opcode >= 0x18) {
      const u32 key = (u << 6) | ((size >> 1) << 5) | opcode;
      return (size & 1) ? FloatThreeSame<double>(key) : FloatThreeSame<float>(key);
    }
    switch (opcode) {
      case 0x00: MapInts(size, u, [](auto n, auto m, auto) { return (static_cast<i128>(n) + m) >> 1; }); return;
      case 0x01: MapInts(size, u, [](auto n, auto m, auto) { return Saturate<decltype(n)>(static_cast<i128>(n) + m); }); return;
      case 0x02: MapInts(size, u, [](auto n, auto m, auto) { return (static_cast<i128>(n) + m + 1) >> 1; }); return;
      case 0x03:
        switch (size + 4 * u) {
          case 0: Map<u64>([](u64 n, u64 m, u64) { return n & m; }); return;
          case 1: Map<u64>([](u64 n, u64 m, u64) { return n & ~m; }); return;
          case 2: Map<u64>([](u64 n, u64 m, u64) { return n | m; }); return;
          case 3: Map<u64>([](u64 n, u64 m, u64) { return n | ~m; }); return;
          case 4: Map<u64>([](u64 n, u64 m, u64) { return n ^ m; }); return;
          case 5: Map<u64>([](u64 n, u64 m, u64 d) { return (n & d) | (m & ~d); }); return;
          case 6: Map<u64>([](u64 n, u64 m, u64 d) { return (n & m) | (d & ~m); }); return;
          case 7: Map<u64>([](u64 n, u64 m, u64 d) { return (n & ~m) | (d & m); }); return;
        }
        break;
      case 0x05: MapInts(size, u, [](auto n, auto m, auto) { return Saturate<decltype(n)>(static_cast<i128>(n) - m); }); return;
      case 0x06: MapInts(size, u, [](auto n, auto m, auto) { return n > m ? -1 : 0; }); return;
      case 0x07: MapInts(size, u, [](auto n, auto m, auto) { return n >= m ? -1 : 0; }); return;
      case 0x08: MapInts(size, u, [](auto n, auto m, auto) { return ShiftLeftBy(n, static_cast<i8>(m), false); }); return;
      case 0x09: MapInts(size, u, [](auto n, auto m, auto) { return Saturate<decltype(n)>(ShiftLeftBy(n, static_cast<i8>(m), false)); }); return;
      case 0x0a: MapInts(size, u, [](auto n, auto m, auto) { return ShiftLeftBy(n, static_cast<i8>(m), true); }); return;
      case 0x0b: MapInts(size, u, [](auto n, auto m, auto) { return Saturate<decltype(n)>(ShiftLeftBy(n, static_cast<i8>(m), true)); }); return;
      case 0x0c: MapInts(size, u, [](auto n, auto m, auto) { return n > m ? n : m; }); return;
      case 0x0d: MapInts(size, u, [](auto n, auto m, auto) { return n < m ? n : m; }); return;
      case 0x10:
        if (u) MapInts(size, true, [](auto n, auto m, auto) { return n - m; });
        else MapInts(size, true, [](auto n, auto m, auto) { return n + m; });
        return;
      case 0x11:
        if (u) MapInts(size, true, [](auto n, auto m, auto) { return n == m ? -1 : 0; });
        else MapInts(size, true, [](auto n, auto m, auto) { return (n & m) ? -1 : 0; });
        return;
      case 0x12:
        if (u) MapInts(size, true, [](auto n, auto m, auto d) { return static_cast<u64>(d) - static_cast<u64>(n) * m; });
        else MapInts(size, true, [](auto n, auto m, auto d) { return static_cast<u64>(d) + static_cast<u64>(n) * m; });
        return;
      case 0x13:
        if (!u) {
          MapInts(size, true, [](auto n, auto m, auto) { return static_cast<u64>(n) * m; });
          return;
        }
        break;
      case 0x14: ByType(size, u, [&](auto t) { using T = decltype(t); MapPairs<T>([](T a, T b) { return a > b ? a : b; }); }); return;
      case 0x15: ByType(size, u, [&](auto t) { using T = decltype(t); MapPairs<T>([](T a, T b) { return a < b ? a : b; }); }); return;
      case 0x16: {
        const bool rounding = u;
        ByType(size, false, [&](auto t) {
          using T = decltype(t);
          const int bits = sizeof(T) * 8;
          Map<T>([&](T n, T m, T) {
            i128 p = static_cast<i128>(n) * m * 2;
            if (rounding) p += static_cast<i128>(1) << (bits - 1);
            return Saturate<T>(p >> bits);
          });
        });
        return;
      }
      case 0x17:
        if (!u) {
          ByType(size, true, [&](auto t) { using T = decltype(t); MapPairs<T>([](T a, T b) { return a + b; }); });
          return;
        }
        break;
    }
    Unsupported(c, w, "three vectors");
  }

  void ThreeDifferent() {
    const u32 opcode = Bits(w, 15, 12), size = Bits(w, 23, 22);
    const bool u = w & (1u << 29), high = w & (1u << 30);
    if (size == 3) Unsupported(c, w, "widening");
    Widening(opcode, size, u, high, c.v[Rm()], -1);
  }

  // `index`: the lane of m, or -1 for the corresponding ones.
  void Widening(u32 opcode, u32 size, bool u, bool high, const Vec& mv, int index) {
    const Vec n = c.v[Rn()], m = mv, d = c.v[Rd()];
    Vec r;
    bool known = true;
    ByNarrowType(size, u, [&](auto t) {
      using T = decltype(t);
      using L = typename Wider<T>::T;
      const int k = 8 / static_cast<int>(sizeof(T));
      for (int i = 0; i < k; ++i) {
        const int j = high ? i + k : i;
        const i128 a = Lane<T>(n, j), b = Lane<T>(m, index < 0 ? j : index);
        const i128 wide = Lane<L>(n, i), old = Lane<L>(d, i);
        i128 v = 0;
        switch (opcode) {
          case 0: v = a + b; break;
          case 1: v = wide + b; break;
          case 2: v = a - b; break;
          case 3: v = wide - b; break;
          case 5: v = old + (a > b ? a - b : b - a); break;
          case 7: v = a > b ? a - b : b - a; break;
          case 8: v = old + a * b; break;
          case 10: v = old - a * b; break;
          case 12: v = a * b; break;
          default: known = false;
        }
        SetLane<L>(&r, i, static_cast<L>(v));
      }
    });
    if (!known) Unsupported(c, w, "widening");
    c.v[Rd()] = r;
  }

  void TwoMisc() {
    const u32 opcode = Bits(w, 16, 12), size = Bits(w, 23, 22);
    const bool u = w & (1u << 29), high = w & (1u << 30);
    const Vec n = c.v[Rn()];
    Vec r;
    switch (opcode) {
      case 0: case 1: {  // reversals
        const int group = opcode == 1 ? 2 : u ? 4 : 8, e = 1 << size;
        for (int i = 0; i < Bytes(); ++i) {
          const int g = i / group * group, in = i - g;
          r.b[i] = n.b[g + (group / e - 1 - in / e) * e + in % e];
        }
        c.v[Rd()] = r;
        return;
      }
      case 2: case 6:
        if (size == 3) break;
        ByNarrowType(size, u, [&](auto t) {
          using T = decltype(t);
          using L = typename Wider<T>::T;
          for (int i = 0; i < Bytes() / static_cast<int>(sizeof(L)); ++i) {
            const L old = opcode == 6 ? Lane<L>(c.v[Rd()], i) : L(0);
            SetLane<L>(&r, i, static_cast<L>(static_cast<i128>(old) + Lane<T>(n, 2 * i) +
                                             Lane<T>(n, 2 * i + 1)));
          }
        });
        c.v[Rd()] = r;
        return;
      case 5:
        if (u && size == 0) {
          for (int i = 0; i < Bytes(); ++i) r.b[i] = static_cast<u8>(~n.b[i]);
          c.v[Rd()] = r;
          return;
        }
        break;
      case 0x08:
        if (u) MapInts(size, false, [](auto a, auto, auto) { return a >= 0 ? -1 : 0; });
        else MapInts(size, false, [](auto a, auto, auto) { return a > 0 ? -1 : 0; });
        return;
      case 0x09:
        if (u) MapInts(size, false, [](auto a, auto, auto) { return a <= 0 ? -1 : 0; });
        else MapInts(size, false, [](auto a, auto, auto) { return a == 0 ? -1 : 0; });
        return;
      case 0x0a: MapInts(size, false, [](auto a, auto, auto) { return a < 0 ? -1 : 0; }); return;
      case 0x0b:
        if (u) MapInts(size, false, [](auto a, auto, auto) { return -static_cast<i128>(a); });
        else MapInts(size, false, [](auto a, auto, auto) { return a < 0 ? -static_cast<i128>(a) : static_cast<i128>(a); });
        return;
      case 0x12: case 0x14: {
        if (size == 3) break;
        // xtn, sqxtun, sqxtn, uqxtn into the lower or upper half.
        ByNarrowType(size, true, [&](auto t) {
          using U = decltype(t);
          using S = typename std::make_signed<U>::type;
          using LU = typename Wider<U>::T;
          using LS = typename Wider<S>::T;
          const int k = 8 / static_cast<int>(sizeof(U));
          if (high) memcpy(r.b, c.v[Rd()].b, 8);
          for (int i = 0; i < k; ++i) {
            U v;
            if (opcode == 0x12) {
              v = u ? Saturate<U>(Lane<LS>(n, i)) : static_cast<U>(Lane<LU>(n, i));
            } else {
              v = u ? Saturate<U>(Lane<LU>(n, i))
                    : static_cast<U>(Saturate<S>(Lane<LS>(n, i)));
            }
            SetLane<U>(&r, (high ? k : 0) + i, v);
          }
        });
        c.v[Rd()] = r;
        return;
      }
      case 0x0f:
        if (size & 2) {
          const bool neg = u;
          if (size & 1) Map<u64>([&](u64 a, u64, u64) { return neg ? a ^ (1ull << 63) : a & ~(1ull << 63); });
          else Map<u32>([&](u32 a, u32, u32) { return neg ? a ^ 0x80000000u : a & 0x7fffffffu; });
          return;
        }
        break;
      case 0x1d:
        if (size == 0) {
          for (int i = 0; i < Bytes() / 4; ++i) {
            SetLane<float>(&r, i, u ? static_cast<float>(Lane<u32>(n, i))
                                    : static_cast<float>(Lane<i32>(n, i)));
          }
          c.v[Rd()] = r;
          return;
        }
        break;
    }
    Unsupported(c, w, "two vectors");
  }

  void Across() {
    const u32 opcode = Bits(w, 16, 12), size = Bits(w, 23, 22);
    const bool u = w & (1u << 29);
    const Vec n = c.v[Rn()];
    Vec r;
    bool known = true;
    ByType(size, u, [&](auto t) {
      using T = decltype(t);
      const int k = Bytes() / static_cast<int>(sizeof(T));
      i128 v = Lane<T>(n, 0);
      for (int i = 1; i < k; ++i) {
        const i128 x = Lane<T>(n, i);
        switch (opcode) {
          case 0x0a: v = x > v ? x : v; break;
          case 0x1a: v = x < v ? x : v; break;
          case 0x1b: case 3: v += x; break;
          default: known = false;
        }
      }
      if (opcode == 3) {
        u64 wide = static_cast<u64>(v);
        memcpy(r.b, &wide, sizeof(T) * 2 > 8 ? 8 : sizeof(T) * 2);
      } else {
        SetLane<T>(&r, 0, static_cast<T>(v));
      }
    });
    if (!known) Unsupported(c, w, "across lanes");
    c.v[Rd()] = r;
  }

  void ModifiedImmediate() {
    const bool op = w & (1u << 29);
    const u32 cmode = Bits(w, 15, 12);
    const u64 imm8 = (Bits(w, 18, 16) << 5) | Bits(w, 9, 5);
    u64 v;
    if (cmode < 8) {
      v = imm8 << ((cmode >> 1) * 8);
      v |= v << 32;
    } else if (cmode < 12) {
      v = imm8 << (((cmode >> 1) & 1) * 8);
      v *= 0x0001000100010001ull;
    } else if (cmode < 14) {
      v = (cmode & 1) ? (imm8 << 16) | 0xffff : (imm8 << 8) | 0xff;
      v |= v << 32;
    } else if (cmode == 14) {
      if (op) {
        v = 0;
        for (int i = 0; i < 8; ++i) {
          if ((imm8 >> i) & 1) v |= 0xffull << (8 * i);
        }
      } else {
        v = imm8 * 0x0101010101010101ull;
      }
    } else if (op) {
      const double f = FpImmediate(static_cast<u32>(imm8));
      memcpy(&v, &f, 8);
    } else {
      const float f = static_cast<float>(FpImmediate(static_cast<u32>(imm8)));
      u32 t;
      memcpy(&t, &f, 4);
      v = t | (static_cast<u64>(t) << 32);
    }
    const bool combine = cmode < 12 && (cmode & 1);
    if (op && cmode < 14) v = ~v;
    Vec r;
    for (int i = 0; i < Bytes() / 8; ++i) {
      const u64 old = Lane<u64>(c.v[Rd()], i);
      SetLane<u64>(&r, i, !combine ? v : op ? old & v : old | v);
    }
    c.v[Rd()] = r;
  }

  void ShiftImmediate() {
    const u32 immh = Bits(w, 22, 19), imm = Bits(w, 22, 16), opcode = Bits(w, 15, 11);
    const bool u = w & (1u << 29), high = w & (1u << 30);
    const int size = 31 - __builtin_clz(immh);
    const int bits = 8 << size;
    const int right = 2 * bits - static_cast<int>(imm);
    const int left = static_cast<int>(imm) - bits;
    const Vec n = c.v[Rn()];
    Vec r;
    switch (opcode) {
      case 0x00: MapInts(size, u, [&](auto a, auto, auto) { return ShiftLeftBy(a, -right, false); }); return;
      case 0x02: MapInts(size, u, [&](auto a, auto, auto d) { return ShiftLeftBy(a, -right, false) + d; }); return;
      case 0x04: MapInts(size, u, [&](auto a, auto, auto) { return ShiftLeftBy(a, -right, true); }); return;
      case 0x06: MapInts(size, u, [&](auto a, auto, auto d) { return ShiftLeftBy(a, -right, true) + d; }); return;
      case 0x0a:
        if (!u) {
          MapInts(size, true, [&](auto a, auto, auto) { return static_cast<u64>(a) << left; });
          return;
        }
        break;
      case 0x10: case 0x11:
        if (u || size == 3) break;
        ByNarrowType(size, true, [&](auto t) {
          using T = decltype(t);
          using L = typename Wider<T>::T;
          const int k = 8 / static_cast<int>(sizeof(T));
          if (high) memcpy(r.b, c.v[Rd()].b, 8);
          for (int i = 0; i < k; ++i) {
            SetLane<T>(&r, (high ? k : 0) + i,
                       static_cast<T>(ShiftLeftBy(Lane<L>(n, i), -right, opcode & 1)));
          }
        });
        c.v[Rd()] = r;
        return;
      case 0x14:
        if (size == 3) break;
        ByNarrowType(size, u, [&](auto t) {
          using T = decltype(t);
          using L = typename Wider<T>::T;
          const int k = 8 / static_cast<int>(sizeof(T));
          for (int i = 0; i < k; ++i) {
            SetLane<L>(&r, i, static_cast<L>(static_cast<i128>(Lane<T>(n, (high ? k : 0) + i)) << left));
          }
        });
        c.v[Rd()] = r;
        return;
    }
    Unsupported(c, w, "shift");
  }

  void ByElement() {
    const u32 opcode = Bits(w, 15, 12), size = Bits(w, 23, 22);
    const bool u = w & (1u << 29), high = w & (1u << 30);
    const u32 l = Bits(w, 21, 21), m = Bits(w, 20, 20), h = Bits(w, 11, 11);
    const u32 low = Bits(w, 19, 16);
    if (!u && (opcode == 1 || opcode == 5 || opcode == 9) && (size & 2)) {
      if (size & 1) FloatByElement<double>(opcode, c.v[low | (m << 4)], h);
      else FloatByElement<float>(opcode, c.v[low | (m << 4)], (h << 1) | l);
      return;
    }
    if (opcode == 14) return Dot(c.v[low | (m << 4)], static_cast<int>((h << 1) | l));
    if (size != 1 && size != 2) Unsupported(c, w, "by element");
    const int index = static_cast<int>(size == 1 ? (h << 2) | (l << 1) | m : (h << 1) | l);
    const Vec mv = c.v[size == 1 ? low : low | (m << 4)];
    if (opcode == 2 || opcode == 6 || opcode == 10) {
      Widening(opcode == 2 ? 8 : opcode == 6 ? 10 : 12, size, u, high, mv, index);
      return;
    }
    bool known = true;
    ByType(static_cast<int>(size), false, [&](auto t) {
      using T = decltype(t);
      const i128 b = Lane<T>(mv, index);
      const int bits = sizeof(T) * 8;
      Map<T>([&](T n, T, T d) -> T {
        const i128 p = n * b;
        if (u && opcode == 0) return static_cast<T>(d + p);
        if (u && opcode == 4) return static_cast<T>(d - p);
        if (!u && opcode == 8) return static_cast<T>(p);
        if (!u && opcode == 12) return Saturate<T>((p * 2) >> bits);
        if (!u && opcode == 13) {
          return Saturate<T>((p * 2 + (static_cast<i128>(1) << (bits - 1))) >> bits);
        }
        known = false;
        return 0;
      });
    });
    if (!known) Unsupported(c, w, "by element");
  }

  template <typename T>
  void FloatByElement(u32 opcode, const Vec& mv, u32 index) {
    const T b = Lane<T>(mv, static_cast<int>(index));
    if (opcode == 1) Map<T>([&](T n, T, T d) { return std::fma(n, b, d); });
    else if (opcode == 5) Map<T>([&](T n, T, T d) { return std::fma(-n, b, d); });
    else Map<T>([&](T n, T, T) { return n * b; });
  }
};

// Stacks, kept for the thread's next call.
struct Stack {
  static constexpr std::size_t kSize = 1 << 20;
  void* p = nullptr;
  Stack() {
    p = mmap(nullptr, kSize + 4096, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p, 4096, PROT_NONE);
  }
  ~Stack() { munmap(p, kSize + 4096); }
  u64 Top() const { return reinterpret_cast<u64>(p) + 4096 + kSize - 64; }
};

// Threads of the program.
void* ThreadMain(void* state) {
  Cpu cpu;
  const u64 table = Get<u64>(reinterpret_cast<u64>(state));
  const u64 s = reinterpret_cast<u64>(state);
  std::string e = Call(&cpu, Get<u64>(table + 16), s);
  if (e.empty()) e = Call(&cpu, Get<u64>(table + 8), s);
  if (!e.empty()) {
    fprintf(stderr, "thread: %s\n", e.c_str());
    abort();
  }
  return nullptr;
}

extern "C" void A64StartThread(pthread_t* id, void** state, void*) {
  void* s = *state;
  *state = nullptr;
  if (pthread_create(id, nullptr, ThreadMain, s) != 0) abort();
}

// Thread-local variables, as the compiler emulates them.
struct Emulated {
  std::size_t size, align;
  void* object;
  const void* initial;
};

extern "C" void* A64ThreadLocal(Emulated* e) {
  static thread_local std::map<Emulated*, void*> all;
  void*& p = all[e];
  if (!p) {
    if (posix_memalign(&p, std::max<std::size_t>(e->align, 16), e->size)) abort();
    if (e->initial) memcpy(p, e->initial, e->size);
    else memset(p, 0, e->size);
  }
  return p;
}

// Destructors of the program's variables at exit do not matter.
extern "C" int A64AtExit(void*, void*, void*) { return 0; }

u64 Host(const std::string& name) {
  if (name == "__emutls_get_address") return reinterpret_cast<u64>(&A64ThreadLocal);
  if (name == "__cxa_atexit" || name == "__cxa_thread_atexit") {
    return reinterpret_cast<u64>(&A64AtExit);
  }
  if (name.find("_M_start_thread") != std::string::npos) {
    return reinterpret_cast<u64>(&A64StartThread);
  }
  void* p = dlsym(RTLD_DEFAULT, name.c_str());
  return reinterpret_cast<u64>(p);
}

[[noreturn]] void Bad(const std::string& what) {
  fprintf(stderr, "interpreter: %s\n", what.c_str());
  exit(77);
}

}  // namespace

void Load(const std::string& path) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) Bad("cannot open " + path);
  std::vector<char> file;
  char buf[65536];
  std::size_t k;
  while ((k = fread(buf, 1, sizeof buf, f)) > 0) file.insert(file.end(), buf, buf + k);
  fclose(f);
  const Elf64_Ehdr* eh = reinterpret_cast<const Elf64_Ehdr*>(file.data());
  if (file.size() < sizeof *eh || memcmp(eh->e_ident, ELFMAG, 4) ||
      eh->e_machine != EM_AARCH64) {
    Bad("not a program for it: " + path);
  }
  const Elf64_Phdr* ph = reinterpret_cast<const Elf64_Phdr*>(file.data() + eh->e_phoff);
  u64 size = 0;
  const Elf64_Dyn* dyn = nullptr;
  for (int i = 0; i < eh->e_phnum; ++i) {
    if (ph[i].p_type == PT_LOAD) size = std::max<u64>(size, ph[i].p_vaddr + ph[i].p_memsz);
  }
  void* p = mmap(nullptr, size + 4096, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) Bad("no memory");
  g_lo = reinterpret_cast<u64>(p);
  g_hi = g_lo + size;
  for (int i = 0; i < eh->e_phnum; ++i) {
    if (ph[i].p_type == PT_LOAD) {
      memcpy(reinterpret_cast<void*>(g_lo + ph[i].p_vaddr), file.data() + ph[i].p_offset,
             ph[i].p_filesz);
    }
  }
  for (int i = 0; i < eh->e_phnum; ++i) {
    if (ph[i].p_type == PT_DYNAMIC) {
      dyn = reinterpret_cast<const Elf64_Dyn*>(g_lo + ph[i].p_vaddr);
    }
  }
  if (!dyn) Bad("no dynamic section");
  std::map<i64, u64> d;
  for (; dyn->d_tag != DT_NULL; ++dyn) d[dyn->d_tag] = dyn->d_un.d_val;
  const Elf64_Sym* syms = reinterpret_cast<const Elf64_Sym*>(g_lo + d[DT_SYMTAB]);
  const char* names = reinterpret_cast<const char*>(g_lo + d[DT_STRTAB]);
  auto resolve = [&](u32 i) -> u64 {
    const Elf64_Sym& s = syms[i];
    if (s.st_shndx != SHN_UNDEF) return g_lo + s.st_value;
    const u64 v = Host(names + s.st_name);
    if (!v && ELF64_ST_BIND(s.st_info) != STB_WEAK) Bad(std::string("no ") + (names + s.st_name));
    return v;
  };
  auto relocate = [&](u64 at, u64 bytes) {
    const Elf64_Rela* r = reinterpret_cast<const Elf64_Rela*>(g_lo + at);
    for (u64 i = 0; i < bytes / sizeof *r; ++i) {
      const u64 where = g_lo + r[i].r_offset;
      switch (ELF64_R_TYPE(r[i].r_info)) {
        case R_AARCH64_RELATIVE: Store<u64>(where, g_lo + r[i].r_addend); break;
        case R_AARCH64_ABS64: case R_AARCH64_GLOB_DAT: case R_AARCH64_JUMP_SLOT:
          Store<u64>(where, resolve(ELF64_R_SYM(r[i].r_info)) + r[i].r_addend);
          break;
        default: Bad("relocation");
      }
    }
  };
  if (d.count(DT_RELA)) relocate(d[DT_RELA], d[DT_RELASZ]);
  if (d.count(DT_JMPREL)) relocate(d[DT_JMPREL], d[DT_PLTRELSZ]);
  // Symbols: as many as the hash table says.
  const u32* hash = d.count(DT_HASH) ? reinterpret_cast<const u32*>(g_lo + d[DT_HASH]) : nullptr;
  for (u32 i = 0; hash && i < hash[1]; ++i) {
    if (syms[i].st_shndx != SHN_UNDEF) g_symbols[names + syms[i].st_name] = g_lo + syms[i].st_value;
  }
  if (d.count(DT_INIT_ARRAY)) {
    for (u64 i = 0; i < d[DT_INIT_ARRAYSZ] / 8; ++i) {
      Cpu cpu;
      Call(&cpu, Get<u64>(g_lo + d[DT_INIT_ARRAY] + 8 * i));
    }
  }
}

u64 Symbol(const char* name) {
  auto it = g_symbols.find(name);
  if (it == g_symbols.end()) Bad(std::string("no symbol ") + name);
  return it->second;
}

std::string Call(Cpu* cpu, u64 function, u64 a, u64 b, u64 c, u64 d) {
  static thread_local Stack stack;
  for (int i = 0; i < 31; ++i) cpu->x[i] = 0x1234500000000000ull + i;
  cpu->x[31] = 0;
  for (int i = 0; i < 32; ++i) memset(cpu->v[i].b, 0xa0 + i, 16);
  const u64 sp = stack.Top();
  cpu->x[0] = a;
  cpu->x[1] = b;
  cpu->x[2] = c;
  cpu->x[3] = d;
  cpu->x[30] = kEnd;
  cpu->sp = sp;
  cpu->pc = function;
  const Cpu before = *cpu;
  Machine(cpu).Run();
  if (cpu->sp != sp) return "the stack pointer has changed";
  for (int i = 19; i < 30; ++i) {
    if (cpu->x[i] != before.x[i]) return "register x" + std::to_string(i) + " has changed";
  }
  for (int i = 8; i < 16; ++i) {
    if (memcmp(cpu->v[i].b, before.v[i].b, 8)) return "register d" + std::to_string(i) + " has changed";
  }
  if (cpu->fpcr != before.fpcr) return "the floating-point control register has changed";
  return "";
}

}  // namespace a64
