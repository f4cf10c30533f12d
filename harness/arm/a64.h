// An interpreter of 64-bit ARM code in this process: the interpreted program
// has this process's memory, and calls the functions of this process for
// whatever it does not define itself.
#ifndef VERIF_ARM_A64_H_
#define VERIF_ARM_A64_H_

#include <cstdint>
#include <string>

namespace a64 {

struct alignas(16) Vec {
  unsigned char b[16] = {};
};

struct Cpu {
  std::uint64_t x[32] = {};  // the last one stays zero
  std::uint64_t sp = 0, pc = 0;
  Vec v[32];
  bool n = false, z = false, c = false, o = false;
  std::uint64_t fpcr = 0, fpsr = 0;
  // Exclusive access.
  std::uint64_t marked = 0, seen = 0;
  std::uint64_t steps = 0;
};

// Loads a shared object. Ends the process if it cannot.
void Load(const std::string& path);
std::uint64_t Symbol(const char* name);

// Calls a function of the program with up to four arguments, on a stack of the
// calling thread. Registers that a function has to preserve and the control
// register are compared afterwards; returns "" or what has changed.
std::string Call(Cpu* cpu, std::uint64_t function, std::uint64_t a = 0,
                 std::uint64_t b = 0, std::uint64_t c = 0, std::uint64_t d = 0);

}  // namespace a64

#endif
