// C20: per-channel arrays need only their declared capacity.
#include <string.h>

#include <map>
#include <tuple>

#include "problem.h"
#include "ruy/performance_advisory.h"

using namespace gemm;

namespace {

bool Advised(const ruy::Context& ctx) {
  return ctx.performance_advisory(
      ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
}

int RoundUp(int v, int m) { return (v + m - 1) / m * m; }

// The block size of a code path along a side of the destination: the least
// rounding that needs no copy for a single channel.
int BlockSize(int combo, ruy::Path path, ruy::ChannelDimension channel,
              ruy::Order order, pbt::Case& c) {
  static auto* known =
      new std::map<std::tuple<int, int, int, int>, int>;
  const auto key =
      std::make_tuple(combo, static_cast<int>(path), static_cast<int>(channel),
                      static_cast<int>(order));
  auto it = known->find(key);
  if (it != known->end()) return it->second;
  int found = 0;
  for (int rounding = 1; rounding <= 64 && !found; rounding *= 2) {
    Settings s;
    s.path = path;
    std::unique_ptr<ruy::Context> ctx = s.Make();
    double lhs = 0, rhs = 0, dst = 0, bias[64] = {};
    MulArgs a;
    a.combo = combo;
    for (MatArg* m : {&a.lhs, &a.rhs, &a.dst}) {
      m->rows = m->cols = m->stride = 1;
    }
    a.dst.order = order;
    a.lhs.data = &lhs;
    a.rhs.data = &rhs;
    a.dst.data = &dst;
    a.dst.read_only = false;
    a.bias = bias;
    a.channel = channel;
    a.rounding = rounding;
    Mul(a, ctx.get());
    if (!Advised(*ctx)) found = rounding;
  }
  if (!found) c.fail("a copy is advised against even for capacity 64");
  // What the kernels for equal operand types process at a time.
  const Combo& t = kCombos[combo];
  if (t.lhs == t.rhs && (t.lhs == F32 || t.lhs == I8 || t.lhs == U8)) {
    const int least = path == ruy::Path::kAvx512                             ? 16
                      : path == ruy::Path::kAvx || path == ruy::Path::kAvx2Fma ? 8
                                                                             : 1;
    if (found < least) {
      c.fail("capacity %d for one channel said to do on path 0x%x, whose "
             "blocks are %d wide", found, static_cast<int>(path), least);
    }
  }
  (*known)[key] = found;
  return found;
}

void Prop(pbt::Case& c) {
  ProblemOptions o;
  o.shape.max_macs = 60000;
  o.shape.max_dim = 130;
  o.capacity_rounding = false;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  if (c.chance(3, 4)) {
    s.threads = 1;
  }
  c.describe("%s | %s", p->ToString().c_str(), s.ToString().c_str());
  std::unique_ptr<ruy::Context> ctx = s.Make();
  const int block = BlockSize(p->combo, s.path, p->args.channel,
                              p->args.dst.order, c);
  const int ch = p->channels();
  auto expect = [&](int rounding, const ruy::Context& x) {
    const bool want = RoundUp(ch, rounding) < RoundUp(ch, block);
    if (Advised(x) != want) {
      c.fail("%d channels, rounding %d, block size %d: copy %s", ch, rounding,
             block, want ? "not reported" : "reported");
    }
  };
  Mul(p->args, ctx.get());
  expect(1, *ctx);
  std::vector<unsigned char> base = DstEntries(*p);
  std::string e = CheckResult(*p, s.path);
  if (!e.empty()) c.fail("%s", e.c_str());
  // Again with other declared roundings, in exactly sized arrays.
  const int n = static_cast<int>(c.range(1, 3));
  bool differs = false;
  for (int i = 0; i < n; ++i) {
    const int rounding = 1 << c.draw(8);
    const int cap = RoundUp(ch, rounding);
    const MulArgs a0 = p->args;
    MulArgs a = a0;
    a.rounding = rounding;
    const int acc = SizeOf(p->types().acc);
    buffers::Buf bufs[3];
    auto move = [&](int k, const void* from, int size) -> const void* {
      if (!from) return nullptr;
      bufs[k] = buffers::Buf(static_cast<std::size_t>(cap) * size,
                             buffers::kEndsAtGuard);
      memset(bufs[k].data(), 0, static_cast<std::size_t>(cap) * size);
      memcpy(bufs[k].data(), from, static_cast<std::size_t>(ch) * size);
      return bufs[k].data();
    };
    a.bias = move(0, a0.bias, acc);
    a.multipliers = static_cast<const std::int32_t*>(move(1, a0.multipliers, 4));
    a.exponents = static_cast<const int*>(move(2, a0.exponents, 4));
    std::vector<unsigned char> before[3];
    for (int k = 0; k < 3; ++k) {
      before[k].assign(bufs[k].data(), bufs[k].data() + bufs[k].size());
    }
    ResetDst(p.get());
    if (c.flag()) ctx = s.Make();
    Mul(a, ctx.get());
    expect(rounding, *ctx);
    e = DiffEntries(*p, base, DstEntries(*p));
    if (!e.empty()) c.fail("rounding %d: %s", rounding, e.c_str());
    for (int k = 0; k < 3; ++k) {
      if (bufs[k].size() &&
          memcmp(before[k].data(), bufs[k].data(), bufs[k].size()) != 0) {
        c.fail("a per-channel array was changed");
      }
    }
    if (RoundUp(ch, rounding) != ch) differs = true;
  }
  c.label(pbt::Format("block %d", block));
  if (differs && (p->args.bias || p->args.perchannel)) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C20";
  s.rule =
      "Generated multiplications with bias and multipliers in arrays of exactly "
      "the declared capacity that end at inaccessible memory, for one to four "
      "declared roundings from 1 to 128; equal results, correct advisory (block "
      "size of the path measured with one channel). Non-trivial: some rounding "
      "gives a capacity above the channel count, and an array is given.";
  s.parts = {{"mul", Prop, 500000, 6000000}};
  return pbt::Main(argc, argv, s);
}
