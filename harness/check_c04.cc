// C04: a multiplication touches only the memory its arguments describe.
#include <sys/mman.h>

#include "problem.h"

using namespace gemm;

static const std::vector<int> kAll = {
    kI8I8I32, kU8U8I32, kI8U8I32, kI8I16I32, kI16I8I32, kU8U8U8,  kI8I8I8,
    kI8U8I8,  kU8U8I16, kI8I8I16, kI8I8U8,   kI8I16I16, kI16I8I16, kF32,
    kF32,     kF64,     kF64F32,  kF32F64};

static void Prop(pbt::Case& c) {
  ProblemOptions o;
  o.combos = kAll;
  o.cache_policies = true;
  o.shape.max_macs = 100000;
  std::unique_ptr<Problem> p = GenProblem(c, o);
  Settings s = GenSettings(c);
  c.describe("%s | %s", p->ToString().c_str(), s.ToString().c_str());
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Snapshot snap = TakeSnapshot(*p);
  Mul(p->args, ctx.get());
  std::string e = CheckUntouched(*p, snap);
  if (!e.empty()) c.fail("%s", e.c_str());
  // Once more, with the operands possibly cached.
  if (c.chance(1, 4)) {
    Mul(p->args, ctx.get());
    e = CheckUntouched(*p, snap);
    if (!e.empty()) c.fail("second run: %s", e.c_str());
  }
  c.label(pbt::Format("path 0x%x", static_cast<int>(s.path)));
  const MatArg& d = p->args.dst;
  const bool padded =
      d.stride > (d.order == ruy::Order::kColMajor ? d.rows : d.cols);
  if (padded) c.label("padded destination");
  if (p->rows * p->cols > 1) c.nontrivial();
}

namespace {
// Address space for matrices with huge strides; only touched pages exist.
struct Sparse {
  unsigned char* p;
  std::size_t len;
  explicit Sparse(std::size_t n) : len((n + 4095) / 4096 * 4096 + 8192) {
    p = static_cast<unsigned char*>(mmap(nullptr, len, PROT_NONE,
                                         MAP_PRIVATE | MAP_ANONYMOUS |
                                             MAP_NORESERVE,
                                         -1, 0));
    if (p == MAP_FAILED) abort();
    mprotect(p + 4096, len - 8192, PROT_READ | PROT_WRITE);
  }
  ~Sparse() { munmap(p, len); }
  // Ends at the guard.
  unsigned char* end() { return p + len - 4096; }
};
}  // namespace

// Strides up to the largest for which byte offsets of whole blocks fit in 32
// bits.
static void Huge(pbt::Case& c) {
  const int combo = c.pick<int>({kI8I8I32, kI8I8I8, kF32, kU8U8U8, kI8I16I16,
                                 kF64});
  const Combo& t = kCombos[combo];
  Problem p;
  p.combo = combo;
  p.args.combo = combo;
  p.rows = static_cast<int>(c.range(1, 40));
  p.depth = static_cast<int>(c.range(1, 40));
  p.cols = static_cast<int>(c.range(1, 40));
  Settings s = GenSettings(c);
  MatArg* ms[3] = {&p.args.lhs, &p.args.rhs, &p.args.dst};
  const int rs[3] = {p.rows, p.depth, p.rows};
  const int cs[3] = {p.depth, p.cols, p.cols};
  const DT ts[3] = {t.lhs, t.rhs, t.dst};
  std::unique_ptr<Sparse> mem[3];
  for (int i = 0; i < 3; ++i) {
    MatArg* m = ms[i];
    m->rows = rs[i];
    m->cols = cs[i];
    m->order = c.flag() ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
    const int inner = m->order == ruy::Order::kColMajor ? m->rows : m->cols;
    const int outer = m->order == ruy::Order::kColMajor ? m->cols : m->rows;
    // Kernels compute 32-bit byte offsets up to the next multiple of their
    // block size.
    const std::int64_t most =
        0x7fffffffll / SizeOf(ts[i]) / ((outer + 31) / 16 * 16);
    switch (c.weighted({1, 2, 2})) {
      case 0:
        m->stride = inner;
        break;
      case 1:
        m->stride = static_cast<int>(c.range(inner, most));
        break;
      default:
        m->stride = static_cast<int>(most - c.draw(4));
        break;
    }
    m->stride = std::max(m->stride, inner);
    mem[i].reset(new Sparse(m->Extent() * SizeOf(ts[i])));
    m->data = mem[i]->end() - m->Extent() * SizeOf(ts[i]);
  }
  p.args.dst.read_only = false;
  const std::uint64_t seed = c.seed();
  c.describe("%s | %s", p.ToString().c_str(), s.ToString().c_str());
  pbt::Rng r(seed);
  for (int i = 0; i < 2; ++i) {
    for (int a = 0; a < ms[i]->rows; ++a) {
      for (int b = 0; b < ms[i]->cols; ++b) {
        const std::int64_t k = ms[i]->Index(a, b);
        if (IsFloat(ts[i])) {
          SetFloat(ts[i], ms[i]->data, k, static_cast<double>(r.range(-9, 9)));
        } else {
          std::int64_t v = r.range(Lowest(ts[i]), Highest(ts[i]));
          if (ts[i] == U8) static_cast<std::uint8_t*>(ms[i]->data)[k] = v;
          if (ts[i] == I8) static_cast<std::int8_t*>(ms[i]->data)[k] = v;
          if (ts[i] == I16) static_cast<std::int16_t*>(ms[i]->data)[k] = v;
        }
      }
    }
  }
  if (IsQuant(combo)) {
    p.args.multiplier = 1 << 30;
    p.args.exponent = -8;
  }
  p.exact_float = true;
  std::unique_ptr<ruy::Context> ctx = s.Make();
  Mul(p.args, ctx.get());
  // Entries are right, and no other pages of the destination were touched:
  // everything around entries still reads as zero on the entries' pages.
  std::string e = CheckResult(p, s.path);
  if (!e.empty()) c.fail("%s", e.c_str());
  const int sz = SizeOf(t.dst);
  const MatArg& d = p.args.dst;
  const bool cm = d.order == ruy::Order::kColMajor;
  const int inner = cm ? d.rows : d.cols, outer = cm ? d.cols : d.rows;
  for (int o = 0; o + 1 < outer; ++o) {
    const unsigned char* q = static_cast<unsigned char*>(d.data) +
                             (static_cast<std::int64_t>(o) * d.stride + inner) * sz;
    for (int k = 0; k < std::min<std::int64_t>(256, (d.stride - inner) * static_cast<std::int64_t>(sz)); ++k) {
      if (q[k]) c.fail("destination padding after line %d was written", o);
    }
  }
  if (d.stride > 100000 || p.args.lhs.stride > 100000) c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C04";
  s.rule =
      "Generated multiplications of every type combination with each caller "
      "buffer ending or starting at an inaccessible page or inside canaries; "
      "afterwards operands, per-channel arrays, destination padding and "
      "surroundings must be byte for byte unchanged. Part huge: strides up to "
      "2 GB extents. Run with address and undefined-behaviour sanitizers. "
      "Non-trivial: more than one destination entry (huge: a stride above "
      "100000).";
  s.parts = {{"mul", Prop, 250000, 3000000}, {"huge", Huge, 6000, 60000}};
  return pbt::Main(argc, argv, s);
}
