// C17: work partitioning tiles the destination exactly once.
#include <algorithm>

#include "pbt.h"
#include "ruy/block_map.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/side_pair.h"

namespace {

// Log-uniform in [1, max].
std::int64_t LogRange(pbt::Case& c, std::int64_t max) {
  int bits = 0;
  while ((1ll << (bits + 1)) <= max) ++bits;
  const int b = static_cast<int>(c.draw(bits + 1));
  std::int64_t v = (1ll << b) + c.range(0, (1ll << b) - 1);
  if (c.chance(1, 4)) v = (1ll << b) + c.range(-1, 1);
  return std::max<std::int64_t>(1, std::min(v, max));
}

void Check(pbt::Case& c, std::int64_t max_area, std::int64_t max_bytes) {
  const int kr = 1 << c.draw(6), kc = 1 << c.draw(6);
  const int ls = 1 << c.draw(4), rs = 1 << c.draw(4);
  std::int64_t rows = LogRange(c, max_area / kc / kr) * kr;
  std::int64_t cols;
  if (c.chance(1, 3)) {
    // Near square, or near a power-of-two aspect ratio.
    const int sh = static_cast<int>(c.draw(6));
    cols = (rows >> sh) + c.range(-2, 2) * kc;
    cols = cols / kc * kc;
  } else {
    cols = LogRange(c, max_area / rows / kc) * kc;
  }
  cols = std::max<std::int64_t>(kc, std::min(cols, max_area / rows / kc * kc));
  if (c.flag()) {
    const std::int64_t r2 = std::max<std::int64_t>(kr, cols / kr * kr);
    const std::int64_t c2 = std::max<std::int64_t>(kc, rows / kc * kc);
    if (r2 * c2 <= max_area) {
      rows = r2;
      cols = c2;
    }
  }
  const std::int64_t dmax = std::max<std::int64_t>(
      1, std::min(max_bytes / (rows * ls), max_bytes / (cols * rs)));
  const std::int64_t depth =
      c.chance(1, 4) ? dmax - c.draw(std::min<std::int64_t>(dmax, 8))
                     : LogRange(c, dmax);
  const int threads = c.chance(1, 3) ? 1 : static_cast<int>(LogRange(c, 256));
  ruy::CpuCacheParams cache;
  cache.local_cache_size = static_cast<int>(LogRange(c, 1 << 26));
  cache.last_level_cache_size = static_cast<int>(
      std::min<std::int64_t>(0x7fffffff, cache.local_cache_size *
                                             LogRange(c, 1 << 12)));
  c.describe("rows %ld cols %ld depth %ld kernel %dx%d sizes %d,%d threads %d "
             "caches %d/%d",
             static_cast<long>(rows), static_cast<long>(cols),
             static_cast<long>(depth), kr, kc, ls, rs, threads,
             static_cast<int>(cache.local_cache_size),
             static_cast<int>(cache.last_level_cache_size));
  // Only that it copes with the arguments; what it predicts affects nothing
  // but speed.
  ruy::IsObviouslyLinearTraversal(static_cast<int>(rows),
                                  static_cast<int>(cols),
                                  static_cast<int>(depth), ls, rs, cache);
  ruy::BlockMap map;
  ruy::MakeBlockMap(static_cast<int>(rows), static_cast<int>(cols),
                    static_cast<int>(depth), kr, kc, ls, rs, threads, cache,
                    &map);
  const int n = ruy::NumBlocks(map);
  const int nl = ruy::NumBlocksPerSide(ruy::Side::kLhs, map);
  const int nr = ruy::NumBlocksPerSide(ruy::Side::kRhs, map);
  if (n < 1 || static_cast<std::int64_t>(nl) * nr != n) {
    c.fail("%d blocks in a grid of %dx%d", n, nl, nr);
  }
  if (map.thread_count < 1 || map.thread_count > threads ||
      map.thread_count > n) {
    c.fail("%d threads for %d blocks, %d allowed", map.thread_count, n,
           threads);
  }
  // Block boundaries along each side: all of them, or if there are very many
  // those at both ends and around the place where the block size changes.
  for (ruy::Side side : {ruy::Side::kLhs, ruy::Side::kRhs}) {
    const int count = side == ruy::Side::kLhs ? nl : nr;
    const int dim = static_cast<int>(side == ruy::Side::kLhs ? rows : cols);
    const int k = side == ruy::Side::kLhs ? kr : kc;
    auto range = [&](int from, int to) {
      from = std::max(from, 0);
      to = std::min(to, count);
      int at = 0;
      for (int b = from; b < to; ++b) {
        int start, end;
        ruy::GetBlockMatrixCoords(side, map, b, &start, &end);
        if ((b == 0 || b > from) && start != at) {
          c.fail("block %d starts at %d, expected %d", b, start, at);
        }
        if (end <= start) c.fail("block %d is empty: %d..%d", b, start, end);
        if (start % k != 0 || end % k != 0) {
          c.fail("block %d not aligned: %d..%d with kernel %d", b, start, end,
                 k);
        }
        at = end;
      }
      if (to == count && at != dim) c.fail("blocks end at %d, not %d", at, dim);
    };
    if (count <= 20000) {
      range(0, count);
      continue;
    }
    range(0, 4000);
    range(count - 4000, count);
    int lo = 0, hi = count - 1, s0, e0, sm, em;
    ruy::GetBlockMatrixCoords(side, map, lo, &s0, &e0);
    while (hi - lo > 1) {
      const int mid = lo + (hi - lo) / 2;
      ruy::GetBlockMatrixCoords(side, map, mid, &sm, &em);
      (em - sm == e0 - s0 ? lo : hi) = mid;
    }
    range(lo - 2000, lo + 2000);
  }
  // Each grid position once.
  if (n <= (1 << 18)) {
    std::vector<bool> seen(n);
    for (int i = 0; i < n; ++i) {
      ruy::SidePair<int> b;
      ruy::GetBlockByIndex(map, i, &b);
      const int x = b[ruy::Side::kLhs], y = b[ruy::Side::kRhs];
      if (x < 0 || x >= nl || y < 0 || y >= nr) {
        c.fail("block %d is at (%d,%d), outside %dx%d", i, x, y, nl, nr);
      }
      if (seen[x * nr + y]) c.fail("block (%d,%d) visited twice", x, y);
      seen[x * nr + y] = true;
      ruy::SidePair<int> s, e;
      if (i % 37 == 0) {
        ruy::GetBlockMatrixCoords(map, b, &s, &e);
        int s1, e1;
        ruy::GetBlockMatrixCoords(ruy::Side::kLhs, map, x, &s1, &e1);
        if (s[ruy::Side::kLhs] != s1 || e[ruy::Side::kLhs] != e1) {
          c.fail("coordinates disagree");
        }
        ruy::GetBlockMatrixCoords(ruy::Side::kRhs, map, y, &s1, &e1);
        if (s[ruy::Side::kRhs] != s1 || e[ruy::Side::kRhs] != e1) {
          c.fail("coordinates disagree");
        }
      }
    }
  } else {
    // Too many blocks to visit all: sampled indices within range, and distinct
    // indices at distinct positions, for windows of indices which differ in a
    // single bit.
    c.label("huge grid");
    const int first = static_cast<int>(c.draw(n));
    std::vector<int> indices;
    for (int k = -1; k < 31; ++k) {
      const std::int64_t at = k < 0 ? first : first ^ (1ll << k);
      for (std::int64_t i = at; i < at + 128 && i < n; ++i) {
        indices.push_back(static_cast<int>(i));
      }
    }
    std::sort(indices.begin(), indices.end());
    indices.erase(std::unique(indices.begin(), indices.end()), indices.end());
    std::vector<std::int64_t> seen;
    for (int i : indices) {
      ruy::SidePair<int> b;
      ruy::GetBlockByIndex(map, i, &b);
      const int x = b[ruy::Side::kLhs], y = b[ruy::Side::kRhs];
      if (x < 0 || x >= nl || y < 0 || y >= nr) {
        c.fail("block %d is at (%d,%d), outside %dx%d", i, x, y, nl, nr);
      }
      seen.push_back(static_cast<std::int64_t>(x) * nr + y);
    }
    std::sort(seen.begin(), seen.end());
    if (std::adjacent_find(seen.begin(), seen.end()) != seen.end()) {
      c.fail("a block is visited twice");
    }
  }
  c.label(pbt::Format("traversal %d", static_cast<int>(map.traversal_order)));
  c.label(n == 1 ? "1 block" : n < 16 ? "2-15 blocks" : n < 1024 ? "16-1023 blocks" : "1024+ blocks");
  if (n > 1) c.nontrivial();
}

void Normal(pbt::Case& c) { Check(c, 1 << 22, 1 << 26); }
// Any shape whose matrices can be addressed.
void Extreme(pbt::Case& c) { Check(c, 0x7fffffff, 0x7fffffff); }

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C17";
  s.rule =
      "Generated partition requests (log-uniform and near-power-of-two shapes "
      "and depths up to 2 GB operands, kernel blocks 1..32, element sizes "
      "1..8, 1..256 threads, cache sizes from 1 byte), checking tiling, "
      "alignment and traversal exhaustively for up to 262144 blocks; "
      "assertions and undefined-behaviour sanitizer on. Non-trivial: more than "
      "one block.";
  s.parts = {{"normal", Normal, 600000, 5000000},
             {"extreme", Extreme, 300000, 2000000}};
  return pbt::Main(argc, argv, s);
}
