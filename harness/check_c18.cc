// C18: scratch allocations are disjoint, aligned, valid until released.
#include <string.h>

#include <memory>

#include "memhook.h"
#include "pbt.h"
#include "ruy/allocator.h"

namespace {

struct Block {
  unsigned char* p;
  std::ptrdiff_t n;
  unsigned char fill;
};

std::ptrdiff_t GenSize(pbt::Case& c) {
  switch (c.weighted({3, 3, 3, 2, 1})) {
    case 0: return c.range(0, 4);
    case 1: return c.range(1, 300);
    case 2: return 64 * c.range(1, 40) + c.range(-1, 1);
    case 3: return c.range(1, 20000);
    default: return c.range(1, 300000);
  }
}

void Prop(pbt::Case& c) {
  memhook::Start();
  std::string text;
  int rounds_with_reuse = 0;
  {
    std::unique_ptr<ruy::Allocator> a(new ruy::Allocator);
    const int rounds = static_cast<int>(c.range(1, 8));
    struct Req {
      std::ptrdiff_t n;
      int how;
      std::uint32_t avoid;
    };
    std::vector<Req> previous;
    for (int r = 0; r < rounds; ++r) {
      std::vector<Req> reqs;
      // At times repeat the previous round or a prefix or smaller version of
      // it: no system memory may be needed then.
      int like = previous.empty() ? 0 : static_cast<int>(c.draw(3));
      if (like == 1) {
        reqs = previous;
      } else if (like == 2) {
        reqs.assign(previous.begin(),
                    previous.begin() + c.draw(previous.size() + 1));
        for (Req& q : reqs) q.n = c.range(std::min<std::ptrdiff_t>(1, q.n), q.n);
      } else {
        const int n = static_cast<int>(c.range(0, 14));
        for (int i = 0; i < n; ++i) {
          Req q;
          q.n = GenSize(c);
          q.how = c.weighted({2, 2, 1});
          q.avoid = static_cast<std::uint32_t>(c.draw(4096));
          reqs.push_back(q);
        }
      }
      text += " |";
      std::vector<Block> blocks;
      const long before = memhook::Get().aligned_requests;
      for (std::size_t i = 0; i < reqs.size(); ++i) {
        const Req& q = reqs[i];
        text += pbt::Format(" %ld%s", static_cast<long>(q.n),
                            q.how == 1 ? "a" : "");
        c.describe("%s", text.c_str());
        void* p;
        std::ptrdiff_t n = q.n;
        if (q.how == 0) {
          p = a->AllocateBytes(n);
        } else if (q.how == 1) {
          p = a->AllocateBytesAvoidingAliasingWith(
              n, reinterpret_cast<const void*>(
                     static_cast<std::uintptr_t>(q.avoid)));
        } else {
          n = n / 8;
          double* d;
          a->Allocate(n, &d);
          p = d;
          n *= 8;
        }
        if (n == 0) {
          if (p) c.fail("empty request got memory");
          continue;
        }
        if (!p) c.fail("request of %ld bytes got no memory", static_cast<long>(n));
        if (reinterpret_cast<std::uintptr_t>(p) % 64 != 0) {
          c.fail("request %zu not aligned: %p", i, p);
        }
        if (q.how == 1) {
          // Neither close to the avoided address modulo the aliasing period.
          const std::uint32_t d =
              (static_cast<std::uint32_t>(reinterpret_cast<std::uintptr_t>(p)) -
               q.avoid) % 1024;
          if (d < 256 || d > 768) c.label("aliasing not avoided");
        }
        Block b{static_cast<unsigned char*>(p), n,
                static_cast<unsigned char>(1 + (i * 37 + r * 11) % 251)};
        for (const Block& o : blocks) {
          if (b.p < o.p + o.n && o.p < b.p + b.n) {
            c.fail("request %zu overlaps an earlier one", i);
          }
        }
        memset(b.p, b.fill, b.n);
        blocks.push_back(b);
      }
      for (const Block& b : blocks) {
        for (std::ptrdiff_t k = 0; k < b.n; ++k) {
          if (b.p[k] != b.fill) c.fail("contents of a block changed");
        }
      }
      if (like != 0) {
        ++rounds_with_reuse;
        const long extra = memhook::Get().aligned_requests - before;
        if (extra != 0) {
          c.fail("%ld system requests for a sequence no larger than the "
                 "previous one", extra);
        }
      }
      // All memory which was handed out belongs to live system blocks.
      if (c.chance(1, 10)) {
        a.reset(new ruy::Allocator);
        previous.clear();
        text += " new";
      } else {
        const long held = memhook::Get().aligned_live_bytes;
        a->FreeAll();
        const long now = memhook::Get().aligned_live_bytes;
        if (now > held + 4096) {
          c.fail("a release raised the memory held from %ld to %ld bytes", held,
                 now);
        }
        if (c.chance(1, 6)) a->FreeAll();
        previous = reqs;
      }
    }
  }
  memhook::Stats st = memhook::Get();
  memhook::Stop();
  if (st.aligned_live_blocks != 0) {
    c.fail("%ld blocks (%ld bytes) not returned on destruction",
           st.aligned_live_blocks, st.aligned_live_bytes);
  }
  if (rounds_with_reuse) {
    c.label("reuse");
    c.nontrivial();
  }
}

// Many rounds of few and small requests.
void LongProp(pbt::Case& c) {
  const long rounds = pbt::GenLength(c, 10, 100000);
  const int kinds = static_cast<int>(c.range(1, 4));
  const int largest = static_cast<int>(c.range(1, 3000));
  pbt::Rng rng(c.seed());
  c.describe("%ld rounds of %d kinds, up to %d bytes", rounds, kinds, largest);
  std::vector<std::vector<std::ptrdiff_t>> sets(kinds);
  for (auto& s : sets) {
    const int n = static_cast<int>(1 + rng.below(6));
    for (int i = 0; i < n; ++i) s.push_back(1 + rng.below(largest));
  }
  memhook::Start();
  {
    ruy::Allocator a;
    // Which sets of requests have been served before; none of them may need
    // system memory again.
    std::vector<bool> served(kinds);
    for (long r = 0; r < rounds; ++r) {
      const std::size_t k = rng.below(kinds);
      const long before = memhook::Get().aligned_requests;
      unsigned char* p[8];
      const std::size_t n = sets[k].size();
      for (std::size_t i = 0; i < n; ++i) {
        p[i] = static_cast<unsigned char*>(a.AllocateBytes(sets[k][i]));
        if (!p[i] || reinterpret_cast<std::uintptr_t>(p[i]) % 64) {
          c.fail("round %ld: request %zu: %p", r, i, static_cast<void*>(p[i]));
        }
        for (std::size_t j = 0; j < i; ++j) {
          if (p[i] < p[j] + sets[k][j] && p[j] < p[i] + sets[k][i]) {
            c.fail("round %ld: request %zu overlaps request %zu", r, i, j);
          }
        }
        p[i][0] = p[i][sets[k][i] - 1] = static_cast<unsigned char>(i + r);
      }
      for (std::size_t i = 0; i < n; ++i) {
        if (p[i][0] != static_cast<unsigned char>(i + r) ||
            p[i][sets[k][i] - 1] != static_cast<unsigned char>(i + r)) {
          c.fail("round %ld: contents of request %zu changed", r, i);
        }
      }
      if (served[k] && memhook::Get().aligned_requests != before) {
        c.fail("round %ld: a repeated round needs system memory", r);
      }
      a.FreeAll();
      served[k] = true;
    }
  }
  const memhook::Stats st = memhook::Get();
  memhook::Stop();
  if (st.aligned_live_blocks != 0) c.fail("memory not returned");
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C18";
  s.rule =
      "Generated sequences of up to 8 rounds of scratch allocations (sizes "
      "0..300000 in several classes, three ways of requesting, possibly "
      "repeating or shrinking the previous round) each ended by a release, "
      "with disjointness, alignment, contents, system requests, memory held "
      "after a release and leaks checked. Non-trivial: at least one round "
      "that must be served without system memory. Part long: up to 100000 "
      "rounds.";
  s.parts = {{"history", Prop, 900000, 10000000},
             {"long", LongProp, 600, 12000}};
  return pbt::Main(argc, argv, s);
}
