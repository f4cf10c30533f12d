// Replacement of the C and C++ allocation functions which counts, and can make
// requests fail. Linked only into the checks that use it.
#ifndef VERIF_MEMHOOK_H_
#define VERIF_MEMHOOK_H_

#include <cstddef>
#include <cstdint>

namespace memhook {

// While tracking, requests of all threads are recorded.
void Start();
void Stop();

struct Stats {
  long requests = 0;      // successful requests since Start
  long live_blocks = 0;   // requested since Start and not released
  long live_bytes = 0;    // as requested
  long aligned_live_bytes = 0;   // only requests with explicit alignment
  long aligned_live_blocks = 0;
  long aligned_requests = 0;
  long threads_created = 0;
  long threads_live = 0;  // started and not ended
};
Stats Get();

// The n-th request (counting from 0) after this call fails, and if `all_after`
// every later one as well. n < 0: none.
void FailAt(long n, bool all_after);
// Requests which were made to fail.
long Failures();
// Counts requests including failing ones since FailAt.
long Seen();

// Exempts the calling thread from failures.
struct NoFail {
  NoFail();
  ~NoFail();
};

}  // namespace memhook

#endif
