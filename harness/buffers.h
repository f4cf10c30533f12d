// Buffers next to inaccessible pages.
#ifndef VERIF_BUFFERS_H_
#define VERIF_BUFFERS_H_

#include <cstdint>
#include <cstring>
#include <memory>
#include <vector>

namespace buffers {

// Pattern filling memory which nobody may write.
constexpr unsigned char kCanary = 0xC5;

enum Placement {
  kEndsAtGuard,    // last byte right before an inaccessible page
  kStartsAtGuard,  // first byte right after an inaccessible page
  kInside,         // at an offset inside accessible memory
};

struct Region;

// Movable handle of a guarded buffer; memory is recycled inside the process.
class Buf {
 public:
  Buf() = default;
  // `offset` shifts a kInside buffer. The memory is filled with kCanary.
  Buf(std::size_t bytes, Placement placement, int offset = 0);
  ~Buf();
  Buf(Buf&& o) noexcept { *this = std::move(o); }
  Buf& operator=(Buf&& o) noexcept;
  Buf(const Buf&) = delete;

  unsigned char* data() const { return data_; }
  template <typename T>
  T* as() const {
    return reinterpret_cast<T*>(data_);
  }
  std::size_t size() const { return size_; }
  // True if the bytes around the buffer still hold the canary.
  bool MarginsIntact() const;

 private:
  Region* region_ = nullptr;
  unsigned char* data_ = nullptr;
  std::size_t size_ = 0;
};

}  // namespace buffers

#endif
