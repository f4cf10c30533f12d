#include "buffers.h"

#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

#include <map>

namespace buffers {

namespace {
constexpr std::size_t kPage = 4096;
constexpr std::size_t kMargin = 512;
}  // namespace

struct Region {
  unsigned char* base;  // first accessible byte
  std::size_t len;      // accessible bytes
};

namespace {
// Threads other than the one running the case never create buffers.
std::multimap<std::size_t, Region*>& FreeList() {
  static auto* m = new std::multimap<std::size_t, Region*>;
  return *m;
}

Region* Acquire(std::size_t bytes) {
  std::size_t len = kPage;
  while (len < bytes) len *= 2;
  if (len > (1u << 22)) len = (bytes + kPage - 1) / kPage * kPage;
  auto it = FreeList().find(len);
  if (it != FreeList().end()) {
    Region* r = it->second;
    FreeList().erase(it);
    return r;
  }
  void* p = mmap(nullptr, len + 2 * kPage, PROT_NONE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    abort();
  }
  Region* r = new Region;
  r->base = static_cast<unsigned char*>(p) + kPage;
  r->len = len;
  if (mprotect(r->base, len, PROT_READ | PROT_WRITE) != 0) {
    perror("mprotect");
    abort();
  }
  return r;
}

void Release(Region* r) {
  if (r->len > (1u << 22)) {
    munmap(r->base - kPage, r->len + 2 * kPage);
    delete r;
    return;
  }
  FreeList().emplace(r->len, r);
}
}  // namespace

Buf::Buf(std::size_t bytes, Placement placement, int offset) {
  size_ = bytes;
  region_ = Acquire(bytes + (placement == kInside ? 2 * kMargin + offset : 0));
  switch (placement) {
    case kEndsAtGuard:
      data_ = region_->base + region_->len - bytes;
      break;
    case kStartsAtGuard:
      data_ = region_->base;
      break;
    case kInside:
      data_ = region_->base + kMargin + offset;
      break;
  }
  unsigned char* lo = region_->base;
  unsigned char* hi = region_->base + region_->len;
  unsigned char* from = data_ - lo > static_cast<long>(kMargin) ? data_ - kMargin : lo;
  unsigned char* to = hi - (data_ + size_) > static_cast<long>(kMargin)
                          ? data_ + size_ + kMargin
                          : hi;
  memset(from, kCanary, to - from);
}

Buf::~Buf() {
  if (region_) Release(region_);
}

Buf& Buf::operator=(Buf&& o) noexcept {
  if (this != &o) {
    if (region_) Release(region_);
    region_ = o.region_;
    data_ = o.data_;
    size_ = o.size_;
    o.region_ = nullptr;
    o.data_ = nullptr;
    o.size_ = 0;
  }
  return *this;
}

bool Buf::MarginsIntact() const {
  unsigned char* lo = region_->base;
  unsigned char* hi = region_->base + region_->len;
  unsigned char* from = data_ - lo > static_cast<long>(kMargin) ? data_ - kMargin : lo;
  unsigned char* to = hi - (data_ + size_) > static_cast<long>(kMargin)
                          ? data_ + size_ + kMargin
                          : hi;
  for (unsigned char* p = from; p < data_; ++p) {
    if (*p != kCanary) return false;
  }
  for (unsigned char* p = data_ + size_; p < to; ++p) {
    if (*p != kCanary) return false;
  }
  return true;
}

}  // namespace buffers
