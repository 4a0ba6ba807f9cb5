// A global operator new which always gives the lowest free place of a size class: the same sequence of allocations, made
// again after everything was released, is given the same addresses. Shows what outlives the object it was remembered for.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>

namespace lowest {
constexpr size_t kGrain = 16, kClasses = 128, kBytes = 4u << 20, kWords = kBytes / kGrain / 64;
struct Heap {
  char* base = nullptr;
  uint64_t* used[kClasses] = {};
  size_t hint[kClasses] = {};
  std::atomic_flag lock = ATOMIC_FLAG_INIT;
};
inline Heap& heap() { static Heap h; return h; }
struct Lock { Lock() { while (heap().lock.test_and_set(std::memory_order_acquire)) {} } ~Lock() { heap().lock.clear(std::memory_order_release); } };
inline void* get(size_t n) {
  const size_t c = (n + kGrain - 1) / kGrain - (n ? 1 : 0);
  if (c < kClasses) {
    Lock l;
    Heap& h = heap();
    if (!h.base) {
      void* m = mmap(nullptr, kBytes * kClasses + kClasses * kWords * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) abort();
      h.base = static_cast<char*>(m);
      for (size_t i = 0; i < kClasses; i++) h.used[i] = reinterpret_cast<uint64_t*>(h.base + kBytes * kClasses) + i * kWords;
    }
    const size_t size = (c + 1) * kGrain, most = kBytes / size;
    for (size_t w = h.hint[c]; w * 64 < most; w++) {
      if (h.used[c][w] == ~uint64_t{0}) continue;
      const size_t b = __builtin_ctzll(~h.used[c][w]), i = w * 64 + b;
      if (i >= most) break;
      h.used[c][w] |= uint64_t{1} << b;
      h.hint[c] = w;
      return h.base + c * kBytes + i * size;
    }
    h.hint[c] = most / 64 + 1;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
inline void put(void* p) {
  Heap& h = heap();
  char* q = static_cast<char*>(p);
  if (!p) return;
  if (!h.base || q < h.base || q >= h.base + kBytes * kClasses) { free(p); return; }
  Lock l;
  const size_t c = (q - h.base) / kBytes, i = (q - h.base - c * kBytes) / ((c + 1) * kGrain);
  h.used[c][i / 64] &= ~(uint64_t{1} << (i % 64));
  if (i / 64 < h.hint[c]) h.hint[c] = i / 64;
}
}  // namespace lowest
void* operator new(size_t n) { return lowest::get(n); }
void* operator new[](size_t n) { return lowest::get(n); }
void operator delete(void* p) noexcept { lowest::put(p); }
void operator delete[](void* p) noexcept { lowest::put(p); }
void operator delete(void* p, size_t) noexcept { lowest::put(p); }
void operator delete[](void* p, size_t) noexcept { lowest::put(p); }
