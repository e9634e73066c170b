#include "alloc.h"
#include <new>
namespace sim {
// the build with threads follows memory (mt_rt.cc)
__attribute__((weak)) void mtNew(void*, size_t) {}
__attribute__((weak)) void mtDelete(void*) {}
AllocSeam as = {0, 0, -1, 1, 0, 0, 20000000, -1};
static inline bool refuse() {
  if (as.armed <= 0) return false;
  long n = as.count++;
  if (++as.total > as.limit) { as.armed = 0; fail("hang", "more allocations than any operation of this size needs: the operation does not end"); }
  if (as.failAt >= 0 && n >= as.failAt && (as.failFor < 0 || n < as.failAt + as.failFor)) {
    ++as.fired;
    return true;
  }
  return false;
}
}
static void* get(size_t n) {
  if (sim::refuse()) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  sim::mtNew(p, n);
  if (sim::as.fill >= 0 && sim::as.armed > 0) memset(p, sim::as.fill, n);
  return p;
}
static void put(void* p) { sim::mtDelete(p); free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (sim::refuse()) return nullptr; void* p = malloc(n ? n : 1); if (p) sim::mtNew(p, n); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (sim::refuse()) return nullptr; void* p = malloc(n ? n : 1); if (p) sim::mtNew(p, n); return p; }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
