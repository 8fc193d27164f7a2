// Allocation seam: every operator new of the process is counted; the k-th one after arming fails.
#include <cstdlib>
#include <new>
#include "core.hpp"
namespace dst {
thread_local long g_alloc_count   = 0;
thread_local long g_alloc_fail_at = 0;
}  // namespace dst
static void *get(size_t n, size_t al) {
  ++dst::g_alloc_count;
  if (dst::g_alloc_fail_at > 0 && --dst::g_alloc_fail_at == 0) throw std::bad_alloc();
  void *p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return get(n, 0); }
void *operator new[](size_t n) { return get(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
