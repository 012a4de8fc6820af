// Included once per binary: fresh heap memory is filled with a fixed byte
// (VERIF_FILL) so that reads of never-written non-scalar members are
// deterministic and differ from what a lucky allocator would give.
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
extern "C" void *__libc_malloc(size_t);
namespace {
int verif_fill_() {
  static int f = -2;
  if (f == -2) {
    const char *e = getenv("VERIF_FILL");
    f = e ? atoi(e) : -1;
  }
  return f;
}
}  // namespace
extern "C" void *malloc(size_t n) noexcept {
  void *p = __libc_malloc(n);
  const int f = verif_fill_();
  if (p && f >= 0) memset(p, f, n);
  return p;
}

extern "C" void __libc_free(void *);
extern "C" void free(void *p) noexcept {
  if (p && verif_fill_() >= 0) memset(p, 0xDD, malloc_usable_size(p));
  __libc_free(p);
}
