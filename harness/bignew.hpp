// Sanitizer builds cannot throw bad_alloc from operator new; this one does for
// requests no small input can justify, as the real allocator would.
#ifndef BIGNEW_HPP
#define BIGNEW_HPP
#include <cstdlib>
#include <new>
static const size_t BIG_NEW = (size_t) 1 << 30;
void *operator new(size_t n) {
    void *p = n > BIG_NEW ? NULL : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
