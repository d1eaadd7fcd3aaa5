// Absurd allocations are an error the code under test can report, not the end of the process.
#pragma once
#include <new>
#include <cstdlib>
inline size_t vf_new_limit = size_t(1) << 30;
void *operator new(size_t n) {if (n > vf_new_limit) throw std::bad_alloc(); void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;}
void *operator new[](size_t n) {return operator new(n);}
void operator delete(void *p) noexcept {std::free(p);}
void operator delete[](void *p) noexcept {std::free(p);}
void operator delete(void *p, size_t) noexcept {std::free(p);}
void operator delete[](void *p, size_t) noexcept {std::free(p);}
