// operator new/delete of simulated programs (each harness .so binds these locally)
#pragma once
#include <cstddef>
#include <cstdlib>
#include <new>
extern "C" void* sim_malloc(size_t n, size_t align);
extern "C" void sim_free(void* p);
void* operator new(size_t n) { return sim_malloc(n, 16); }
void* operator new[](size_t n) { return sim_malloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return sim_malloc(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return sim_malloc(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
