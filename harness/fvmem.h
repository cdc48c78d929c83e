// Checked heap for the code under test: link with
//   -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc
// Detects double free, wild free, writes past either end, writes after free, leaks.
#pragma once
#include "explore.h"
#if NOWRAP
#define __real_malloc malloc
#define __real_free free
#define __real_realloc realloc
#else
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); }
#endif
namespace fvmem {
static constexpr uint64_t LIVE = 0xA11CA7EDBEEFF00Dull, DEAD = 0xDEADDEADDEADDEADull;
struct alignas(32) Head { uint64_t magic; size_t size; Head* next; Head* prev; };
inline Head* live; inline Head* dead; inline long n_live, n_dead;
inline bool tracking = false;
static constexpr size_t RZ = 32;
inline void* alloc(size_t n) {
    if (!tracking) return __real_malloc(n);
    Head* h = (Head*) __real_malloc(sizeof(Head) + RZ + n + RZ);
    h->magic = LIVE; h->size = n; h->prev = nullptr; h->next = live; if (live) live->prev = h; live = h; n_live++;
    unsigned char* p = (unsigned char*)(h + 1);
    memset(p, 0xFB, RZ); memset(p + RZ, 0xA5, n); memset(p + RZ + n, 0xFC, RZ);
    return p + RZ;
}
inline bool redzones_ok(Head* h) {
    unsigned char* p = (unsigned char*)(h + 1);
    for (size_t i = 0; i < RZ; i++) if (p[i] != 0xFB || p[RZ + h->size + i] != 0xFC) return false;
    return true;
}
inline void release(void* q) {
    if (!q) return;
    Head* h = (Head*)((unsigned char*)q - RZ) - 1;
    if (!tracking) { if (false) (void)h; __real_free(q); return; }
    if (h->magic == DEAD) fv::fatal("double free of a buffer");
    if (h->magic != LIVE) fv::fatal("free of a pointer that is not a live buffer");
    if (!redzones_ok(h)) fv::fatal("write outside the bounds of a buffer");
    if (h->prev) h->prev->next = h->next; else live = h->next;
    if (h->next) h->next->prev = h->prev;
    n_live--;
    h->magic = DEAD; memset((unsigned char*)(h + 1) + RZ, 0xDD, h->size);
    h->next = dead; dead = h; n_dead++;
}
// Call between runs; every live block is a leak.
inline const char* end_of_run() {
    const char* err = nullptr;
    for (Head* h = dead; h;) {
        Head* n = h->next;
        unsigned char* p = (unsigned char*)(h + 1) + RZ;
        for (size_t i = 0; i < h->size; i++) if (p[i] != 0xDD) { err = "write to a buffer after it was freed"; break; }
        if (!redzones_ok(h)) err = "write outside the bounds of a buffer";
        h->magic = 0; __real_free(h); h = n;
    }
    dead = nullptr; n_dead = 0;
    if (live) err = err ? err : "leak: a buffer was never freed";
    for (Head* h = live; h;) { Head* n = h->next; if (!redzones_ok(h)) err = "write outside the bounds of a buffer"; h->magic = 0; __real_free(h); h = n; }
    live = nullptr; n_live = 0;
    return err;
}
}
#if !NOWRAP
extern "C" void* __wrap_malloc(size_t n) { return fvmem::alloc(n); }
extern "C" void  __wrap_free(void* p) { fvmem::release(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = fvmem::alloc(a * b); memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (!p) return fvmem::alloc(n);
    if (!fvmem::tracking) return __real_realloc(p, n);
    fvmem::Head* h = (fvmem::Head*)((unsigned char*)p - fvmem::RZ) - 1;
    void* q = fvmem::alloc(n); memcpy(q, p, h->size < n ? h->size : n); fvmem::release(p); return q;
}
#endif
