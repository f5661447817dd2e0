// Replaces operator new/delete so that a driver can report how much storage is held and whether anything was
// released that was not held.  Released storage is overwritten and put aside until the end of the scenario,
// so that reading it later shows.  Memory that is not from operator new (mapped regions) must never come here.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <stdint.h>
namespace va {
struct Head { size_t size; uint32_t magic; uint32_t arr; Head* next; Head* pad; };
static const uint32_t LIVE = 0x600dcafe, DEAD = 0xdeadbeef, FILL = 0xDD;
static long live = 0, big = 0, bad = 0; static Head* held = 0; static size_t held_bytes = 0;
static const size_t BIG = 4096;
inline void* get(size_t n, uint32_t arr) {
    Head* h = (Head*)malloc(sizeof(Head) + n); if (!h) throw std::bad_alloc();
    h->size = n; h->magic = LIVE; h->arr = arr; ++live; if (n >= BIG) ++big; memset(h + 1, 0xA5, n); return h + 1;
}
inline void put(void* p, uint32_t arr) {
    if (!p) return; Head* h = (Head*)p - 1;
    if (((uintptr_t)p & 15) || h->magic != LIVE) { ++bad; return; } // not a block of ours, or released before
    if (h->arr != arr) ++bad;
    h->magic = DEAD; --live; if (h->size >= BIG) --big; memset(p, FILL, h->size); h->next = held; held = h; held_bytes += h->size;
}
// gives back what was put aside
inline void drain() { while (held) { Head* n = held->next; held->magic = 0; free(held); held = n; } held_bytes = 0; }
}
void* operator new(size_t n) { return va::get(n, 0); }
void* operator new[](size_t n) { return va::get(n, 1); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return va::get(n, 0); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return va::get(n, 1); }
void operator delete(void* p) noexcept { va::put(p, 0); }
void operator delete[](void* p) noexcept { va::put(p, 1); }
void operator delete(void* p, size_t) noexcept { va::put(p, 0); }
void operator delete[](void* p, size_t) noexcept { va::put(p, 1); }
void operator delete(void* p, std::nothrow_t const&) noexcept { va::put(p, 0); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { va::put(p, 1); }
