#include "varena.h"
#include <cstdlib>
#include <new>
#include <sys/mman.h>
namespace arena {
    static char* base = nullptr; static size_t at = 0; static const size_t SIZE = 2ul << 30; static bool bump = false;
    void on() {
        if (!base) base = (char*) mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        bump = true;
    }
    void off() { bump = false; }
    static void* take(size_t n, size_t al = 16) {
        if (bump) {                                       // one thread runs at a time
            if (n == 0) n = 1;
            size_t a = (at + al - 1) / al * al;
            if (a + n < SIZE) { at = a + n; return base + a; }
        }
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    static void give(void* p) { char* c = (char*) p; if (base && c >= base && c < base + SIZE) return; free(p); }
}
using arena::take; using arena::give;
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t) a); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
