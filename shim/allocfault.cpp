/* LD_PRELOAD: decides which allocation by operator new fails.
 *
 * allocfault_arm(n, keep): the n-th allocation from now on (counted from 0) fails, with keep also all later ones.
 * allocfault_spare(from, to): allocations made by or below the code from..to never fail (pybind11's, where an exception
 * would leave a C function).
 * allocfault_disarm(out): allocations succeed again; out: allocations seen, failed.
 * allocfault_live(out): blocks allocated by operator new and not deleted yet, and their size.
 */
#include <cstdlib>
#include <execinfo.h>
#include <malloc.h>
#include <new>

static long at = -1, seen, failed;
static int keep_, on;

extern "C" void allocfault_arm(long n, int keep) { at = n; keep_ = keep; seen = failed = 0; on = 1; }

static struct { char *from, *to; } spared[64];
static int spared_n;
extern "C" void allocfault_spare(char *from, char *to) { if (spared_n < 64) { spared[spared_n].from = from; spared[spared_n++].to = to; } }

static bool spare() {
    void *frames[100];
    int n = backtrace(frames, 100);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < spared_n; j++)
            if ((char *) frames[i] >= spared[j].from && (char *) frames[i] < spared[j].to) return true;
    return false;
}
extern "C" void allocfault_disarm(long *out) { on = 0; out[0] = seen; out[1] = failed; }

static void *keep(void *p);
static void *take(std::size_t n, std::size_t align = 0) {
    if (on) {
        long i = seen++;
        if (i == at || (keep_ && i > at)) {
            on = 0;
            bool s = spare();
            on = 1;
            if (!s) { failed++; return nullptr; }
        }
    }
    if (!n) n = 1;
    return keep(align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n));
}
static long live_n, live_bytes;
static void *keep(void *p) {
    if (p) { __atomic_add_fetch(&live_n, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&live_bytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED); }
    return p;
}
static void give(void *p) {
    if (p) { __atomic_sub_fetch(&live_n, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&live_bytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED); }
    free(p);
}
extern "C" void allocfault_live(long *out) { out[0] = live_n; out[1] = live_bytes; }

static void *must(void *p) { if (!p) throw std::bad_alloc(); return p; }

void *operator new(std::size_t n) { return must(take(n)); }
void *operator new[](std::size_t n) { return must(take(n)); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new(std::size_t n, std::align_val_t a) { return must(take(n, (std::size_t) a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return must(take(n, (std::size_t) a)); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { give(p); }
