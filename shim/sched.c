// LD_PRELOAD library of C20's child: threads inside extension code that has released the interpreter lock run one at a
// time, and give up control where the schedule says.  The extension is compiled with -fsanitize-coverage=trace-loads,
// trace-stores, so every load and store that is not on the thread's own stack is a point.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <time.h>

#define MAXT 8
static sem_t go[MAXT], back;
static long budget[MAXT], events[MAXT];
static volatile int done_[MAXT], blocked[MAXT], active, free_;
static long saves;
static __thread int tid = -1, nogil;
static __thread uintptr_t lo, hi;

void sched_start(int n) {
    sem_init(&back, 0, 0);
    for (int i = 0; i < n; i++) { sem_init(&go[i], 0, 0); budget[i] = -1; events[i] = 0; done_[i] = 0; blocked[i] = 0; }
    free_ = 0; active = 1;
}
void sched_begin(int i) {
    pthread_attr_t a; void *p; size_t s;
    pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &s); pthread_attr_destroy(&a);
    lo = (uintptr_t) p; hi = lo + s;
    nogil = 0;
    while (sem_wait(&go[i])) {}
    tid = i;
}
void sched_end(void) { int i = tid; tid = -1; done_[i] = 1; sem_post(&back); }
static int wait_back(double seconds) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += (long) ((seconds - (long) seconds) * 1e9); t.tv_sec += (long) seconds + t.tv_nsec / 1000000000; t.tv_nsec %= 1000000000;
    int r;
    while ((r = sem_timedwait(&back, &t)) && errno == EINTR) {}
    return r == 0;
}
// lets thread i run for `left` points (-1: to its end); 1: it came back, 0: it was over, -1: it did not come back
int sched_turn(int i, long left, double seconds) {
    if (done_[i]) return 0;
    budget[i] = left;
    sem_post(&go[i]);
    if (wait_back(seconds)) return 1;
    free_ = 1; // it waits for something this library does not know: let everybody run
    for (int k = 0; k < MAXT; k++) for (int r = 0; r < 3; r++) sem_post(&go[k]);
    return -1;
}
int sched_over(int n) { for (int i = 0; i < n; i++) if (!done_[i]) return 0; return 1; }
int sched_done(int i) { return done_[i]; }
void sched_stop(void) { active = 0; }
long sched_events(int i) { return events[i]; }
long sched_saves(void) { return saves; }

static void yield_(void) { sem_post(&back); while (sem_wait(&go[tid])) {} }
static inline void point(uintptr_t a) {
    if (tid < 0 || !nogil || !active || free_ || (a >= lo && a < hi)) return;
    if (budget[tid] >= 0 && budget[tid]-- == 0) { budget[tid] = -1; yield_(); if (budget[tid] >= 0) budget[tid]--; }
    events[tid]++;
}
#define H(n) void __sanitizer_cov_load##n(void *p) { point((uintptr_t) p); } void __sanitizer_cov_store##n(void *p) { point((uintptr_t) p); }
H(1) H(2) H(4) H(8) H(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void) g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void) a; (void) b; }
void __sanitizer_cov_trace_pc(void) {}

void *PyPyEval_SaveThread(void) {
    static void *(*real)(void);
    if (!real) real = dlsym(RTLD_NEXT, "PyPyEval_SaveThread");
    __sync_fetch_and_add(&saves, 1);
    void *s = real();
    nogil = 1;
    return s;
}
void PyPyEval_RestoreThread(void *s) {
    static void (*real)(void *);
    if (!real) real = dlsym(RTLD_NEXT, "PyPyEval_RestoreThread");
    nogil = 0;
    real(s);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (tid >= 0 && nogil && active && !free_) {
        int r;
        while ((r = pthread_mutex_trylock(m)) == EBUSY && !free_) { blocked[tid] = 1; yield_(); }
        blocked[tid] = 0;
        if (r != EBUSY) return r;
    }
    return real(m);
}
