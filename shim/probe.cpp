/* LD_PRELOAD: what a process can be left in or done to that Python does not show (C29), and what it asks of its
 * environment (C30).
 *
 * probe_state(buf, n): a text with the global C++ locale, the state of the standard streams, handlers, rounding mode,
 * enabled floating point exceptions and the C locale.
 * probe_arm(1): from now on calls that change something outside are counted and the first ones noted.
 * probe_events(buf, n): those; probe_asked(buf, n): names of the environment variables asked for while armed.
 * probe_locale(name): sets the global C++ locale.
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <clocale>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfenv>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <locale.h>
#include <new>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static bool armed;
static char events[8192], asked[8192];

static void note(char *where, const char *what, const char *arg) {
    size_t n = strlen(where);
    if (n + strlen(what) + (arg ? strlen(arg) : 0) + 4 > sizeof events) return;
    strcat(where, what);
    if (arg) { strcat(where, " "); strcat(where, arg); }
    strcat(where, "\n");
}

static void event(const char *what, const char *arg) { if (armed) note(events, what, arg); }

extern "C" {

void probe_arm(int on) { armed = on; if (on) { events[0] = 0; asked[0] = 0; } }
void probe_events(char *buf, int n) { strncpy(buf, events, n - 1); buf[n - 1] = 0; }
void probe_asked(char *buf, int n) { strncpy(buf, asked, n - 1); buf[n - 1] = 0; }

int probe_locale(const char *name) {
    try { std::locale::global(std::locale(name)); return 1; } catch (...) { return 0; }
}

void probe_streams(int on) { // unusual, or as they were
    std::cout.flags(on ? std::ios::hex | std::ios::scientific | std::ios::boolalpha : std::ios::dec | std::ios::skipws);
    std::cout.precision(on ? 3 : 6);
    std::clog.fill('x');
    std::cin.exceptions(on ? std::ios::badbit : std::ios::goodbit);
}

static void handler() { throw std::bad_alloc(); }
void probe_handler() { std::set_new_handler(handler); }
int probe_rounding(int mode) { return fesetround(mode); }
void probe_flush_to_zero() {
#if defined(__x86_64__)
    __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() | 0x8040);
#endif
}

static void stream(std::ostringstream &o, const char *n, std::ios &s) {
    o << n << " " << s.flags() << " " << s.precision() << " " << s.width() << " " << s.exceptions() << " " << s.rdstate() << " "
      << (void *) s.rdbuf() << " " << (void *) s.tie() << " " << s.getloc().name() << "\n";
}

void probe_state(char *buf, int n) {
    std::ostringstream o;
    o.imbue(std::locale::classic());
    o << "C++ locale " << std::locale().name() << "\nC locale " << setlocale(LC_ALL, nullptr) << "\nthread locale " << (void *) uselocale((locale_t) 0)
      << "\nrounding " << fegetround() << "\ntraps " << fegetexcept() << "\n";
#if defined(__x86_64__)
    o << "mxcsr " << (__builtin_ia32_stmxcsr() & ~0x3fu) << "\n"; // without the sticky flags
#endif
    stream(o, "cout", std::cout);
    stream(o, "cerr", std::cerr);
    stream(o, "clog", std::clog);
    stream(o, "cin", std::cin);
    o << "new handler " << (void *) std::get_new_handler() << "\nterminate handler " << (void *) std::get_terminate() << "\n";
    fflush(nullptr);
    std::cout.flush();
    std::clog.flush();
    strncpy(buf, o.str().c_str(), n - 1);
    buf[n - 1] = 0;
}

#define REAL(t, name, args) static t (*real) args; if (!real) real = (t (*) args) dlsym(RTLD_NEXT, name)

FILE *fopen(const char *p, const char *m) { REAL(FILE *, "fopen", (const char *, const char *)); if (strpbrk(m, "wa+")) event("fopen for writing", p); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, "fopen64", (const char *, const char *)); if (strpbrk(m, "wa+")) event("fopen for writing", p); return real(p, m); }

#define OPENS(name) \
    int name(const char *p, int flags, ...) { \
        REAL(int, #name, (const char *, int, ...)); \
        va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) event(#name " for writing", p); \
        return real(p, flags, mode); \
    }
OPENS(open)
OPENS(open64)
#define OPENATS(name) \
    int name(int d, const char *p, int flags, ...) { \
        REAL(int, #name, (int, const char *, int, ...)); \
        va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) event(#name " for writing", p); \
        return real(d, p, flags, mode); \
    }
OPENATS(openat)
OPENATS(openat64)

#define ONE(name, r, t1, a1, shown) r name(t1 a1) { REAL(r, #name, (t1)); event(#name, shown); return real(a1); }
#define TWO(name, r, t1, a1, t2, a2, shown) r name(t1 a1, t2 a2) { REAL(r, #name, (t1, t2)); event(#name, shown); return real(a1, a2); }
#define THREE(name, r, t1, a1, t2, a2, t3, a3, shown) r name(t1 a1, t2 a2, t3 a3) { REAL(r, #name, (t1, t2, t3)); event(#name, shown); return real(a1, a2, a3); }
ONE(unlink, int, const char *, p, p)
ONE(remove, int, const char *, p, p)
ONE(rmdir, int, const char *, p, p)
ONE(chdir, int, const char *, p, p)
ONE(system, int, const char *, p, p)
ONE(umask, mode_t, mode_t, m, nullptr)
ONE(mkstemp, int, char *, p, p)
ONE(putenv, int, char *, p, p)
ONE(unsetenv, int, const char *, p, p)
ONE(srand, void, unsigned, s, nullptr)
ONE(srandom, void, unsigned, s, nullptr)
ONE(srand48, void, long, s, nullptr)
TWO(rename, int, const char *, a, const char *, b, a)
TWO(mkdir, int, const char *, a, mode_t, b, a)
TWO(chmod, int, const char *, a, mode_t, b, a)
TWO(truncate, int, const char *, a, off_t, b, a)
TWO(popen, FILE *, const char *, a, const char *, b, a)
TWO(kill, int, pid_t, a, int, b, nullptr)
THREE(setenv, int, const char *, a, const char *, b, int, c, a)
THREE(socket, int, int, a, int, b, int, c, nullptr)

char *getenv(const char *name) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *)) dlsym(RTLD_NEXT, "getenv");
    if (armed) note(asked, name, nullptr);
    return real(name);
}
char *secure_getenv(const char *name) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *)) dlsym(RTLD_NEXT, "secure_getenv");
    if (armed) note(asked, name, nullptr);
    return real(name);
}

}
