/* LD_PRELOAD: decides what opening and reading one chosen file answer.
 *
 * iofault_arm(suffix, open_errno, script, n): from now on, opening a path that ends in `suffix` fails with
 * open_errno (if not 0), and reads of it follow the script: -e fails with errno e, c > 0 delivers at most c
 * bytes, 0 is an ordinary read.  After the script, reads are ordinary.
 * iofault_counts(out): opens seen, opens failed, reads seen, reads failed, bytes delivered, reads interrupted.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXS 65536
static char suffix_[256];
static int armed, open_errno_, script_[MAXS], script_n, pos;
static int target_fd = -1;
static long counts[6];

void iofault_arm(const char *suffix, int open_errno, const int *script, int n) {
    strncpy(suffix_, suffix, sizeof suffix_ - 1);
    open_errno_ = open_errno;
    if (n > MAXS) n = MAXS;
    memcpy(script_, script, n * sizeof(int));
    script_n = n;
    pos = 0;
    target_fd = -1;
    memset(counts, 0, sizeof counts);
    armed = 1;
}

void iofault_disarm(void) { armed = 0; target_fd = -1; }
void iofault_counts(long *out) { memcpy(out, counts, sizeof counts); }

static int wanted(const char *path) {
    size_t a, b;
    if (!armed || !path) return 0;
    a = strlen(path); b = strlen(suffix_);
    return a >= b && strcmp(path + a - b, suffix_) == 0;
}

static int refuse(const char *path) {
    if (!wanted(path)) return 0;
    counts[0]++;
    if (open_errno_) { counts[1]++; errno = open_errno_; return 1; }
    return 0;
}

static void opened(const char *path, int fd) { if (fd >= 0 && wanted(path)) target_fd = fd; }

#define REAL(t, n, args) static t (*real) args; if (!real) real = (t (*) args) dlsym(RTLD_NEXT, n)

FILE *fopen(const char *p, const char *m) {
    REAL(FILE *, "fopen", (const char *, const char *));
    if (refuse(p)) return NULL;
    FILE *f = real(p, m); if (f) opened(p, fileno(f)); return f;
}
FILE *fopen64(const char *p, const char *m) {
    REAL(FILE *, "fopen64", (const char *, const char *));
    if (refuse(p)) return NULL;
    FILE *f = real(p, m); if (f) opened(p, fileno(f)); return f;
}
#define OPENLIKE(name) \
int name(const char *p, int fl, ...) { \
    int mode = 0; REAL(int, #name, (const char *, int, ...)); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } \
    if (refuse(p)) return -1; \
    int fd = real(p, fl, mode); opened(p, fd); return fd; }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) \
int name(int d, const char *p, int fl, ...) { \
    int mode = 0; REAL(int, #name, (int, const char *, int, ...)); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } \
    if (refuse(p)) return -1; \
    int fd = real(d, p, fl, mode); opened(p, fd); return fd; }
OPENATLIKE(openat)
OPENATLIKE(openat64)

/* the number of bytes to ask for, or -1 with errno set */
static ssize_t decide(size_t n) {
    counts[2]++;
    if (pos < script_n) {
        int s = script_[pos++];
        if (s < 0) {
            if (-s == EINTR) counts[5]++; else counts[3]++;
            errno = -s;
            return -1;
        }
        if (s > 0 && (size_t) s < n) return s;
    }
    return n;
}

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", (int, void *, size_t));
    if (armed && fd == target_fd && n) {
        ssize_t m = decide(n);
        if (m < 0) return -1;
        m = real(fd, b, m);
        if (m > 0) counts[4] += m;
        return m;
    }
    return real(fd, b, n);
}

ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "readv", (int, const struct iovec *, int));
    if (armed && fd == target_fd && c > 0) return read(fd, v[0].iov_base, v[0].iov_len);
    return real(fd, v, c);
}

int close(int fd) {
    REAL(int, "close", (int));
    if (fd == target_fd) target_fd = -1;
    return real(fd);
}
int fclose(FILE *f) {
    REAL(int, "fclose", (FILE *));
    if (f && fileno(f) == target_fd) target_fd = -1;
    return real(f);
}
