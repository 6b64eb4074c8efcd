/* Seam for the command line tool's I/O: preloaded into the real binary. Reads,
 * writes and opens of its input, output and standard streams are counted, and
 * shortened, interrupted, failed or ended as SIM_PLAN says. Randomness for hash
 * tables comes from SIM_HASH. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
enum { R, W, O };
struct act { int op; long at; char kind; long arg; };
static struct act plan[64];
static int nplan, up;
static unsigned long hash;
static long limit[3], count[3], shorts[3], intrs[3], errs[3], ends;
static char tracked[1024];
static const char *dir, *report;

__attribute__((constructor)) static void start(void) {
    const char *p = getenv("SIM_PLAN");
    dir = getenv("SIM_DIR");
    report = getenv("SIM_REPORT");
    const char *h = getenv("SIM_HASH");
    hash = h ? strtoul(h, 0, 10) : 1;
    if (!p) return;
    tracked[0] = tracked[1] = 1;
    while (*p && nplan < 64) {
        struct act a = { *p == 'r' ? R : *p == 'w' ? W : O, 0, 0, 0 };
        char *e;
        a.at = strtol(p + 1, &e, 10);
        a.kind = *e++;
        a.arg = strtol(e, &e, 10);
        if (a.kind == 'P') limit[a.op] = a.arg; else plan[nplan++] = a;
        p = *e == ',' ? e + 1 : e;
    }
    up = 1;
}
static void num(char *s, int *k, long v) {
    char t[24]; int n = 0;
    do { t[n++] = '0' + v % 10; v /= 10; } while (v);
    while (n) s[(*k)++] = t[--n];
    s[(*k)++] = ' ';
}
__attribute__((destructor)) static void stop(void) {
    if (!report) return;
    char s[512]; int k = 0;
    for (int i = 0; i < 3; i++) { num(s, &k, count[i]); num(s, &k, shorts[i]); num(s, &k, intrs[i]); num(s, &k, errs[i]); }
    num(s, &k, ends);
    long fd = raw(SYS_open, (long)report, O_WRONLY | O_CREAT | O_TRUNC, 0600, 0, 0, 0);
    if (fd >= 0) raw(SYS_write, fd, (long)s, k, 0, 0, 0);
}
/* >0: how many bytes may be moved, 0: end, <0: error */
static long decide(int op, long n) {
    long i = ++count[op];
    for (int k = 0; k < nplan; k++) {
        struct act *a = &plan[k];
        if (a->op != op) continue;
        int sticky = a->kind == 'X' || a->kind == 'Z';
        if (i != a->at && !(sticky && i > a->at)) continue;
        switch (a->kind) {
        case 'I': intrs[op]++; return -EINTR;
        case 'E': case 'X': errs[op]++; return -a->arg;
        case 'Z': ends++; return 0;
        case 'S': if (a->arg < n) { shorts[op]++; return a->arg; } return n;
        }
    }
    if (limit[op] && limit[op] < n) { shorts[op]++; return limit[op]; }
    return n;
}
ssize_t read(int fd, void *b, size_t n) {
    if (up && n && fd >= 0 && fd < 1024 && tracked[fd]) {
        long k = decide(R, n);
        if (k <= 0) return ret(k);
        n = k;
    }
    return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
}
ssize_t write(int fd, const void *b, size_t n) {
    if (up && n && fd >= 0 && fd < 1024 && tracked[fd]) {
        long k = decide(W, n);
        if (k <= 0) return ret(k);
        n = k;
    }
    return ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (up && fd >= 0 && fd < 1024 && tracked[fd])
        for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return ret(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (up && fd >= 0 && fd < 1024 && tracked[fd])
        for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
static int doopen(int at, const char *p, int f, int m) {
    int mine = up && dir && !strncmp(p, dir, strlen(dir));
    if (mine) {
        long k = decide(O, 1);
        if (k < 0) return ret(k);
    }
    long fd = raw(SYS_openat, at, (long)p, f, m, 0, 0);
    if (mine && fd >= 0 && fd < 1024) tracked[fd] = 1;
    return ret(fd);
}
#define MODE int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, f); m = va_arg(l, int); va_end(l); }
int open(const char *p, int f, ...) { MODE return doopen(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return doopen(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return doopen(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return doopen(d, p, f, m); }
int close(int fd) {
    if (fd >= 3 && fd < 1024) tracked[fd] = 0;
    return ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    unsigned char *p = b;
    (void)f;
    for (size_t i = 0; i < n; i++) {
        hash = hash * 6364136223846793005UL + 1442695040888963407UL;
        p[i] = hash >> 56;
    }
    return n;
}
long syscall(long n, ...) {
    va_list l;
    va_start(l, n);
    long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
    va_end(l);
    if (n == SYS_getrandom) return getrandom((void *)a, b, c);
    return ret(raw(n, a, b, c, d, e, f));
}
