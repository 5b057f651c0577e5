/* Counts, fails or ends the process at the file-system steps made below one
 * directory.  Loaded with LD_PRELOAD by the C15 check; idle until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

enum { OFF, COUNT, CRASH, TORN, FAIL, STICKY, SHORT };
static int mode, at, count, failed, err;
static char prefix[4096];
static size_t plen;
static char ours[65536];
static char log_[65536];
static int nlog;

void shim_arm(int m, int n, const char *p, int e)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    at = n; count = 0; failed = 0; nlog = 0; err = e;
    memset(ours, 0, sizeof ours);
    mode = m;
}
int shim_count(void) { return count; }
int shim_failed(void) { return failed; }
const char *shim_log(void) { log_[nlog] = 0; return log_; }
void shim_off(void) { mode = OFF; }

/* 0: go on, 1: fail with errno, 2: do half of it and end */
static int step(char what)
{
    if (mode == OFF)
        return 0;
    int me = count++;
    if (nlog < (int)sizeof log_ - 1)
        log_[nlog++] = what;
    if (mode == STICKY ? me < at : me != at)
        return 0;
    switch (mode) {
    case CRASH: _exit(77);
    case TORN: if (what == 'w') return 2; _exit(77);
    case SHORT: if (what == 'w') return 3; return 0;
    case FAIL:
    case STICKY: failed++; errno = err; return 1;
    }
    return 0;
}
static int under(const char *p)
{
    return mode != OFF && p && strncmp(p, prefix, plen) == 0;
}
static int mine(int fd) { return mode != OFF && fd >= 0 && fd < 65536 && ours[fd]; }

#define NEXT(t, n) static t real; if (!real) real = (t)dlsym(RTLD_NEXT, n)

static int doopen(const char *name, const char *p, int fl, mode_t m)
{
    typedef int (*F)(const char *, int, ...);
    F real = (F)dlsym(RTLD_NEXT, name);
    int u = under(p);
    if (u && (fl & (O_CREAT | O_TRUNC)) && step('o'))
        return -1;
    int fd = real(p, fl, m);
    if (fd >= 0 && fd < 65536)
        ours[fd] = u && (fl & (O_WRONLY | O_RDWR));
    return fd;
}
int open(const char *p, int fl, ...)
{
    va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    return doopen("open", p, fl, m);
}
int open64(const char *p, int fl, ...)
{
    va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    return doopen("open64", p, fl, m);
}
ssize_t write(int fd, const void *b, size_t n)
{
    typedef ssize_t (*F)(int, const void *, size_t);
    NEXT(F, "write");
    if (mine(fd)) {
        int s = step('w');
        if (s == 1) return -1;
        if (s == 2) { real(fd, b, n / 2); _exit(77); }
        if (s == 3 && n > 1) return real(fd, b, n / 2);
    }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    typedef ssize_t (*F)(int, const void *, size_t, off_t);
    NEXT(F, "pwrite");
    if (mine(fd)) {
        int s = step('w');
        if (s == 1) return -1;
        if (s == 2) { real(fd, b, n / 2, o); _exit(77); }
        if (s == 3 && n > 1) return real(fd, b, n / 2, o);
    }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    typedef ssize_t (*F)(int, const void *, size_t, off64_t);
    NEXT(F, "pwrite64");
    if (mine(fd)) {
        int s = step('w');
        if (s == 1) return -1;
        if (s == 2) { real(fd, b, n / 2, o); _exit(77); }
        if (s == 3 && n > 1) return real(fd, b, n / 2, o);
    }
    return real(fd, b, n, o);
}
int ftruncate(int fd, off_t n)
{
    typedef int (*F)(int, off_t);
    NEXT(F, "ftruncate");
    if (mine(fd) && step('t')) return -1;
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n)
{
    typedef int (*F)(int, off64_t);
    NEXT(F, "ftruncate64");
    if (mine(fd) && step('t')) return -1;
    return real(fd, n);
}
int rename(const char *a, const char *b)
{
    typedef int (*F)(const char *, const char *);
    NEXT(F, "rename");
    if ((under(a) || under(b)) && step('r')) return -1;
    return real(a, b);
}
int link(const char *a, const char *b)
{
    typedef int (*F)(const char *, const char *);
    NEXT(F, "link");
    if ((under(a) || under(b)) && step('l')) return -1;
    return real(a, b);
}
int unlink(const char *a)
{
    typedef int (*F)(const char *);
    NEXT(F, "unlink");
    if (under(a) && step('u')) return -1;
    return real(a);
}
int remove(const char *a)
{
    typedef int (*F)(const char *);
    NEXT(F, "remove");
    if (under(a) && step('u')) return -1;
    return real(a);
}
int fsync(int fd)
{
    typedef int (*F)(int);
    NEXT(F, "fsync");
    if (mine(fd) && step('s')) return -1;
    return real(fd);
}
int close(int fd)
{
    typedef int (*F)(int);
    NEXT(F, "close");
    if (mine(fd)) {
        ours[fd] = 0;
        if (step('c')) { int e = errno; real(fd); errno = e; return -1; }
    }
    return real(fd);
}
