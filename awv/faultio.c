/* Data-write faults inside the process under test: counts the calls that put bytes into files below
 * a directory, and at the n-th one kills the process half way through it, or lets the disk be full
 * from there on.  Loaded with LD_PRELOAD into the monitor's workers; does nothing until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t rootlen;
static long count, target;
static int how;                 /* 0 count only, 1 kill, 2 disk full from now on */
static int fired;

void awv_arm(const char *dir, long at, int kind)
{
    snprintf(root, sizeof root, "%s/", dir);
    rootlen = strlen(root);
    count = 0; target = at; how = kind; fired = 0;
}
void awv_disarm(void) { rootlen = 0; }
long awv_count(void) { return count; }
int awv_fired(void) { return fired; }

static int ours(int fd)
{
    char link[32], to[PATH_MAX];
    if (!rootlen) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, to, sizeof to - 1);
    if (n <= (ssize_t)rootlen) return 0;
    to[n] = 0;
    return !strncmp(to, root, rootlen) && strncmp(to + rootlen, ".out.", 5);   /* not its messages */
}
/* -> 0 go on, 1 write half of it and die, 2 fail, 3 write half of it only */
static int step(int fd)
{
    int e = errno, r = 0;
    if (ours(fd)) {
        count++;
        if (how == 2 && fired) r = 2;
        else if (how && count == target) { fired = 1; r = how == 1 ? 1 : 3; }
    }
    errno = e;
    return r;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define BODY(CALL, HALF) \
    switch (step(fd)) { \
    case 1: if (HALF > 0) { size_t n = HALF; if (CALL < 0) die(); } die(); \
    case 2: errno = ENOSPC; return -1; \
    case 3: if (HALF > 0) { size_t n = HALF; return CALL; } errno = ENOSPC; return -1; \
    } \
    { size_t n = len; return CALL; }

ssize_t write(int fd, const void *b, size_t len) { REAL(write); BODY(real(fd, b, n), len / 2) }
ssize_t pwrite(int fd, const void *b, size_t len, off_t o) { REAL(pwrite); BODY(real(fd, b, n, o), len / 2) }
ssize_t pwrite64(int fd, const void *b, size_t len, off64_t o) { REAL(pwrite64); BODY(real(fd, b, n, o), len / 2) }
ssize_t sendfile(int fd, int in, off_t *o, size_t len)
{ REAL(sendfile); size_t h = len > 2 ? (len > (1 << 20) ? 1 : len / 2) : 0; BODY(real(fd, in, o, n), h) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t len)
{ REAL(sendfile64); size_t h = len > 2 ? (len > (1 << 20) ? 1 : len / 2) : 0; BODY(real(fd, in, o, n), h) }
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *oo, size_t len, unsigned f)
{ REAL(copy_file_range); size_t h = len > 2 ? (len > (1 << 20) ? 1 : len / 2) : 0; BODY(real(in, io, fd, oo, n, f), h) }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    switch (step(fd)) {
    case 1: if (real(fd, v, c > 1 ? c / 2 : c) < 0) die(); die();
    case 2: case 3: errno = ENOSPC; return -1;
    }
    return real(fd, v, c);
}

/* The system's loader configuration as seen by the process under test: /etc/ld.so.conf*, ld-musl-*.path
 * and the listing of /etc come from a directory of the case instead, and so do libraries named
 * libc13q* in the loader's default directories (from its sys/). */
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/xattr.h>

static char etc[PATH_MAX];
void awv_etc(const char *dir) { snprintf(etc, sizeof etc, "%s", dir ? dir : ""); }

static const char *here(const char *p, char *buf)
{
    if (!*etc || !p || *p != '/') return p;
    char q[PATH_MAX]; size_t n = 0;
    for (const char *s = p; *s && n < sizeof q - 1; ) {         /* "//" and "/./" out */
        if (*s == '/' && s[1] == '/') { s++; continue; }
        if (*s == '/' && s[1] == '.' && (s[2] == '/' || !s[2])) { s += 2; continue; }
        q[n++] = *s++;
    }
    q[n] = 0;
    if (n > 1 && q[n - 1] == '/') q[--n] = 0;
    size_t e = strlen(etc);
    if (e + n + 5 >= PATH_MAX) return p;
    memcpy(buf, etc, e);
    static const char *const defaults[] = { "/lib/", "/lib64/", "/usr/lib/", "/usr/lib64/", "/usr/local/lib/", 0 };
    for (const char *const *d = defaults; *d; d++) {
        size_t k = strlen(*d);
        if (!strncmp(q, *d, k) && !strncmp(q + k, "libc13q", 7) && !strchr(q + k, '/')) {
            sprintf(buf + e, "/sys%s", q);
            return buf;
        }
    }
    if (strcmp(q, "/etc") && strncmp(q, "/etc/ld.so.", 11) && strncmp(q, "/etc/ld-musl-", 13)) return p;
    strcpy(buf + e, q + 4);
    return buf;
}
#define MOVED char buf_[PATH_MAX]; p = here(p, buf_)
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); }

int open(const char *p, int fl, ...) { REAL(open); MODE MOVED; return real(p, fl, m); }
int open64(const char *p, int fl, ...) { REAL(open64); MODE MOVED; return real(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { REAL(openat); MODE MOVED; return real(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { REAL(openat64); MODE MOVED; return real(d, p, fl, m); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); MOVED; return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); MOVED; return real(p, m); }
int stat(const char *p, struct stat *s) { REAL(stat); MOVED; return real(p, s); }
int lstat(const char *p, struct stat *s) { REAL(lstat); MOVED; return real(p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { REAL(fstatat); MOVED; return real(d, p, s, f); }
int stat64(const char *p, struct stat64 *s) { REAL(stat64); MOVED; return real(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); MOVED; return real(p, s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(fstatat64); MOVED; return real(d, p, s, f); }
int access(const char *p, int m) { REAL(access); MOVED; return real(p, m); }
int faccessat(int d, const char *p, int m, int f) { REAL(faccessat); MOVED; return real(d, p, m, f); }
DIR *opendir(const char *p) { REAL(opendir); MOVED; return real(p); }
ssize_t readlink(const char *p, char *b, size_t n) { REAL(readlink); MOVED; return real(p, b, n); }
ssize_t listxattr(const char *p, char *b, size_t n) { REAL(listxattr); MOVED; return real(p, b, n); }
ssize_t llistxattr(const char *p, char *b, size_t n) { REAL(llistxattr); MOVED; return real(p, b, n); }
ssize_t getxattr(const char *p, const char *a, void *b, size_t n) { REAL(getxattr); MOVED; return real(p, a, b, n); }
ssize_t lgetxattr(const char *p, const char *a, void *b, size_t n) { REAL(lgetxattr); MOVED; return real(p, a, b, n); }
