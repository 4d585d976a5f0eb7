/* Preloaded into a process whose file system changes are to be counted and stopped at.
 * After crash_arm(n, torn), the n-th (0-based) change ends the process at once: before it happens, or, if torn is not 0 and
 * it is a write, after only a part of it has been written. crash_count() returns the number of changes since arming.
 * Changes of standard streams and non-regular files are not counted. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile long armed = 0, counter = 0, limit = -1, torn = 0;
#define EXIT_CODE 77

#define MAX_KINDS 1000000
static char kinds[MAX_KINDS + 1];
const char *crash_kinds(void) { kinds[counter < MAX_KINDS ? counter : MAX_KINDS] = 0; return kinds; }
void crash_arm(long n, long t) { counter = 0; limit = n; torn = t; armed = 1; }
void crash_disarm(void) { armed = 0; }
long crash_count(void) { return counter; }

/* Returns 1 if the call shall be stopped here. */
static int event_of(char kind) {
    if (!armed) return 0;
    if (counter < MAX_KINDS) kinds[counter] = kind;
    return counter++ == limit;
}
static int event(void) { return event_of('w'); }
static void check(void) { if (event_of('o')) _exit(EXIT_CODE); }
static int regular(int fd) {
    struct stat st;
    return armed && fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
#define REAL(type, name, ...) \
    static type (*real)(__VA_ARGS__); \
    if (!real) real = (type (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name);

static size_t part(size_t n) {
    switch (torn) {
        case 1: return n / 2;
        case 2: return n ? 1 : 0;
        default: return n ? n - 1 : 0;
    }
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t)
    if (regular(fd) && event()) { if (torn) real(fd, buf, part(n)); _exit(EXIT_CODE); }
    return real(fd, buf, n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t)
    if (regular(fd) && event()) { if (torn) real(fd, buf, part(n), o); _exit(EXIT_CODE); }
    return real(fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t)
    if (regular(fd) && event()) { if (torn) real(fd, buf, part(n), o); _exit(EXIT_CODE); }
    return real(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int)
    if (regular(fd)) check();
    return real(fd, v, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t)
    if (regular(out) && event()) { if (torn) real(out, in, o, part(n)); _exit(EXIT_CODE); }
    return real(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t)
    if (regular(out) && event()) { if (torn) real(out, in, o, part(n)); _exit(EXIT_CODE); }
    return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned)
    if (regular(out)) check();
    return real(in, io, out, oo, n, f);
}
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t) if (regular(fd)) check(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t) if (regular(fd)) check(); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(int, "truncate", const char *, off_t) check(); return real(p, n); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t) check(); return real(p, n); }

static void opening(int dir, const char *p, int flags) {
    struct stat st;
    if (!armed || !(flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) == O_RDONLY) return;
    if (fstatat(dir, p, &st, 0) == 0) {
        if (!S_ISREG(st.st_mode) || !(flags & O_TRUNC) || st.st_size == 0) return;
    }
    check();
}
#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    REAL(int, #name, const char *, int, ...) \
    va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    opening(AT_FDCWD, p, flags); \
    return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int flags, ...) { \
    REAL(int, #name, int, const char *, int, ...) \
    va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    opening(d, p, flags); \
    return real(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)

int unlink(const char *p) { REAL(int, "unlink", const char *) check(); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int) check(); return real(d, p, f); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *) check(); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t) check(); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t) check(); return real(d, p, m); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *) check(); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *) check(); return real(d, a, e, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *) check(); return real(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) {
    REAL(int, "linkat", int, const char *, int, const char *, int) check(); return real(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *) check(); return real(a, b); }
int symlinkat(const char *a, int d, const char *b) {
    REAL(int, "symlinkat", const char *, int, const char *) check(); return real(a, d, b); }
int mknod(const char *p, mode_t m, dev_t d) { REAL(int, "mknod", const char *, mode_t, dev_t) check(); return real(p, m, d); }
int mknodat(int f, const char *p, mode_t m, dev_t d) {
    REAL(int, "mknodat", int, const char *, mode_t, dev_t) check(); return real(f, p, m, d); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t) check(); return real(p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL(int, "fchmodat", int, const char *, mode_t, int) check(); return real(d, p, m, f); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(int, "utimensat", int, const char *, const struct timespec *, int) check(); return real(d, p, t, f); }
