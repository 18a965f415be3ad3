// LD_PRELOAD shim of the crash monitor: counts the operations that change
// files below CRASH_PREFIX and ends the process (or fails the operation) at
// the CRASH_AT-th.  Writes "<count> <milliseconds> <operation> <path>" to
// CRASH_INFO.  While the 8 bytes of the file CRASH_STATE are not 0, all of them
// fail with this error (those of the given kinds).  In mode 4, the process waits before that operation until
// the file CRASH_GO is there.  Everything outside the prefix passes untouched.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static atomic_long counter, failed;
static long at = -1;
static int mode; // 0: before the operation, 1: in the middle of a write, 2: after it, 3: it fails once, 4: it waits
static const char *prefix, *info, *only, *skip, *go;
static int dying;
static volatile long *state; // the error; + 1000: writes may be done in part before; + 65536 * the operations that fail

static long now_ms(void) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec * 1000L + t.tv_nsec / 1000000L;
}
static void note(const char *op, const char *path, long n) {
    if (!info) return;
    char b[1400];
    int l = snprintf(b, sizeof b, "%ld %ld %s %.1000s\n", n, now_ms(), op, path);
    int fd = syscall(SYS_openat, AT_FDCWD, info, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, l);
        syscall(SYS_close, fd);
    }
}
__attribute__((constructor)) static void init(void) {
    prefix = getenv("CRASH_PREFIX");
    info = getenv("CRASH_INFO");
    only = getenv("CRASH_ONLY");
    skip = getenv("CRASH_SKIP");
    go = getenv("CRASH_GO");
    const char *a = getenv("CRASH_AT");
    at = a ? atol(a) : -1;
    const char *m = getenv("CRASH_MODE");
    mode = m ? atoi(m) : 0;
    const char *f = getenv("CRASH_STATE");
    int fd = f ? syscall(SYS_openat, AT_FDCWD, f, O_RDONLY | O_CLOEXEC) : -1;
    if (fd >= 0) {
        void *p = mmap(0, 8, PROT_READ, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) state = p;
        syscall(SYS_close, fd);
    }
}
__attribute__((destructor)) static void fini(void) {
    if (prefix && !dying) note("end", "-", atomic_load(&counter));
}
static void die(const char *op, const char *path, long n) {
    dying = 1;
    note(op, path, n);
    syscall(SYS_exit_group, 77);
}
static int inside(const char *path) {
    if (!prefix || !path) return 0;
    if (strncmp(path, prefix, strlen(prefix)) != 0) return 0;
    if (only && !strstr(path, only)) return 0;
    if (skip && (strstr(path, "/indexer/") || strstr(path, "/storage/"))) return 0;
    return 1;
}
static int fd_path(int fd, char *b, size_t n) {
    char p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(p, b, n - 1);
    if (l < 0) return 0;
    b[l] = 0;
    return 1;
}
// Returns 1 when the caller has to fail, 2 when it has to die after the operation, 3: in its middle, 4: when
// it has to do its first half only.
static int step(const char *op, const char *path, long *n) {
    *n = atomic_fetch_add(&counter, 1) + 1;
    if (state) {
        static const char *const ops[] = {"mkdir", "create", "write", "rename", "sync", "truncate"};
        long e = *state % 65536, which = *state / 65536;
        int fails = 0;
        for (int i = 0; e && i < 6; i++) fails |= strstr(op, ops[i]) && (which >> i & 1);
        if (fails) {
            note(op, path, atomic_fetch_add(&failed, 1) + 1);
            errno = e % 1000;
            return e >= 1000 && *n % 2 && strstr(op, "write") ? 4 : 1;
        }
        return 0;
    }
    if (at <= 0 || *n != at) return 0;
    if (mode == 0) die(op, path, *n);
    if (mode == 3) {
        dying = 1;
        note(op, path, *n);
        errno = ENOSPC;
        return 1;
    }
    if (mode == 4) {
        dying = 1;
        note(op, path, *n);
        for (int i = 0; i < 6000 && go && access(go, F_OK); i++) usleep(10000);
        return 0;
    }
    return mode == 1 ? 3 : 2;
}
// the partial write's result does not matter: the process ends
#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define ON_PATH(op, path, call) \
    long n = 0; \
    int s = inside(path) ? step(op, path, &n) : 0; \
    if (s == 1) return -1; \
    __typeof__(call) r = call; \
    if (s >= 2) die(op, path, n); \
    return r

int mkdir(const char *p, mode_t m) { REAL(mkdir); ON_PATH("mkdir", p, real(p, m)); }
int rename(const char *a, const char *b) { REAL(rename); ON_PATH("rename", b, real(a, b)); }
int unlink(const char *p) { REAL(unlink); ON_PATH("unlink", p, real(p)); }
int rmdir(const char *p) { REAL(rmdir); ON_PATH("rmdir", p, real(p)); }

static int creates(const char *p, int flags) {
    if (flags & O_TRUNC) return 1;
    return (flags & O_CREAT) && access(p, F_OK) != 0;
}
#define OPENBODY(name, p, flags) \
    mode_t m = 0; \
    if (flags & O_CREAT) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
    REAL(name); \
    if (inside(p) && creates(p, flags)) { ON_PATH("create", p, real(p, flags, m)); } \
    return real(p, flags, m)
int open(const char *p, int flags, ...) { OPENBODY(open, p, flags); }
int open64(const char *p, int flags, ...) { OPENBODY(open64, p, flags); }

#define ON_FD(op, fd, call, partial) \
    char path[1100]; \
    long n = 0; \
    int s = fd > 2 && prefix && fd_path(fd, path, sizeof path) && inside(path) ? step(op, path, &n) : 0; \
    if (s == 1) return -1; \
    if (s == 4) return partial; \
    if (s == 3) { ssize_t ignored = (partial); (void)ignored; die(op, path, n); } \
    __typeof__(call) r = call; \
    if (s == 2) die(op, path, n); \
    return r

ssize_t write(int fd, const void *b, size_t l) { REAL(write); ON_FD("write", fd, real(fd, b, l), real(fd, b, l / 2)); }
ssize_t pwrite(int fd, const void *b, size_t l, off_t o) { REAL(pwrite); ON_FD("pwrite", fd, real(fd, b, l, o), real(fd, b, l / 2, o)); }
ssize_t pwrite64(int fd, const void *b, size_t l, off64_t o) { REAL(pwrite64); ON_FD("pwrite", fd, real(fd, b, l, o), real(fd, b, l / 2, o)); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); ON_FD("writev", fd, real(fd, v, c), real(fd, v, c > 1 ? c - 1 : 0)); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); ON_FD("ftruncate", fd, real(fd, l), 0); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); ON_FD("ftruncate", fd, real(fd, l), 0); }
int fsync(int fd) { REAL(fsync); ON_FD("fsync", fd, real(fd), 0); }
int fdatasync(int fd) { REAL(fdatasync); ON_FD("fdatasync", fd, real(fd), 0); }
