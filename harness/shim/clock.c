// LD_PRELOAD shim of the clock monitor: the system clock of the process is what the 8 bytes of the
// file MON_CLOCK say, at any time: milliseconds, times two; even: added to the real clock, odd: the
// clock stands still at this time.  Only the process sees it; other clocks are untouched.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t *word;

__attribute__((constructor)) static void init(void) {
    const char *f = getenv("MON_CLOCK");
    int fd = f ? open(f, O_RDONLY | O_CLOEXEC) : -1;
    if (fd < 0) return;
    void *p = mmap(0, 8, PROT_READ, MAP_SHARED, fd, 0);
    if (p != MAP_FAILED) word = p;
    close(fd);
}
int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (r || !word || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return r;
    int64_t w = *word;
    int64_t ms = w >> 1;
    if (w & 1) {
        t->tv_sec = ms / 1000;
        t->tv_nsec = ms % 1000 * 1000000L;
        return 0;
    }
    int64_t sec = t->tv_sec + ms / 1000, ns = t->tv_nsec + ms % 1000 * 1000000L;
    if (ns < 0) ns += 1000000000L, sec--;
    if (ns >= 1000000000L) ns -= 1000000000L, sec++;
    t->tv_sec = sec;
    t->tv_nsec = ns;
    return 0;
}
int gettimeofday(struct timeval *t, void *tz) {
    struct timespec s;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return r;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
