/*
 * LD_PRELOAD library: the real-time clock advances by a fixed step on every reading, and the readings
 * of all processes sharing the counter file are distinct.
 *
 * CLOCKSHIM_FILE: 16 bytes, the next reading in seconds and the step, as native 64-bit integers.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int64_t *ctr;

static int setup(void)
{
    static int tried;
    if (!tried) {
        tried = 1;
        const char *p = getenv("CLOCKSHIM_FILE");
        if (p) {
            int fd = open(p, O_RDWR | O_CLOEXEC);
            if (fd >= 0) {
                void *m = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                close(fd);
                if (m != MAP_FAILED)
                    ctr = m;
            }
        }
    }
    return ctr != 0;
}

static int64_t tick(void) { return __atomic_fetch_add(&ctr[0], ctr[1], __ATOMIC_SEQ_CST); }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && setup()) {
        ts->tv_sec = tick();
        ts->tv_nsec = 0;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    if (setup()) {
        tv->tv_sec = tick();
        tv->tv_usec = 0;
        return 0;
    }
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    time_t v;
    if (setup())
        v = tick();
    else {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    }
    if (t)
        *t = v;
    return v;
}
