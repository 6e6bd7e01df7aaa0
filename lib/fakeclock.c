/* LD_PRELOAD shim: lets the harness own the wall clock (CLOCK_REALTIME) of the process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

static volatile int fake_on = 0;
static volatile long fake_sec = 0, fake_nsec = 0;

void vf_clock_set(long sec, long nsec) { fake_sec = sec; fake_nsec = nsec; fake_on = 1; }
void vf_clock_real(void) { fake_on = 0; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *) = 0;
    if (fake_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = fake_sec;
        ts->tv_nsec = fake_nsec;
        return 0;
    }
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    static int (*real)(struct timeval *, void *) = 0;
    if (fake_on) {
        tv->tv_sec = fake_sec;
        tv->tv_usec = fake_nsec / 1000;
        return 0;
    }
    if (!real)
        real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
    return real(tv, tz);
}

time_t time(time_t *t)
{
    static time_t (*real)(time_t *) = 0;
    if (fake_on) {
        if (t)
            *t = fake_sec;
        return fake_sec;
    }
    if (!real)
        real = (time_t (*)(time_t *))dlsym(RTLD_NEXT, "time");
    return real(t);
}
