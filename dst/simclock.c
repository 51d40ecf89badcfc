/* The wall clock of simulated processes: LD_PRELOADed, off until simclock_set() or SIMCLOCK. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int on;
static long long sec, nsec;
static unsigned long reads;

void simclock_set(long long s, long long ns) { sec = s; nsec = ns; on = 1; }
void simclock_off(void) { on = 0; }
unsigned long simclock_reads(void) { return reads; }

__attribute__((constructor)) static void init(void)
{
    const char *v = getenv("SIMCLOCK");
    if (v && *v)
        simclock_set(atoll(v), 123456789);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        reads++;
        ts->tv_sec = sec;
        ts->tv_nsec = nsec;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
