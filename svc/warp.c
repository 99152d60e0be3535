/* Makes time run WARP_FACTOR times faster for the process it is preloaded
 * into: monotonic clocks, sleeps and the time limits of waits. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static int64_t F = 0, BASE;
static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long fin(long r)
{
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
static int64_t now(clockid_t c)
{
    struct timespec t;
    raw(SYS_clock_gettime, c, (long)&t, 0, 0, 0, 0);
    return t.tv_sec * 1000000000LL + t.tv_nsec;
}
static void setup(void)
{
    if (!F) {
        const char *s = getenv("WARP_FACTOR");
        int64_t f = s ? atoi(s) : 1;
        BASE = now(CLOCK_MONOTONIC);
        F = f > 0 ? f : 1;
    }
}
__attribute__((constructor)) static void init(void) { setup(); }
static int mono(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }
static void put(struct timespec *t, int64_t n)
{
    if (n < 0)
        n = 0;
    t->tv_sec = n / 1000000000LL;
    t->tv_nsec = n % 1000000000LL;
}
static int64_t get(const struct timespec *t)
{
    if (t->tv_sec > 4000000000LL)
        return 4000000000LL * 1000000000LL;
    return t->tv_sec * 1000000000LL + t->tv_nsec;
}
static int64_t to_real(int64_t v) { return BASE + (v - BASE) / F; }

int clock_gettime(clockid_t c, struct timespec *t)
{
    setup();
    if (!mono(c))
        return fin(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
    put(t, BASE + (now(CLOCK_MONOTONIC) - BASE) * F);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *q, struct timespec *rem)
{
    struct timespec t;
    setup();
    if (flags & TIMER_ABSTIME)
        put(&t, mono(c) ? to_real(get(q)) : get(q));
    else
        put(&t, get(q) / F);
    long r = raw(SYS_clock_nanosleep, c, flags, (long)&t, (long)rem, 0, 0);
    if (r == -EINTR && rem && !(flags & TIMER_ABSTIME))
        put(rem, get(rem) * F);
    return (int)-r;
}
int nanosleep(const struct timespec *q, struct timespec *rem)
{
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, q, rem);
    if (r) {
        errno = r;
        return -1;
    }
    return 0;
}
unsigned sleep(unsigned s)
{
    struct timespec t = {s, 0};
    nanosleep(&t, 0);
    return 0;
}
int usleep(useconds_t u)
{
    struct timespec t = {u / 1000000, (u % 1000000) * 1000};
    return nanosleep(&t, 0);
}
static int ms(int t) { setup(); return t <= 0 ? t : (int)((t + F - 1) / F); }
int epoll_wait(int e, struct epoll_event *v, int n, int t) { return (int)fin(raw(SYS_epoll_wait, e, (long)v, n, ms(t), 0, 0)); }
int epoll_pwait(int e, struct epoll_event *v, int n, int t, const sigset_t *s) { return (int)fin(raw(SYS_epoll_pwait, e, (long)v, n, ms(t), (long)s, 8)); }
int poll(struct pollfd *f, nfds_t n, int t) { return (int)fin(raw(SYS_poll, (long)f, n, ms(t), 0, 0, 0)); }
int pthread_cond_timedwait(void *, void *, const struct timespec *);
long syscall(long n, ...)
{
    long a[6];
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    setup();
    struct timespec t;
    if (n == SYS_futex && a[3]) {
        int op = a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT) {
            put(&t, get((struct timespec *)a[3]) / F);
            a[3] = (long)&t;
        } else if (op == FUTEX_WAIT_BITSET && !(a[1] & FUTEX_CLOCK_REALTIME)) {
            put(&t, to_real(get((struct timespec *)a[3])));
            a[3] = (long)&t;
        }
    } else if (n == SYS_clock_gettime) {
        return clock_gettime((clockid_t)a[0], (struct timespec *)a[1]);
    }
    return fin(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
