/* Real threads: a registration, cancellation or timer set by another thread acts promptly on a wait in progress. */
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <time.h>
#include <sys/time.h>
#include "tpoll.h"
#include "vf.h"
static tpoll_t tp; static int fds[2], dummy[2], sp[2]; static volatile int what, stop_, go, fired; static uint64_t sd;
static double nowd (void) { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static volatile double acted;
static volatile double fire_t;
static void cb (void *a) { (void) a; fire_t = nowd (); __sync_fetch_and_add (&fired, 1); }
static void *th (void *a)
{
    (void) a; unsigned s = (unsigned) sd;
    for (;;) {
        while (!__sync_fetch_and_add (&go, 0)) { if (__sync_fetch_and_add (&stop_, 0)) return 0; struct timespec z = { 0, 20000 }; nanosleep (&z, 0); }
        __sync_lock_test_and_set (&go, 0);
        s = s * 1103515245 + 12345; unsigned d = (s >> 8) % 4;
        if (d) { struct timespec z = { 0, d == 1 ? (s >> 12) % 3000 : d == 2 ? (s >> 12) % 60000 : (s >> 12) % 1000000 }; nanosleep (&z, 0); }
        acted = nowd ();
        if (what == 0) tpoll_set (tp, fds[0], POLLIN);
        else if (what == 1) { tpoll_set (tp, dummy[0], POLLIN); tpoll_clear (tp, dummy[0], POLLIN); tpoll_set (tp, fds[0], POLLIN); }
        else if (what == 2) tpoll_timeout_relative (tp, cb, 0, 1);
        else if (what == 3) tpoll_set (tp, dummy[1], POLLOUT);
        else tpoll_set (tp, sp[0], POLLOUT);     /* registered for reading all along */
    }
}
int main (int argc, char **argv)
{
    int i, n = atoi (argv[2]), r; pthread_t t; double worst = 0;
    sd = strtoull (argv[1], 0, 0); vf_seed (sd);
    signal (SIGPIPE, SIG_IGN);
    if (socketpair (AF_UNIX, SOCK_STREAM, 0, sp) || pipe (fds) || pipe (dummy) || write (fds[1], "x", 1) != 1) return 3;
    tp = tpoll_create (0); if (tpoll_set (tp, sp[0], POLLIN)) return 3;
    pthread_create (&t, 0, th, 0);
    for (i = 0; i < n; i++) {
        int w = rn (5); what = w; fired = 0; double t0 = nowd ();
        int guard = tpoll_timeout_relative (tp, cb, 0, 8000);   /* a lost wakeup is found out when this fires */
        __sync_lock_test_and_set (&go, 1);
        if (w == 2) {
            int lim = rn (60) ? 20 : 300;
            while (!__sync_fetch_and_add (&fired, 0)) { r = tpoll (tp, lim); if (r > 0) fail ("wait returned %d", r); }
            if (fire_t - acted > 0.25 && lim == 300) { printf ("SOFT a timer of 1 ms set by another thread during a wait fired only after %.0f ms\n", (fire_t - acted) * 1e3); fflush (stdout); _exit (2); }
        }
        else { do { r = tpoll (tp, rn (2) ? -1 : 6000); } while (r < 0 && errno == EINTR); if (r != 1) { printf ("SOFT wait returned %d after %.1f s although a ready descriptor was registered by another thread\n", r, nowd () - t0); fflush (stdout); _exit (2); } }
        double dt = (w == 2 ? fire_t : nowd ()) - acted; if (dt > worst) worst = dt;
        if (dt > 3) { printf ("SOFT registration by another thread took effect only after %.1f s\n", dt); fflush (stdout); _exit (2); }
        tpoll_timeout_cancel (tp, guard);
        tpoll_clear (tp, fds[0], POLLIN | POLLOUT); tpoll_clear (tp, dummy[1], POLLIN | POLLOUT); tpoll_clear (tp, dummy[0], POLLIN);
        tpoll_clear (tp, sp[0], POLLOUT);
        while (tpoll (tp, 0) > 0) fail ("cleared descriptor still reported");
        key ("wake what%d dt%d", w, dt < 1e-4 ? 0 : dt < 1e-3 ? 1 : 2);
    }
    __sync_lock_test_and_set (&stop_, 1); pthread_join (t, 0);
    printf ("C cross-thread wakeups %d\nS slowest wakeup %.1f ms over %d\n", n, worst * 1e3, n);
    tpoll_destroy (tp); done (); return 0;
}
