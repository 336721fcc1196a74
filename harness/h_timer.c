/* tpoll timers on a virtual clock: gettimeofday() and poll() are replaced by --wrap, so that
 * every wait, every callback and (through the poll hook) every action of "another thread" during
 * a wait happens at a known time. */
#include <errno.h>
#include <poll.h>
#include <sys/time.h>
#include "tpoll.h"
#include "vf.h"
int __real_poll (struct pollfd *, nfds_t, int);
typedef long long ll;
static ll now_us;                    /* virtual clock */
static int jit;                      /* microseconds gettimeofday may advance */
static tpoll_t tp;
#define MAXT 400
typedef struct { int used, id, fired, cancelled, exact; ll lo, hi; int act; } T;   /* deadline within [lo,hi] */
static T tm[MAXT]; static int nt;
static int in_tpoll; static int cur_ms; static ll call_us;
static int zero_polls; static ll nslept, nfired, ncancel, nwait, nhook; static int hookp, fdready, depth;
static int g_usefd;
static void random_op (const char *from);
static int pend (void) { int i, n = 0; for (i = 0; i < nt; i++) n += tm[i].used && !tm[i].fired && !tm[i].cancelled; return n; }
static ll min_hi (void) { int i; ll m = -1; for (i = 0; i < nt; i++) if (tm[i].used && !tm[i].fired && !tm[i].cancelled && (m < 0 || tm[i].hi < m)) m = tm[i].hi; return m; }
static ll min_lo (void) { int i; ll m = -1; for (i = 0; i < nt; i++) if (tm[i].used && !tm[i].fired && !tm[i].cancelled && (m < 0 || tm[i].lo < m)) m = tm[i].lo; return m; }
int __wrap_gettimeofday (struct timeval *tv, void *z)
{
    if (jit) now_us += rn (jit + 1);
    tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; return 0;
}
/* the wait goes on without having been woken: no timer set by "another thread" in the meantime may be due before it ends */
static void overslept (int ms)
{
    ll m = min_hi ();
    if (m < 0) return;
    if (ms < 0) fail ("an unlimited wait is not woken by a timer set during it, due in %lld us", m - now_us);
    if (now_us + (ll) ms * 1000 > (m > now_us ? m : now_us) + 1000 + 50 * jit) fail ("a wait of %d ms is not woken by a timer set during it, due in %lld us", ms, m - now_us);
    nslept++;
}
int __wrap_poll (struct pollfd *f, nfds_t n, int ms)
{
    int r;
    nwait++;
    if (ms < -1) fail ("poll called with timeout %d", ms);
    if (cur_ms == 0 && ms != 0) fail ("a wait with limit 0 blocks for %d ms", ms);
    if (ms != 0) {
        zero_polls = 0;
        ll d = min_lo ();
        /* never asleep past a deadline or the limit (to the millisecond), never on a due timer */
        ll m = min_hi ();
        if (m >= 0) {
            if (m < call_us) fail ("waiting although a timer was due %lld us ago", now_us - m);
            if (ms < 0) fail ("waiting forever although a timer is due in %lld us", m - now_us);
            if (now_us + (ll) ms * 1000 > m + 1000 + 50 * jit && now_us < m) fail ("waiting %d ms although a timer is due in %lld us", ms, m - now_us);
        }
        (void) d;
        if (cur_ms > 0 && ms < 0) fail ("waiting forever although the limit is %d ms", cur_ms);
        if (cur_ms > 0 && now_us + (ll) ms * 1000 > call_us + (ll) cur_ms * 1000 + 1000 + 50 * jit) fail ("waiting %d ms at %lld us into a wait of %d ms", ms, now_us - call_us, cur_ms);
    } else if (cur_ms != 0) {
        if (++zero_polls > 6) fail ("spinning: %d immediate polls in a wait of %d ms with %d timers pending, next in %lld us", zero_polls, cur_ms, pend (), min_hi () - now_us);
    }
    if (hookp && rn (100) < hookp) { nhook++; random_op ("thread"); if (rn (4) == 0) random_op ("thread"); }
    if (rn (200) == 0) { errno = EINTR; return -1; }
    r = __real_poll (f, n, 0);
    if (r || ms == 0) return r;
    overslept (ms);
    if (ms < 0) {
        /* nothing can happen any more unless "another thread" acts */
        if (!g_usefd) fail ("waiting forever although no descriptor and no timer is registered");
        if (!hookp) { errno = EINTR; return -1; }
        int k; for (k = 0; k < 50 && r == 0; k++) { random_op ("thread"); r = __real_poll (f, n, 0); if (!r) overslept (ms); }
        if (!r) { errno = EINTR; return -1; }
        return r;
    }
    if (rn (30) == 0) { /* a descriptor becomes ready early */
        now_us += rn (ms > 1000000 ? 1000000 : ms + 1) * 1000ll; char c = 1; if (write (fdready, &c, 1) != 1) {} return __real_poll (f, n, 0);
    }
    now_us += ms * 1000ll + (rn (3) ? 0 : rn (900));
    return 0;
}
static void cb (void *arg)
{
    T *t = arg; int i;
    trace ("fire %d", (int) (t - tm));
    if (!t->used) fail ("callback of an unknown timer");
    if (t->cancelled) fail ("cancelled timer %d fired", t->id);
    if (t->fired) fail ("timer %d fired twice", t->id);
    if (!in_tpoll) fail ("timer fired outside a wait");
    if (now_us < t->lo) fail ("timer %d fired %lld us early", t->id, t->lo - now_us);
    for (i = 0; i < nt; i++) if (&tm[i] != t && tm[i].used && !tm[i].fired && !tm[i].cancelled && tm[i].hi < t->lo)
        fail ("timer %d fired before timer %d, which was due %lld us earlier", t->id, tm[i].id, t->lo - tm[i].hi);
    for (i = 0; i < t - tm; i++) if (t->exact && tm[i].exact && tm[i].lo == t->lo && !tm[i].fired && !tm[i].cancelled)
        fail ("timer %d fired before timer %d, which was set earlier for the same instant", t->id, tm[i].id);
    t->fired = 1; nfired++;
    key ("fire act%d late%d pend%d hook%d", t->act, now_us - t->hi > 1000, pend () > 5 ? 5 : pend (), hookp > 0);
    if (depth < 30 && t->act) { depth++; random_op ("callback"); if (t->act > 1) random_op ("callback"); }
}
static ll rdelay (void)
{
    switch (rn (12)) {
    case 0: return 0; case 1: return 1; case 2: return 1 + rn (3); case 3: return 999 + rn (3); case 4: return rn (100000);
    case 5: return 2147483647; case 6: return 2147483647 - rn (1000); case 7: return 86400000ll * 24 + rn (86400000); case 8: return rn (60) * 1000; default: return rn (50);
    }
}
static void random_op (const char *from)
{
    int w = rn (10), i, id;
    if (w < 6 && nt < MAXT && pend () < 40) {
        T *t = &tm[nt]; memset (t, 0, sizeof *t); t->act = rn (3);
        ll a = now_us;
        if (rn (3)) {
            int ms = (int) rdelay (); if (rn (20) == 0) ms = -rn (5000);
            t->used = 1; t->lo = a + (ms > 0 ? ms * 1000ll : 0); t->hi = t->lo;
            nt++;
            id = tpoll_timeout_relative (tp, cb, t, ms);
            t->hi = now_us + (ms > 0 ? ms * 1000ll : 0); t->exact = ms >= 0 && t->hi == t->lo;
            trace ("%s rel %d %dms", from, (int) (t - tm), ms);
        } else {
            struct timeval tv; ll at;
            switch (rn (5)) { case 0: at = a; break; case 1: at = a - rn (2000000); break; case 2: at = a + 3600ll * 1000000 * rn (24 * 400); break;
            case 3: if (nt && tm[nt - 1].lo >= 0) { at = tm[nt - 1].lo; break; } /* fall through */ default: at = a + rn (3000000); }
            tv.tv_sec = at / 1000000; tv.tv_usec = at % 1000000;
            t->used = t->exact = 1; t->lo = t->hi = at; nt++;
            id = tpoll_timeout_absolute (tp, cb, t, &tv);
            trace ("%s abs %d %+lldus", from, (int) (t - tm), at - a);
        }
        if (id <= 0) fail ("timer id %d", id);
        for (i = 0; i < nt - 1; i++) if (tm[i].used && !tm[i].fired && !tm[i].cancelled && tm[i].id == id) fail ("two pending timers share id %d", id);
        t->id = id;
    } else if (nt) {
        /* cancel: pending, fired, cancelled or unknown ids */
        T *t = &tm[rn (nt)]; int r, exp;
        if (rn (3)) for (i = 0; i < 10 && (t->fired || t->cancelled); i++) t = &tm[rn (nt)];
        if (!t->id) return;
        exp = t->used && !t->fired && !t->cancelled;
        for (i = 0; i < nt; i++) if (&tm[i] != t && tm[i].id == t->id && tm[i].used && !tm[i].fired && !tm[i].cancelled) return;
        r = tpoll_timeout_cancel (tp, t->id);
        trace ("%s cancel %d -> %d", from, (int) (t - tm), r);
        if (r != exp) fail ("cancelling a %s timer returned %d", exp ? "pending" : "finished", r);
        if (exp) { t->cancelled = 1; ncancel++; }
        key ("cancel %s pending%d", from, exp);
    }
}
static void round_ (int steps)
{
    int s, r, fds[2], usefd = rn (2), i;
    now_us = 1000000ll * (1000 + rn (1500000000)) + rn (1000000);
    jit = rn (3) ? rn (4) : 0; hookp = rn (2) ? rn (60) : 0; nt = 0;
    tp = tpoll_create (rn (2) ? 0 : 1 + rn (8));
    if (!tp) fail ("tpoll_create");
    if (pipe (fds)) fail ("pipe");
    fdready = fds[1]; g_usefd = usefd;
    if (usefd) tpoll_set (tp, fds[0], POLLIN);
    for (s = 0; s < steps; s++) {
        int k = rn (4); while (k--) random_op ("main");
        if (nt > MAXT - 60) { /* forget finished timers by a fresh table once nothing is pending */
            if (tpoll_zero (tp, TPOLL_ZERO_TIMERS)) fail ("tpoll_zero");
            trace ("zero timers");
            for (i = 0; i < nt; i++) if (tm[i].used && !tm[i].fired) tm[i].cancelled = 1;
            int h = hookp; hookp = 0; cur_ms = 0; in_tpoll = 1; call_us = now_us; tpoll (tp, 0); in_tpoll = 0; hookp = h;
            nt = 0; key ("zero");
        }
        if (rn (8) == 0) { now_us += rn (100) * 100000ll; trace ("busy"); }   /* the loop was busy elsewhere */
        int ms; switch (rn (6)) { case 0: ms = 0; break; case 1: ms = -1; break; case 2: ms = 1; break; case 3: ms = 2147483647; break; case 4: ms = rn (100000); break; default: ms = rn (50); }
        if (ms == -1 && usefd && !hookp && !pend ()) ms = 0;
        cur_ms = ms; call_us = now_us; in_tpoll = 1; zero_polls = 0; depth = 0; int nf = nt;
        trace ("wait %d", ms);
        ll due = -1; for (i = 0; i < nt; i++) if (tm[i].used && !tm[i].fired && !tm[i].cancelled && tm[i].hi <= call_us) due = i;
        errno = 0;
        r = tpoll (tp, ms); in_tpoll = 0;
        if (r < 0 && errno != EINTR) fail ("tpoll failed: %d", errno);
        /* everything due when the wait began has fired */
        if (due >= 0) for (i = 0; i < nf; i++) if (tm[i].used && !tm[i].fired && !tm[i].cancelled && tm[i].hi <= call_us)
            fail ("timer %d was due before a wait of %d ms began but did not fire in it", tm[i].id, ms);
        if (r == 0) {
            if (ms > 0 && now_us < call_us + ms * 1000ll) fail ("a wait of %d ms timed out %lld us early", ms, call_us + ms * 1000ll - now_us);
            if (ms > 0 && now_us > call_us + ms * 1000ll + 1000 + 50 * jit + 1000) fail ("a wait of %d ms took %lld us", ms, now_us - call_us);
            if (ms < 0 && (usefd || pend ())) fail ("an unlimited wait ended with %d timers pending", pend ());
            if (ms == 0 && now_us - call_us > 200ll * (jit + 1)) fail ("a wait of 0 ms took %lld us", now_us - call_us);
        }
        if (r > 0) {
            if (!usefd || !(tpoll_is_set (tp, fds[0], POLLIN) & POLLIN)) fail ("wait returned %d with no descriptor ready", r);
            char b[64]; if (read (fds[0], b, sizeof b) < 1) fail ("nothing to read");
        }
        key ("wait%s r%d due%d pend%d fd%d", ms < 0 ? "-1" : ms == 0 ? "0" : "n", r, due >= 0, pend () > 5 ? 5 : pend (), usefd);
    }
    trace ("destroy"); tpoll_destroy (tp);
    close (fds[0]); close (fds[1]);
}
int main (int argc, char **argv)
{
    int r, rounds = atoi (argv[2]);
    vf_seed (strtoull (argv[1], 0, 0));
    for (r = 0; r < rounds; r++) { vf_tn = 0; vf_trace[0] = 0; round_ (10 + rn (150)); }
    printf ("C waits continued with no timer due before their end %lld\n", nslept);
    printf ("C timers fired %lld\nC timers cancelled %lld\nC polls %lld\nC mid-wait interventions %lld\n", nfired, ncancel, nwait, nhook);
    done ();
    return 0;
}
