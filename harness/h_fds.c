/* tpoll descriptor events against a model: random registrations, real descriptors at chosen numbers,
 * and (through the poll hook) registrations made by "another thread" while a wait is in progress. */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include "tpoll.h"
#include "vf.h"
int __real_poll (struct pollfd *, nfds_t, int);
#define NF 24
static tpoll_t tp;
static struct { int fd, peer, open; short want; int shut; } f[NF]; static int nf;
static int in_wait, hookp, acted, hook_total; static long long nmid, nwaits, nlook;
static unsigned char added[NF];      /* interest added in the latest hook */
static int maxnum;
static void regop (const char *from);
static short ready (int fd, short ev);
/* as the kernel does it: what is asked for is read once on entry, results are written at the end */
static struct pollfd snap[8192];
static int kpoll (struct pollfd *p, nfds_t n, int ms)
{
    nfds_t i; int r = __real_poll (snap, n, ms);
    if (r >= 0) for (i = 0; i < n; i++) p[i].revents = snap[i].revents;
    return r;
}
/* nothing the wait was begun with is ready, nor was it woken: then nothing registered since may be ready either */
static void lost_wakeup (int ms)
{
    int k;
    if (ms == 0) return;
    for (k = 0; k < nf; k++) if (f[k].want) { short e = ready (f[k].fd, f[k].want); if (e)
        fail ("descriptor %d is ready (%x) for interest %x registered during a wait of %d ms, which is not woken", f[k].fd, e, f[k].want, ms); }
    nlook++;
}
int __wrap_poll (struct pollfd *p, nfds_t n, int ms)
{
    int r;
    if (!in_wait) return __real_poll (p, n, ms);
    if (n > sizeof snap / sizeof *snap) fail ("poll of %lu descriptors", (unsigned long) n);
    memcpy (snap, p, n * sizeof *snap);
    acted = 0; memset (added, 0, sizeof added);
    if (hookp && hook_total < 20 && rn (100) < hookp) { int k = 1 + rn (3); nmid++; while (k--) { regop ("thread"); hook_total++; } acted = 1; }
    if (rn (150) == 0) { errno = EINTR; return -1; }
    r = kpoll (p, n, 0);
    if (r || ms == 0) return r;
    if (acted) lost_wakeup (ms);
    /* nothing ready: let the peer of a registered descriptor act or time out */
    if (ms < 0 || rn (3)) {
        int k; for (k = 0; k < 40 && !r; k++) { regop ("thread"); acted = 1; r = kpoll (p, n, 0); if (!r) lost_wakeup (ms); }
        if (r) return r;
        if (ms < 0) { errno = EINTR; return -1; }
    }
    return kpoll (p, n, ms > 3 ? 3 : ms);
}
/* descriptor's own readiness, asked for independently */
static short ready (int fd, short ev) { struct pollfd q; q.fd = fd; q.events = ev; q.revents = 0; if (__real_poll (&q, 1, 0) < 0) return 0; return q.revents; }
static short rev (void) { switch (rn (5)) { case 0: return POLLIN; case 1: return POLLOUT; case 2: return POLLIN | POLLOUT; case 3: return POLLIN | POLLPRI; default: return rn (2) ? POLLIN : POLLOUT; } }
static void newfd (void)
{
    int sv[2], num, k = nf; int t = rn (3);
    if (nf >= NF) return;
    if (t == 0) { if (pipe (sv)) return; if (rn (2)) { int x = sv[0]; sv[0] = sv[1]; sv[1] = x; } }
    else if (socketpair (AF_UNIX, SOCK_STREAM, 0, sv)) return;
    /* place it at an interesting number */
    switch (rn (5)) { case 0: num = -1; break; case 1: num = 250 + rn (12); break; case 2: num = 500 + rn (40); break; case 3: num = 20 + rn (maxnum - 20); break; default: num = 40 + rn (60); }
    if (num >= 0 && num < maxnum && fcntl (num, F_GETFD) < 0) { dup2 (sv[0], num); close (sv[0]); sv[0] = num; }
    fcntl (sv[0], F_SETFL, O_NONBLOCK); fcntl (sv[1], F_SETFL, O_NONBLOCK);
    f[k].fd = sv[0]; f[k].peer = sv[1]; f[k].open = 1; f[k].want = 0; f[k].shut = 0; nf++;
    trace ("new %d", sv[0]);
}
static void regop (const char *from)
{
    int k = nf ? rn (nf) : -1, r; short e; char b[4096];
    if (k < 0) return;
    switch (rn (12)) {
    case 0: case 1: case 2: case 3:
        e = rev (); trace ("%s set %d %x", from, f[k].fd, e);
        r = tpoll_set (tp, f[k].fd, e); if (r) fail ("tpoll_set(%d) = %d", f[k].fd, r);
        if (e & ~f[k].want) added[k] |= e & ~f[k].want;
        f[k].want |= e; key ("%s set big%d", from, f[k].fd > 255); break;
    case 4: case 5: case 6:
        e = rn (2) ? rev () : POLLIN | POLLOUT | POLLPRI; trace ("%s clear %d %x", from, f[k].fd, e);
        r = tpoll_clear (tp, f[k].fd, e); if (r) fail ("tpoll_clear = %d", r);
        f[k].want &= ~e; key ("%s clear left%d", from, f[k].want != 0); break;
    case 7: memset (b, 'x', sizeof b); if (f[k].peer >= 0 && write (f[k].peer, b, 1 + rn (100)) < 0) {} trace ("%s peer writes %d", from, f[k].fd); break;
    case 8: if (read (f[k].fd, b, sizeof b) < 0) {} trace ("%s drain %d", from, f[k].fd); break;
    case 9: { int j; memset (b, 'x', sizeof b); for (j = 0; j < 200; j++) if (write (f[k].fd, b, sizeof b) < 0) break; trace ("%s fill %d", from, f[k].fd); } break;
    case 10: { int j; for (j = 0; j < 400 && f[k].peer >= 0; j++) if (read (f[k].peer, b, sizeof b) <= 0) break; trace ("%s peer drains %d", from, f[k].fd); } break;
    case 11: if (f[k].peer >= 0 && rn (4) == 0) { close (f[k].peer); f[k].peer = -1; trace ("%s peer of %d closes", from, f[k].fd); } break;
    }
}
static void drop (int k)
{
    trace ("drop %d", f[k].fd);
    tpoll_clear (tp, f[k].fd, POLLIN | POLLOUT | POLLPRI);
    close (f[k].fd); if (f[k].peer >= 0) close (f[k].peer);
    f[k] = f[--nf];
}
static void wait_ (int ms)
{
    int r, k, cnt = 0; struct timeval t0, t1;
    trace ("wait %d", ms); nwaits++;
    acted = 0; hook_total = 0; in_wait = 1; memset (added, 0, sizeof added);
    if (ms < 0) { int any = 0; for (k = 0; k < nf; k++) any |= f[k].want; if (!any && !hookp) {} }
    gettimeofday (&t0, 0); errno = 0;
    r = tpoll (tp, ms); in_wait = 0; gettimeofday (&t1, 0);
    if (r < 0) { if (errno != EINTR) fail ("tpoll failed: %d", errno); key ("wait eintr"); return; }
    for (k = 0; k < nf; k++) {
        short reg = f[k].want, rd = reg ? ready (f[k].fd, reg) : 0, got, exp; short bit;
        got = 0;
        for (bit = 1; bit <= 32; bit <<= 1) { int v = tpoll_is_set (tp, f[k].fd, bit); if (v < 0) fail ("tpoll_is_set = %d", v); if (v) got |= bit; }
        exp = rd & (reg | POLLERR | POLLHUP | POLLNVAL);
        if (got & ~(reg | POLLERR | POLLHUP | POLLNVAL)) fail ("descriptor %d reports %x but only %x is registered", f[k].fd, got, reg);
        if (got && !reg) fail ("descriptor %d reports %x although nothing is registered", f[k].fd, got);
        if (!acted) { if (got != exp) fail ("descriptor %d (interest %x) reports %x, its state is %x", f[k].fd, reg, got, exp); }
        else if (got & ~exp & reg & ~(POLLIN | POLLOUT)) fail ("descriptor %d reports %x, its state is %x", f[k].fd, got, exp);
        if (got) cnt++;
        if (got) key ("ready %x of %x big%d acted%d", got, reg, f[k].fd > 255, acted);
        else key ("quiet %x acted%d", reg, acted);
    }
    if (r != cnt) fail ("tpoll returned %d but %d descriptors report events", r, cnt);
    if (r == 0 && ms < 0) { for (k = 0; k < nf; k++) if (f[k].want) fail ("unlimited wait returned 0 with descriptors registered"); }
    /* a descriptor never registered reports nothing */
    k = rn (maxnum + 2000); { int j, mine = 0; for (j = 0; j < nf; j++) mine |= f[j].fd == k && f[j].want; if (!mine && k > 15 && tpoll_is_set (tp, k, POLLIN | POLLOUT) != 0) { for (j = 0; j < nf; j++) mine |= f[j].fd == k; fail ("unregistered descriptor %d reports events (known %d)", k, mine); } }
}
static void round_ (int steps)
{
    int s; nf = 0; hookp = rn (2) ? rn (80) : 0;
    in_wait = 0;
    tp = tpoll_create (rn (3) ? 0 : 1 + rn (300)); if (!tp) fail ("tpoll_create");
    for (s = 0; s < steps; s++) {
        int w = rn (20);
        if (w < 3) newfd ();
        else if (w < 11) regop ("main");
        else if (w == 11 && nf) drop (rn (nf));
        else if (w == 12 && rn (10) == 0) { int k; if (tpoll_zero (tp, TPOLL_ZERO_FDS)) fail ("tpoll_zero"); trace ("zero"); for (k = 0; k < nf; k++) f[k].want = 0; key ("zero"); }
        else if (w == 13 && rn (5) == 0) { if (tpoll_set (tp, -1, POLLIN) != -1 || tpoll_clear (tp, -1, POLLIN) != -1 || tpoll_is_set (tp, -1, POLLIN) != -1 || tpoll_set (NULL, 1, POLLIN) != -1 || tpoll (NULL, 0) != -1) fail ("bad arguments accepted"); key ("badargs"); }
        else { int any = 0, k; for (k = 0; k < nf; k++) any |= f[k].want; wait_ (rn (3) == 0 ? 0 : rn (2) && (any || !hookp) ? -1 : 1 + rn (3)); }
    }
    while (nf) drop (0);
    tpoll_destroy (tp);
}
int main (int argc, char **argv)
{
    int r, rounds = atoi (argv[2]); struct rlimit rl;
    signal (SIGPIPE, SIG_IGN);
    getrlimit (RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max < 4000 ? rl.rlim_max : 4000; setrlimit (RLIMIT_NOFILE, &rl); maxnum = rl.rlim_cur - 10;
    vf_seed (strtoull (argv[1], 0, 0));
    for (r = 0; r < rounds; r++) { vf_tn = 0; vf_trace[0] = 0; round_ (20 + rn (400)); }
    printf ("C waits %lld\nC mid-wait interventions %lld\nC waits re-examined for a lost wakeup %lld\n", nwaits, nmid, nlook);
    done (); return 0;
}
