/* Real threads on one list, one tpoll object and the message log; conservation checked at the end,
 * data races by ThreadSanitizer when built with it. */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <syslog.h>
#include <time.h>
#include <sys/stat.h>
#include "list.h"
#include "log.h"
#include "tpoll.h"
#include "vf.h"
#define NT 6
static uint64_t seed; static int ops;
static __thread uint64_t ts;
static uint32_t tr (void) { ts ^= ts << 13; ts ^= ts >> 7; ts ^= ts << 17; return (uint32_t) (ts >> 16); }
static int trn (int n) { return tr () % n; }
static void tseed (int k) { ts = seed * 0x9e3779b97f4a7c15ull + k * 7919 + 1; int i; for (i = 0; i < 8; i++) tr (); }
static void yield_ (void) { if (trn (20) == 0) { struct timespec z = { 0, trn (30000) }; nanosleep (&z, 0); } }
/* ---- list: items are (thread, serial); every item added is taken exactly once */
typedef struct { int th, ser, taken; } It;
static List L; static long added[NT], taken_[NT], dels; static long walked;
static void del (void *x) { It *i = x; if (__sync_fetch_and_add (&i->taken, 1)) fail ("entry %d/%d destroyed twice", i->th, i->ser); __sync_fetch_and_add (&dels, 1); }
static int f_th (void *x, void *k) { It *i = x; return i->th == *(int *) k && i->ser % 7 == 3; }
static int f_any (void *x, void *k) { It *i = x; (void) k; return i->ser % 5 == 1; }
static int cmp (void *a, void *b) { return ((It *) a)->ser - ((It *) b)->ser; }
static void take (It *i, int me) { if (!i) return; if (__sync_fetch_and_add (&i->taken, 1)) fail ("entry %d/%d taken twice", i->th, i->ser); taken_[me]++; }
static void *lworker (void *a)
{
    int me = (int) (long) a, n, k; tseed (me);
    for (n = 0; n < ops; n++) {
        It *x;
        switch (trn (14)) {
        case 0: case 1: case 2: case 3:
            if (list_count (L) > 200) break;
            x = calloc (1, sizeof *x); x->th = me; x->ser = n; added[me]++;
            switch (trn (4)) { case 0: list_append (L, x); break; case 1: list_prepend (L, x); break; case 2: list_push (L, x); break; default: list_enqueue (L, x); }
            break;
        case 4: take (list_pop (L), me); break;
        case 5: take (list_dequeue (L), me); break;
        case 6: k = me; { int r = list_delete_all (L, f_th, &k); taken_[me] += r; } break;
        case 7: list_find_first (L, f_any, &me); break;
        case 8: if (list_count (L) < 0) fail ("count < 0"); list_is_empty (L); break;
        case 9: if (trn (8) == 0) list_sort (L, cmp); break;
        default: {
            ListIterator i = list_iterator_create (L); int c = 0;
            while ((x = list_next (i))) {
                if (++c > 100000) fail ("endless walk");
                if (trn (12) == 0) take (list_remove (i), me);
                else if (trn (30) == 0) { It *y = calloc (1, sizeof *y); y->th = me; y->ser = n; added[me]++; list_insert (i, y); }
                else if (trn (30) == 0) { list_iterator_reset (i); if (trn (2)) break; }
            }
            __sync_fetch_and_add (&walked, c);
            list_iterator_destroy (i); } break;
        }
        yield_ ();
    }
    return 0;
}
/* lists created and destroyed concurrently share the node pools */
static void *pworker (void *a)
{
    int me = (int) (long) a, n; tseed (100 + me);
    for (n = 0; n < ops / 4; n++) {
        List l = list_create (NULL); int k, m = trn (30); static int v[64]; ListIterator i;
        for (k = 0; k < m; k++) list_append (l, &v[k]);
        i = list_iterator_create (l);
        for (k = 0; k < m; k++) if (list_next (i) != &v[k]) fail ("a private list lost its order");
        if (list_next (i) || list_count (l) != m) fail ("a private list has foreign entries");
        if (trn (2)) list_iterator_destroy (i);
        list_destroy (l);
        yield_ ();
    }
    return 0;
}
static void t_list (void)
{
    pthread_t t[NT + 2]; long i, a = 0, k = 0, c;
    L = list_create (del);
    for (i = 0; i < NT; i++) pthread_create (&t[i], 0, lworker, (void *) i);
    for (; i < NT + 2; i++) pthread_create (&t[i], 0, pworker, (void *) i);
    for (i = 0; i < NT + 2; i++) pthread_join (t[i], 0);
    for (i = 0; i < NT; i++) { a += added[i]; k += taken_[i]; }
    c = list_count (L);
    if (a != k + c) fail ("%ld entries added, %ld taken, %ld left", a, k, c);
    long w = 0; { ListIterator it = list_iterator_create (L); It *x; while ((x = list_next (it))) { if (x->taken) fail ("taken entry still listed"); w++; } list_iterator_destroy (it); }
    if (w != c) fail ("count %ld but %ld entries listed", c, w);
    long d0 = dels; list_destroy (L);
    if (dels - d0 != c) fail ("destroying the list destroyed %ld of %ld entries", dels - d0, c);
    for (i = 0; i < a; i++) vf_evals++;
    key ("list left%d", c > 3 ? 3 : (int) c);
    printf ("C list entries added and accounted for %ld\nC iterator steps %ld\n", a, walked);
}
/* ---- tpoll: threads set and cancel timers and descriptors while one thread loops in tpoll() */
static tpoll_t tp; static int fds[NT][2]; static int running;
typedef struct { volatile int fired, cancelled, id; } Tm;
static Tm *tms[NT]; static int ntm[NT];
static void tcb (void *a) { Tm *t = a; if (__sync_fetch_and_add (&t->fired, 1)) fail ("timer fired twice"); }
static void *tworker (void *a)
{
    int me = (int) (long) a, n; tseed (200 + me);
    tms[me] = calloc (ops, sizeof (Tm));
    for (n = 0; n < ops; n++) {
        Tm *t = &tms[me][n]; int id, w = trn (6);
        id = tpoll_timeout_relative (tp, tcb, t, w < 3 ? trn (4) : w < 5 ? 60000 : 1); t->id = id; ntm[me]++;
        if (id <= 0) fail ("timer id %d", id);
        if (trn (3) == 0 || w == 3 || w == 4) {
            int r; yield_ (); r = tpoll_timeout_cancel (tp, id);
            if (r == 1) t->cancelled = 1; else if (r == 0) { /* dispatched already: its callback is running or has run */ int k; for (k = 0; k < 4000 && !__sync_fetch_and_add (&t->fired, 0); k++) { struct timespec z = { 0, 1000000 }; nanosleep (&z, 0); } if (!t->fired) fail ("cancel did not find a timer that never fired"); } else fail ("cancel = %d", r);
        }
        switch (trn (6)) {
        case 0: tpoll_set (tp, fds[me][0], POLLIN); break;
        case 1: tpoll_clear (tp, fds[me][0], POLLIN); break;
        case 2: tpoll_set (tp, fds[me][1], POLLOUT); tpoll_clear (tp, fds[me][1], POLLOUT); break;
        case 3: tpoll_set (tp, 300 + trn (600), POLLIN); break;     /* growth */
        case 4: tpoll_is_set (tp, fds[me][0], POLLIN); break;
        }
        yield_ ();
    }
    __sync_fetch_and_sub (&running, 1);
    return 0;
}
static void t_tpoll (void)
{
    pthread_t t[NT]; long i, n, fired = 0, canc = 0, loops = 0;
    tp = tpoll_create (8);
    for (i = 0; i < NT; i++) { if (pipe (fds[i])) fail ("pipe"); }
    running = NT;
    for (i = 0; i < NT; i++) pthread_create (&t[i], 0, tworker, (void *) i);
    while (__sync_fetch_and_add (&running, 0) > 0) { int r = tpoll (tp, 20); if (r < 0 && errno != EINTR) fail ("tpoll"); loops++;
        if (r > 0) { int k; for (k = 300; k < 900; k++) tpoll_clear (tp, k, POLLIN); for (k = 0; k < NT; k++) { tpoll_clear (tp, fds[k][0], POLLIN); tpoll_clear (tp, fds[k][1], POLLOUT); } } }
    for (i = 0; i < NT; i++) pthread_join (t[i], 0);
    int k; for (k = 300; k < 900; k++) tpoll_clear (tp, k, POLLIN); for (k = 0; k < NT; k++) { tpoll_clear (tp, fds[k][0], POLLIN); tpoll_clear (tp, fds[k][1], POLLOUT); }
    for (k = 0; k < 5; k++) tpoll (tp, 10);
    for (i = 0; i < NT; i++) for (n = 0; n < ntm[i]; n++) {
        Tm *m = &tms[i][n]; vf_evals++;
        if (m->fired && m->cancelled) fail ("cancelled timer fired");
        if (m->fired) fired++; if (m->cancelled) canc++;
    }
    key ("tpoll"); printf ("C timers set by threads %ld\nC timers fired %ld\nC timers cancelled %ld\nC tpoll waits %ld\n", (long) ops * NT, fired, canc, loops);
    tpoll_destroy (tp);
}
/* ---- log: every message is one intact line */
static void *gworker (void *a)
{
    int me = (int) (long) a, n; char pad[1500]; tseed (300 + me);
    for (n = 0; n < ops; n++) {
        int len = trn (20) == 0 ? 900 + trn (500) : trn (100); memset (pad, 'a' + me, len); pad[len] = 0;
        log_msg (LOG_INFO, "m %d %d %s", me, n, pad);
        yield_ ();
    }
    return 0;
}
static void t_log (void)
{
    pthread_t t[NT]; long i; FILE *fp = fopen ("log.txt", "w+"); char line[8192]; int last[NT]; long got = 0;
    if (!fp) fail ("log.txt");
    log_set_file (fp, LOG_INFO, 1);
    for (i = 0; i < NT; i++) { last[i] = -1; pthread_create (&t[i], 0, gworker, (void *) i); }
    for (i = 0; i < NT; i++) pthread_join (t[i], 0);
    rewind (fp);
    while (fgets (line, sizeof line, fp)) {
        int me, n, pos = 0, y; char *p; size_t l = strlen (line);
        if (line[l - 1] != '\n') fail ("log line without newline");
        if (sscanf (line, "%4d-%*2d-%*2d %*2d:%*2d:%*2d INFO:      m %d %d %n", &y, &me, &n, &pos) != 3 || !pos || me < 0 || me >= NT) fail ("log line %ld damaged: %.100s", got, line);
        for (p = line + pos; *p && *p != '\n'; p++) if (*p != 'a' + me) fail ("log line of thread %d has foreign text: %.100s", me, line);
        if (l > 1024) fail ("log line of %zu bytes", l);
        if (n != last[me] + 1) fail ("thread %d: message %d after %d", me, n, last[me]);
        last[me] = n; got++; vf_evals++;
    }
    if (got != (long) ops * NT) fail ("%ld of %ld messages in the log", got, (long) ops * NT);
    key ("log"); printf ("C log lines checked %ld\n", got);
    log_set_file (NULL, 0, 0);
}
int main (int argc, char **argv)
{
    seed = strtoull (argv[2], 0, 0); ops = atoi (argv[3]); vf_seed (seed); signal (SIGPIPE, SIG_IGN);
    if (!strcmp (argv[1], "list")) t_list (); else if (!strcmp (argv[1], "tpoll")) t_tpoll (); else t_log ();
    done (); return 0;
}
