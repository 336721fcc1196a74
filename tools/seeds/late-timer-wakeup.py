P="C15"
NEEDS="a thread waiting in tpoll() for a timer, and another thread setting a timer that is due earlier"
BREAKS="the waiting thread is only woken for the first timer of an empty list, so a timer due before the one it waits for expires late"
EDITS=[("src/tpoll.c","""    if (*t_ptr == tp->timers_active) {
        _tpoll_signal_send (tp);
    }
    t->next""","""    if (tp->timers_active == NULL) {
        _tpoll_signal_send (tp);
    }
    t->next""")]
C=r'''
#include <pthread.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <stdarg.h>
#include "tpoll.h"
void log_err (int e, const char *f, ...) { (void) e; puts (f); exit (2); }
void log_msg (int e, const char *f, ...) { (void) e; (void) f; }
void *lsd_nomem_error (char *f, int l, char *m) { (void) f; (void) l; (void) m; exit (2); }
void lsd_fatal_error (char *f, int l, char *m) { (void) f; (void) l; (void) m; exit (2); }
static double now (void) { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static double set, fired;
static void late (void *a) { (void) a; }
static void early (void *a) { (void) a; fired = now (); }
static tpoll_t tp;
static void *waiter (void *a) { (void) a; for (int i = 0; i < 3 && !fired; i++) tpoll (tp, 4000); return NULL; }
int main (void)
{
    pthread_t t;
    tp = tpoll_create (0);
    tpoll_timeout_relative (tp, late, NULL, 3000);
    pthread_create (&t, NULL, waiter, NULL);
    usleep (300000);
    set = now ();
    tpoll_timeout_relative (tp, early, NULL, 200);
    pthread_join (t, NULL);
    printf ("%.3f\n", fired - set);
    return !(fired && (fired - set < 1.5));
}
'''
DEMO='''
C = %r
open(dir + "/t.c", "w").write(C)
src = os.path.join(os.getcwd(), "src")
inc = [x for x in (os.getcwd(), os.path.join(os.getcwd(), "_build"), os.path.join(os.getcwd(), "_build", "src")) if os.path.exists(x + "/config.h")]
r = subprocess.run(["gcc", "-std=gnu99", "-DHAVE_CONFIG_H", "-w", "-pthread", "-I" + src] + ["-I" + x for x in inc] + [dir + "/t.c", src + "/tpoll.c", "-o", dir + "/t"], capture_output=True, text=True)
if r.returncode: fail(r.stderr[:2000])
r = subprocess.run([dir + "/t"], capture_output=True, text=True, timeout=60)
if r.returncode: fail("the timer expired late: " + r.stdout)
ok()
''' % C
