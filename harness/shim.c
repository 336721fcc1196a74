/* Link-time shim (ld --wrap) placed between dun/conman's objects and libc.
 *  - stepped virtual clock: gettimeofday/time/poll(main thread)
 *  - fault injection: short reads/writes, EINTR, EAGAIN, accept/getpeername/
 *    pthread_create/fork/socket failures
 *  - event log (VF_SHIM_LOG): one line per interesting system call
 * Control happens through a page of 64-bit slots mmap()ed from VF_SHIM_PAGE.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

enum {
    S_MODE, S_NOW, S_TARGET, S_IDLE,            /* 0-3  clock */
    S_RSHORT, S_WSHORT, S_EINTR, S_EAGAIN,      /* 4-7  i/o faults */
    S_ACC_ERR, S_ACC_CNT,                       /* 8-9 */
    S_GPN_ERR, S_GPN_CNT,                       /* 10-11 */
    S_PTH_ERR, S_PTH_CNT,                       /* 12-13 */
    S_FORK_ERR, S_FORK_CNT,                     /* 14-15 */
    S_SOCK_ERR, S_SOCK_CNT,                     /* 16-17 */
    S_SEED, S_MEMREQ, S_MEMACK, S_MEM,          /* 18-21 */
    S_NPOLL, S_NREAD, S_NWRITE, S_NFORK,        /* 22-25 */
    S_NACCEPT, S_NSHORT, S_NEINTR, S_NTHREAD,   /* 26-29 */
    S_SSO_ERR, S_SSO_CNT,                       /* 30-31 setsockopt */
    S_OPEN_ERR, S_OPEN_CNT,                     /* 32-33 open */
    S_THRDELAY,                                 /* 34 us delay in new thread */
    S_POLLRET,                                  /* 35 number of poll returns */
    S_NEWTHR,                                   /* 36 threads now alive (wrapped) */
    S_NCONN,                                    /* 37 */
    S_SPINMAX,                                  /* 38 */
    S_WREADY,                                   /* 39 */
    S_LOGIO,                                    /* 40 log read/write sizes too */
    S_STALLFD,                                  /* 41 */
    S_POSTACC,                                  /* 42 us delay after accept */
    S_THRDONE,                                  /* 43 wrapped threads that ended */
    S_FORKDELAY,                                /* 44 us delay before fork */
    S_SOCKDELAY,                                /* 45 us delay after socket */
    S_TTYREAD,                                  /* 46 reads of a tty to fail with EIO */
    S_TTYSET,                                   /* 47 tcsetattr() calls to fail with EIO */
    S_CHILDLAG = 52,                            /* us a forked child takes to do anything */
    S_MAX = 128
};

static volatile uint64_t dummy[S_MAX];
static volatile uint64_t *pg = dummy;
static int logfd = -1;
static pthread_t main_thread;
static __thread unsigned rng;
static tcflag_t tty_cflag = CS8;
static int have_env;

ssize_t __real_read (int, void *, size_t);
ssize_t __real_write (int, const void *, size_t);
ssize_t __real_writev (int, const struct iovec *, int);
int __real_gettimeofday (struct timeval *, void *);
time_t __real_time (time_t *);
int __real_poll (struct pollfd *, nfds_t, int);
int __real_accept (int, struct sockaddr *, socklen_t *);
int __real_connect (int, const struct sockaddr *, socklen_t);
int __real_getpeername (int, struct sockaddr *, socklen_t *);
int __real_pthread_create (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
pid_t __real_fork (void);
int __real_kill (pid_t, int);
int __real_socket (int, int, int);
int __real_setsockopt (int, int, int, const void *, socklen_t);
int __real_tcsendbreak (int, int);
int __real_tcsetattr (int, int, const struct termios *);
int __real_tcgetattr (int, struct termios *);

static void elog (const char *fmt, ...)
{
    char buf[1024];
    int n, m;
    va_list ap;
    if (logfd < 0) return;
    struct timeval tv;
    uint64_t now;
    if (pg[S_MODE]) now = pg[S_NOW];
    else { __real_gettimeofday (&tv, NULL); now = (uint64_t) tv.tv_sec * 1000000 + tv.tv_usec; }
    n = snprintf (buf, sizeof buf, "%llu %ld ", (unsigned long long) now, (long) syscall (SYS_getpid));
    va_start (ap, fmt);
    m = vsnprintf (buf + n, sizeof buf - n - 2, fmt, ap);
    va_end (ap);
    n += m;
    if (n > (int) sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    n = __real_write (logfd, buf, n);
    (void) n;
}

static void *mem_thread (void *arg)
{
    struct timespec ts = { 0, 2000000 };
    for (;;) {
        if (pg[S_MEMREQ] != pg[S_MEMACK]) {
            struct mallinfo2 mi = mallinfo2 ();
            pg[S_MEM] = mi.uordblks + mi.hblkhd;
            pg[S_MEMACK] = pg[S_MEMREQ];
        }
        nanosleep (&ts, NULL);
    }
    return arg;
}

__attribute__((constructor)) static void shim_init (void)
{
    const char *p = getenv ("VF_SHIM_PAGE");
    const char *l = getenv ("VF_SHIM_LOG");
    const char *c = getenv ("VF_TTY_CFLAG");
    main_thread = pthread_self ();
    if (c) tty_cflag = strtoul (c, NULL, 16);
    if (p) {
        int fd = open (p, O_RDWR | O_CLOEXEC);
        if (fd >= 0) {
            void *m = mmap (NULL, S_MAX * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) { pg = m; have_env = 1; }
            close (fd);
        }
    }
    if (l) {
        int fd = open (l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
        if (fd >= 0) {
            logfd = fcntl (fd, F_DUPFD_CLOEXEC, 900);
            if (logfd < 0) logfd = fd; else close (fd);
        }
    }
    /* TCP wrappers: point libwrap at private access files */
    char **tab;
    if (getenv ("VF_HOSTS_ALLOW") && (tab = dlsym (RTLD_DEFAULT, "hosts_allow_table"))) *tab = getenv ("VF_HOSTS_ALLOW");
    if (getenv ("VF_HOSTS_DENY") && (tab = dlsym (RTLD_DEFAULT, "hosts_deny_table"))) *tab = getenv ("VF_HOSTS_DENY");
    if (have_env && getenv ("VF_SHIM_MEM")) {
        pthread_t t;
        __real_pthread_create (&t, NULL, mem_thread, NULL);
    }
}

static unsigned rnd (void)
{
    if (!rng) rng = (unsigned) (pg[S_SEED] * 2654435761u) ^ (unsigned) syscall (SYS_gettid) ^ 0x9e3779b9u;
    rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5;
    return rng;
}

static void bump (int s) { __sync_fetch_and_add (&pg[s], 1); }

/* consume one unit of an "inject error N times" counter */
static int take (int cnt)
{
    for (;;) {
        uint64_t v = pg[cnt];
        if (v == 0) return 0;
        if (__sync_bool_compare_and_swap (&pg[cnt], v, v - 1)) return 1;
    }
}

static int io_fault (int isread)
{
    if (pg[S_EINTR] && rnd () % 1000 < pg[S_EINTR]) { bump (S_NEINTR); errno = EINTR; return -1; }
    (void) isread;
    return 0;
}

ssize_t __wrap_read (int fd, void *buf, size_t n)
{
    bump (S_NREAD);
    if (io_fault (1) < 0) return -1;
    if (pg[S_TTYREAD] && isatty (fd) && take (S_TTYREAD)) { elog ("ttyread-fault"); errno = EIO; return -1; }
    if (pg[S_RSHORT] && n > 1) {
        size_t m = 1 + rnd () % pg[S_RSHORT];
        /* inotify refuses reads shorter than one event; files keep their size */
        if (m < n && n < 60000 && n != 4096) { n = m; bump (S_NSHORT); }
    }
    ssize_t r = __real_read (fd, buf, n);
    if (pg[S_LOGIO]) elog ("read %d %zd", fd, r);
    return r;
}

ssize_t __wrap_write (int fd, const void *buf, size_t n)
{
    struct stat st;
    bump (S_NWRITE);
    /* a byte written to a non-blocking pipe (from a signal handler) is never interrupted */
    if (!(n == 1 && pg[S_EINTR] && fstat (fd, &st) == 0 && S_ISFIFO (st.st_mode)) && io_fault (0) < 0) return -1;
    return __real_write (fd, buf, n);
}

ssize_t __wrap_writev (int fd, const struct iovec *iov, int cnt)
{
    bump (S_NWRITE);
    if (io_fault (0) < 0) return -1;
    if (pg[S_EAGAIN] && rnd () % 1000 < pg[S_EAGAIN]) { errno = EAGAIN; return -1; }
    if (pg[S_WSHORT] && cnt > 0) {
        struct iovec v[8];
        size_t left = 1 + rnd () % pg[S_WSHORT];
        int i, k = 0;
        for (i = 0; i < cnt && i < 8 && left > 0; i++) {
            v[k] = iov[i];
            if (v[k].iov_len > left) v[k].iov_len = left;
            left -= v[k].iov_len;
            k++;
        }
        bump (S_NSHORT);
        ssize_t r = __real_writev (fd, v, k);
        if (pg[S_LOGIO]) elog ("writev %d %zd", fd, r);
        return r;
    }
    ssize_t r = __real_writev (fd, iov, cnt);
    if (pg[S_LOGIO]) elog ("writev %d %zd", fd, r);
    return r;
}

int __wrap_gettimeofday (struct timeval *tv, void *tz)
{
    if (pg[S_MODE]) {
        uint64_t n = pg[S_NOW];
        tv->tv_sec = n / 1000000; tv->tv_usec = n % 1000000;
        return 0;
    }
    return __real_gettimeofday (tv, tz);
}

time_t __wrap_time (time_t *t)
{
    if (pg[S_MODE]) {
        time_t n = pg[S_NOW] / 1000000;
        if (t) *t = n;
        return n;
    }
    return __real_time (t);
}

int __wrap_poll (struct pollfd *fds, nfds_t nfds, int ms)
{
    int r;
    bump (S_NPOLL);
    if (!pg[S_MODE] || !pthread_equal (pthread_self (), main_thread)) {
        r = __real_poll (fds, nfds, ms);
        bump (S_POLLRET);
        return r;
    }
    uint64_t deadline = (ms < 0) ? UINT64_MAX : pg[S_NOW] + (uint64_t) ms * 1000;
    uint64_t idles = 0;
    for (;;) {
        r = __real_poll (fds, nfds, 0);
        if (r != 0) break;
        if (pg[S_NOW] >= deadline) { r = 0; break; }
        if (pg[S_TARGET] > pg[S_NOW]) {
            pg[S_NOW] = pg[S_TARGET] < deadline ? pg[S_TARGET] : deadline;
            continue;
        }
        /* parked: nothing ready, clock may not move */
        if (++idles >= 1) bump (S_IDLE);
        r = __real_poll (fds, nfds, 1);
        if (r != 0) break;
    }
    bump (S_POLLRET);
    return r;
}

int __wrap_accept (int fd, struct sockaddr *a, socklen_t *l)
{
    if (pg[S_ACC_CNT] && take (S_ACC_CNT)) {
        errno = (int) pg[S_ACC_ERR];
        elog ("accept-fault %d", errno);
        errno = (int) pg[S_ACC_ERR];
        return -1;
    }
    int r = __real_accept (fd, a, l);
    bump (S_NACCEPT);
    if (r >= 0 && pg[S_POSTACC]) usleep (pg[S_POSTACC]);
    return r;
}

static void addr_str (const struct sockaddr *a, char *b, size_t n)
{
    if (a->sa_family == AF_INET) {
        const struct sockaddr_in *s = (const void *) a;
        snprintf (b, n, "inet:%s:%d", inet_ntoa (s->sin_addr), ntohs (s->sin_port));
    } else if (a->sa_family == AF_UNIX) {
        const struct sockaddr_un *s = (const void *) a;
        snprintf (b, n, "unix:%s", s->sun_path);
    } else snprintf (b, n, "af%d", a->sa_family);
}

int __wrap_connect (int fd, const struct sockaddr *a, socklen_t l)
{
    int r = __real_connect (fd, a, l), e = errno;
    char b[256];
    addr_str (a, b, sizeof b);
    bump (S_NCONN);
    elog ("connect %s %d %d", b, r, r < 0 ? e : 0);
    errno = e;
    return r;
}

int __wrap_getpeername (int fd, struct sockaddr *a, socklen_t *l)
{
    if (pg[S_GPN_CNT] && take (S_GPN_CNT)) {
        elog ("getpeername-fault %d", (int) pg[S_GPN_ERR]);
        errno = (int) pg[S_GPN_ERR];
        return -1;
    }
    return __real_getpeername (fd, a, l);
}

struct targ { void *(*f)(void *); void *a; };
static void *tramp (void *p)
{
    struct targ t = *(struct targ *) p;
    void *r;
    free (p);
    __sync_fetch_and_add (&pg[S_NEWTHR], 1);
    if (pg[S_THRDELAY]) usleep (rnd () % pg[S_THRDELAY]);
    r = t.f (t.a);
    __sync_fetch_and_sub (&pg[S_NEWTHR], 1);
    bump (S_THRDONE);
    return r;
}

int __wrap_pthread_create (pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
    if (pg[S_PTH_CNT] && take (S_PTH_CNT)) { elog ("pthread_create-fault"); return (int) pg[S_PTH_ERR]; }
    struct targ *t = malloc (sizeof *t);
    t->f = f; t->a = a;
    bump (S_NTHREAD);                           /* before the thread can be seen to work */
    int r = __real_pthread_create (th, at, tramp, t);
    if (r) { free (t); bump (S_THRDONE); }
    return r;
}

pid_t __wrap_fork (void)
{
    if (pg[S_FORK_CNT] && take (S_FORK_CNT)) {
        elog ("fork-fault");
        errno = (int) pg[S_FORK_ERR];
        return -1;
    }
    if (pg[S_FORKDELAY]) usleep (pg[S_FORKDELAY]);
    pid_t p = __real_fork ();
    if (p == 0 && pg[S_CHILDLAG]) usleep (pg[S_CHILDLAG]);
    if (p > 0) { bump (S_NFORK); int e = errno; elog ("fork %d", (int) p); errno = e; }
    return p;
}

int __wrap_kill (pid_t p, int sig)
{
    int r = __real_kill (p, sig), e = errno;
    elog ("kill %d %d %d", (int) p, sig, r);
    errno = e;
    return r;
}

int __wrap_socket (int d, int t, int p)
{
    if (pg[S_SOCK_CNT] && take (S_SOCK_CNT)) {
        elog ("socket-fault");
        errno = (int) pg[S_SOCK_ERR];
        return -1;
    }
    int r = __real_socket (d, t, p);
    if (r >= 0 && pg[S_SOCKDELAY] && d != AF_UNIX) usleep (pg[S_SOCKDELAY]);
    return r;
}

int __wrap_setsockopt (int fd, int l, int o, const void *v, socklen_t n)
{
    if (o != SO_REUSEADDR && pg[S_SSO_CNT] && take (S_SSO_CNT)) {
        elog ("setsockopt-fault");
        errno = (int) pg[S_SSO_ERR];
        return -1;
    }
    return __real_setsockopt (fd, l, o, v, n);
}

int __wrap_tcsendbreak (int fd, int d)
{
    int r = __real_tcsendbreak (fd, d), e = errno;
    char nm[64] = "?";
    ttyname_r (fd, nm, sizeof nm);
    elog ("tcsendbreak %s %d %d", nm, d, r);
    errno = e;
    return r;
}

/* Pseudo-terminals do not keep the character size, parity and stop bits, so
 * what was set last is remembered per device and returned by tcgetattr().
 * VF_TTY_CFLAG (hex) is what a device has before anybody sets it. */
#define CF_KEPT (CSIZE | PARENB | PARODD | CSTOPB)
static struct { char nm[64]; tcflag_t cf; struct timespec born; } ttys[64];
static pthread_mutex_t tty_lock = PTHREAD_MUTEX_INITIALIZER;

static tcflag_t *tty_slot (int fd, char *nm, size_t len)
{
    int i;
    struct stat st;
    if (ttyname_r (fd, nm, len) != 0 || fstat (fd, &st) < 0) { strcpy (nm, "?"); return NULL; }
    for (i = 0; i < 64 && ttys[i].nm[0]; i++)
        if (!strcmp (ttys[i].nm, nm) && ttys[i].born.tv_sec == st.st_ctim.tv_sec
                && ttys[i].born.tv_nsec == st.st_ctim.tv_nsec) return &ttys[i].cf;
    if (i == 64) return NULL;
    ttys[i].born = st.st_ctim;
    strcpy (ttys[i].nm, nm);
    ttys[i].cf = tty_cflag;
    return &ttys[i].cf;
}

int __wrap_tcgetattr (int fd, struct termios *t)
{
    int r = __real_tcgetattr (fd, t), e = errno;
    char nm[64];
    tcflag_t *p;
    if (r == 0) {
        pthread_mutex_lock (&tty_lock);
        if ((p = tty_slot (fd, nm, sizeof nm))) t->c_cflag = (t->c_cflag & ~CF_KEPT) | *p;
        pthread_mutex_unlock (&tty_lock);
    }
    errno = e;
    return r;
}

int __wrap_tcsetattr (int fd, int act, const struct termios *t)
{
    if (pg[S_TTYSET] && take (S_TTYSET)) { elog ("tcsetattr-fault"); errno = EIO; return -1; }
    struct termios u = *t;          /* a pseudo-terminal refuses to change these */
    u.c_cflag = (u.c_cflag & ~(CSIZE | PARENB)) | CS8;
    int r = __real_tcsetattr (fd, act, &u), e = errno;
    char nm[64];
    tcflag_t *p;
    pthread_mutex_lock (&tty_lock);
    if ((p = tty_slot (fd, nm, sizeof nm)) && r == 0) *p = t->c_cflag & CF_KEPT;
    pthread_mutex_unlock (&tty_lock);
    elog ("tcsetattr %s %d %x %x %x %x %u %u %u %u %d", nm, act, t->c_iflag, t->c_oflag,
        t->c_cflag, t->c_lflag, (unsigned) cfgetispeed (t), (unsigned) cfgetospeed (t),
        t->c_cc[VMIN], t->c_cc[VTIME], r);
    errno = e;
    return r;
}
