/* Stand-in for libipmiconsole: same API and threading (callbacks come from engine threads, never from within engine_submit()).
 * The BMC's side is played by the check through the unix socket VF_IPMI; every session is one socketpair whose far end is sent there. */
#define _GNU_SOURCE
#include <ipmiconsole.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>

enum { P_MODE = 0, P_NOW = 1, P_CREATE = 48, P_SUBMIT = 49, P_CBDELAY = 50, P_FD = 51, P_MAX = 128 };
int __real_pthread_create (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_gettimeofday (struct timeval *, void *);

struct ipmiconsole_ctx {
    unsigned id;
    int refs, destroyed, submitted, status, fd, errn, taken;
    Ipmiconsole_callback cb;
    void *arg;
    char *rec;
    struct ipmiconsole_ctx *next;
};
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static struct ipmiconsole_ctx *all;
static int ctl = -1, running, inflight, stopping;
static unsigned nextid;
static pthread_t reader;
static volatile uint64_t *pg;

static int take (int slot)
{
    uint64_t v;
    if (!pg) return 0;
    v = __atomic_load_n (&pg[slot], __ATOMIC_SEQ_CST);
    while (v) if (__atomic_compare_exchange_n (&pg[slot], &v, v - 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
    return 0;
}
static unsigned long long now (void)
{
    struct timeval tv;
    if (pg && pg[P_MODE]) return pg[P_NOW];
    __real_gettimeofday (&tv, NULL);
    return (unsigned long long) tv.tv_sec * 1000000 + tv.tv_usec;
}
/* called with mx held */
static void say (int fd, const char *fmt, ...)
{
    char b[4096];
    int n;
    va_list ap;
    va_start (ap, fmt);
    n = vsnprintf (b, sizeof b, fmt, ap);
    va_end (ap);
    if (ctl < 0) return;
    if (fd < 0) { n = syscall (SYS_sendto, ctl, b, n, MSG_NOSIGNAL, NULL, 0); return; }
    struct iovec io = { b, n };
    char c[CMSG_SPACE (sizeof (int))];
    struct msghdr m = { .msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c };
    struct cmsghdr *h = CMSG_FIRSTHDR (&m);
    memset (c, 0, sizeof c);
    h = CMSG_FIRSTHDR (&m);
    h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN (sizeof (int));
    memcpy (CMSG_DATA (h), &fd, sizeof fd);
    sendmsg (ctl, &m, MSG_NOSIGNAL);
}
static void unref (struct ipmiconsole_ctx *c)
{
    struct ipmiconsole_ctx **p;
    if (--c->refs) return;
    for (p = &all; *p; p = &(*p)->next) if (*p == c) { *p = c->next; break; }
    free (c->rec);
    free (c);
}
struct job { struct ipmiconsole_ctx *c; int ok, err; };
static void *engine (void *a)
{
    struct job *j = a;
    struct ipmiconsole_ctx *c = j->c;
    int sp[2];
    if (pg && pg[P_CBDELAY]) usleep (pg[P_CBDELAY]);
    pthread_mutex_lock (&mx);
    if (j->ok && !c->destroyed && !socketpair (AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) {
        c->fd = sp[0];
        c->status = IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED;
        say (sp[1], "FD %u\n", c->id);
        close (sp[1]);
    } else { c->status = IPMICONSOLE_CTX_STATUS_SOL_ERROR; c->errn = j->err; }
    pthread_mutex_unlock (&mx);
    c->cb (c->arg);
    pthread_mutex_lock (&mx);
    say (-1, "DONE %u %llu\n", c->id, now ());
    unref (c);
    inflight--;
    pthread_cond_broadcast (&cv);
    pthread_mutex_unlock (&mx);
    free (j);
    return NULL;
}
static void *readloop (void *a)
{
    char b[8192], w[16];
    size_t n = 0;
    (void) a;
    for (;;) {
        ssize_t r = recv (ctl, b + n, sizeof b - 1 - n, 0);
        if (r <= 0) return NULL;
        n += r;
        char *e;
        while ((e = memchr (b, '\n', n))) {
            unsigned id = 0; int err = 0;
            *e++ = 0;
            sscanf (b, "%15s %u %d", w, &id, &err);
            n -= e - b;
            memmove (b, e, n);
            pthread_mutex_lock (&mx);
            struct ipmiconsole_ctx *c;
            for (c = all; c && c->id != id; c = c->next) ;
            if (c && c->submitted && !stopping) {
                struct job *j = malloc (sizeof *j);
                pthread_t t;
                j->c = c; j->ok = w[0] == 'O'; j->err = err;
                c->submitted = 0;
                inflight++;
                __real_pthread_create (&t, NULL, engine, j);
                pthread_detach (t);
            }
            pthread_mutex_unlock (&mx);
        }
    }
}
static char env_sock[108], env_page[512];
/* the daemon clears its environment before it starts the engine */
__attribute__((constructor)) static void keep_env (void)
{
    const char *p = getenv ("VF_IPMI"), *s = getenv ("VF_SHIM_PAGE");
    if (p) strncpy (env_sock, p, sizeof env_sock - 1);
    if (s) strncpy (env_page, s, sizeof env_page - 1);
}
int ipmiconsole_engine_init (unsigned int threads, unsigned int flags)
{
    const char *p = env_sock, *s = env_page;
    struct sockaddr_un sa = { .sun_family = AF_UNIX };
    int fd;
    (void) flags;
    if (*s && (fd = open (s, O_RDWR | O_CLOEXEC)) >= 0) {
        void *m = mmap (NULL, P_MAX * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) pg = m;
        close (fd);
    }
    if (!*p) return -1;
    fd = syscall (SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    strncpy (sa.sun_path, p, sizeof sa.sun_path - 1);
    if (syscall (SYS_connect, fd, &sa, sizeof sa) < 0) { close (fd); return -1; }
    pthread_mutex_lock (&mx);
    ctl = fd; running = 1;
    say (-1, "INIT %u\n", threads);
    pthread_mutex_unlock (&mx);
    __real_pthread_create (&reader, NULL, readloop, NULL);
    return 0;
}
void ipmiconsole_engine_teardown (int clean)
{
    struct ipmiconsole_ctx *c, *n;
    if (!running) return;
    pthread_mutex_lock (&mx);
    say (-1, "TEARDOWN %d\n", clean);
    stopping = 1;
    while (inflight) pthread_cond_wait (&cv, &mx);
    for (c = all; c; c = n) { n = c->next; if (c->submitted) { c->submitted = 0; unref (c); } }
    pthread_mutex_unlock (&mx);
    shutdown (ctl, SHUT_RD);            /* still tells of the contexts destroyed later */
    pthread_join (reader, NULL);
    running = 0;
}
static void hex (char *o, const void *p, size_t n)
{
    if (!p) { strcpy (o, "NULL"); return; }
    *o++ = 'x';
    for (size_t i = 0; i < n; i++) o += sprintf (o, "%02x", ((const unsigned char *) p)[i]);
    *o = 0;
}
ipmiconsole_ctx_t ipmiconsole_ctx_create (const char *host, struct ipmiconsole_ipmi_config *i, struct ipmiconsole_protocol_config *p, struct ipmiconsole_engine_config *e)
{
    char h[600], u[64], w[64], k[64], b[1200];
    (void) p; (void) e;
    pthread_mutex_lock (&mx);
    if (!running || take (P_CREATE) || strlen (host) > 255) {
        hex (h, host, strlen (host) > 255 ? 255 : strlen (host));
        say (-1, "NOCTX %s %llu\n", h, now ());
        pthread_mutex_unlock (&mx);
        errno = ENOMEM;
        return NULL;
    }
    struct ipmiconsole_ctx *c = calloc (1, sizeof *c);
    hex (h, host, strlen (host));
    hex (u, i->username, i->username ? strlen (i->username) : 0);
    hex (w, i->password, i->password ? strlen (i->password) : 0);
    hex (k, i->k_g, i->k_g ? i->k_g_len : 0);
    snprintf (b, sizeof b, "%s %s %s %s %u %d %d %u", h, u, w, k, i->k_g_len, i->privilege_level, i->cipher_suite_id, i->workaround_flags);
    c->id = ++nextid; c->refs = 1; c->fd = -1; c->rec = strdup (b);
    c->next = all; all = c;
    say (-1, "CTX %u %s\n", c->id, h);
    pthread_mutex_unlock (&mx);
    return c;
}
int ipmiconsole_engine_submit (ipmiconsole_ctx_t c, Ipmiconsole_callback cb, void *arg)
{
    int r = 0;
    pthread_mutex_lock (&mx);
    if (take (P_SUBMIT) || c->status) {
        c->errn = 11; r = -1;
        say (-1, "NOSUBMIT %u %s %llu\n", c->id, c->rec, now ());
    } else {
        c->cb = cb; c->arg = arg; c->submitted = 1; c->refs++;
        c->status = IPMICONSOLE_CTX_STATUS_SUBMITTED;
        say (-1, "SUBMIT %u %s %llu\n", c->id, c->rec, now ());
    }
    pthread_mutex_unlock (&mx);
    return r;
}
int ipmiconsole_ctx_errnum (ipmiconsole_ctx_t c) { pthread_mutex_lock (&mx); int e = c->errn; c->errn = 0; pthread_mutex_unlock (&mx); return e; }
char *ipmiconsole_ctx_strerror (int e) { (void) e; return "fake engine error"; }
ipmiconsole_ctx_status_t ipmiconsole_ctx_status (ipmiconsole_ctx_t c) { pthread_mutex_lock (&mx); int s = c->status; pthread_mutex_unlock (&mx); return s; }
int ipmiconsole_ctx_fd (ipmiconsole_ctx_t c)
{
    int f;
    pthread_mutex_lock (&mx);
    f = c->fd;
    if (f >= 0 && take (P_FD)) { close (f); c->fd = f = -1; c->errn = 7; }
    if (f >= 0) c->taken = 1;
    pthread_mutex_unlock (&mx);
    return f;
}
int ipmiconsole_ctx_generate_break (ipmiconsole_ctx_t c)
{
    int r = 0;
    pthread_mutex_lock (&mx);
    if (c->status != IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED) r = -1;
    say (-1, "BREAK %u %d\n", c->id, r);
    pthread_mutex_unlock (&mx);
    return r;
}
void ipmiconsole_ctx_destroy (ipmiconsole_ctx_t c)
{
    pthread_mutex_lock (&mx);
    c->destroyed = 1;
    if (c->fd >= 0 && !c->taken) { close (c->fd); c->fd = -1; }
    say (-1, "DESTROY %u\n", c->id);
    unref (c);
    pthread_mutex_unlock (&mx);
}
int ipmiconsole_username_is_valid (const char *u) { return u && strlen (u) <= 16; }
int ipmiconsole_password_is_valid (const char *p) { return p && strlen (p) <= 20; }
int ipmiconsole_k_g_is_valid (const unsigned char *k, unsigned int n) { return k && n <= 20; }
int ipmiconsole_privilege_level_is_valid (int l) { return l >= 0 && l <= 2; }
int ipmiconsole_cipher_suite_id_is_valid (int c) { return (c >= 0 && c <= 3) || (c >= 6 && c <= 8) || c == 11 || c == 12 || (c >= 15 && c <= 17); }
int ipmiconsole_workaround_flags_is_valid (unsigned int f) { return !(f & ~0x0f0001ffu); }
