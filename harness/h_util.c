/* util-str / util-file helpers against straightforward models; every buffer has its exact size on the heap (ASan). */
#define _GNU_SOURCE
#include "vf.h"
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <time.h>
#include <libgen.h>
#include <sys/wait.h>
#include "util-str.h"
#include "util-file.h"
#include "log.h"

static int f_short, f_eintr; static long n_short, n_eintr;
ssize_t __real_read (int, void *, size_t); ssize_t __real_write (int, const void *, size_t);
static size_t cut (size_t n) { if (f_short && n > 1 && rn (2)) { n_short++; return 1 + rn (n < 9 ? n : 9); } return n; }
ssize_t __wrap_read (int fd, void *b, size_t n) { if (f_eintr && rn (100) < f_eintr) { n_eintr++; errno = EINTR; return -1; } return __real_read (fd, b, f_short && n > 1 ? cut (n) <= n ? cut (n) : n : n); }
ssize_t __wrap_write (int fd, const void *b, size_t n) { if (f_eintr && rn (100) < f_eintr) { n_eintr++; errno = EINTR; return -1; } size_t m = cut (n); return __real_write (fd, b, m < n ? m : n); }

static char *heap (const char *s) { char *p = malloc (strlen (s) + 1); strcpy (p, s); return p; }
static char *rstr (int max, const char *al)
{
    static char b[8][5000]; static int k; char *p = b[k++ & 7]; int n = rn (max + 1), i, m = al ? strlen (al) : 0;
    for (i = 0; i < n; i++) p[i] = al ? al[rn (m)] : 1 + rn (255);
    p[n] = 0; return p;
}
static int bsize (int want) { int r = rn (6); return r == 0 ? want : r == 1 ? want + 1 : r == 2 ? (want > 0 ? want - 1 : 0) : r == 3 ? rn (want + 2) : want + rn (20); }

static void t_dirname (void)
{
    char m[5000], *s = heap (rstr (rn (8) ? 14 : 400, rn (3) ? "/ab." : "//a"));
    /* POSIX dirname(), as documented */
    int n = strlen (s), i = n - 1;
    while (i > 0 && s[i] == '/') i--;
    while (i >= 0 && s[i] != '/') i--;
    while (i > 0 && s[i] == '/') i--;
    if (i < 0) strcpy (m, "."); else { memcpy (m, s, i + 1); m[i + 1] = 0; }
    { char *c = heap (s); char *d = dirname (c); if (strcmp (d, m) && !(strspn (s, "/") == 2)) fail ("model of dirname is wrong: '%s' libc '%s' model '%s'", s, d, m); free (c); }
    int sz = bsize (strlen (m) + 1);
    char *d = malloc (sz ? sz : 1); if (sz) memset (d, 'Z', sz);
    errno = 0;
    char *r = get_dir_name (s, d, sz);
    trace ("dirname '%s' size %d -> %s", s, sz, r ? r : "NULL");
    if ((int) strlen (m) + 1 > sz) { if (r || errno != ENAMETOOLONG) fail ("get_dir_name('%s', size %d) should fail with ENAMETOOLONG: returned %s errno %d", s, sz, r ? r : "NULL", errno); }
    else if (r != d || strcmp (d, m)) fail ("get_dir_name('%s', size %d) = '%s', expected '%s'", s, sz, r ? r : "NULL", m);
    key ("dirname len%d %s slash%d%d fit%d", n > 5 ? 5 : n, strlen (m) < 3 ? m : "+", n && s[0] == '/', n && s[n - 1] == '/', sz > (int) strlen (m) ? 1 : sz == (int) strlen (m) ? 0 : -1);
    errno = 0; if (get_dir_name (NULL, d, sz) || errno != EINVAL) fail ("get_dir_name(NULL)");
    errno = 0; if (get_dir_name (s, NULL, sz) || errno != EINVAL) fail ("get_dir_name(.., NULL)");
    free (s); free (d);
}

static int isdir (const char *p) { struct stat st; return stat (p, &st) == 0 && S_ISDIR (st.st_mode); }
static char base[200];
static void t_dirs (void)
{
    static int serial; char p[4000], q[4000]; int i, depth = 1 + rn (6), pre = rn (depth + 1), file_at = rn (5) ? -1 : rn (depth), rel = rn (4) == 0;
    int um = (int[]) { 022, 077, 0, 027 }[rn (4)];
    snprintf (base, sizeof base, "d%d", serial++); mkdir (base, 0755);
    char cwd[1000]; if (!getcwd (cwd, sizeof cwd)) exit (1);
    if (rel) snprintf (p, sizeof p, "%s%s", rn (2) ? "./" : "", base); else snprintf (p, sizeof p, "%s/%s", cwd, base);
    strcpy (q, base);
    for (i = 0; i < depth; i++) {
        char c[40]; snprintf (c, sizeof c, "%.*s%c%d", 1 + rn (3), "///", 'a' + rn (3), i);
        strcat (p, c); strcat (q, c);
        if (i < pre) { if (i == file_at) { int fd = open (q, O_CREAT | O_WRONLY, 0644); close (fd); } else mkdir (q, 0755); }
    }
    int blocked = file_at >= 0 && file_at < pre;
    for (i = rn (3); i > 0; i--) strcat (p, "/");
    char *h = heap (p); int o = umask (um); errno = 0;
    int r = create_dirs (h); umask (o);
    trace ("create_dirs '%s' depth %d pre %d file %d -> %d", p, depth, pre, file_at, r);
    if (strcmp (h, p)) fail ("create_dirs modified its argument");
    if (blocked) { if (r != -1) fail ("create_dirs('%s') returned %d although a component is a file", p, r); }
    else {
        if (r != 0 || !isdir (q)) fail ("create_dirs('%s') = %d (errno %d), directory %s", p, r, errno, isdir (q) ? "exists" : "is missing");
        /* created components carry 0755 & ~umask */
        char t[4000]; strcpy (t, q); int lvl = depth;
        while (lvl > pre) {
            struct stat st; stat (t, &st);
            if ((st.st_mode & 07777) != (0755 & ~um)) fail ("'%s' created with mode %o under umask %o", t, st.st_mode & 07777, um);
            int k = strlen (t); while (k > 0 && t[k - 1] != '/') k--; while (k > 0 && t[k - 1] == '/') k--; t[k] = 0; lvl--;
        }
    }
    if (create_dirs (h) != (blocked ? -1 : 0)) fail ("second create_dirs('%s') differs", p);
    key ("dirs depth%d pre%d file%d rel%d um%o", depth, pre, blocked, rel, um);
    free (h);
    if (rn (20) == 0) {
        errno = 0; if (create_dirs (NULL) != -1) fail ("create_dirs(NULL)"); if (create_dirs ("") != -1) fail ("create_dirs('')");
        if (create_dirs ("/") != 0) fail ("create_dirs('/')"); if (create_dirs (".") != 0) fail ("create_dirs('.')");
        char *l = malloc (PATH_MAX + 20); memset (l, 'x', PATH_MAX + 19); l[PATH_MAX + 19] = 0; l[0] = '.'; l[1] = '/';
        int n = PATH_MAX - 3 + rn (8); l[n] = 0;
        if (create_dirs (l) != -1) fail ("create_dirs of %d bytes", n);
        free (l); key ("dirs special");
    }
}

static void t_rw (void)
{
    f_short = rn (3); f_eintr = rn (2) * rn (60);
    int n = rn (3) ? rn (300) : rn (60000), m = rn (3) ? n : rn (n + 100), i, p[2];
    unsigned char *a = malloc (n + 1), *b = malloc (m + 1);
    for (i = 0; i < n; i++) a[i] = rnd ();
    if (pipe (p)) exit (1);
    fcntl (p[1], F_SETPIPE_SZ, 1 << 17);
    unsigned char *w = malloc (n ? n : 1); memcpy (w, a, n);
    ssize_t r = write_n (p[1], w, n);
    if (r != n) fail ("write_n of %d = %zd", n, r);
    if (m > n) close (p[1]);
    unsigned char *x = malloc (m ? m : 1);
    r = read_n (p[0], x, m);
    int e = m < n ? m : n;
    if (r != e || memcmp (x, a, e)) fail ("read_n(%d) after write_n(%d) = %zd or wrong data", m, n, r);
    if (m <= n) close (p[1]);
    /* the rest is still there */
    unsigned char *y = malloc (n + 1);
    r = read_n (p[0], y, n + 1);
    if (r != n - e || memcmp (y, a + e, r > 0 ? r : 0)) fail ("read_n consumed more than asked: rest %zd expected %d", r, n - e);
    close (p[0]);
    key ("rw n%d m%s short%d eintr%d", n == 0 ? 0 : n < 10 ? 1 : n < 300 ? 2 : 3, m < n ? "<" : m == n ? "=" : ">", f_short > 0, f_eintr > 0);
    errno = 0; if (read_n (p[0], x, 1) != -1 || errno != EBADF) fail ("read_n on a closed descriptor");
    if (write_n (p[0], w, 1) != -1 || errno != EBADF) fail ("write_n on a closed descriptor");
    free (a); free (b); free (w); free (x); free (y); f_short = f_eintr = 0;
}

static void t_line (void)
{
    f_short = 0; f_eintr = rn (2) * rn (60);
    int n = rn (200), i, p[2], pos = 0; char a[220];
    for (i = 0; i < n; i++) a[i] = rn (8) ? 1 + rn (255) : '\n';
    if (rn (4) == 0 && n) a[rn (n)] = 0;
    if (pipe (p)) exit (1);
    if (__real_write (p[1], a, n) != n) exit (1);
    close (p[1]);
    for (;;) {
        int mx = rn (4) ? 1 + rn (40) : rn (3); int e = 0, rr;
        char *b = malloc (mx ? mx : 1); if (mx) memset (b, 'Z', mx);
        if (mx > 0) { while (e < mx - 1 && pos + e < n) { e++; if (a[pos + e - 1] == '\n') break; } }
        rr = read_line (p[0], b, mx);
        if (rr != e) fail ("read_line(max %d) = %d, expected %d", mx, rr, e);
        if (e && (memcmp (b, a + pos, e) || b[e])) fail ("read_line content wrong or not terminated");
        key ("line max%d got%d nl%d eintr%d", mx < 4 ? mx : 4, e < 4 ? e : 4, e && b[e - 1] == '\n', f_eintr > 0);
        pos += e; free (b);
        if (pos >= n && mx > 1) break;
    }
    close (p[0]);
    errno = 0; if (read_line (p[0], NULL, 3) != -1 || errno != EINVAL) fail ("read_line(NULL)");
    { char b[4]; if (read_line (p[0], b, 3) != -1 || errno != EBADF) fail ("read_line on closed fd"); }
    f_eintr = 0;
}

static void t_append (void)
{
    char *s0 = rstr (30, NULL), *add = rstr (rn (5) ? 30 : 3000, NULL); int l0 = strlen (s0), la = strlen (add), num = rn (100000);
    char full[6000]; snprintf (full, sizeof full, "%s%s:%d", s0, add, num);
    int size = rn (6) == 0 ? rn (l0 + 2) : bsize (strlen (full) + 1), term = size > l0;
    char *d = malloc (size ? size : 1); if (size) memset (d, 'Z', size); memcpy (d, s0, l0 < size ? l0 : size); if (term) d[l0] = 0;
    int r = append_format_string (d, size, "%s:%d", add, num), e;
    trace ("append l0 %d la %d size %d -> %d", l0, la, size, r);
    if (size == 0) e = 0; else if ((int) strlen (full) + 1 > size) e = -1; else e = strlen (full);
    if (r != e) fail ("append_format_string: %d existing + %zu more in %d bytes returned %d, expected %d", l0, strlen (full) - l0, size, r, e);
    if (size) {
        full[size - 1] = 0;
        if (!memchr (d, 0, size)) fail ("append_format_string left the buffer unterminated (size %d)", size);
        if (strcmp (d, full)) fail ("append_format_string wrote '%s', expected '%s'", d, full);
    }
    errno = 0; if (append_format_string (NULL, 3, "x") != -1 || errno != EINVAL) fail ("append_format_string(NULL)");
    if (append_format_string (d, size, NULL) != -1) fail ("append_format_string(fmt NULL)");
    key ("append l0%d fit%d size%d", l0 > 2 ? 2 : l0, e < 0 ? -1 : 1, size > 4 ? 4 : size); free (d);
}

static void t_subst (void)
{
    char *src = heap (rstr (rn (4) ? 20 : 200, "%%%NDabc")), *sub = rn (8) ? heap (rstr (rn (3) ? 6 : 40, "xyz%N")) : NULL; char c = "ND%a"[rn (4)];
    char m[20000]; int k = 0, i;
    for (i = 0; src[i];) if (src[i] == '%' && src[i + 1] == c) { if (sub) { strcpy (m + k, sub); k += strlen (sub); } i += 2; } else m[k++] = src[i++];
    m[k] = 0;
    int size = bsize (k + 1); char *d = malloc (size ? size : 1); if (size) memset (d, 'Z', size);
    int r = substitute_string (d, size, src, c, sub), e = k < size ? k : -1;
    trace ("substitute '%s' c %c sub '%s' size %d -> %d", src, c, sub ? sub : "NULL", size, r);
    if (r != e) fail ("substitute_string('%s', %%%c -> '%s', size %d) returned %d, expected %d", src, c, sub ? sub : "NULL", size, r, e);
    if (size) {
        if (!memchr (d, 0, size)) fail ("substitute_string left the result unterminated");
        if (e >= 0 && strcmp (d, m)) fail ("substitute_string('%s', %%%c -> '%s') = '%s', expected '%s'", src, c, sub ? sub : "NULL", d, m);
        if (strncmp (d, m, strlen (d))) fail ("substitute_string: truncated result '%s' is no prefix of '%s'", d, m);
    }
    key ("subst c%c sub%d fit%d k%d", c, sub ? (int) (strlen (sub) > 3 ? 3 : strlen (sub)) : -1, size > k ? size > k + 1 ? 2 : 1 : size == k ? 0 : -1, k > 5 ? 5 : k);
    if (substitute_string (NULL, 3, src, c, sub) != -1 || substitute_string (d, 0, src, c, sub) != -1 || substitute_string (d, size, NULL, c, sub) != -1 || substitute_string (d, size, src, 0, sub) != -1) fail ("substitute_string accepted invalid arguments");
    free (src); free (sub); free (d);
}

static void t_delta (void)
{
    static const long edge[] = { 1, 60, 3600, 86400, 604800, 604800L * 52, 604800L * 52 * 60 };
    long n = rn (3) ? (edge[rn (7)] * (1 + rn (4)) + rn (5) - 2) : (long) rnd () % 4000000000L; if (n < 0) n = 0;
    time_t t0 = 1 + rnd () % 1700000000; long x = n; char m[64] = ""; int started = 0, i;
    static const long u[] = { 604800L * 52, 604800, 86400, 3600, 60, 1 }; static const char un[] = "ywdhms";
    for (i = 0; i < 6; i++) { long v = x / u[i]; x %= u[i]; if (v || started || i == 5) { sprintf (m + strlen (m), "%ld%c", v, un[i]); started = 1; } }
    char *r = create_time_delta_string (t0, t0 + n);
    if (strcmp (r, m)) fail ("create_time_delta_string of %ld s = '%s', expected '%s'", n, r, m);
    free (r);
    time_t now = time (NULL); r = create_time_delta_string (now, -1);
    if (strcmp (r, "0s") && strcmp (r, "1s") && strcmp (r, "2s")) fail ("create_time_delta_string until now = %s", r);
    free (r);
    key ("delta units%zu %c", strspn (m, "0123456789ywdhms") - strcspn (m, "ywdhms"), m[strcspn (m, "ywdhms")]);
}

static void t_time (void)
{
    time_t t = 1 + (time_t) rnd (); int size = bsize (21); struct tm tm; gmtime_r (&t, &tm);
    char m[80]; snprintf (m, sizeof m, "%04d-%02d-%02d %02d:%02d:%02d ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    char *d = malloc (size ? size : 1); if (size) memset (d, 'Z', size);
    int r = write_time_string (t, d, size);
    if (size < 21) { if (r != 0) fail ("write_time_string in %d bytes returned %d", size, r); }
    else if (r != 20 || strcmp (d, m)) fail ("write_time_string(%ld) = %d '%s', expected '%s'", (long) t, r, d, m);
    free (d);
    char s[80]; snprintf (s, sizeof s, "%02d-%02d %02d:%02d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min);
    d = create_short_time_string (t); if (strcmp (d, s)) fail ("create_short_time_string = '%s' expected '%s'", d, s); free (d);
    d = create_long_time_string (t); m[19] = 0; if (strncmp (d, m, 19) || strcmp (d + 19, " UTC")) fail ("create_long_time_string = '%s' expected '%s UTC'", d, m); free (d);
    key ("time fit%d", size >= 21);
}

static void t_parse (void)
{
    char *src = heap (rstr (rn (3) ? 12 : 60, "ab  \t'\"'\"x%")), *orig = heap (src), *ptr = NULL, *dst; char q;
    int pos = 0, n = strlen (orig), words = 0;
    trace ("parse [%s]", orig);
    for (;;) {
        while (pos < n && isspace ((unsigned char) orig[pos])) pos++;
        int er = 0, es = pos, el = 0; char eq = 0; int np = pos;
        if (pos >= n) er = 0;
        else if (orig[pos] == '"' || orig[pos] == '\'') {
            int j = pos + 1; er = -1;
            for (; j < n; j++) if (orig[j] == orig[pos] && (j + 1 == n || isspace ((unsigned char) orig[j + 1]))) { er = 1; es = pos + 1; el = j - es; eq = orig[pos]; np = j + 1; break; }
        } else { int j = pos; while (j < n && !isspace ((unsigned char) orig[j])) j++; er = 1; es = pos; el = j - pos; np = j < n ? j + 1 : j; }
        q = 'Q'; dst = (char *) 1;
        int r = parse_string (src, &dst, &ptr, rn (4) ? &q : NULL);
        if (r != er) fail ("parse_string on [%s] at %d returned %d, expected %d", orig, pos, r, er);
        if (r == 1) { if ((int) strlen (dst) != el || memcmp (dst, orig + es, el)) fail ("parse_string on [%s] at %d gave word [%s], expected [%.*s]", orig, pos, dst, el, orig + es);
            if (q != 'Q' && q != eq) fail ("parse_string on [%s]: quote %d expected %d", orig, q, eq); words++; pos = np; }
        key ("parse r%d quote%d len%d word%d", r, eq, el > 3 ? 3 : el, words > 3 ? 3 : words);
        if (r != 1) break;
    }
    if (parse_string (NULL, &dst, &ptr, &q) != -1 || dst) fail ("parse_string(NULL)");
    if (parse_string (src, NULL, &ptr, &q) != -1 || parse_string (src, &dst, NULL, &q) != -1) fail ("parse_string accepted NULL");
    free (src); free (orig);
}

static void t_misc (void)
{
    char *s = heap (rstr (20, rn (2) ? " \t\n\r\v\f" : " a")); int e = s[strspn (s, " \t\n\r\v\f")] == 0;
    if (is_empty_string (s) != e) fail ("is_empty_string('%s')", s);
    if (is_empty_string (NULL) != -1) fail ("is_empty_string(NULL)");
    char *d = rn (2) ? heap ("old") : NULL;
    if (replace_string (&d, s) || strcmp (d, s) || d == s) fail ("replace_string");
    if (replace_string (NULL, s) != -1) fail ("replace_string(NULL)");
    free (d);
    d = create_string (s); if (strcmp (d, s) || d == s) fail ("create_string"); destroy_string (d); destroy_string (NULL);
    if (create_string (NULL)) fail ("create_string(NULL)");
    char *b = rstr (2500, NULL), ex[1024]; snprintf (ex, sizeof ex, "<%s>", b);
    d = create_format_string ("<%s>", b); if (strcmp (d, ex)) fail ("create_format_string truncation"); free (d);
    if (create_format_string (NULL)) fail ("create_format_string(NULL)");
    int c; for (c = '0'; c <= 'f'; c++) if (isxdigit (c)) { int v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; if (toint (c) != v) fail ("toint(%c)", c); }
    key ("misc empty%d len%d", e, (int) strlen (b) / 512); free (s);
    /* bounded copy and concatenation */
    char *x = rstr (30, NULL), *y = rstr (30, NULL), m[100]; int lx = strlen (x), ly = strlen (y), sz = bsize (lx + ly + 1);
    char *z = malloc (sz ? sz : 1); if (sz) memset (z, 'Z', sz);
    size_t r = strlcpy (z, x, sz);
    if (r != (size_t) lx) fail ("strlcpy returned %zu", r);
    strcpy (m, x); if (sz && lx > sz - 1) m[sz - 1] = 0;
    if (sz && strcmp (z, m)) fail ("strlcpy result");
    if (sz) { int l = strlen (z); r = strlcat (z, y, sz); if (r != (size_t) (l + ly)) fail ("strlcat returned %zu", r);
        strcat (m, y); if ((int) strlen (m) > sz - 1) m[sz - 1] = 0; if (strcmp (z, m)) fail ("strlcat result"); }
    key ("strl sz%d fit%d", sz > 3 ? 3 : sz, sz > lx + ly ? 2 : sz > lx); free (z);
}

static void t_lock (void)
{
    char f[40]; snprintf (f, sizeof f, "lk"); int fd = open (f, O_CREAT | O_RDWR, 0600); int p[2], q[2]; int mode = rn (2);
    if (pipe (p) || pipe (q)) exit (1); fflush (stdout);
    if (is_write_lock_blocked (fd) || is_read_lock_blocked (fd)) fail ("fresh file reported as locked");
    pid_t c = fork ();
    if (c == 0) { char x; int r = mode ? get_write_lock (fd) : get_read_lock (fd); x = r == 0; __real_write (p[1], &x, 1); __real_read (q[0], &x, 1); if (release_lock (fd)) x = 9; __real_write (p[1], &x, 1); __real_read (q[0], &x, 1); _exit (0); }
    char x; __real_read (p[0], &x, 1); if (x != 1) fail ("lock not obtained");
    pid_t w = is_write_lock_blocked (fd), r = is_read_lock_blocked (fd);
    if (w != c) fail ("is_write_lock_blocked = %d, holder %d", (int) w, (int) c);
    if (r != (mode ? c : 0)) fail ("is_read_lock_blocked = %d under a %s lock", (int) r, mode ? "write" : "read");
    if (get_write_lock (fd) != -1) fail ("second write lock granted");
    if ((get_read_lock (fd) == 0) != !mode) fail ("read lock under a %s lock", mode ? "write" : "read");
    release_lock (fd);
    __real_write (q[1], "x", 1); __real_read (p[0], &x, 1); if (x == 9) fail ("release_lock");
    if (is_write_lock_blocked (fd)) fail ("lock still reported after release");
    if (get_writew_lock (fd) || get_readw_lock (fd) || release_lock (fd)) fail ("lock after release");
    __real_write (q[1], "x", 1); close (p[0]); close (p[1]); close (q[0]); close (q[1]); close (fd);
    int st; waitpid (c, &st, 0);
    set_fd_nonblocking (0); if (!(fcntl (0, F_GETFL) & O_NONBLOCK)) fail ("set_fd_nonblocking"); set_fd_blocking (0); if (fcntl (0, F_GETFL) & O_NONBLOCK) fail ("set_fd_blocking");
    key ("lock %d", mode);
}
#include <sys/wait.h>
int main (int argc, char **argv)
{
    int i, n = atoi (argv[2]);
    vf_seed (strtoull (argv[1], 0, 10));
    log_set_file (NULL, 0, 0);
    for (i = 0; i < n; i++) {
        t_dirname (); t_append (); t_subst (); t_delta (); t_time (); t_parse (); t_misc (); t_line ();
        if (i % 5 == 0) t_rw ();
        if (i % 20 == 0) t_dirs ();
        if (i % 100 == 0) t_lock ();
    }
    printf ("C short transfers injected %ld\nC interruptions injected %ld\n", n_short, n_eintr);
    done (); return 0;
}
