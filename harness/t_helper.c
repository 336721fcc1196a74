/* A helper program: records what it was given (descriptors, environment, ids), then behaves as told.
   usage: t_helper DIR MODE [text...]   record goes to DIR/h-<pid>; MODE: echo, exit, closefds, ignore, file:<path> (mode read from file) */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
extern char **environ;
int main (int argc, char **argv)
{
    char p[4200], q[4200], l[4096], mode[64] = "exit";
    const char *m = argc > 2 ? argv[2] : "exit";
    snprintf (q, sizeof q, "%s/.h-%d", argv[1], (int) getpid ());
    snprintf (p, sizeof p, "%s/h-%d", argv[1], (int) getpid ());
    DIR *d = opendir ("/proc/self/fd");
    struct dirent *e;
    char rec[65536]; size_t n = 0;
    while (d && (e = readdir (d))) {
        if (e->d_name[0] == '.' || atoi (e->d_name) == dirfd (d)) continue;
        snprintf (l, sizeof l, "/proc/self/fd/%s", e->d_name);
        char t[1024]; ssize_t k = readlink (l, t, sizeof t - 1);
        t[k > 0 ? k : 0] = 0;
        n += snprintf (rec + n, sizeof rec - n, "fd %s %s\n", e->d_name, t);
    }
    if (d) closedir (d);
    for (char **v = environ; *v; v++) {
        n += snprintf (rec + n, sizeof rec - n, "env ");
        for (char *c = *v; *c && n < sizeof rec - 10; c++) n += snprintf (rec + n, sizeof rec - n, (*c < 33 || *c > 126 || *c == '\\') ? "\\%02x" : "%c", (unsigned char) *c);
        n += snprintf (rec + n, sizeof rec - n, "\n");
    }
    n += snprintf (rec + n, sizeof rec - n, "ids %d %d %d %d\n", (int) getpid (), (int) getppid (), (int) getpgrp (), (int) getsid (0));
    for (int i = 0; i < argc; i++) n += snprintf (rec + n, sizeof rec - n, "arg %s\n", argv[i]);
    FILE *f;
    if (!strncmp (m, "file:", 5)) {
        f = fopen (m + 5, "r");
        if (f) { if (fscanf (f, "%63s", mode) != 1) strcpy (mode, "exit"); fclose (f); }
        m = mode;
    }
    n += snprintf (rec + n, sizeof rec - n, "mode %s\n", m);
    if (!strcmp (m, "ignore")) { for (int i = 1; i < 32; i++) signal (i, SIG_IGN); }
    f = fopen (q, "w");
    if (f) { fwrite (rec, 1, n, f); fclose (f); rename (q, p); }
    if (!strcmp (m, "exit")) return 3;
    if (!strcmp (m, "closefds")) { close (0); close (1); close (2); for (;;) pause (); }
    if (!strcmp (m, "hang")) for (;;) pause ();
    for (;;) {
        struct pollfd pf = { 0, POLLIN, 0 };
        poll (&pf, 1, -1);
        ssize_t k = read (0, l, sizeof l);
        if (k < 0 && (errno == EAGAIN || errno == EINTR)) continue;
        if (k <= 0) { if (!strcmp (m, "ignore")) for (;;) pause (); return 0; }
        if (write (1, l, k) < 0) {}
    }
}
