/* Runs a program as the foreground job of a new session on the terminal that is its standard input, as a shell
   would: t_job FD PROGRAM [ARGS...].  Writes the job's process id, later its wait status, to FD. */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
int main (int argc, char **argv)
{
    int fd = atoi (argv[1]), st;
    char *lim = getenv ("VF_FSIZE");
    if (argc < 3 || setsid () < 0 || ioctl (0, TIOCSCTTY, 0) < 0) return 99;
    signal (SIGTTOU, SIG_IGN);
    signal (SIGHUP, SIG_IGN);
    pid_t p = fork ();
    if (p == 0) {
        setpgid (0, 0);
        tcsetpgrp (0, getpid ());
        signal (SIGTTOU, SIG_DFL);
        signal (SIGHUP, SIG_DFL);
        close (fd);
        if (lim) {
            struct rlimit r = { strtoul (lim, 0, 10), strtoul (lim, 0, 10) };
            signal (SIGXFSZ, SIG_IGN);
            setrlimit (RLIMIT_FSIZE, &r);
        }
        execv (argv[2], argv + 2);
        _exit (98);
    }
    setpgid (p, p);
    tcsetpgrp (0, p);
    dprintf (fd, "%d\n", (int) p);
    while (waitpid (p, &st, 0) < 0 && errno == EINTR) ;
    dprintf (fd, "%d\n", st);
    /* keep the terminal as the job left it until the monitor has looked */
    for (;;) pause ();
}
