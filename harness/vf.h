/* Helpers shared by the in-process harnesses: random numbers, failure reporting, coverage keys. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
static uint64_t vf_s = 88172645463325252ull;
static inline uint32_t rnd (void) { vf_s ^= vf_s << 13; vf_s ^= vf_s >> 7; vf_s ^= vf_s << 17; return (uint32_t) (vf_s >> 16); }
static inline int rn (int n) { return (int) (rnd () % (uint32_t) n); }
static inline void vf_seed (uint64_t s) { vf_s = s * 0x9e3779b97f4a7c15ull + 0x1234567; int i; if (!vf_s) vf_s = 1; for (i = 0; i < 8; i++) rnd (); }
static char vf_trace[1 << 16]; static size_t vf_tn;
static void trace (const char *f, ...)
{
    char b[256]; va_list a; va_start (a, f); int n = vsnprintf (b, sizeof b, f, a); va_end (a);
    if (n > 255) n = 255;
    if (vf_tn + n + 2 > sizeof vf_trace) { memmove (vf_trace, vf_trace + vf_tn / 2, vf_tn - vf_tn / 2); vf_tn -= vf_tn / 2; }
    memcpy (vf_trace + vf_tn, b, n); vf_tn += n; vf_trace[vf_tn++] = ';'; vf_trace[vf_tn] = 0;
}
static void fail (const char *f, ...)
{
    va_list a; va_start (a, f); printf ("FAIL "); vprintf (f, a); va_end (a);
    printf ("\nTRACE %s\n", vf_tn > 3000 ? vf_trace + vf_tn - 3000 : vf_trace);
    fflush (stdout); _exit (2);
}
/* coverage keys: a small hash set so that each distinct key is printed once */
static uint64_t vf_keys[1 << 16]; static uint64_t vf_evals;
static void key (const char *f, ...)
{
    char b[200]; va_list a; va_start (a, f); vsnprintf (b, sizeof b, f, a); va_end (a);
    vf_evals++;
    uint64_t h = 1469598103934665603ull; char *p;
    for (p = b; *p; p++) h = (h ^ (unsigned char) *p) * 1099511628211ull;
    if (!h) h = 1;
    unsigned i = h & 0xffff, n = 0;
    while (vf_keys[i] && vf_keys[i] != h && n++ < 1000) i = (i + 1) & 0xffff;
    if (vf_keys[i] == h || n >= 1000) return;
    vf_keys[i] = h; printf ("K %s\n", b);
}
static void done (void) { if (vf_tn) printf ("S %.300s\n", vf_tn > 300 ? vf_trace + vf_tn - 300 : vf_trace); printf ("EVALS %llu\nDONE\n", (unsigned long long) vf_evals); fflush (stdout); }
