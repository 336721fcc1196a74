/* glibc's strlcpy/strlcat are unknown to MSan: instrumented stand-ins. */
#include <string.h>
size_t strlcpy (char *d, const char *s, size_t n)
{
    size_t i = 0, l = 0;
    while (s[l]) l++;
    if (n) { for (; i < n - 1 && s[i]; i++) d[i] = s[i]; d[i] = 0; }
    return l;
}
size_t strlcat (char *d, const char *s, size_t n)
{
    size_t k = 0, l = 0;
    while (k < n && d[k]) k++;
    while (s[l]) l++;
    if (k < n) { size_t i; for (i = 0; k + i < n - 1 && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; }
    return k + l;
}
