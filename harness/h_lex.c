/* Lexes each [u32 length][text] record of a file and prints one line per token: tok line hex(text).
   Token table is argv[2..] (sorted). Also encodes/decodes every record that is plain ASCII. */
#include "vf.h"
#include "lex.h"
int main (int argc, char **argv)
{
    FILE *f = fopen (argv[1], "rb"); unsigned n; char **toks = argv + 2;
    while (fread (&n, 4, 1, f) == 1) {
        char *b = malloc (n + 1), *c = malloc (n + 1); if (n && fread (b, n, 1, f) != 1) return 3; b[n] = 0; memcpy (c, b, n + 1);
        Lex l = lex_create (b, toks); int t; unsigned long k = 0;
        do {
            t = lex_next (l);
            const char *s = lex_text (l); printf ("%d %d ", t, lex_line (l)); for (; *s; s++) printf ("%02x", (unsigned char) *s);
            if (lex_prev (l) != t) { printf (" PREV"); }
            if (t >= LEX_TOK_OFFSET) { const char *q = lex_tok_to_str (l, t); printf (" %s", q ? q : "NULL"); }
            putchar ('\n');
            if (++k > 2ul * n + 10) { printf ("LOOP\n"); return 4; }
        } while (t != LEX_EOF);
        if (lex_next (l) != LEX_EOF) printf ("EOF not sticky\n");
        if (lex_tok_to_str (l, LEX_TOK_OFFSET - 1) || lex_tok_to_str (l, LEX_TOK_OFFSET + argc - 2)) printf ("tok_to_str out of range\n");
        lex_destroy (l);
        if (memcmp (b, c, n + 1)) printf ("MODIFIED\n");
        int plain = 1; unsigned i; for (i = 0; i < n; i++) if (!b[i] || (b[i] & 0x80)) plain = 0;
        if (plain) {
            if (lex_encode (b) != b) printf ("encode result\n");
            /* the encoded text is one string token inside either kind of quote, and decodes to itself */
            if (n < 1000 && !strpbrk (c, "\r\n")) {
                char *q = malloc (n + 3); q[0] = n & 1 ? '"' : '\''; memcpy (q + 1, b, n); q[n + 1] = q[0]; q[n + 2] = 0;
                Lex m = lex_create (q, toks); int t1 = lex_next (m); char *d = malloc (n + 1); strncpy (d, lex_text (m), n); d[n] = 0; unsigned tl = strlen (lex_text (m));
                if (t1 != LEX_STR || tl != n || lex_next (m) != LEX_EOF) printf ("ROUNDTRIP token %d length %u of %u\n", t1, tl, n);
                lex_decode (d); if (memcmp (d, c, n + 1)) printf ("ROUNDTRIP changed\n");
                lex_destroy (m); free (q); free (d);
            }
            lex_decode (b); if (memcmp (b, c, n + 1)) printf ("DECODE\n");
        }
        printf (".\n");
        free (b); free (c);
    }
    if (lex_encode (NULL) || lex_decode (NULL)) printf ("NULL\n");
    printf ("DONE\n"); return 0;
}
