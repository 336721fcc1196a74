/* list.c against an ordered-sequence model with any number of live iterators. */
#include "list.h"
#include "vf.h"
#include <assert.h>
#define MAXE 300
#define MAXI 8
typedef struct { int id, val, dels, in; } E;
static E *seq[MAXE]; static int n;
static struct { ListIterator i; int live; E *last; E *pos; int dead_last; } it[MAXI];
static int deadcalls;
static void del (void *x) { E *e = x; e->dels++; deadcalls++; }
static int hasdel;
static int cmpv (void *a, void *b) { int x = ((E *) a)->val, y = ((E *) b)->val; return x < y ? -1 - rn (3) : x > y ? 1 + rn (3) : 0; }
static int findv (void *a, void *k) { return ((E *) a)->val == *(int *) k; }
static int findmod (void *a, void *k) { return ((E *) a)->val % *(int *) k == 0; }
static int idx (E *e) { int i; for (i = 0; i < n; i++) if (seq[i] == e) return i; return -1; }
static E *mk (void) { static int id; E *e = calloc (1, sizeof *e); e->id = ++id; e->val = rn (12); e->in = 1; return e; }
/* where: index before which x goes; by: iterators' bookkeeping */
static void m_insert (int at, E *x)
{
    int j; E *next = at < n ? seq[at] : NULL;
    memmove (seq + at + 1, seq + at, (n - at) * sizeof *seq); seq[at] = x; n++;
    for (j = 0; j < MAXI; j++) if (it[j].live) {
        /* inserted between the last returned item and the next one: it will be visited */
        if (it[j].pos == next && it[j].last && idx (it[j].last) == at - 1) it[j].pos = x;
    }
}
static void m_remove (E *x)
{
    int at = idx (x), j; E *next = at + 1 < n ? seq[at + 1] : NULL;
    for (j = 0; j < MAXI; j++) if (it[j].live) {
        if (it[j].pos == x) it[j].pos = next;
        if (it[j].last == x) it[j].last = NULL;
    }
    memmove (seq + at, seq + at + 1, (n - at - 1) * sizeof *seq); n--;
}
static List l;
static E *all[1 << 20]; static int nall;
static void verify (void)
{
    if (list_count (l) != n) fail ("count %d, expected %d", list_count (l), n);
    if (!!list_is_empty (l) != (n == 0)) fail ("is_empty wrong with %d entries", n);
    if (list_peek (l) != (n ? seq[0] : NULL)) fail ("peek is not the first entry");
    ListIterator i = list_iterator_create (l); int k; E *e;
    for (k = 0; (e = list_next (i)); k++) {
        if (k >= n) fail ("walk yields more than %d entries", n);
        if (e != seq[k]) fail ("entry %d is #%d, expected #%d", k, e->id, seq[k]->id);
        if (e->dels) fail ("destroyed entry #%d still listed", e->id);
    }
    if (k != n) fail ("walk yields %d of %d entries", k, n);
    if (list_next (i)) fail ("walk continues past the end");
    list_iterator_destroy (i);
}
static void round_ (int ops)
{
    int o, j, k; E *e, *x; void *v;
    hasdel = rn (3) > 0;
    l = list_create (hasdel ? del : NULL);
    n = 0; nall = 0; memset (it, 0, sizeof it);
    int lim = 1 + rn (40);
    for (o = 0; o < ops; o++) {
        int op = rn (24); j = rn (MAXI);
        int had = n;
        if (op < 6 && n < lim) {
            e = all[nall++] = mk ();
            switch (rn (4)) {
            case 0: v = list_append (l, e); m_insert (n, e); trace ("append %d", e->id); break;
            case 1: v = list_prepend (l, e); m_insert (0, e); trace ("prepend %d", e->id); break;
            case 2: v = list_push (l, e); m_insert (0, e); trace ("push %d", e->id); break;
            default: v = list_enqueue (l, e); m_insert (n, e); trace ("enqueue %d", e->id); break;
            }
            if (v != e) fail ("insertion did not return its data");
        } else if (op < 8) {
            e = n ? seq[0] : NULL; int w = rn (2);
            if (e) m_remove (e);
            trace (w ? "pop" : "dequeue");
            v = w ? list_pop (l) : list_dequeue (l);
            if (v != e) fail ("pop/dequeue returned #%d, expected #%d", v ? ((E *) v)->id : 0, e ? e->id : 0);
        } else if (op < 9) {
            k = rn (12); x = NULL; int q;
            for (q = 0; q < n; q++) if (seq[q]->val == k) { x = seq[q]; break; }
            if (list_find_first (l, findv, &k) != x) fail ("find_first wrong");
        } else if (op < 10 && rn (3) == 0) {
            k = 1 + rn (6); int q, cnt = 0, before = deadcalls;
            for (q = 0; q < n; ) if (seq[q]->val % k == 0) { seq[q]->in = 2; m_remove (seq[q]); cnt++; } else q++;
            trace ("delete_all %%%d", k);
            int r = list_delete_all (l, findmod, &k);
            if (r != cnt) fail ("delete_all returned %d, expected %d", r, cnt);
            if (hasdel && deadcalls - before != cnt) fail ("delete_all destroyed %d, expected %d", deadcalls - before, cnt);
        } else if (op < 11 && rn (3) == 0) {
            /* stable sort of the model */
            int a, b;
            for (a = 1; a < n; a++) for (b = a; b > 0 && seq[b - 1]->val > seq[b]->val; b--) { e = seq[b]; seq[b] = seq[b - 1]; seq[b - 1] = e; }
            for (a = 0; a < MAXI; a++) if (it[a].live) { it[a].last = NULL; it[a].pos = n ? seq[0] : NULL; }
            trace ("sort"); list_sort (l, cmpv);
        } else if (op < 14) {
            if (!it[j].live) { trace ("it%d create", j); it[j].i = list_iterator_create (l); it[j].live = 1; it[j].last = NULL; it[j].pos = n ? seq[0] : NULL; }
            else if (rn (8) == 0) { trace ("it%d destroy", j); list_iterator_destroy (it[j].i); it[j].live = 0; }
            else if (rn (4) == 0) { trace ("it%d reset", j); list_iterator_reset (it[j].i); it[j].last = NULL; it[j].pos = n ? seq[0] : NULL; }
        } else if (!it[j].live) {
            continue;
        } else if (op < 19) {
            trace ("it%d next", j);
            e = it[j].pos; it[j].last = e;
            if (e) { k = idx (e); it[j].pos = k + 1 < n ? seq[k + 1] : NULL; }
            x = list_next (it[j].i);
            if (x != e) fail ("iterator %d returned #%d, expected #%d", j, x ? x->id : 0, e ? e->id : 0);
        } else if (op < 20) {
            int val = rn (12); trace ("it%d find %d", j, val);
            e = it[j].pos;
            while (e && e->val != val) { k = idx (e); e = k + 1 < n ? seq[k + 1] : NULL; }
            it[j].last = e;
            if (e) { k = idx (e); it[j].pos = k + 1 < n ? seq[k + 1] : NULL; } else it[j].pos = NULL;
            x = list_find (it[j].i, findv, &val);
            if (x != e) fail ("iterator %d found #%d, expected #%d", j, x ? x->id : 0, e ? e->id : 0);
        } else if (op < 21 && n < lim) {
            e = all[nall++] = mk ();
            trace ("it%d insert %d", j, e->id);
            k = it[j].last ? idx (it[j].last) : it[j].pos ? idx (it[j].pos) : n;
            m_insert (k, e);
            if (list_insert (it[j].i, e) != e) fail ("insert did not return its data");
        } else {
            int del_ = rn (2), before = deadcalls;
            e = it[j].last;
            trace ("it%d %s", j, del_ ? "delete" : "remove");
            if (e) m_remove (e);
            if (del_) {
                int r = list_delete (it[j].i);
                if (r != (e ? 1 : 0)) fail ("list_delete returned %d, last item was #%d", r, e ? e->id : 0);
                if (e && hasdel && (e->dels != 1 || deadcalls != before + 1)) fail ("list_delete destroyed the wrong item");
                if (e) e->in = 2;
            } else {
                x = list_remove (it[j].i);
                if (x != e) fail ("list_remove returned #%d, last item was #%d", x ? x->id : 0, e ? e->id : 0);
                if (deadcalls != before) fail ("list_remove destroyed data");
            }
        }
        int live = 0; for (k = 0; k < MAXI; k++) live += it[k].live;
        verify ();
        key ("op%d n%d->%d its%d del%d", op, had > 6 ? 6 : had, n > 6 ? 6 : n, live > 3 ? 3 : live, hasdel);
    }
    for (k = 0; k < MAXI; k++) if (it[k].live && rn (2)) list_iterator_destroy (it[k].i);
    for (k = 0; k < n; k++) seq[k]->in = 3;
    list_destroy (l);
    for (k = 0; k < nall; k++) {
        int exp = hasdel && (all[k]->in == 2 || all[k]->in == 3);
        if (all[k]->dels != exp) fail ("entry #%d destroyed %d times, expected %d", all[k]->id, all[k]->dels, exp);
        free (all[k]);
    }
}
int main (int argc, char **argv)
{
    int r, rounds = atoi (argv[2]);
    vf_seed (strtoull (argv[1], 0, 0));
    for (r = 0; r < rounds; r++) { vf_tn = 0; vf_trace[0] = 0; round_ (20 + rn (400)); }
    done ();
    return 0;
}
