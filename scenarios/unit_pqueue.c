/*META {"props": ["C22"], "program": "pqueue", "units": ["priority_queue"], "models": [], "min_obl": 200, "need": ["top_is_minimum", "size", "handle_valid"], "subject": "src/priority_queue.c",
 "variants": [{"name": "steps-3", "defs": ["-DCAP=3", "-DNK=3", "-DSTEPS=6"]}, {"name": "steps-4", "defs": ["-DCAP=4", "-DNK=2", "-DSTEPS=6"]},
              {"name": "drain-5", "defs": ["-DCAP=5", "-DNK=3", "-DDRAIN"], "tier": "thorough"}, {"name": "drain-6", "defs": ["-DCAP=6", "-DNK=2", "-DDRAIN"]}, {"name": "drain-6k", "defs": ["-DCAP=6", "-DNK=3", "-DDRAIN", "-DLAST=1"]}, {"name": "drain-7", "defs": ["-DCAP=7", "-DNK=2", "-DDRAIN"]},
              {"name": "keys", "defs": ["-DCAP=3", "-DNK=4", "-DSTEPS=4", "-DFAR_KEYS"]},
              {"name": "always-1", "defs": ["-DCAP=1", "-DNK=3"], "min_obl": 10, "optional": 60}, {"name": "always-2", "defs": ["-DCAP=2", "-DNK=3"], "min_obl": 50, "optional": 60},
              {"name": "always-3", "defs": ["-DCAP=3", "-DNK=2"], "tier": "thorough", "optional": 4000}]} */
/* Sequences of insertions, removals of any element and extractions, against plain arrays of keys and
   handles. Without STEPS or DRAIN the loop is analysed to a fixpoint: any number of operations. */
#include "env.h"
#include "priority_queue.h"
#ifdef STEPS
#define MORE(k) ((k)++ < STEPS)
#else
#define MORE(k) (1)
#endif
#ifdef FAR_KEYS
static const int64_t keys[4] = {INT64_MIN, -1, 4294967296L, INT64_MAX};
#else
static const int64_t keys[4] = {0, 1, 2, 3};
#endif
#ifndef LAST
#define LAST 0
#endif
static node_t *handle[CAP];
static int64_t key[CAP];
static int live[CAP], n;
static int64_t least(void) { int f = -1; for (int i = 0; i < CAP; i++) if (live[i] && (f < 0 || key[i] < key[f])) f = i; return f < 0 ? 0 : key[f]; }
static void same(pqueue_t *q) {
    OBLV(size, pqueue_size(q) == n && pqueue_capacity(q) == CAP, pqueue_size(q), n);
    node_t *t = pqueue_top(q);
    if (n == 0) { OBL(nothing_in_an_empty_one, t == NULL); return; }
    OBL(top_exists, t != NULL);
    OBLV(top_is_minimum, pqueue_node_key(t) == least(), pqueue_node_key(t), least());
    uint64_t l = pqueue_node_data(t).value;
    OBLV(top_was_inserted, l < CAP && live[l] && handle[l] == t, l, n);
    for (int i = 0; i < CAP; i++)
        if (live[i]) OBLV(handle_valid, pqueue_node_key(handle[i]) == key[i] && pqueue_node_data(handle[i]).value == i, pqueue_node_key(handle[i]), key[i]);
}
static void insert(pqueue_t *q, int64_t k) {
    int l = 0;
    data_t d;
    while (live[l]) l++;
    d.value = l;
    handle[l] = pqueue_insert(q, k, d);
    key[l] = k;
    live[l] = 1;
    n++;
    for (int i = 0; i < CAP; i++) if (i != l && live[i]) OBLV(handles_distinct, handle[i] != handle[l], i, l);
}
static void gone(int l) { live[l] = 0; handle[l] = NULL; key[l] = 0; n--; }
static void pop(pqueue_t *q) {
    int l = (int)pqueue_node_data(pqueue_top(q)).value;
    pqueue_pop(q);
    gone(l);
}
static void drop(pqueue_t *q, int l) { pqueue_remove(q, handle[l]); gone(l); }
int main(void) {
    pqueue_t *q = pqueue_alloc(CAP);
    same(q);
    /* every slot was used before */
    for (int i = 0; i < CAP; i++) insert(q, 0);
    for (int i = 0; i < CAP; i++) pop(q);
    same(q);
    int k = 0;
#if !defined(STEPS) && !defined(DRAIN)
    MARK(END);
#endif
#ifdef DRAIN
    for (int i = 0; i < CAP; i++) { insert(q, LAST && i == CAP - 1 ? keys[1] : keys[CHOOSE(NK)]); }
    same(q);
    int r = CHOOSE(CAP + 1);
    if (LAST && r == CAP) env_halt();
    if (r == CAP) pop(q); else drop(q, r);
    same(q);
    while (n > 0) { pop(q); same(q); }
#else
    while (MORE(k)) {
        int c = CHOOSE(CAP + 2);
        if (c < CAP) { if (!live[c]) env_halt(); drop(q, c); }
        else if (c == CAP) { if (n == 0) env_halt(); pop(q); }
        else { if (n == CAP) env_halt(); insert(q, keys[CHOOSE(NK)]); }
        c = 0;
        same(q);
    }
#endif
    MARK(END);
}
