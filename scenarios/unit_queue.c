/*META {"props": ["C23"], "program": "queue", "units": ["queue"], "models": [], "min_obl": 200, "need": ["first_and_last", "size", "refused_beyond_capacity", "contents"],
 "subject": "src/queue.c",
 "variants": [{"name": "steps-1", "defs": ["-DCAP=1", "-DSTEPS=8"], "min_obl": 10}, {"name": "steps-2", "defs": ["-DCAP=2", "-DSTEPS=10"], "min_obl": 50},
              {"name": "steps-3", "defs": ["-DCAP=3", "-DSTEPS=12"]}, {"name": "steps-4", "defs": ["-DCAP=4", "-DSTEPS=10"]},
              {"name": "always-1", "defs": ["-DCAP=1"], "min_obl": 10, "optional": 60}, {"name": "always-2", "defs": ["-DCAP=2"], "min_obl": 50, "optional": 60},
              {"name": "always-3", "defs": ["-DCAP=3"], "optional": 90}, {"name": "always-4", "defs": ["-DCAP=4"], "optional": 90}, {"name": "always-5", "defs": ["-DCAP=5"], "optional": 120}]} */
/* Sequences of operations, against a plain array. Without STEPS the loop is analysed to a fixpoint,
   one abstract state per distinct content of the queue: any number of operations. */
#ifdef STEPS
#define MORE(k) ((k)++ < STEPS)
#else
#define MORE(k) (1)
#endif
#include "env.h"
#include "queue.h"
static int want[CAP], n, v;
static void same(queue_t *q) {
    OBLV(size, queue_size(q) == n && queue_capacity(q) == CAP, queue_size(q), n);
    node_t *h = queue_head(q), *t = queue_tail(q);
    if (n == 0) { OBL(nothing_in_an_empty_one, h == NULL && t == NULL); return; }
    OBL(first_and_last_exist, h != NULL && t != NULL);
    OBLV(first_and_last, queue_node_key(h) == want[0] && queue_node_key(t) == want[n - 1], queue_node_key(h), queue_node_key(t));
    OBLV(contents, queue_node_data(h).value == want[0] + 100 && queue_node_data(t).value == want[n - 1] + 100, queue_node_data(h).value, queue_node_data(t).value);
}
int main(void) {
    queue_t *q = queue_alloc(CAP);
    data_t d;
    node_t *e;
    d.ptr = NULL;
    same(q);
    for (int i = 0; i < CAP; i++) { d.value = 0; queue_enqueue(q, 0, d); }
    queue_drop(q);
    same(q);
    MARK(END);
    int k = 0;
    while (MORE(k)) {
        switch (CHOOSE(4)) {
        case 0:
            v = CHOOSE(2); /* two values tell every position apart, over all contents */
            d.ptr = NULL;
            d.value = v + 100;
            e = queue_enqueue(q, v, d);
            if (n == CAP) OBL(refused_beyond_capacity, e == NULL);
            else {
                want[n++] = v;
                OBL(accepted_within_capacity, e != NULL);
                OBLV(element_returned, queue_node_key(e) == v && queue_node_data(e).value == v + 100, queue_node_key(e), v);
            }
            v = 0;
            d.value = 0;
            e = NULL;
            break;
        case 1:
            queue_dequeue_head(q);
            if (n > 0) { for (int i = 1; i < n; i++) want[i - 1] = want[i]; n--; want[n] = 0; }
            break;
        case 2:
            queue_dequeue_tail(q);
            if (n > 0) { n--; want[n] = 0; }
            break;
        default:
            queue_drop(q);
            while (n > 0) { n--; want[n] = 0; }
            break;
        }
        same(q);
    }
}
