/*META {"props": ["C01"], "program": "dw_node", "min_obl": 50,
 "variants": [{"name": "cut", "defs": ["-DKIND=0"]}, {"name": "bytes", "defs": ["-DKIND=1"]}, {"name": "two-cuts", "defs": ["-DKIND=2"]},
              {"name": "burst", "defs": ["-DKIND=3", "-DMAXEXP=80", "-DRXCAP=4096"], "caps": {"BUF_SIZE": "2048", "MAX_REQS": "128u"}},
              {"name": "spurious", "defs": ["-DKIND=4"]},
              {"name": "after-failure", "defs": ["-DKIND=5"]},
              {"name": "out-of-order", "defs": ["-DKIND=6"], "caps": {"MAX_REQS": "3u"}}]} */
/* One connection, pipelined requests, delivered in arbitrary segments. */
#define HAVE_on_forward
#define HAVE_connect
#include "env.h"
static unsigned fwd_id[8];
static int nfwd, hopfd, done_[8];
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
static void on_forward(int fd, const unsigned char *p, int n) { (void)n; hopfd = fd; if (nfwd < 8) fwd_id[nfwd++] = g32(p); }
int env_connect(int fd, uint32_t a, uint16_t p) { (void)a; (void)p; hop_opened(fd, 40); return 0; }
static int step, total;
static void three(unsigned id) {
    R_begin(id); R_compute(3); R_reply(40, 1); R_end(0); client_sends(1); expect(1, id, 40, 0);
    R_begin(id + 1); R_reply(16, 1); R_end(60); client_sends(1); expect(1, id + 1, 16, 0);
    R_begin(5); R_compute(2); R_compute(1); R_reply(33, 1); R_end(64); client_sends(1); expect(1, 5, 33, 0);
}
/* a request that waits for another node; its position among those forwarded is its number */
static void waits(int tag, unsigned id) { R_begin(id); R_compute(1); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 0, 0, 1, W_TCP); R_reply(20, 1); R_compute(1); R_reply(30 + id, 1); R_end(0); client_sends(tag); expect(tag, id, 30 + id, 0); deliver_all(tag); }
/* the k-th of those not yet answered */
static void hop_answers(int k) {
    for (int i = 0; i < nfwd; i++)
        if (!done_[i] && k-- == 0) { done_[i] = 1; int n = R_answer(fwd_id[i], 20, 0); put_bytes(hopfd, RQ, n); F[hopfd].rx_avail = F[hopfd].rx_len; }
}
/* several requests of two connections, completed in any order, their slots used again in between */
static int histories(void) {
    static int order;
    switch (step) {
    case 2: order = CHOOSE(3); waits(order == 0 ? 2 : 1, 1); return 1;
    case 3: waits(order == 1 ? 2 : 1, 2); return 1;
    case 4: waits(order == 2 ? 2 : 1, 3); return 1;
    case 5: hop_answers(CHOOSE(3)); return 1;
    case 6: waits(1 + CHOOSE(2), 4); return 1;
    case 7: hop_answers(CHOOSE(3)); return 1;
    case 8: hop_answers(CHOOSE(2)); return 1;
    case 9: hop_answers(0); return 1;
    case 10: waits(1, 5); waits(2, 6); return 1;
    case 11: hop_answers(1); return 1;
    case 12: hop_answers(0); return 1;
    }
    OBLV(forwarded, nfwd == 6, nfwd, 6);
    return 0;
}
int env_idle(void) {
    step++;
    if (step == 1) { new_conn_on(find_listener(0), 1); if (KIND == 6) new_conn_on(find_listener(0), 2); return 1; }
    if (KIND == 6) return histories();
    int fd = fd_of_tag(1);
    if (step == 2 && KIND == 3) {
        /* as many as fit the buffer at once, then some more */
        int n = CHOOSE(3), k = n == 0 ? 70 : n == 1 ? 13 : 33;
        for (int i = 0; i < k; i++) { R_begin(100 + i); if (i % 5 == 1) R_compute(1); R_reply(16 + i % 3, 1); R_end(0); client_sends(1); expect(1, 100 + i, 16 + i % 3, 0); }
        total = F[fd].rx_len;
        deliver_all(1);
        return 1;
    }
    if (step == 2 && KIND == 4) { three(7); total = F[fd].rx_len; env_spurious = CHOOSE(3); deliver(1, 1 + 30 * CHOOSE(4)); return 1; }
    if (step == 3 && KIND == 4) { env_spurious = CHOOSE(2); deliver_all(1); return 1; }
    if (KIND == 5) {
        /* requests before, during and after one that is reported as failed */
        if (step == 2) {
            R_begin(1); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 100, 0, 1, W_TCP); R_compute(1); R_reply(20, 1);
            if (CHOOSE(2)) R_compute(2);
            R_reply(16 + 24 * CHOOSE(2), 1); R_end(0); client_sends(1); expect(1, 1, g32(RQ + RQN - 12), -1);
            if (CHOOSE(2)) { R_begin(2); R_reply(30, 1); R_end(0); client_sends(1); expect(1, 2, 30, 0); }
            deliver_all(1);
            return 1;
        }
        if (step == 3) { now_us += 150; return 1; }
        if (step == 4) { three(7); deliver_all(1); return 1; }
        return 0;
    }
    if (step == 2) {
        three(CHOOSE(2) ? 0xfffffffeu : 7);
        total = F[fd].rx_len;
        if (KIND == 1) deliver(1, 1);
        else deliver(1, 1 + CHOOSE(total));
        return 1;
    }
    if (F[fd].rx_avail < total) {
        if (KIND == 0) deliver_all(1);
        else if (KIND == 1) deliver(1, 1);
        else if (step > 3) deliver_all(1);
        else { int c = CHOOSE(4); deliver(1, c == 0 ? 1 : c == 1 ? 11 : c == 2 ? 12 : 1000); }
        return 1;
    }
    return 0;
}
int main(void) {
    env_max_events = 300;
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    OBL(no_trailing_bytes, no_trailing());
    MARK(END);
    return 0;
}
