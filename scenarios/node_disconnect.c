/*META {"props": ["C05"], "program": "dw_node", "min_obl": 50,
 "variants": [{"name": "partial", "defs": ["-DKIND=0"]}, {"name": "storage", "defs": ["-DKIND=1"]}, {"name": "forward", "defs": ["-DKIND=2"]},
              {"name": "timeout", "defs": ["-DKIND=3"]}, {"name": "output", "defs": ["-DKIND=4"]}, {"name": "nexthop", "defs": ["-DKIND=5"]},
              {"name": "batch", "defs": ["-DKIND=6"]}, {"name": "sole", "defs": ["-DKIND=7"]}]} */
/* A peer disappears (end of stream or reset) at some point of the exchange while
 * another is being served; its slot is then taken by a third one.               */
#define HAVE_on_forward
#define HAVE_on_reply
#define HAVE_connect
#define HAVE_on_file_write
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
static void on_reply(int hit);
#include "node.h"
static int dbg, step, how, stores[4], hop_up = 1;
static unsigned fwd_id[6];
static int nfwd;
static int fwd_done_for_3, must_store[4];

static void lose(int tag) {
    int fd = fd_of_tag(tag);
    may_close[tag] = 1;
    how = CHOOSE(3);
    if (how == 0) F[fd].eof = 1;            /* orderly close */
    else if (how == 1) { F[fd].rst = 1; }   /* reset */
    else { F[fd].eof = 2; }                 /* closed, and writing to it fails */
}
void env_on_file_write(long off, int n) { stores[n / 10]++; OBLV(store_executed_once, stores[n / 10] == 1, n, stores[n / 10]); }
static void on_reply(int hit) {
    int t = EXP[hit].tag;
    OBLV(reply_after_own_store, must_store[t] != EXP[hit].id || stores[t] == 1, t, stores[t]);
}
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40 + p - 4000); return hop_up == 2; }
static void on_forward(int fd, const unsigned char *p, int n) { fwd_id[nfwd] = g32(p); nfwd++; }
static void simple(int tag, unsigned id, int size) { R_begin(id); R_compute(1); R_reply(size, 1); R_end(0); client_sends(tag); expect(tag, id, size, 0); deliver_all(tag); }
static void storing(int tag, unsigned id, int size) {
    R_begin(id); R_store((uint64_t)-1, tag * 10, 0); R_reply(size, 1); R_end(0); client_sends(tag);
    must_store[tag] = id;
    deliver_all(tag);
}
static void forwarding(int tag, unsigned id, int size, int timeout) {
    R_begin(id); R_fwd(W_FORWARD, 0x0900000a, 4000, 40, timeout, 0, 1, W_TCP); R_compute(1); R_reply(30, 1); R_reply(size, 1); R_end(0);
    client_sends(tag);
    deliver_all(tag);
}
static void answer(unsigned id) { R_answer(id, 30, 0); client_sends(40); deliver_all(40); }
int env_idle(void) {
    step++;
    if (step == 1) { new_conn_on(find_listener(0), 1); return 1; }
    if (step == 2 && KIND != 7) { new_conn_on(find_listener(0), 2); return 1; }
#if KIND == 0
    if (step == 3) {
        R_begin(5); R_compute(1); R_reply(20, 1); R_end(0); client_sends(1);
        int c = CHOOSE(4);
        deliver(1, c == 0 ? 1 : c == 1 ? 12 : c == 2 ? 20 : RQN - 1);
        return 1;
    }
    if (step == 4) { lose(1); if (CHOOSE(2)) simple(2, 8, 24); return 1; }
    if (step == 5) { new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) { simple(3, 5, 40); return 1; }
    if (step == 7) { simple(2, 9, 40); return 1; }
    /* the largest request there is room for */
    if (step == 8) { R_begin(7); R_compute(1); R_reply(48, 1); R_end(CAP_BUF_SIZE); client_sends(3); expect(3, 7, 48, 0); deliver_all(3); return 1; }
#elif KIND == 1
    if (step == 3) { env_storage_hold = 1; storing(1, 5, 20); if (CHOOSE(2)) { storing(2, 6, 24); expect(2, 6, 24, 0); } return 1; }
    if (step == 4) { lose(1); if (CHOOSE(2)) env_storage_hold = 0; return 1; }
    if (step == 5) { new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) {
        /* the newcomer has a store of its own in flight when the old one completes */
        storing(3, 5, 40); expect(3, 5, 40, 0); return 1;
    }
    if (step == 7) { env_storage_hold = 0; simple(2, 9, 40); return 1; }
#elif KIND == 2
    if (step == 3) { forwarding(1, 5, 20, 0); return 1; }
    if (step == 4) { lose(1); if (CHOOSE(2)) answer(fwd_id[0]); return 1; }
    if (step == 5) { new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) { forwarding(3, 5, 40, 0); return 1; }
    if (step == 7) { answer(fwd_id[0]); return 1; }     /* late, or twice */
    if (step == 8) { OBL(late_reply_not_taken, answered(3) == 0); expect(3, 5, 40, 0); answer(fwd_id[1]); simple(2, 9, 40); return 1; }
#elif KIND == 3
    if (step == 3) { forwarding(1, 5, 20, 5000); if (CHOOSE(2)) { forwarding(2, 6, 24, 9000); expect(2, 6, 24, -1); } return 1; }
    if (step == 4) { lose(1); return 1; }
    if (step == 5) { now_us += CHOOSE(2) ? 6000 : 20000; new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) { forwarding(3, 5, 40, 7000); return 1; }
    if (step == 7) { now_us += 6000; return 1; }
    if (step == 8) { OBL(timeout_of_the_lost_request_is_gone, answered(3) == 0); expect(3, 5, 40, 0); answer(fwd_id[nfwd - 1]); simple(2, 9, 40); return 1; }
    if (step == 9) { now_us += 100000; return 1; }
#elif KIND == 4
    if (step == 3) {
        F[fd_of_tag(1)].tx_win = CHOOSE(3) * 11;
        R_begin(5); R_reply(60, 1); R_end(0); client_sends(1); R_begin(6); R_reply(60, 1); R_end(0); client_sends(1); deliver_all(1);
        expect(1, 5, 60, 0); expect(1, 6, 60, 0);
        return 1;
    }
    if (step == 4) { lose(1); NEXP = 0; F[fd_of_tag(1)].tx_win = TXCAP; if (CHOOSE(2)) simple(2, 8, 24); return 1; }
    if (step == 5) { new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) { simple(3, 5, 40); return 1; }
    if (step == 7) { simple(2, 9, 40); return 1; }
    if (step == 8) { simple(3, 7, CAP_BUF_SIZE); return 1; }
#elif KIND == 5
    /* the next hop goes away; the request times out, others are unaffected */
    if (step == 3) { hop_up = 1 + CHOOSE(2); forwarding(1, 5, 20, 5000); expect(1, 5, 20, -1); return 1; }
    if (step == 4) {
        int fd = fd_of_tag(40), c = CHOOSE(4); dbg = hop_up * 10 + c;
        if (hop_up == 2) F[fd].conn_state = c == 0 ? 2 : 3;
        if (c == 1) F[fd].eof = 1;
        if (c == 2) F[fd].rst = 1;
        if (c == 3) { F[fd].eof = 2; }
        simple(2, 8, 24);
        return 1;
    }
    if (step == 5) { now_us += 6000; return 1; }
    if (step == 6) { hop_up = 1; nfwd = 0; forwarding(2, 7, 33, 0); return 1; }
    if (step == 7) { OBLV(next_hop_reached_again, nfwd == 1, dbg, nfwd); expect(2, 7, 33, 0); answer(fwd_id[0]); return 1; }
    if (step == 8) { simple(1, 9, 40); return 1; }
#elif KIND == 7
    /* nobody else is connected */
    if (step == 2) { dbg = CHOOSE(4); if (dbg == 0) { env_storage_hold = 1; storing(1, 5, 20); } else if (dbg == 3) { R_begin(5); R_compute(1); R_reply(20, 1); R_end(0); client_sends(1); deliver(1, 15); } else forwarding(1, 5, 20, dbg == 1 ? 0 : 500); return 1; }
    if (step == 3) { lose(1); if (CHOOSE(2)) env_storage_hold = 0; return 1; }
    if (step == 4) { env_storage_hold = 0; now_us += 1000; if (dbg == 1) answer(fwd_id[0]); return 1; }
    if (step == 5) { if (CHOOSE(2)) now_us += 1000; new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) { simple(3, 5, 40); return 1; }
    if (step == 7) { storing(3, 6, 30); expect(3, 6, 30, 0); return 1; }
    if (step == 8) { nfwd = 0; forwarding(3, 7, 33, 0); return 1; }
    if (step == 9) { OBLV(next_hop_reached_again, nfwd == 1, dbg, nfwd); expect(3, 7, 33, 0); answer(fwd_id[0]); return 1; }
#else
    /* several events at once, one of them a disconnection */
    if (step == 3) { env_storage_hold = 1; storing(1, 5, 20); forwarding(2, 6, 24, CHOOSE(2) * 9000); return 1; }
    if (step == 4) { env_storage_hold = 0; env_evmode = 1 + CHOOSE(2); lose(1); answer(fwd_id[0]); expect(2, 6, 24, 0); simple(2, 7, 21); new_conn_on(find_listener(0), 3); return 1; }
    if (step == 5) { simple(3, 5, 40); return 1; }
    if (step == 6) { simple(2, 9, 40); return 1; }
#endif
    return 0;
}
int main(void) {
    env_max_events = 200;
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    MARK(END);
    return 0;
}
