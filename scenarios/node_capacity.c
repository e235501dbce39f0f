/*META {"props": ["C06"], "program": "dw_node", "min_obl": 30,
 "variants": [{"name": "connections", "defs": ["-DKIND=0"], "caps": {"MAX_CONNS": "3"}}, {"name": "requests", "defs": ["-DKIND=1"], "caps": {"MAX_REQS": "4u"}},
              {"name": "descriptors", "defs": ["-DKIND=2"]}, {"name": "skip-busy", "defs": ["-DKIND=3"], "caps": {"MAX_REQS": "2u"}},
              {"name": "hops", "defs": ["-DKIND=4"], "caps": {"MAX_CONNS": "2"}}, {"name": "udp-requests", "defs": ["-DKIND=5"], "caps": {"MAX_REQS": "2u"}},
              {"name": "refill", "defs": ["-DKIND=6"], "caps": {"MAX_CONNS": "2"}},
              {"name": "refill-busy", "defs": ["-DKIND=7"], "caps": {"MAX_CONNS": "3", "MAX_REQS": "2u"}}]} */
/* The tables are filled up, exceeded, and emptied again in different orders. */
#define HAVE_on_forward
#define HAVE_connect
#define HAVE_on_close
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
static int step, excess, pick;
static unsigned fwd_id[6];
static int nfwd;
void env_on_close(int fd) {
    int t = F[fd].tag;
    if (t > 0 && t < 40 && !term_pending) OBLV(only_the_excess_is_refused, may_close[t] || F[fd].eof || F[fd].rst, t, fd);
    if (t > 0) closed_by_node[t] = 1;
}
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40 + p - 4000); return 0; }
static void on_forward(int fd, const unsigned char *p, int n) { fwd_id[nfwd] = g32(p); nfwd++; }
static void simple(int tag, unsigned id) { R_begin(id); R_compute(1); R_reply(20, 1); R_end(0); client_sends(tag); expect(tag, id, 20, 0); deliver_all(tag); }
static void storing(int tag, unsigned id) { R_begin(id); R_store((uint64_t)-1, 10, 0); R_reply(20, 1); R_end(0); client_sends(tag); deliver_all(tag); }
static void open_conn(int tag) { new_conn_on(find_listener(0), tag); }
int env_idle(void) {
    step++;
#if KIND == 0
    if (step == 1) { open_conn(1); open_conn(2); open_conn(3); return 1; }
    if (step == 2) { may_close[4] = 1; open_conn(4); simple(1, 1); return 1; }
    if (step == 3) { OBL(excess_connection_refused, closed_by_node[4]); simple(1, 2); simple(2, 2); simple(3, 2); return 1; }
    if (step == 4) { pick = 1 + CHOOSE(3); int fd = fd_of_tag(pick); may_close[pick] = 1; if (CHOOSE(2)) F[fd].eof = 1; else F[fd].rst = 1; return 1; }
    if (step == 5) { OBL(lost_connection_released, closed_by_node[pick]); open_conn(5); return 1; }
    if (step == 6) { OBL(capacity_recovered, fd_of_tag(5) >= 0); simple(5, 7); simple(pick == 1 ? 2 : 1, 8); return 1; }
    if (step == 7) { may_close[6] = 1; open_conn(6); simple(5, 9); return 1; }
    if (step == 8) { OBL(excess_connection_refused, closed_by_node[6]); return 1; }
#elif KIND == 1
    /* four requests wait for storage, the fifth has no slot */
    if (step == 1) { open_conn(1); open_conn(2); return 1; }
    if (step == 2) { env_storage_hold = 1; storing(1, 1); storing(1, 2); storing(2, 3); storing(2, 4); expect(1, 1, 20, 0); expect(1, 2, 20, 0); return 1; }
    if (step == 3) { if (CHOOSE(2)) { may_close[2] = 1; R_begin(5); R_compute(1); R_reply(20, 1); R_end(0); client_sends(2); deliver_all(2); excess = 1; } return 1; }
    if (step == 4) { if (!closed_by_node[2]) { OBL(request_slots_all_usable, !excess); expect(2, 3, 20, 0); expect(2, 4, 20, 0); } env_storage_hold = 0; return 1; }
    if (step == 5) { OBL(pending_requests_completed, all_answered()); simple(1, 6); simple(1, 7); return 1; }
    if (step == 6) { open_conn(3); return 1; }
    if (step == 7) { simple(3, 1); simple(3, 2); simple(3, 3); simple(1, 9); return 1; }
#elif KIND == 2
    if (step == 1) { open_conn(1); return 1; }
    if (step == 2) { int c = CHOOSE(4); env_accept_errno = c == 0 ? EMFILE : c == 1 ? ENFILE : c == 2 ? ECONNABORTED : ENOBUFS; open_conn(2); simple(1, 1); return 1; }
    if (step == 3) { OBL(accept_was_tried, env_accept_failures == 1); simple(1, 2); return 1; }
    if (step == 4) { open_conn(3); return 1; }
    if (step == 5) { simple(3, 1); simple(1, 3); return 1; }
#elif KIND == 3
    /* one slot is held for long, the other one serves everybody else */
    if (step == 1) { open_conn(1); open_conn(2); return 1; }
    if (step == 2) { env_storage_hold = 1; storing(1, 1); return 1; }
    if (step == 3) { simple(2, 1); return 1; }
    if (step == 4) { simple(2, 2); simple(2, 3); return 1; }
    if (step == 5) { simple(1, 4); return 1; }
    if (step == 6) { OBL(free_slot_used, all_answered()); env_storage_hold = 0; expect(1, 1, 20, 0); return 1; }
    if (step == 7) { simple(2, 5); simple(1, 6); return 1; }
#elif KIND == 4
    /* a forward needs a slot for the next hop, and gets it once there is one */
    if (step == 1) { open_conn(1); open_conn(2); return 1; }
    if (step == 2) { may_close[1] = 1; R_begin(1); R_fwd(W_FORWARD, 0x0900000a, 4000, 40, 0, 0, 1, W_TCP); R_compute(1); R_reply(30, 1); R_reply(20, 1); R_end(0); client_sends(1); deliver_all(1); simple(2, 5); return 1; }
    if (step == 3) { OBL(no_slot_for_next_hop, nfwd == 0 && fd_of_tag(40) < 0); for (int i = 3; i < NFD; i++) OBLV(no_descriptor_leaked, F[i].kind != K_RAW, i, step); simple(2, 6); if (!closed_by_node[1]) F[fd_of_tag(1)].eof = 1; return 1; }
    if (step == 4) { R_begin(7); R_fwd(W_FORWARD, 0x0900000a, 4000, 40, 0, 0, 1, W_TCP); R_compute(1); R_reply(30, 1); R_reply(24, 1); R_end(0); client_sends(2); deliver_all(2); expect(2, 7, 24, 0); return 1; }
    if (step == 5) { OBL(slot_of_lost_connection_used, nfwd == 1); R_answer(fwd_id[0], 30, 0); client_sends(40); deliver_all(40); return 1; }
    if (step == 6) { simple(2, 9); return 1; }
#elif KIND == 5
    uint32_t A = 0x0200000a;
    if (step == 1) {
        env_storage_hold = 1;
        for (int i = 1; i <= 2; i++) { R_begin(i); R_store((uint64_t)-1, 10, 0); R_reply(20, 1); R_end(0); client_dgram(A, i); expect_dgram(i, 20, A, i); }
        return 1;
    }
    if (step == 2) { R_begin(9); R_compute(1); R_reply(20, 1); R_end(0); client_dgram(A, 9); return 1; }  /* no slot left: may be lost */
    if (step == 3) { env_storage_hold = 0; return 1; }
    if (step == 4) { OBL(pending_requests_completed, all_answered()); for (int i = 3; i <= 4; i++) { R_begin(i); R_compute(1); R_reply(24, 1); R_end(0); client_dgram(A, i); expect_dgram(i, 24, A, i); } return 1; }
#elif KIND == 7
    /* whatever a connection was doing when lost, its slots can be used again */
    if (step == 1) { open_conn(1); return 1; }
    if (step <= 13) {
        int g = (step - 2) / 3 + 2, ph = (step - 2) % 3;
        if (ph == 0) open_conn(g);
        if (ph == 1) {
            OBLV(capacity_recovered, fd_of_tag(g) >= 0, g, pick);
            pick = g == 5 ? 0 : g == 4 ? 3 : CHOOSE(5);
            may_close[g] = 1;
            env_storage_hold = pick == 1;
            if (pick == 0) F[fd_of_tag(g)].tx_win = 7;
            R_begin(g);
            if (pick == 1) R_store((uint64_t)-1, 10, 0);
            if (pick >= 3) { R_fwd(W_FORWARD, 0x0900000a, 4000, 40, pick == 3 ? 0 : 9000, 0, 1, W_TCP); R_compute(1); R_reply(30, 1); }
            R_reply(20, 1); R_end(0); client_sends(g);
            if (pick == 0) { expect(g, g, 20, 0); EXP[NEXP - 1].answered = 1; }
            deliver(g, pick == 2 ? 14 : 1000);
        }
        if (ph == 2) { int fd = fd_of_tag(g); OBLV(capacity_recovered, fd >= 0, g, pick); if (g < 4 && CHOOSE(2)) F[fd].rst = 1; else F[fd].eof = 2; }
        return 1;
    }
    if (step == 14) { env_storage_hold = 0; NEXP = 0; open_conn(6); return 1; }
    if (step == 15) { OBLV(capacity_recovered, fd_of_tag(6) >= 0, 6, pick); simple(6, 8); simple(1, 9); return 1; }
#else
    /* many generations of connections go through two slots */
    if (step >= 1 && step <= 16) {
        int g = (step - 1) / 4 + 1, ph = (step - 1) % 4;
        if (ph == 0) { open_conn(2 * g); open_conn(2 * g + 1); }
        if (ph == 1) { simple(2 * g, 1); simple(2 * g + 1, 2); }
        if (ph == 2) { int a = CHOOSE(2); F[fd_of_tag(2 * g + a)].eof = 1; if (CHOOSE(2)) { F[fd_of_tag(2 * g + !a)].rst = 1; return 1; } NEXP = 0; simple(2 * g + !a, 3); pick = 2 * g + !a; }
        if (ph == 3) { OBL(generation_served, all_answered()); NEXP = 0; if (pick) { F[fd_of_tag(pick)].eof = 1; pick = 0; } else now_us++; }
        return 1;
    }
#endif
    return 0;
}
int main(void) {
    env_max_events = 300;
    if (KIND == 5) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    MARK(END);
    return 0;
}
