/*META {"props": ["C12"], "program": "dw_node", "min_obl": 20, "need": ["resumed_after_required_replies"],
 "variants": [{"name": "multiple", "defs": ["-DKIND=0"]}, {"name": "concurrent", "defs": ["-DKIND=1"]}, {"name": "consecutive", "defs": ["-DKIND=2"]},
              {"name": "excess", "defs": ["-DKIND=3"]}, {"name": "gone", "defs": ["-DKIND=4"]}, {"name": "udp", "defs": ["-DKIND=5"]}, {"name": "split", "defs": ["-DKIND=6"]},
              {"name": "nested", "defs": ["-DKIND=7"]}, {"name": "many", "defs": ["-DKIND=8"], "caps": {"MAX_CONNS": "8"}}]} */
/* Replies to forwarded requests arrive in any order, with extra, late and unknown
 * ones; a request resumes exactly when it has the replies it needs.            */
#define HAVE_on_forward
#define HAVE_on_reply
#define HAVE_connect
#define HAVE_on_file_write
#define IS_HOP(a) ((a) != 0x0200000a)
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
static void on_reply(int hit);
#include "node.h"
#define A 0x0900000a
#define B 0x0a00000a
/* request r, forward s: r * 10 + s microseconds of computation identify it */
#define NR 5
static unsigned id_[NR][3];
static int sent[NR][3], fd_[NR][3][5], need[NR][3], got[NR][3], nst[NR], at[NR], store_n[NR];
static int step;
static void resumed(int r) { OBLV(resumed_after_required_replies, at[r] == 0 || got[r][at[r] - 1] >= need[r][at[r] - 1], r, at[r]); }
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, (a == A ? 40 : 41) + 2 * (p - 4000)); return 0; }
static void on_forward(int fd, const unsigned char *p, int n) {
    int u = g32(p + HDR + 4), r = u / 10, s = u % 10;
    OBLV(forward_of_a_request, g32(p + HDR) == W_COMPUTE && r > 0 && r < NR && s < nst[r], r, s);
    OBLV(forwards_in_order, s == at[r] || (s == at[r] - 1 && sent[r][s] < (KIND == 8 ? 5 : 2)), s, at[r]);
    if (s == at[r]) { resumed(r); at[r]++; }
    id_[r][s] = g32(p);
    fd_[r][s][sent[r][s]] = fd;
    sent[r][s]++;
}
void env_on_file_write(long off, int n) { OBLV(store_of_a_request, n > 0 && n < NR && at[n] == 1, n, off); resumed(n); store_n[n]++; }
static void on_reply(int hit) {
    int r = EXP[hit].id;
    OBLV(answered_after_all_forwards, at[r] == nst[r], at[r], nst[r]);
    resumed(r);
}
static void to_node(int fd, int n, int piece) {
    if (F[fd].stream) { put_bytes(fd, RQ, n); F[fd].rx_avail = F[fd].rx_len - piece; }
    else dgram(fd, RQ, n, A, 4000);
}
/* the reply to forward s of request r from its d-th destination */
static void ack(int r, int s, int d) {
    int n = R_answer(id_[r][s], 20 + r, 0);
    if (d >= sent[r][s]) d = 0;
    to_node(fd_[r][s][d], n, 0);
    got[r][s]++;
}
/* one that counts for nothing */
static void stray(int r, int s, unsigned delta) {
    int n = R_answer(id_[r][s] + delta, 20 + r, 0);
    to_node(fd_[r][s][0], n, 0);
}
static void fwd(int r, int s, int multi, int nack, int proto) {
    R_fwd(multi ? W_MULTI_FORWARD : W_FORWARD, A, 4000, 0, 0, 0, 1, proto);
    if (multi) R_fwd(W_MULTI_FORWARD, B, 4000, 0, 0, 0, 1, proto);
    if (KIND == 8) { R_fwd(W_MULTI_FORWARD, A, 4001, 0, 0, 0, 1, proto); R_fwd(W_MULTI_FORWARD, B, 4001, 0, 0, 0, 1, proto); R_fwd(W_MULTI_FORWARD, A, 4002, 0, 0, 0, 1, proto); }
    R_compute(r * 10 + s);
    if (KIND == 7) {
        /* what the next hop is to do may contain forwards and replies of its own */
        int k = CHOOSE(3);
        if (k > 0) { R_fwd(k == 1 ? W_FORWARD : W_MULTI_FORWARD, B, 5000, 0, 0, 0, 1, W_TCP); if (k == 2) R_fwd(W_MULTI_FORWARD, A, 5000, 0, 0, 0, 1, W_TCP); R_compute(99); R_reply(17, 1); }
        if (k == 2) R_compute(98);
    }
    R_reply(20 + r, nack);
    need[r][s] = nack < 1 ? 1 : nack;
    nst[r] = s + 1;
}
static void finish(int tag, int r) {
    R_reply(30 + r, 1);
    R_end(0);
    if (KIND == 5) { client_dgram(0x0200000a, 60 + r); expect_dgram(r, 30 + r, 0x0200000a, 60 + r); return; }
    client_sends(tag);
    expect(tag, r, 30 + r, 0);
    deliver_all(tag);
}
static int is_answered(int r) { for (int i = 0; i < NEXP; i++) if (EXP[i].id == r && EXP[i].answered) return 1; return 0; }
int env_idle(void) {
    step++;
    if (step == 1) { if (KIND != 5) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); } return 1; }
#if KIND == 0
    if (step == 2) { R_begin(1); fwd(1, 0, 1, CHOOSE(3), W_TCP); if (CHOOSE(2)) R_store(9, 1, 0); finish(1, 1); return 1; }
    if (step == 3) { ack(1, 0, CHOOSE(2)); return 1; }
    if (step == 4) { OBL(resumes_when_complete, is_answered(1) == (got[1][0] >= need[1][0])); ack(1, 0, CHOOSE(2)); return 1; }
    if (step == 5) { OBL(resumes_when_complete, is_answered(1)); stray(1, 0, 0); return 1; }
    if (step == 6) { R_begin(2); fwd(2, 0, 0, 1, W_TCP); finish(2, 2); return 1; }
    if (step == 7) { ack(2, 0, 0); return 1; }
#elif KIND == 1
    /* three forwarded requests, two of the same client, answered in any order */
    if (step == 2) { R_begin(1); fwd(1, 0, 0, 1, W_TCP); if (CHOOSE(2)) R_store(9, 1, 0); finish(1, 1); R_begin(2); fwd(2, 0, 1, 2, W_TCP); finish(2, 2); return 1; }
    if (step == 3) { R_begin(3); fwd(3, 0, 0, 1, W_TCP); if (CHOOSE(2)) R_store(9, 3, 0); finish(1, 3); return 1; }
    if (step == 4) {
        env_evmode = CHOOSE(3);
        int o = CHOOSE(6), b = CHOOSE(2), together = CHOOSE(2);
        int first = o / 2, second = (first + 1 + o % 2) % 3, third = 3 - first - second;
        ack(first + 1, 0, 0); if (first == 1 && b) ack(2, 0, 1);
        ack(second + 1, 0, 0);
        ack(third + 1, 0, 0);
        if (!(first == 1 && b)) ack(2, 0, 1);
        return 1;
    }
#elif KIND == 2
    if (step == 2) { R_begin(1); fwd(1, 0, CHOOSE(2), 1, W_TCP); if (CHOOSE(2)) R_store(9, 1, 0); fwd(1, 1, CHOOSE(2), 1, W_TCP); fwd(1, 2, 0, CHOOSE(2), W_TCP); finish(1, 1); return 1; }
    if (step == 3) { OBL(waits_for_its_replies, at[1] == 1); ack(1, 0, CHOOSE(2)); return 1; }
    if (step == 4) { OBL(waits_for_its_replies, at[1] == 2); ack(1, 1, CHOOSE(2)); return 1; }
    if (step == 5) { OBL(waits_for_its_replies, at[1] == 3); ack(1, 2, 0); return 1; }
#elif KIND == 3
    /* the second reply to the first forward comes while the second is pending */
    if (step == 2) { R_begin(1); fwd(1, 0, 1, 1, W_TCP); fwd(1, 1, CHOOSE(2), 1, W_TCP); finish(1, 1); R_begin(2); fwd(2, 0, 1, 2, W_TCP); finish(2, 2); return 1; }
    if (step == 3) { ack(1, 0, 0); return 1; }
    if (step == 4) {
        OBL(waits_for_its_replies, at[1] == 2);
        int k = CHOOSE(4);
        if (k == 0) stray(1, 0, 0);
        if (k == 1) stray(1, 1, 1000);
        if (k == 2) stray(2, 0, 0x80000000u);
        if (k == 3) { stray(1, 0, 0); stray(1, 0, 0); }
        return 1;
    }
    if (step == 5) { OBL(excess_replies_ignored, !is_answered(1) && !is_answered(2)); ack(1, 1, 0); return 1; }
    if (step == 6) { OBL(resumes_when_complete, is_answered(1) && !is_answered(2)); stray(1, 1, 0); stray(1, 0, 0); return 1; }
    if (step == 7) { OBL(excess_replies_ignored, !is_answered(2)); ack(2, 0, 0); return 1; }
    if (step == 8) { OBL(waits_for_its_replies, !is_answered(2)); ack(2, 0, 1); return 1; }
#elif KIND == 4
    /* the client of a forwarded request disappears; its slot is used again */
    if (step == 2) { R_begin(1); fwd(1, 0, 0, 1, W_TCP); finish(1, 1); return 1; }
    if (step == 3) { int fd = fd_of_tag(1); if (CHOOSE(2)) F[fd].eof = 2; else F[fd].rst = 1; return 1; }
    if (step == 4) { EXP[0].answered = 1; new_conn_on(find_listener(0), 3); return 1; }
    if (step == 5) { R_begin(2); fwd(2, 0, 0, 1, W_TCP); finish(2, 2); R_begin(3); fwd(3, 0, 1, 2, W_TCP); finish(3, 3); R_begin(4); fwd(4, 0, 0, 1, W_TCP); finish(3, 4); return 1; }
    if (step == 6) { stray(1, 0, 0); if (CHOOSE(2)) stray(1, 0, 0); return 1; }
    if (step == 7) { OBL(late_reply_ignored, !is_answered(2) && !is_answered(3) && !is_answered(4)); ack(2, 0, 0); ack(4, 0, 0); ack(3, 0, 1); ack(3, 0, 0); return 1; }
#elif KIND == 5
    if (step == 2) { R_begin(1); fwd(1, 0, 0, 1, CHOOSE(2)); if (CHOOSE(2)) R_store(9, 1, 0); finish(0, 1); R_begin(2); fwd(2, 0, 0, 1, W_UDP); fwd(2, 1, 0, 1, W_UDP); finish(0, 2); return 1; }
    if (step == 3) { ack(2, 0, 0); if (CHOOSE(2)) { ack(1, 0, 0); stray(1, 0, 0); } return 1; }
    if (step == 4) { if (!got[1][0]) ack(1, 0, 0); ack(2, 1, 0); return 1; }
#elif KIND == 7
    if (step == 2) { R_begin(1); fwd(1, 0, CHOOSE(2), 1, W_TCP); if (CHOOSE(2)) R_store(9, 1, 0); fwd(1, 1, 0, 1, W_TCP); finish(1, 1); return 1; }
    if (step == 3) { OBL(waits_for_its_replies, at[1] == 1); ack(1, 0, CHOOSE(2)); return 1; }
    if (step == 4) { OBL(waits_for_its_replies, at[1] == 2); ack(1, 1, 0); return 1; }
#elif KIND == 8
    if (step == 2) { R_begin(1); fwd(1, 0, 1, 1 + CHOOSE(5), W_TCP); finish(1, 1); return 1; }
    if (step >= 3 && step <= 7) { ack(1, 0, step == 3 ? CHOOSE(5) : (step * 2) % 5); return 1; }
    if (step == 8) { R_begin(2); fwd(2, 0, 1, 5, W_TCP); finish(2, 2); return 1; }
    if (step >= 9 && step <= 13) { OBL(waits_for_its_replies, !is_answered(2)); ack(2, 0, step - 9); return 1; }
#else
    /* replies cut at any point, several in one segment */
    if (step == 2) { R_begin(1); fwd(1, 0, 0, 1, W_TCP); finish(1, 1); R_begin(2); fwd(2, 0, 0, 1, W_TCP); fwd(2, 1, 0, 1, W_TCP); finish(2, 2); return 1; }
    if (step == 3) { ack(2, 0, 0); ack(1, 0, 0); int fd = fd_[1][0][0]; F[fd].rx_avail = CHOOSE(43); return 1; }
    if (step == 4) { int fd = fd_[1][0][0]; F[fd].rx_avail = F[fd].rx_len; return 1; }
    if (step == 5) { ack(2, 1, 0); return 1; }
#endif
    return 0;
}
int main(void) {
    env_max_events = 200;
    if (KIND == 5) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    for (int r = 1; r < NR; r++) OBLV(every_forward_done, at[r] == nst[r] && store_n[r] <= 1, r, at[r]);
    MARK(END);
    return 0;
}
