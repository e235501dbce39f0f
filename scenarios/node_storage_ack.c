/*META {"props": ["C10"], "program": "dw_node", "min_obl": 20, "need": ["operation_of_a_request", "next_operation"],
 "variants": [{"name": "pipelined", "defs": ["-DKIND=0"]}, {"name": "moved", "defs": ["-DKIND=1"], "caps": {"BUF_SIZE": "256"}},
              {"name": "closed", "defs": ["-DKIND=2"]}, {"name": "workers", "defs": ["-DKIND=3"], "caps": {"MAX_REQS": "8u"}},
              {"name": "udp", "defs": ["-DKIND=4"]}, {"name": "long", "defs": ["-DKIND=5"]}]} */
/* Every operation is recognised by its unique size; completions are let through
 * a few at a time, while requests arrive and connections go away.             */
#define HAVE_on_file_write
#define HAVE_on_file_read
#define HAVE_on_reply
#include "env.h"
static void on_reply(int hit);
#include "node.h"
#define NR 9
static int tag_of[NR], op_kind[NR][3], op_n[NR], op_cur[NR], gone[NR], wk[NR];
static int step;
/* request r did its operation s */
static void did(int load, long off, int n) {
    int r = n / 10, s = n % 10;
    OBLV(operation_of_a_request, r > 0 && r < NR && s < op_n[r], r, s);
    OBLV(operation_at_own_offset, off == r * 20, off, r);
    OBLV(next_operation, op_cur[r] == s && op_kind[r][s] == load, op_cur[r], s);
    op_cur[r]++;
}
void env_on_file_write(long off, int n) { did(0, off, n); }
void env_on_file_read(long off, int n) { did(1, off, n); }
static void on_reply(int hit) {
    int r = EXP[hit].id;
    OBLV(answered_after_its_operations, op_cur[r] == op_n[r], r, op_cur[r]);
    if (KIND == 3) OBLV(answered_by_own_worker, cur_thread == wk[r], r, cur_thread);
}
/* request r with up to three storage operations: 0 store, 1 load, -1 none */
static void req(int tag, int r, int a, int b, int c) {
    R_begin(r);
    op_kind[r][0] = a; op_kind[r][1] = b; op_kind[r][2] = c;
    op_n[r] = a < 0 ? 0 : b < 0 ? 1 : c < 0 ? 2 : 3;
    op_cur[r] = 0;
    for (int s = 0; s < 3; s++) {
        if (s < op_n[r] && op_kind[r][s] == 0) R_store(r * 20, r * 10 + s, 0);
        if (s < op_n[r] && op_kind[r][s] == 1) R_load(r * 20, r * 10 + s);
    }
    R_reply(20 + r, 1);
    R_end(0);
    tag_of[r] = tag;
    if (KIND == 4) { client_dgram(0x0200000a, 60 + r); expect_dgram(r, 20 + r, 0x0200000a, 60 + r); return; }
    client_sends(tag);
    expect(tag, r, 20 + r, 0);
    wk[r] = cur_thread;
}
static void some_storage(void) { int q = CHOOSE(3); env_storage_quota = q; }
static int all_but_gone(void) {
    for (int i = 0; i < NEXP; i++) if (!EXP[i].answered && !gone[EXP[i].id]) return 0;
    return 1;
}
int env_idle(void) {
    step++;
#if KIND == 0
    if (step == 1) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); return 1; }
    if (step == 2) { env_storage_quota = 0; req(1, 1, 0, 1, -1); req(1, 2, 1, CHOOSE(2), 0); req(2, 3, CHOOSE(2), -1, -1); deliver_all(1); deliver_all(2); return 1; }
    if (step == 3) { some_storage(); return 1; }
    if (step == 4) { req(2, 4, 0, -1, -1); deliver_all(2); some_storage(); return 1; }
#elif KIND == 1
    /* requests answered while earlier ones are pending: the messages move in the buffer */
    if (step == 1) { new_conn_on(find_listener(0), 1); return 1; }
    if (step == 2) { env_storage_quota = 0; req(1, 1, CHOOSE(2), 0, -1); req(1, 2, -1, -1, -1); req(1, 3, 0, 1, -1); deliver_all(1); return 1; }
    if (step == 3) { req(1, 4, 1, -1, -1); deliver(1, CHOOSE(3) * 20 + 5); some_storage(); return 1; }
    if (step == 4) { deliver_all(1); some_storage(); return 1; }
    if (step == 5 && answered(1) > 1) { req(1, 5, 0, -1, -1); deliver_all(1); some_storage(); return 1; }
#elif KIND == 2
    if (step == 1) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); return 1; }
    if (step == 2) { env_storage_quota = 0; req(1, 1, 0, 1, -1); req(2, 2, 1, 0, -1); req(1, 3, CHOOSE(2), -1, -1); deliver_all(1); deliver_all(2); return 1; }
    if (step == 3) { some_storage(); return 1; }
    if (step == 4) {
        int fd = fd_of_tag(1);
        if (CHOOSE(2)) F[fd].eof = 2; else F[fd].rst = 1;
        gone[1] = gone[3] = 1;
        return 1;
    }
    if (step == 5) { new_conn_on(find_listener(0), 3); return 1; }
    if (step == 6) { req(3, 4, CHOOSE(2), 0, -1); req(3, 5, 1, -1, -1); req(3, 6, 0, -1, -1); deliver_all(3); some_storage(); return 1; }
#elif KIND == 3
    if (step == 1 || step == 11) { int w = step == 11; new_conn_on(find_listener(w), 1 + w); return 1; }
    if (step == 2) { env_storage_quota = 0; req(1, 1, 0, 1, -1); req(1, 2, CHOOSE(2), -1, -1); deliver_all(1); return 1; }
    if (step == 3) { some_storage(); return 1; }
    if (step == 4) { req(1, 3, 0, -1, -1); deliver_all(1); return 1; }
    /* worker 0 is slow from here on: its completions are left to be read */
    if (step == 5 && CHOOSE(2)) { for (int i = 1; i < 4; i++) gone[i] = 1; step = 10; return 0; }
    if (step == 12) { req(2, 4, 1, 0, -1); req(2, 5, CHOOSE(2), -1, -1); deliver_all(2); return 1; }
#elif KIND == 4
    if (step == 1) { env_storage_quota = 0; req(0, 1, 0, 1, -1); req(0, 2, CHOOSE(2), -1, -1); return 1; }
    if (step == 2) { req(0, 3, CHOOSE(2), 0, -1); some_storage(); return 1; }
    if (step == 3) { some_storage(); return 1; }
    if (step == 4) { req(0, 4, 1, -1, -1); return 1; }
#endif
#if KIND == 5
    /* many requests before the ones that use the storage */
    if (step == 1) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); return 1; }
    if (step < 262) {
        struct mfd *f = &F[fd_of_tag(1)];
        OBL(every_request_answered, all_but_gone());
        NEXP = 0; seen[1] = parsed[1] = 0;
        f->rx_len = f->rx_pos = f->rx_avail = f->tx_len = 0; f->tx_win = TXCAP;
        req(1, 1, -1, -1, -1); deliver_all(1); return 1; }
    if (step == 262) { env_storage_quota = 0; req(1, 1, 0, 1, -1); req(1, 2, 1, 0, -1); req(2, 3, CHOOSE(2), -1, -1); deliver_all(1); deliver_all(2); return 1; }
    if (step == 263) { some_storage(); return 1; }
#endif
    if (env_storage_quota >= 0) { env_storage_quota = -1; return 1; }
    if (KIND == 3) { if (step < 10) step = 10; }
    return 0;
}
int main(void) {
    env_max_events = KIND == 5 ? 1000 : 300;
    if (KIND == 3) env_option("nt", "2");
    if (KIND == 4) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_but_gone());
    MARK(END);
    return 0;
}
