/*META {"props": ["C03"], "program": "dw_node", "min_obl": 50, "need": ["reply_to_sender"],
 "variants": [{"name": "interleaved", "defs": ["-DKIND=0"]}, {"name": "pending", "defs": ["-DKIND=1"]}, {"name": "bad", "defs": ["-DKIND=2"]},
              {"name": "workers-shared", "defs": ["-DKIND=3"], "need": ["reply_to_sender", "buffer_of_one_thread"]}, {"name": "workers-child", "defs": ["-DKIND=4"], "need": ["reply_to_sender", "buffer_of_one_thread"]},
              {"name": "workers-parent", "defs": ["-DKIND=5"]}]} */
/* Datagrams of two clients reach a UDP node in any order, with requests waiting
 * for storage, and with datagrams that are no request at all.                 */
#define HAVE_on_recv_buf
#include "node.h"
#define A1 0x0200000a
#define A2 0x0300000a
static int step, o1, kind;
/* with several workers: each receives in memory of its own */
static void *bufs[4];
void env_on_recv_buf(int fd, void *b) {
    int w = cur_thread + 1;
    for (int i = 0; i < 4; i++)
        if (KIND >= 3 && i != w && bufs[i]) OBLV(buffer_of_one_thread, bufs[i] != b, fd, i);
    if (KIND >= 3 && w < 4) bufs[w] = b;
}
static int sock_of_worker(void) {
    int w = 0, n = 0;
    for (int i = 0; i < cur_thread; i++) if (THR[i].fn == THR[cur_thread].fn) w++;
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_DGRAM && F[i].bound && n++ == (KIND == 4 ? w : 0)) return i;
    BROKEN(no_udp_socket);
    return 3;
}
static void req(int who, unsigned id, int size, int cmds) {
    uint32_t a = who ? A2 : A1;
    uint16_t p = who ? 777 : 333;
    R_begin(id);
    if (cmds & 1) R_compute(2);
    if (cmds & 2) R_store((uint64_t)-1, 10, 0);
    R_reply(size, 1);
    R_end(0);
    if (KIND >= 3) dgram(sock_of_worker(), RQ, RQN, a, p);
    else client_dgram(a, p);
    expect_dgram(id, size, a, p);
}
static void bad(void) {
    int c = CHOOSE(14);
    R_begin(50); R_compute(1); R_reply(20, 1); R_end(0);
    int n = RQN;
    uint32_t v;
    if (c == 0) n = 0;
    if (c == 1) n = 1;
    if (c == 2) n = 11;
    if (c == 3) n = 12;
    if (c == 4) n = RQN - 1;
    if (c == 5) { v = 4; memcpy(RQ + 4, &v, 4); }
    if (c == 6) { v = RQN + 60; memcpy(RQ + 4, &v, 4); }
    if (c == 7) { v = 0xffffffffu; memcpy(RQ + 4, &v, 4); }
    if (c == 8) { v = 99; memcpy(RQ + 12, &v, 4); }
    if (c == 9) { v = 0xffffffffu; memcpy(RQ + 12, &v, 4); }
    if (c == 10) { v = 3; memcpy(RQ + 24, &v, 4); }
    if (c == 11) { v = 0x7fffffff; memcpy(RQ + 24, &v, 4); }
    /* well formed, but nothing can be sent to where it comes from */
    if (c == 13) { R_begin(50); R_store((uint64_t)-1, 10, 0); R_reply(20, 1); R_end(0); n = RQN; }
    dgram(udp_sock(), RQ, n, A2, c >= 12 ? 0 : 999);
}
int env_idle(void) {
    step++;
    if (KIND >= 3) {
        if (KIND == 5 && THR[cur_thread].fn == THR[cur_thread - 1].fn) return 0; /* only the first worker receives */
        if (step == 1) { o1 = CHOOSE(2); if (KIND == 3) env_dgram_taken = CHOOSE(2); req(o1, 7, 40, CHOOSE(2) ? 2 : 1); req(!o1, 9, 33, 0); return 1; }
        if (step == 2) { req(o1, 8, 25, 2); return 1; }
        step = 0;
        return 0;
    }
    if (KIND == 0) {
        if (step == 1) { o1 = CHOOSE(2); kind = CHOOSE(4); req(o1, 7, 40, kind); req(!o1, 7, 33, kind ^ 1); return 1; }
        if (step == 2) { req(CHOOSE(2), 9, 16, 0); req(o1, 10, 64, 2); return 1; }
        return 0;
    }
    if (KIND == 1) {
        /* two requests wait for storage while others are served */
        if (step == 1) { env_storage_hold = 1; o1 = CHOOSE(2); req(o1, 1, 40, 2); req(!o1, 2, 24, 2); return 1; }
        if (step == 2) { req(!o1, 3, 30, 0); if (CHOOSE(2)) req(o1, 4, 20, 1); return 1; }
        if (step == 3) { env_storage_hold = 0; if (CHOOSE(2)) req(o1, 5, 21, 0); return 1; }
        return 0;
    }
    if (step == 1) { req(0, 1, 40, 0); bad(); req(1, 2, 20, 2); return 1; }
    if (step == 2) { bad(); return 1; }
    if (step == 3) { req(0, 3, 24, 0); return 1; }
    return 0;
}
int main(void) {
    env_option("bind-addr", "udp://127.0.0.1:7000");
    if (KIND >= 3) { env_option("nt", "2"); env_option("accept-mode", KIND == 3 ? "shared" : KIND == 4 ? "child" : "parent"); }
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    MARK(END);
    return 0;
}
