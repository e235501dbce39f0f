/*META {"props": ["C04"], "program": "dw_node", "min_obl": 50, "need": ["next_operation"],
 "variants": [{"name": "programs", "need": ["cpu_time_spent"], "defs": ["-DKIND=0"]}, {"name": "overlapping", "defs": ["-DKIND=1"]}, {"name": "clock", "need": ["cpu_time_spent"], "defs": ["-DKIND=2"]}]} */
/* Every request is a sequence of commands; what the node does for it -- CPU time,
 * storage operations, forwarded messages, reply -- is compared with the sequence. */
#define HAVE_on_forward
#define HAVE_on_reply
#define HAVE_connect
#define HAVE_on_file_write
#define HAVE_on_file_read
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
static void on_reply(int hit);
#include "node.h"
enum { O_CPU = 1, O_STORE, O_LOAD, O_FWD, O_REPLY };
struct op { int kind; long arg; };
static struct op PRG[4][8];
static int PLEN[4], PCUR[4], nprg;
static long cpu_mark;
static int alone;             /* one request at a time: CPU time can be attributed */
static int step;
static unsigned fwd_id[4];
static int fwd_pending;

static void op(int r, int kind, long arg) { PRG[r][PLEN[r]].kind = kind; PRG[r][PLEN[r]].arg = arg; PLEN[r]++; }
/* request r did something observable */
static void did(int r, int kind, long arg) {
    long sum = 0;
    int n = 0;
    while (PCUR[r] < PLEN[r] && PRG[r][PCUR[r]].kind == O_CPU) { sum += PRG[r][PCUR[r]].arg; n++; PCUR[r]++; }
    if (alone) {
        long used = cpu_total_us - cpu_mark;
        OBLV(cpu_time_spent, used >= sum, used, sum);
        OBLV(cpu_time_not_exceeded, used <= sum + 2 * n * clock_tick_us, used, sum);
    }
    OBLV(operation_expected, PCUR[r] < PLEN[r], r, kind);
    OBLV(next_operation, PRG[r][PCUR[r]].kind == kind && PRG[r][PCUR[r]].arg == arg, PRG[r][PCUR[r]].kind, kind);
    PCUR[r]++;
    cpu_mark = cpu_total_us;
}
void env_on_file_write(long off, int n) { did(n / 10 - 1, O_STORE, n); }
void env_on_file_read(long off, int n) { did(n / 10 - 1, O_LOAD, n); }
static void on_reply(int hit) { did(EXP[hit].id - 1, O_REPLY, EXP[hit].size); }
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40); return 0; }
static void on_forward(int fd, const unsigned char *p, int n) {
    /* the forwarded commands are one computation whose length names the request */
    OBLV(forward_carries_commands, g32(p + HDR) == W_COMPUTE, g32(p + HDR), n);
    int r = g32(p + HDR + 4) / 10 - 1;
    did(r, O_FWD, g32(p + HDR + 4));
    fwd_id[fwd_pending] = g32(p);
    fwd_pending++;
}
/* command of request r (0..) in slot s (0..); unique sizes (r+1)*10+s */
static void cmd(int r, int s, int c) {
    int u = (r + 1) * 10 + s;
    if (c == 0) { R_compute(3 + s); op(r, O_CPU, 3 + s); }
    if (c == 1) { R_store(s & 1 ? 40 : (uint64_t)-1, u, s & 1); op(r, O_STORE, u); }
    if (c == 2) { R_load(100, u); op(r, O_LOAD, u); }
    if (c == 3) { R_fwd(W_FORWARD, 0x0900000a, 4000, 40, 0, 0, 0, W_TCP); R_compute(u); R_reply(30, 1); op(r, O_FWD, u); }
    if (c == 4) { R_compute(0); op(r, O_CPU, 0); }
}
static void finish(int r) {
    R_reply(20 + r, 1);
    R_end(0);
    op(r, O_REPLY, 20 + r);
    client_sends(1);
    expect(1, r + 1, 20 + r, 0);
    cpu_mark = cpu_total_us;
}
static int answer_forward(void) {
    if (!fwd_pending) return 0;
    fwd_pending--;
    R_answer(fwd_id[fwd_pending], 30, 0);
    client_sends(40);
    deliver_all(40);
    return 1;
}
int env_idle(void) {
    if (step == 0) { new_conn_on(find_listener(0), 1); step = 1; return 1; }
    if (answer_forward()) return 1;
    if (step == 1) {
        step = 2;
#if KIND == 0
        alone = 1;
        R_begin(1);
        cmd(0, 0, CHOOSE(4)); cmd(0, 1, CHOOSE(4)); cmd(0, 2, CHOOSE(4)); cmd(0, 3, CHOOSE(2) * 4);
        finish(0);
        deliver_all(1);
        return 1;
#elif KIND == 1
        env_storage_hold = CHOOSE(2);
        R_begin(1); cmd(0, 0, 1 + CHOOSE(2)); cmd(0, 1, 0); cmd(0, 2, 1 + CHOOSE(3)); finish(0);
        R_begin(2); cmd(1, 0, CHOOSE(3)); cmd(1, 1, 3); cmd(1, 2, 2); finish(1);
        R_begin(3); cmd(2, 0, CHOOSE(3)); finish(2);
        deliver_all(1);
        return 1;
#else
        alone = 1;
        int g = CHOOSE(5), v = CHOOSE(5);
        clock_tick_us = g == 0 ? 1 : g == 1 ? 300 : g == 2 ? 999 : g == 3 ? 1000 : 1000000007L;
        long us = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 1000 : v == 3 ? 2500 : 4294967295L;
        if (us > 1000 * clock_tick_us) us = 40 * clock_tick_us + 1;
        R_begin(1); R_compute(us); op(0, O_CPU, us); cmd(0, 1, 1); R_compute(us); op(0, O_CPU, us); finish(0);
        deliver_all(1);
        return 1;
#endif
    }
    if (env_storage_hold) { env_storage_hold = 0; return 1; }
    if (KIND == 0 && step == 2) {
        /* an identical second request behaves the same */
        step = 3;
        R_begin(2); cmd(1, 0, 0); cmd(1, 1, 1); finish(1);
        deliver_all(1);
        return 1;
    }
    return 0;
}
int main(void) {
    env_max_events = 200;
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    for (int r = 0; r < 4; r++) OBLV(every_operation_done, PCUR[r] == PLEN[r], PCUR[r], PLEN[r]);
    MARK(END);
    return 0;
}
