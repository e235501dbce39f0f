/*META {"props": ["C13"], "program": "dw_node", "min_obl": 20, "need": ["failure_not_early", "failure_on_time"],
 "variants": [{"name": "retries", "defs": ["-DKIND=0"], "need": ["retry_not_early", "retry_on_time", "failure_not_early"]}, {"name": "several", "defs": ["-DKIND=1"]},
              {"name": "gone", "defs": ["-DKIND=2"]}, {"name": "consecutive", "defs": ["-DKIND=3"]}, {"name": "long", "defs": ["-DKIND=4"]},
              {"name": "udp", "defs": ["-DKIND=5"]}, {"name": "unreachable", "defs": ["-DKIND=6"]},
              {"name": "late", "defs": ["-DKIND=7"]}, {"name": "many", "defs": ["-DKIND=8"], "caps": {"MAX_REQS": "8u"}}]} */
/* Forwards with timeouts, on a clock moved by the scenario: what is sent again or
 * reported as failed, and when, is compared with the timeouts asked for.       */
#define HAVE_on_forward
#define HAVE_on_reply
#define HAVE_connect
#define HAVE_on_file_write
#define IS_HOP(a) ((a) != 0x0200000a)
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
static void on_reply(int hit);
#include "node.h"
#define A 0x0900000a
#define B 0x0a00000a
#define NR 6
#define SLACK 20
#ifndef UNIT
#define UNIT (KIND == 4 ? 100000000L : 50L)
#endif
/* request r is identified by the computation it forwards: r * 10 + stage */
struct st { long t, last; int retries, msgs, ndest, acked, expired; unsigned id, first_id; int fd; int ack_after; };
static struct st S[NR][2];
static int nst[NR], at[NR], dead[NR], stored[NR];
static long t0;
static int step;
static int reach;             /* 0 connects, 1 never, 2 refused later */
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, a == A ? 40 : 41); return reach ? 1 : 0; }
/* request r went past its forward s: completed, or expired in time */
static void past(int r, int s) {
    struct st *q = &S[r][s];
    if (q->acked || q->expired) return;
    OBLV(failure_after_all_attempts, q->msgs == q->ndest * (q->retries + 1) || reach, q->msgs, q->retries);
    OBLV(failure_not_early, now_us >= q->last + q->t, now_us - q->last, q->t);
    OBLV(failure_on_time, now_us <= q->last + q->t + SLACK, now_us - q->last, q->t);
    q->expired = 1;
}
static void on_forward(int fd, const unsigned char *p, int n) {
    int u = g32(p + HDR + 4), r = u / 10, s = u % 10;
    OBLV(forward_of_a_request, g32(p + HDR) == W_COMPUTE && r > 0 && r < NR && s < nst[r], r, s);
    struct st *q = &S[r][s];
    OBLV(no_forward_for_a_dropped_request, !dead[r], r, s);
    if (q->msgs % q->ndest == 0) {
        int attempt = q->msgs / q->ndest;
        OBLV(no_more_attempts_than_asked, attempt <= q->retries, attempt, q->retries);
        if (attempt > 0) {
            OBLV(retry_not_early, now_us >= q->last + q->t, now_us - q->last, q->t);
            OBLV(retry_on_time, now_us <= q->last + q->t + SLACK, now_us - q->last, q->t);
            OBLV(no_retry_once_complete, !q->acked, r, s);
        } else {
            OBLV(forwards_in_order, s == at[r], s, at[r]);
            if (s > 0) past(r, s - 1);
            at[r]++;
        }
        q->last = now_us;
    }
    q->msgs++;
    q->id = g32(p);
    if (q->msgs == 1) q->first_id = q->id;
    q->fd = fd;
}
void env_on_file_write(long off, int n) { int r = n; stored[r]++; for (int s = 0; s < at[r]; s++) past(r, s); }
static void on_reply(int hit) {
    int r = EXP[hit].id;
    for (int s = 0; s < nst[r]; s++) past(r, s);
}
static void fwd(int r, int s, long t, int retries, int multi, int proto) {
    R_fwd(multi ? W_MULTI_FORWARD : W_FORWARD, A, 4000, 0, t, retries, 1, proto);
    if (multi) R_fwd(W_MULTI_FORWARD, B, 4000, 0, t, retries, 1, proto);
    R_compute(r * 10 + s);
    R_reply(20 + r, multi ? 2 : 1);
    S[r][s].t = t;
    S[r][s].retries = retries;
    S[r][s].ndest = multi ? 2 : 1;
    nst[r] = s + 1;
}
static void finish(int tag, int r, int fails) {
    if (KIND == 3 && r == 1 && CHOOSE(2)) R_compute(1);
    R_reply(30 + r, 1);
    R_end(0);
    if (KIND == 5) { client_dgram(0x0200000a, 60 + r); expect_dgram(r, 30 + r, 0x0200000a, 60 + r); EXP[NEXP - 1].status = fails ? -1 : 0; return; }
    client_sends(tag);
    expect(tag, r, 30 + r, fails ? -1 : 0);
    deliver_all(tag);
    if (reach) S[r][0].last = now_us; /* the attempt is made even if nothing can be sent */
}
static void ack(int r, int s) {
    struct st *q = &S[r][s];
    q->acked = 1;
    if (q->ndest == 2) {
        int n = R_answer(q->id, 20, 0);
        put_bytes(fd_of_tag(40), RQ, n); deliver_all(40);
        put_bytes(fd_of_tag(41), RQ, n); deliver_all(41);
        return;
    }
    int n = R_answer(q->id, 20, 0);
    if (F[q->fd].stream) { put_bytes(q->fd, RQ, n); F[q->fd].rx_avail = F[q->fd].rx_len; }
    else dgram(q->fd, RQ, n, A, 4000);
}
/* a forward is answered ack_after units after its last attempt, if at all */
static int due(void) {
    for (int r = 1; r < NR; r++)
        for (int s = 0; s < nst[r]; s++) {
            struct st *q = &S[r][s];
            if (q->ack_after > 0 && !q->acked && !q->expired && at[r] == s + 1 && q->msgs == q->ndest * (q->retries + 1) && now_us >= q->last + q->ack_after * UNIT) { ack(r, s); return 1; }
        }
    return 0;
}
/* an answer to the first attempt that comes too late */
static void late_answer(int r, int s, int tag) { int n = R_answer(S[r][s].first_id, 20, 0); put_bytes(fd_of_tag(tag), RQ, n); deliver_all(tag); }
/* time passes until the next timer expires, but no more than one unit */
static int tick(void) {
    long t = now_us + UNIT;
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_TIMER && F[i].armed && F[i].deadline_us > now_us && F[i].deadline_us < t) t = F[i].deadline_us;
    now_us = t;
    return 1;
}
#define UNTIL(n) if (now_us < t0 + (n) * UNIT) return tick()
static long T(int k) { return (k + 2) * UNIT; }
int env_idle(void) {
    if (step > 1 && due()) return 1;
    step++;
    if (step == 2) t0 = now_us;
    if (step == 1) { if (KIND != 5) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); } return 1; }
#if KIND == 0
    if (step == 2) { int n = CHOOSE(3), a = CHOOSE(2), m = CHOOSE(2); S[1][0].ack_after = a; R_begin(1); fwd(1, 0, T(CHOOSE(2)), n, m, W_TCP); finish(1, 1, !a); return 1; }
    UNTIL(11);
#elif KIND == 1
    if (step >= 2 && step <= 4) {
        int r = step - 1, k = CHOOSE(r == 3 ? 2 : 3) * (r == 3 ? 2 : 1), a = CHOOSE(2);
        if (step > 2) tick();
        S[r][0].ack_after = a;
        R_begin(r);
        fwd(r, 0, T(r == 1 ? k * 2 : r == 2 ? k : k & 2), 0, 0, W_TCP);
        finish(r == 2 ? 2 : 1, r, !a);
        return 1;
    }
    UNTIL(10);
#elif KIND == 2
    if (step == 2) { R_begin(1); fwd(1, 0, T(CHOOSE(3)), 1, 0, W_TCP); finish(1, 1, 1); R_begin(2); fwd(2, 0, T(1), 0, 0, W_TCP); finish(2, 2, 1); return 1; }
    if (step == 3) { tick(); int fd = fd_of_tag(1); if (CHOOSE(2)) F[fd].eof = 2; else F[fd].rst = 1; return 1; }
    if (step == 4) { dead[1] = 1; EXP[0].answered = 1; new_conn_on(find_listener(0), 3); return 1; }
    if (step == 5) { int a = CHOOSE(2); S[3][0].ack_after = a; R_begin(3); fwd(3, 0, T(CHOOSE(2) * 2), 0, 0, W_TCP); finish(3, 3, !a); return 1; }
    UNTIL(10);
#elif KIND == 3
    if (step == 2) {
        int a = CHOOSE(2), b = CHOOSE(2);
        S[1][0].ack_after = a; S[1][1].ack_after = b;
        R_begin(1); fwd(1, 0, T(0), 0, CHOOSE(2), W_TCP); if (CHOOSE(2)) R_store(5, 1, 0); fwd(1, 1, CHOOSE(2) ? T(0) : T(2), CHOOSE(2), 0, W_TCP); finish(1, 1, !a || !b);
        R_begin(2); fwd(2, 0, T(1), 0, 0, W_TCP); finish(2, 2, 1);
        return 1;
    }
    if (step < 100) { UNTIL(12); step = 100; }
    /* nothing of a failure is left for the next request */
    if (step == 100) { R_begin(3); finish(1, 3, 0); return 1; }
#elif KIND == 4
    if (step == 2) { int a = CHOOSE(2); S[1][0].ack_after = a; R_begin(1); fwd(1, 0, CHOOSE(2) ? 42 * UNIT : 22 * UNIT, 0, 0, W_TCP); finish(1, 1, !a); R_begin(2); fwd(2, 0, CHOOSE(2) ? 1 : 21 * UNIT, 1, 0, W_TCP); finish(2, 2, 1); return 1; }
    if (step == 3) { now_us += 1; return 1; }
    if (step == 4) { now_us += 1; return 1; }
    UNTIL(50);
#elif KIND == 5
    if (step == 2) { int a = CHOOSE(2); S[1][0].ack_after = a; R_begin(1); fwd(1, 0, T(CHOOSE(2)), CHOOSE(2), 0, CHOOSE(2)); finish(0, 1, !a); R_begin(2); fwd(2, 0, T(0), 0, 0, W_UDP); finish(0, 2, 1); return 1; }
    UNTIL(9);
#elif KIND == 7
    static int m, n, given;
    if (step == 2) {
        m = CHOOSE(2); n = CHOOSE(2);
        S[1][1].ack_after = CHOOSE(2);
        R_begin(1); fwd(1, 0, T(0), n, m, W_TCP); if (CHOOSE(2)) R_store(5, 1, 0); fwd(1, 1, T(2), 0, CHOOSE(2), W_TCP); finish(1, 1, 1);
        return 1;
    }
    /* after the next attempt, or once the request has gone on to its next forward */
    if (!given && (n && CHOOSE(2) ? S[1][0].msgs > S[1][0].ndest : at[1] == 2)) {
        given = 1;
        late_answer(1, 0, 40);
        if (m) late_answer(1, 0, CHOOSE(2) ? 41 : 40);
        return 1;
    }
    UNTIL(14);
    OBLV(late_answers_given, given, given, n);
#elif KIND == 8
    if (step == 2) {
        int o = CHOOSE(4), u = CHOOSE(4);
        for (int r = 1; r < 6; r++) {
            int k = o == 0 ? r : o == 1 ? 6 - r : o == 2 ? r * 2 % 5 : r * 3 % 7;
            int a = u == 0 ? r == 1 : u == 1 ? r % 2 : u == 2 ? r > 2 : 0;
            S[r][0].ack_after = a;
            R_begin(r); fwd(r, 0, T(k), 0, 0, W_TCP); finish(1 + r % 2, r, !a);
        }
        return 1;
    }
    UNTIL(10);
#else
    if (step == 2) { reach = 1 + CHOOSE(2); R_begin(1); fwd(1, 0, T(1), 0, CHOOSE(2), W_TCP); finish(1, 1, 1); return 1; }
    if (step == 3) { if (reach == 2) { F[fd_of_tag(40)].conn_state = 3; if (fd_of_tag(41) >= 0) F[fd_of_tag(41)].conn_state = 3; } return tick(); }
    if (step < 100) { UNTIL(6); step = 100; }
    if (step == 100) { if (reach == 2) { reach = 0; S[2][0].ack_after = 1; } R_begin(2); fwd(2, 0, T(0), 0, 0, W_TCP); finish(2, 2, reach); return 1; }
    UNTIL(10);
#endif
    return 0;
}
int main(void) {
    env_max_events = 300;
    if (KIND == 5) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    for (int i = 0; i < NEXP; i++) OBLV(every_request_answered, EXP[i].answered, EXP[i].id, i);
    MARK(END);
    return 0;
}
