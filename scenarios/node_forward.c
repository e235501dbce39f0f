/*META {"props": ["C11"], "program": "dw_node", "min_obl": 20, "need": ["forward_to_a_listed_destination", "forwarded_commands", "every_destination_reached"],
 "variants": [{"name": "nested", "defs": ["-DKIND=0"]}, {"name": "multiple", "defs": ["-DKIND=1"]}, {"name": "consecutive", "defs": ["-DKIND=2"]},
              {"name": "reuse", "defs": ["-DKIND=3"]}, {"name": "udp", "defs": ["-DKIND=4"]}, {"name": "large", "defs": ["-DKIND=5"], "caps": {"BUF_SIZE": "256"}},
              {"name": "from-udp", "defs": ["-DKIND=6"]},
              {"name": "burst", "defs": ["-DKIND=7"], "caps": {"MAX_REQS": "8u"}}, {"name": "after-failure", "defs": ["-DKIND=8"]}]} */
/* Each forwarded message is compared byte by byte with the enclosed commands. */
#define HAVE_on_forward
#define HAVE_connect
#define IS_HOP(a) ((a) != 0x0200000a)
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
struct fx { uint32_t addr; uint16_t port; int proto, pkt, body, len, seen, stage, req, fd; unsigned id; };
static struct fx X[10];
static int nx, stage[8], nstage[8];
static unsigned char BODY[1024];
static int nbody, step;

static int pending_connect;
int env_connect(int fd, uint32_t a, uint16_t p) {
    int t = (a == 0x0900000a ? 40 : a == 0x0a00000a ? 41 : 42) + (p == 4001 ? 3 : 0);
    OBLV(connect_to_a_listed_destination, p == 4000 || p == 4001, a, p);
    hop_opened(fd, t);
    int r = KIND == 7 ? 1 : KIND == 8 ? 0 : CHOOSE(2);
    if (r) pending_connect++;
    return r;
}
static void on_forward(int fd, const unsigned char *p, int n) {
    uint32_t a = F[fd].stream ? F[fd].paddr : F[fd].tx_addr;
    uint16_t o = F[fd].stream ? F[fd].pport : F[fd].tx_port;
    int pr = F[fd].stream ? W_TCP : W_UDP, h = -1;
    int commands = n - HDR;
    for (int i = 0; i < nx; i++)
        if (h < 0 && !X[i].seen && X[i].stage == stage[X[i].req] && X[i].addr == a && X[i].port == o && X[i].proto == pr && X[i].len + 4 <= commands
            && memcmp(p + HDR, BODY + X[i].body, X[i].len) == 0) h = i;
    OBLV(forward_to_a_listed_destination, h >= 0, a, o);
    OBLV(forwarded_commands, memcmp(p + HDR, BODY + X[h].body, X[h].len) == 0 && g32(p + HDR + X[h].len) == W_EOM, h, X[h].len);
    OBLV(forwarded_size, n == (int)g32(p + 4) && n >= X[h].pkt && n >= HDR + X[h].len + 4, n, X[h].pkt);
    OBLV(forwarded_without_failure, p[8] == 0, p[8], h);
    X[h].seen = 1;
    X[h].id = g32(p);
    X[h].fd = fd;
}
/* start the body of stage s of request r; the destinations have been added already */
static int body_from;
static void body_begin(void) { body_from = RQN; }
static void body_end(int r) {
    int len = RQN - body_from;
    memcpy(BODY + nbody, RQ + body_from, len);
    for (int i = 0; i < nx; i++) if (X[i].req == r && X[i].stage == nstage[r]) { X[i].body = nbody; X[i].len = len; }
    nbody += len;
    nstage[r]++;
}
static void dest(int r, int cmd, uint32_t addr, int port, int pkt, int proto) {
    R_fwd(cmd, addr, port, pkt, 0, 0, 1, proto);
    X[nx].addr = addr; X[nx].port = port; X[nx].proto = proto; X[nx].pkt = pkt; X[nx].stage = nstage[r]; X[nx].req = r;
    nx++;
}
#define A 0x0900000a
#define B 0x0a00000a
#define C 0x0b00000a
static void inner(int k) {
    if (k == 0) return;
    if (k == 1) R_compute(5);
    if (k == 2) { R_store(3, 7, 1); R_load(4, 8); }
    if (k == 3) { R_fwd(W_FORWARD, B, 4001, 60, 70, 1, 1, W_UDP); R_compute(6); R_reply(33, 1); }
    if (k == 5) { R_fwd(W_MULTI_FORWARD, B, 4001, 60, 0, 0, 1, W_TCP); R_fwd(W_MULTI_FORWARD, C, 4000, 60, 0, 0, 1, W_TCP); R_compute(1); R_reply(34, 2); }
    if (k == 4) { R_compute(1); R_fwd(W_MULTI_FORWARD, B, 4001, 60, 0, 0, 1, W_TCP); R_fwd(W_MULTI_FORWARD, C, 4000, 60, 0, 0, 1, W_TCP); R_fwd(W_FORWARD, C, 4000, 0, 0, 0, 1, W_TCP); R_reply(16, 1); R_reply(34, 2); R_load(1, 2); }
}
static int pkt(void) { int k = CHOOSE(3); return k == 0 ? 0 : k == 1 ? 64 : 200; }
static int stage_seen(int r) {
    for (int i = 0; i < nx; i++) if (X[i].req == r && X[i].stage == stage[r] && !X[i].seen) return 0;
    return 1;
}
/* all destinations of the current stage answer */
static int answers(int r) {
    if (stage[r] >= nstage[r] || !stage_seen(r)) return 0;
    for (int i = 0; i < nx; i++)
        if (X[i].req == r && X[i].stage == stage[r]) {
            int n = R_answer(X[i].id, 24, 0);
            if (X[i].proto == W_UDP) dgram(X[i].fd, RQ, n, X[i].addr, X[i].port);
            else { put_bytes(X[i].fd, RQ, n); F[X[i].fd].rx_avail = F[X[i].fd].rx_len; }
        }
    stage[r]++;
    return 1;
}
int env_idle(void) {
    if (pending_connect) {
        pending_connect = 0;
        for (int i = 3; i < NFD; i++) if (F[i].kind == K_CONN && F[i].conn_state == 1) F[i].conn_state = 2;
        return 1;
    }
    if (step > 1) for (int r = 1; r < 8; r++) if (answers(r)) return 1;
    step++;
    if (step == 1 && KIND == 6) return 1;
#if KIND == 7
    /* several requests for a destination the connection to which is being opened */
    if (step == 1) { new_conn_on(find_listener(0), 1); return 1; }
    if (step == 2) {
        for (int r = 1; r < 6; r++) {
            R_begin(r); dest(r, W_FORWARD, A, 4000, 0, W_TCP); body_begin(); R_compute(r); R_reply(30, 1); body_end(r); R_reply(40 + r, 1); R_end(0);
            client_sends(1); expect(1, r, 40 + r, 0);
        }
        deliver_all(1);
        return 1;
    }
    return 0;
#elif KIND == 8
    /* a failed request has been answered on this connection, or on one that used its place */
    if (step == 1) { new_conn_on(find_listener(0), 1); return 1; }
    if (step == 2) {
        R_begin(1); dest(1, W_FORWARD, A, 4000, 0, W_TCP); RQ[HDR + 16] = 100; body_begin(); R_compute(1); R_reply(30, 1); body_end(1); R_reply(40, 1); R_end(0);
        client_sends(1); expect(1, 1, 40, -1); deliver_all(1); nstage[1] = 0; /* no answer */
        return 1;
    }
    if (step == 3) { now_us += 150; return 1; }
    if (step == 4) {
        int k = CHOOSE(2);
        if (k) { F[fd_of_tag(1)].eof = 2; may_close[1] = 1; F[fd_of_tag(40)].eof = 2; may_close[40] = 1; }
        return 1;
    }
    if (step == 5) { new_conn_on(find_listener(0), 2); return 1; }
    if (step == 6) {
        R_begin(2); dest(2, W_FORWARD, CHOOSE(2) ? A : B, 4000, 0, W_TCP); body_begin(); R_compute(2); R_reply(30, 1); body_end(2); R_reply(41, 1); R_end(0);
        client_sends(2); expect(2, 2, 41, 0); deliver_all(2);
        return 1;
    }
    return 0;
#endif
    if (step == 1) { new_conn_on(find_listener(0), 1); if (KIND == 3) new_conn_on(find_listener(0), 2); return 1; }
    if (step == 2) {
        R_begin(1);
#if KIND == 0
        if (CHOOSE(2)) R_compute(2);
        dest(1, W_FORWARD, A, 4000, pkt(), W_TCP); body_begin(); inner(CHOOSE(6)); R_reply(30, CHOOSE(2)); body_end(1);
#elif KIND == 1
        int k = CHOOSE(3);
        dest(1, W_MULTI_FORWARD, A, 4000, pkt(), W_TCP);
        dest(1, W_MULTI_FORWARD, B, 4000, 100, W_TCP);
        if (k > 0) dest(1, W_MULTI_FORWARD, k == 1 ? C : A, 4001, 0, CHOOSE(2));
        body_begin(); inner(CHOOSE(2) * 3 + 1); R_reply(30, k > 0 ? 3 : 2); body_end(1);
#elif KIND == 2
        dest(1, W_FORWARD, A, 4000, 0, W_TCP); body_begin(); inner(CHOOSE(2)); R_reply(30, 1); body_end(1);
        if (CHOOSE(2)) R_store(1, 2, 0);
        dest(1, W_FORWARD, CHOOSE(2) ? A : B, 4000, 80, W_TCP); body_begin(); inner(CHOOSE(2) * 2 + 1); R_reply(20, 1); body_end(1);
        dest(1, W_MULTI_FORWARD, A, 4000, 0, W_TCP); dest(1, W_MULTI_FORWARD, B, 4000, 0, W_TCP); body_begin(); inner(1); R_reply(20, 2); body_end(1);
#elif KIND == 3
        dest(1, W_FORWARD, A, 4000, pkt(), W_TCP); body_begin(); R_compute(7); R_reply(30, 1); body_end(1);
#elif KIND == 4 || KIND == 6
        dest(1, W_FORWARD, A, 4000, pkt(), W_UDP); body_begin(); inner(CHOOSE(4)); R_reply(30, 1); body_end(1);
        dest(1, W_FORWARD, A, CHOOSE(2) ? 4000 : 4001, 50, CHOOSE(2)); body_begin(); inner(1); R_reply(30, 1); body_end(1);
#else
        /* as many commands as fit the buffer */
        int fill = CHOOSE(3);
        dest(1, W_FORWARD, A, 4000, CHOOSE(2) * 255, W_TCP); body_begin();
        for (int i = 0; i < 21 + fill; i++) R_compute(i);
        R_reply(30, 1); body_end(1);
#endif
        R_reply(40, 1);
        R_end(0);
        if (KIND == 6) { client_dgram(0x0200000a, 66); expect_dgram(1, 40, 0x0200000a, 66); return 1; }
        client_sends(1);
        expect(1, 1, 40, 0);
        deliver_all(1);
#if KIND == 3
        /* the same destination for another request while the first is pending */
        R_begin(1);
        dest(2, W_FORWARD, A, CHOOSE(2) ? 4000 : 4001, 90, W_TCP); body_begin(); R_compute(8); R_reply(30, 1); body_end(2);
        dest(2, W_FORWARD, A, 4000, 90, W_TCP); body_begin(); R_compute(9); R_reply(30, 1); body_end(2);
        R_reply(41, 1); R_end(0);
        client_sends(2);
        expect(2, 1, 41, 0);
        if (CHOOSE(2)) deliver_all(2);
#endif
        return 1;
    }
    if (step == 3 && KIND == 3) { deliver_all(2); return 1; }
    if (step == 4 && KIND == 3) {
        R_begin(3);
        dest(3, W_FORWARD, A, 4000, pkt(), W_TCP); body_begin(); R_compute(10); R_reply(30, 1); body_end(3);
        R_reply(42, 1); R_end(0);
        client_sends(1);
        expect(1, 3, 42, 0);
        deliver_all(1);
        return 1;
    }
    return 0;
}
int main(void) {
    env_max_events = 200;
    if (KIND == 6) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    for (int i = 0; i < nx; i++) OBLV(every_destination_reached, X[i].seen, i, X[i].addr);
    OBL(every_request_answered, all_answered());
    OBL(no_partial_message, no_trailing());
    MARK(END);
    return 0;
}
