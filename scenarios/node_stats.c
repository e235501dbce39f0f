/*META {"props": ["C16"], "program": "dw_node", "min_obl": 20, "need": ["active_connections", "active_requests", "total_connections"],
 "variants": [{"name": "storage", "defs": ["-DKIND=0"]}, {"name": "forward", "defs": ["-DKIND=1"]}, {"name": "timeout", "defs": ["-DKIND=2"]},
              {"name": "errors", "defs": ["-DKIND=3"]}, {"name": "parent", "defs": ["-DKIND=4"]}, {"name": "capacity", "defs": ["-DKIND=5"]},
              {"name": "udp", "defs": ["-DKIND=6"]}, {"name": "unreachable", "defs": ["-DKIND=7"]},
              {"name": "together", "defs": ["-DKIND=8"]}, {"name": "no-reply", "defs": ["-DKIND=9"]}]} */
/* Statistics are asked for whenever the node is idle, along any history. */
#define HAVE_on_forward
#define HAVE_connect
#define HAVE_on_line
#define IS_HOP(a) ((a) != 0x0200000a)
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
static int step, lines, totals, asked, nt = 1, quiet, ep0 = -1, reach;
static int dead[64];          /* tags whose requests are lost */
static int silent;            /* pending requests that ask for no reply */
static unsigned fid[4]; static int nfid, hopfd;
static int conns_of(int e) {
    int n = 0;
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_CONN && F[i].conn_state == 2 && F[i].tag > 0 && (e < 0 || REG[e][i].on)) n++;
    return n;
}
static int reqs_(void) { int n = 0; for (int i = 0; i < NEXP; i++) if (!EXP[i].answered && !dead[EXP[i].tag]) n++; return n + silent; }
static int after(const char *l, const char *k) {
    for (int i = 0; l[i]; i++) {
        int j = 0;
        while (k[j] && l[i + j] == k[j]) j++;
        if (!k[j]) { int v = 0, d = 0; i += j; while (l[i] >= '0' && l[i] <= '9') { v = v * 10 + (l[i] - '0'); i++; d++; } return d ? v : -1; }
    }
    return -1;
}
void env_on_line(const char *l) {
    int t = after(l, "total-active-conns: ");
    if (t >= 0) {
        OBLV(total_connections, t == conns_of(-1), t, conns_of(-1));
        if (KIND != 8) OBLV(total_requests, after(l, "total-active-reqs: ") == reqs_(), after(l, "total-active-reqs: "), reqs_());
        totals++;
        return;
    }
    int w = after(l, "worker-id: ");
    if (w < 0) return;
    lines++;
    int c = after(l, "active-conns: "), r = after(l, "active-reqs: ");
    int e = ep0;
    if (w == 1) { e = -1; for (int k = 0; k < NEP; k++) if (k != ep0 && REG[k][0 + 3].on + 1) { int used = 0; for (int i = 3; i < NFD; i++) if (REG[k][i].on) used = 1; if (used) e = k; } }
    OBLV(worker_known, w < nt, w, nt);
    if (w == 1 && e < 0) OBLV(active_connections, c == 0, c, 0);
    else OBLV(active_connections, c == conns_of(e), c, conns_of(e));
    if (KIND == 8) OBLV(active_requests, r >= 0 && r <= reqs_(), r, reqs_());
    else OBLV(active_requests, r == (w == 0 ? reqs_() : 0), r, reqs_());
}
static void on_forward(int fd, const unsigned char *p, int n) { fid[nfid & 3] = g32(p); nfid++; hopfd = fd; }
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40); if (KIND == 7) return reach; return 0; }
static void send_(int tag, unsigned id) {
    R_reply(30, 1); R_end(0);
    if (KIND == 6) { client_dgram(0x0200000a, 60 + id); expect_dgram(id, 30, 0x0200000a, 60 + id); return; }
    client_sends(tag); expect(tag, id, 30, 0); deliver_all(tag);
}
static void ack(int k) {
    int n = R_answer(fid[k], 20, 0);
    if (F[hopfd].stream) { put_bytes(hopfd, RQ, n); F[hopfd].rx_avail = F[hopfd].rx_len; }
    else dgram(hopfd, RQ, n, 0x0900000a, 4000);
}
static void gone(int tag) { int fd = fd_of_tag(tag); if (CHOOSE(2)) F[fd].eof = 2; else F[fd].rst = 1; dead[tag] = 1; may_close[tag] = 1; }
static void fwd(unsigned t, int retries, int proto) { R_fwd(W_FORWARD, 0x0900000a, 4000, 0, t, retries, 1, proto); R_compute(1); R_reply(20, 1); }
static int next(int s) {
    int l = find_listener(0);
#if KIND == 0
    if (s == 1) { new_conn_on(l, 1); new_conn_on(l, 2); return 1; }
    if (s == 2) { env_storage_hold = 1; R_begin(1); R_store(0, 9, 1); send_(1, 1); R_begin(2); R_load(0, 9); send_(1, 2); R_begin(3); R_store(0, 9, 0); R_load(0, 3); send_(2, 3); return 1; }
    if (s == 3) { if (CHOOSE(2)) gone(1 + CHOOSE(2)); return 1; }
    if (s == 4) { new_conn_on(l, 3); return 1; }
    if (s == 5) { env_storage_hold = 0; return 1; }
    if (s == 6) { for (int t = 1; t < 4; t++) if (fd_of_tag(t) >= 0 && F[fd_of_tag(t)].kind == K_CONN) F[fd_of_tag(t)].eof = 2; return 1; }
#elif KIND == 1
    if (s == 1) { new_conn_on(l, 1); new_conn_on(l, 2); return 1; }
    if (s == 2) { R_begin(1); fwd(0, 0, W_TCP); send_(1, 1); R_begin(2); R_compute(1); send_(1, 2); return 1; }
    if (s == 3) { R_begin(3); fwd(0, 0, W_TCP); send_(2, 3); return 1; }
    if (s == 4) { int k = CHOOSE(4); if (k == 0) gone(1); if (k == 1) gone(2); if (k == 2) { ack(0); ack(0); } return 1; }
    if (s == 5) { ack(1); return 1; }
    if (s == 6) { ack(0); return 1; }
    if (s == 7) { if (CHOOSE(2)) F[fd_of_tag(40)].eof = 2; else F[fd_of_tag(40)].rst = 1; return 1; }
    if (s == 8) { for (int t = 1; t < 4; t++) if (fd_of_tag(t) >= 0 && F[fd_of_tag(t)].kind == K_CONN) F[fd_of_tag(t)].eof = 2; return 1; }
#elif KIND == 2
    if (s == 1) { new_conn_on(l, 1); new_conn_on(l, 2); return 1; }
    if (s == 2) { R_begin(1); fwd(100, CHOOSE(2), W_TCP); send_(1, 1); EXP[0].status = -1; R_begin(2); fwd(200, 0, W_TCP); send_(2, 2); return 1; }
    if (s == 3) { now_us += 60; if (CHOOSE(2)) ack(1); else EXP[1].status = -1; return 1; }
    if (s == 4) { now_us += 60; return 1; }
    if (s == 5) { if (CHOOSE(2)) gone(1); return 1; }
    if (s == 6 || s == 7) { now_us += 150; return 1; }
    if (s == 8) { for (int t = 1; t < 3; t++) if (fd_of_tag(t) >= 0) F[fd_of_tag(t)].eof = 2; F[fd_of_tag(40)].eof = 2; return 1; }
#elif KIND == 3
    if (s == 1) { new_conn_on(l, 1); new_conn_on(l, 2); return 1; }
    if (s == 2) { env_storage_hold = 1; R_begin(1); R_store(0, 4, 0); send_(1, 1); R_begin(1); R_store(0, 4, 0); send_(2, 1); return 1; }
    if (s == 3) {
        int k = CHOOSE(4);
        may_close[1] = 1; dead[1] = 1;
        if (k == 0) { R_begin(7); r32(99); R_end(0); client_sends(1); }
        if (k == 1) { R_begin(7); R_reply(4, 1); R_end(0); client_sends(1); }
        if (k == 2) { R_begin(7); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 0, 0, 1, W_TCP); R_compute(1); R_end(0); client_sends(1); }
        if (k == 3) { R_begin(7); R_compute(1); R_reply(5000, 1); R_end(0); client_sends(1); }
        deliver_all(1);
        return 1;
    }
    if (s == 4) { env_storage_hold = 0; return 1; }
    if (s == 5) { F[fd_of_tag(2)].eof = 2; if (fd_of_tag(40) >= 0) F[fd_of_tag(40)].eof = 2; return 1; }
#elif KIND == 4
    if (s == 1) { new_conn_on(l, 1); return 1; }
    if (s == 2) { new_conn_on(l, 2); return 1; }
    if (s == 3) { env_storage_hold = 1; R_begin(1); R_store(0, 4, 0); send_(1, 1); new_conn_on(l, 3); return 1; }
    if (s == 4) { if (CHOOSE(2)) gone(1); return 1; }
    if (s == 5) { env_storage_hold = 0; return 1; }
    if (s == 6) { if (fd_of_tag(1) >= 0) F[fd_of_tag(1)].eof = 2; F[fd_of_tag(3)].eof = 2; return 1; }
#elif KIND == 5
    if (s == 1) { for (int i = 1; i < 7; i++) new_conn_on(l, i); may_close[5] = may_close[6] = 1; return 1; }
    if (s == 2) { env_storage_hold = 1; for (int i = 1; i < 4; i++) { R_begin(i); R_store(0, i, 0); send_(1, i); } may_close[2] = 1; return 1; }
    if (s == 3) { R_begin(4); R_store(0, 4, 0); send_(3, 4); return 1; }
    /* one request too many: refused, with the connection it came from */
    if (s == 4) { R_begin(5); R_compute(1); dead[2] = 1; send_(2, 5); return 1; }
    if (s == 5) { env_storage_hold = 0; return 1; }
    if (s == 6) { F[fd_of_tag(1)].eof = 2; new_conn_on(l, 7); return 1; }
    if (s == 7) { for (int t = 1; t < 9; t++) if (fd_of_tag(t) >= 0 && F[fd_of_tag(t)].kind == K_CONN) F[fd_of_tag(t)].eof = 2; return 1; }
#elif KIND == 6
    if (s == 1) return 1;
    if (s == 2) { env_storage_hold = 1; R_begin(1); R_store(0, 4, 0); send_(0, 1); R_begin(2); fwd(CHOOSE(2) * 100, 0, CHOOSE(2)); send_(0, 2); R_begin(3); R_compute(1); send_(0, 3); return 1; }
    if (s == 3) { env_storage_hold = 0; return 1; }
    if (s == 4) { ack(0); return 1; }
    if (s == 5) {
        int k = CHOOSE(3);
        R_begin(9);
        if (k == 0) r32(99);
        if (k == 1) { R_compute(1); R_reply(5000, 1); }
        if (k == 2) { R_store(0, 3, 0); R_reply(5000, 1); }
        R_end(0); client_dgram(0x0200000a, 77); return 1;
    }
    if (s == 6) { if (F[hopfd].stream && F[hopfd].kind == K_CONN) F[hopfd].eof = 2; return 1; }
#elif KIND == 9
    if (s == 1) { new_conn_on(l, 1); new_conn_on(l, 2); return 1; }
    if (s == 2) {
        env_storage_hold = 1;
        for (int i = 1; i < 3; i++) {
            R_begin(i); R_store(0, 9, 0); if (CHOOSE(2)) R_load(0, 3); R_end(0);
            client_sends(i); deliver_all(i); silent++;
        }
        R_begin(3); R_compute(1); R_end(0); client_sends(1); deliver_all(1);
        return 1;
    }
    if (s == 3) { R_begin(4); R_compute(1); send_(2, 4); return 1; }
    if (s == 4) { if (CHOOSE(2)) { gone(1); silent--; } return 1; }
    if (s == 5) { env_storage_hold = 0; silent = 0; return 1; }
    if (s == 6) { for (int t = 1; t < 3; t++) if (fd_of_tag(t) >= 0 && F[fd_of_tag(t)].kind == K_CONN) F[fd_of_tag(t)].eof = 2; return 1; }
#elif KIND == 8
    /* other events are reported together with the signal, in any order */
    if (s == 1) { for (int i = 1; i < 4; i++) new_conn_on(l, i); return 1; }
    if (s == 2 || s == 4) {
        env_evmode = 1 + CHOOSE(2);
        int n = CHOOSE(3);
        for (int i = 1; i < 2 + n; i++) { R_begin(10 * s + i); R_compute(1); send_(i, 10 * s + i); }
        usr1_pending = 1;
        return 1;
    }
    if (s == 3 || s == 5) { OBLV(statistics_printed, lines == nt && totals == 1, lines, totals); lines = totals = 0; OBLV(no_request_left, reqs_() == 0, reqs_(), 0); return 1; }
    if (s == 6) { for (int t = 1; t < 4; t++) F[fd_of_tag(t)].eof = 2; return 1; }
#else
    if (s == 1) { new_conn_on(l, 1); return 1; }
    if (s == 2) { reach = 1; R_begin(1); fwd(100, 0, W_TCP); send_(1, 1); EXP[0].status = -1; return 1; }
    if (s == 3) { int k = CHOOSE(3); if (k == 0) F[fd_of_tag(40)].conn_state = 3; if (k == 1) { F[fd_of_tag(40)].conn_state = 2; } return 1; }
    if (s == 4) { now_us += 150; return 1; }
    if (s == 5) { int fd = fd_of_tag(40); if (fd >= 0 && F[fd].kind == K_CONN && F[fd].conn_state == 2) F[fd].eof = 2; return 1; }
    if (s == 6) { F[fd_of_tag(1)].eof = 2; return 1; }
#endif
    return 0;
}
int env_idle(void) {
    if (KIND == 4 && cur_thread > 1) return 0;
    if (step == 0) { for (int e = 0; e < NEP; e++) if (EPW[e] == cur_thread) { ep0 = e; } quiet = KIND == 8 ? 2 : CHOOSE(2); }
    if (asked) {
        asked = 0;
        OBLV(statistics_printed, lines == nt && totals == 1, lines, totals);
        lines = totals = 0;
    } else if (step > 0 && (!quiet || (quiet == 1 && step > 4))) { asked = 1; usr1_pending = 1; return 1; }
    step++;
    int more = next(step);
    if (!more) { OBLV(nothing_left, conns_of(ep0) == 0 || KIND == 7, conns_of(ep0), 0); OBLV(no_request_left, reqs_() == 0, reqs_(), 0); }
    return more;
}
int main(void) {
    env_max_events = 300;
    env_text = 1;
    if (KIND == 4) { nt = 2; env_option("nt", "2"); env_option("accept-mode", "parent"); }
    if (KIND == 6) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    MARK(END);
    return 0;
}
