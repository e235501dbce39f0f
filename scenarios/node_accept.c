/*META {"props": ["C14"], "program": "dw_node", "min_obl": 20, "caps": {"MAX_CONNS": "8"}, "need": ["served_by_one_worker"],
 "variants": [{"name": "child", "defs": ["-DKIND=0"]}, {"name": "shared", "defs": ["-DKIND=1"]}, {"name": "parent", "defs": ["-DKIND=2"]},
              {"name": "single", "defs": ["-DKIND=3"]}, {"name": "two-workers", "defs": ["-DKIND=4"]}, {"name": "parent-two", "defs": ["-DKIND=5"]},
              {"name": "handover", "defs": ["-DKIND=6"], "caps": {"MAX_CONNS": "4"}, "min_obl": 10, "need": ["connection_accepted", "handed_over"]}]} */
/* Connections in all accept modes: each is watched by exactly one worker. */
#define HAVE_on_watch
#include "env.h"
#include "node.h"
#define CHILD (KIND == 0)
#define SHARED (KIND == 1 || KIND == 4)
#define PARENT (KIND == 2 || KIND == 5 || KIND == 6)
static int nt, step, round_, left;
static int backlog, port;
static int watcher(int fd) { for (int e = 0; e < NEP; e++) if (REG[e][fd].on) return e; return -1; }
static void check_all(void) {
    for (int i = 3; i < NFD; i++)
        if (F[i].kind == K_CONN && F[i].tag > 0) {
            OBLV(served_by_one_worker, reg_count(i) == 1, F[i].tag, reg_count(i));
            OBLV(accepted_connection_nonblocking, F[i].nonblock, F[i].tag, i);
        }
}
static void check_listeners(void) {
    int n = 0;
    for (int i = 3; i < NFD; i++)
        if (F[i].kind == K_LISTEN) {
            n++;
            OBLV(listening_address, F[i].baddr == 0x0100007f && ntohs(F[i].bport) == port, F[i].baddr, F[i].bport);
            OBLV(listening_queue, F[i].backlog == backlog, F[i].backlog, backlog);
            if (CHILD) OBLV(listening_port_shared_by_workers, F[i].reuseport == 1, i, 0);
        }
    OBLV(listening_sockets, n == (CHILD ? nt : 1), n, nt);
}
static void ask(int tag, unsigned id) { R_begin(id); R_compute(1); R_reply(20 + tag, 1); R_end(0); client_sends(tag); expect(tag, id, 20 + tag, 0); deliver_all(tag); }
static int next_tag = 1, first_tag;
static int worker(void) { int w = 0; for (int i = 0; i < cur_thread; i++) if (THR[i].fn == THR[cur_thread].fn) w++; return w; }
static int cnt[4];
static int accepted(int tag) { return fd_of_tag(tag) >= 0; }
/* handover: the other worker gets going at once, before the one that accepts has gone on */
static int other = -1, closes;
void env_on_watch(int ep, int fd) {
    if (KIND != 6 || other >= 0 || F[fd].kind != K_CONN || F[fd].tag <= 0 || EPW[F[ep].idx] == cur_thread) return;
    for (int i = 0; i < nthr; i++) if (i != cur_thread && THR[i].fn == THR[cur_thread].fn && THR[i].state == 0) other = i;
    if (other < 0) return;
    int t = F[fd].tag;
    ask(t, 5);
    closes = CHOOSE(2);
    if (closes) F[fd].eof = 1;
    env_run_thread(other);
    term_pending = 0;
}
static int handover(int w) {
    check_all();
    if (w > 0) return 0;
    step++;
    int l = find_listener(0);
    if (step == 1) { new_conn_on(l, 1); new_conn_on(l, 2); return 1; }
    OBL(handed_over, other >= 0);
    if (step == 2) { int n = closes ? 3 : 2; for (int i = 0; i < n; i++) new_conn_on(l, 3 + i); return 1; }
    if (step == 3) {
        for (int t = 3; t < (closes ? 6 : 5); t++) OBLV(connection_accepted, fd_of_tag(t) >= 0 && reg_count(fd_of_tag(t)) == 1, t, fd_of_tag(t));
        for (int i = 3; i < NFD; i++) if (F[i].kind == K_CONN && F[i].tag > 0 && EPW[watcher(i)] == cur_thread) ask(F[i].tag, 6);
        return 1;
    }
    return 0;
}
int env_idle(void) {
    if (KIND == 6) return handover(worker());
    int w = nt > 1 ? worker() : 0;
    check_all();
    if (step == 0) check_listeners();
    step++;
    if (PARENT && w > 0) {
        /* served here: the connections the first worker assigned to this one */
        if (left) { left = 0; return 1; }
        return 0;
    }
    int l = find_listener(CHILD ? w : 0);
    int s = step;
    if (s == 1) {
        first_tag = next_tag;
        int n = 1 + CHOOSE(2);
        if (PARENT) n = 4 + CHOOSE(3);
        for (int i = 0; i < n; i++) { new_conn_on(l, next_tag); next_tag++; }
        if (CHOOSE(2)) env_accept_errno = EAGAIN; /* someone else was faster */
        return 1;
    }
    if (s == 2) {
        if (PARENT) {
            /* as many for each worker, give or take one */
            int c[NEP], lo = 100, hi = 0, tot = 0;
            for (int e = 0; e < NEP; e++) c[e] = 0;
            for (int t = first_tag; t < next_tag; t++) { int fd = fd_of_tag(t); OBLV(connection_accepted, fd >= 0, t, fd); c[watcher(fd)]++; }
            for (int e = 0; e < NEP; e++) { if (c[e]) tot++; if (c[e] && c[e] < lo) lo = c[e]; if (c[e] > hi) hi = c[e]; }
            OBLV(spread_over_all_workers, tot == nt && hi - lo <= 1, tot, hi - lo);
        }
        for (int t = first_tag; t < next_tag; t++) { OBLV(connection_accepted, accepted(t), t, w); ask(t, 5); }
        left = 1;
        return 1;
    }
    if (s == 3) {
        if (!PARENT) for (int t = first_tag; t < next_tag; t++) {
            OBLV(accepting_worker_serves, F[fd_of_tag(t)].owner == cur_thread && EPW[watcher(fd_of_tag(t))] == cur_thread, t, w);
            ask(t, 6);
        }
        return 1;
    }
    step = 0;
    return 0;
}
int main(void) {
    env_max_events = 200;
    nt = KIND == 3 ? 1 : KIND >= 4 ? 2 : 3;
    env_option("nt", nt == 1 ? "1" : nt == 2 ? "2" : "3");
    const char *m = CHILD ? "child" : SHARED ? "shared" : "parent";
    if (KIND == 3) { int k = CHOOSE(3); m = k == 0 ? "child" : k == 1 ? "shared" : "parent"; }
    if (KIND != 0) env_option("accept-mode", m);
    port = 7891; backlog = 5;
    if (CHOOSE(2)) { port = 9000; env_option("bind-addr", "tcp://127.0.0.1:9000"); backlog = 17; env_option("backlog-length", "17"); }
    else port = 7891;
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    MARK(END);
    return 0;
}
