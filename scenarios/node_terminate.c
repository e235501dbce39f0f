/*META {"props": ["C15"], "program": "dw_node", "min_obl": 20, "need": ["exit_status", "storage_released"],
 "variants": [{"name": "storage", "defs": ["-DKIND=0"]}, {"name": "forward", "defs": ["-DKIND=1"]}, {"name": "slow-peer", "defs": ["-DKIND=2"]},
              {"name": "periodic", "defs": ["-DKIND=3"]}, {"name": "workers", "defs": ["-DKIND=4"]}, {"name": "parent", "defs": ["-DKIND=5"]},
              {"name": "batch", "defs": ["-DKIND=6"]}, {"name": "udp", "defs": ["-DKIND=7"]}]} */
/* The termination signal arrives after any number of events of a busy node. */
#define HAVE_on_forward
#define HAVE_connect
#define HAVE_storage_idle
#define HAVE_on_send
#define HAVE_on_file_write
#define HAVE_on_file_read
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
static int step, stop, base, after, ticks;
static int ended;
/* once all threads are told to stop, only a bounded amount of work may follow */
static void work(void) { if (term_pending) { after++; OBLV(stops_in_bounded_time, after < 12, after, cur_thread); } OBL(no_work_after_the_end, !ended); }
void env_on_send(int fd, const unsigned char *p, int n) { work(); }
void env_on_file_write(long o, int n) { work(); }
void env_on_file_read(long o, int n) { work(); }
static void on_forward(int fd, const unsigned char *p, int n) { }
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40); return CHOOSE(2); }
int env_storage_idle(void) { if (KIND != 3 || ticks >= 2) return 0; ticks++; now_us += 5000; return 1; }
static void req(int tag, unsigned id) { R_reply(30, 1); R_end(0); if (KIND == 7) client_dgram(0x0200000a, 60 + id); else { client_sends(tag); deliver_all(tag); } }
static int busy(int s) {
    int l = find_listener(0);
    if (KIND == 4) l = find_listener(cur_thread > 1);
    int t = KIND == 4 || KIND == 5 ? 1 + (cur_thread > 1) * 4 : 1;
    switch (s) {
    case 1: if (KIND != 7) { new_conn_on(l, t); new_conn_on(l, t + 1); } return 1;
    case 2:
        R_begin(1);
        if (KIND == 0 || KIND == 3 || KIND == 4 || KIND == 5 || KIND == 7) { R_store(0, 600, 1); R_load(0, 9); }
        if (KIND == 1 || KIND == 6) { R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 1000, 3, 1, W_TCP); R_compute(2); R_reply(20, 1); }
        if (KIND == 2) { F[fd_of_tag(t)].tx_win = 7; R_compute(1); }
        if (KIND == 5 && fd_of_tag(t) < 0) return 1;
        req(t, 1);
        return 1;
    case 3:
        if (KIND == 5 && fd_of_tag(t + 1) < 0) return 1;
        R_begin(2); R_store(900, 20, 1); R_compute(1); if (KIND == 1) { R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 500, 0, 1, W_UDP); R_reply(20, 1); }
        req(t + 1, 2);
        return 1;
    case 4: now_us += 600; if (KIND == 6) { F[fd_of_tag(t + 1)].eof = 2; new_conn_on(l, t + 2); } return 1;
    case 5: env_storage_hold = 0; return 1;
    case 6: now_us += 1000; return 1;
    }
    return 0;
}
int env_idle(void) {
    step++;
    if (step == 1 && (KIND < 4 || KIND > 5 || cur_thread < 2)) { stop = 1 + CHOOSE(7); env_storage_hold = CHOOSE(2); }
    else if (step == 1) stop = 4;
    if (step >= stop || !busy(step)) { step = 0; if (env_storage_hold == 2) env_storage_hold = 0; return 0; }
    /* the signal may also come together with other events */
    if (step == stop - 1 && (KIND < 4 || KIND > 5 || cur_thread < 2) && CHOOSE(2)) { term_pending = 1; after = 0; step = 0; }
    return 1;
}
int main(void) {
    env_max_events = 300;
    env_evmode = KIND == 6 ? 1 + CHOOSE(2) : 0;
    if (KIND == 3) env_option("sync", "5");
    if (KIND == 4 || KIND == 5) env_option("nt", "2");
    if (KIND == 5) env_option("accept-mode", "parent");
    if (KIND == 7) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    ended = 1;
    OBL(exit_status, rv == 0);
    for (int i = 0; i < nthr; i++) OBLV(threads_joined, THR[i].state == 3 || THR[i].detached, i, THR[i].state);
    for (int i = 3; i < NFD; i++) OBLV(storage_released, F[i].kind != K_FILE && F[i].kind != K_PIPE_R && F[i].kind != K_PIPE_W, i, F[i].kind);
    MARK(END);
    return 0;
}
