/*META {"props": ["C17"], "program": "dw_node", "min_obl": 5,
 "variants": [{"name": "address", "defs": ["-DKIND=0"]}, {"name": "no-delay", "defs": ["-DKIND=1"]}, {"name": "storage", "defs": ["-DKIND=2"]},
              {"name": "threads", "defs": ["-DKIND=3"]}, {"name": "pinning", "defs": ["-DKIND=4"]}, {"name": "scheduling", "defs": ["-DKIND=5"]},
              {"name": "sync", "defs": ["-DKIND=6"]}, {"name": "invalid", "defs": ["-DKIND=7"], "min_obl": 2, "need": ["refused_with_an_error"], "marks": ["REFUSED"]},
              {"name": "storage-size", "defs": ["-DKIND=8"], "need": ["stores_within_the_size"]}]} */
/* The effect of each option on what the node asks the system for. */
#define HAVE_on_forward
#define HAVE_connect
#define HAVE_on_exit
#define HAVE_storage_idle
#define HAVE_on_file_write
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
static int step, invalid, served;
static unsigned fid; static int hopfd;
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40); return 0; }
static void on_forward(int fd, const unsigned char *p, int n) { fid = g32(p); hopfd = fd; }
void env_on_exit(int code) {
    OBL(no_unexpected_exit, invalid);
    OBLV(refused_with_an_error, code != 0 && !served, code, served);
    MARK(REFUSED);
    if (KIND == 7) MARK(END);
}
static int w_listeners, w_dgram, w_port, w_backlog = 5, w_nodelay = 1, w_nt = 1, w_odirect, w_storage = 1, w_period;
static uint32_t w_addr = 0x0100007f;
static const char *w_path = "/home/u/.dw_store";
static long period_seen;
int env_storage_idle(void) {
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_TIMER && F[i].owner == cur_thread && F[i].armed) period_seen = F[i].interval_us;
    return 0;
}
static long wrote[3]; static int nwrote; static long w_size = 1024 * 1024 * 1024;
void env_on_file_write(long off, int n) { if (nwrote < 3) wrote[nwrote] = off; nwrote++; }
static void check_config(void) {
    int l = 0, d = 0, threads = 0;
    served = 1;
    OBL(invalid_option_refused, !invalid);
    for (int i = 3; i < NFD; i++) {
        if (F[i].kind == K_LISTEN || (F[i].kind == K_DGRAM && F[i].bound)) {
            OBLV(bound_address, F[i].baddr == w_addr && ntohs(F[i].bport) == w_port, F[i].baddr, ntohs(F[i].bport));
            if (F[i].kind == K_LISTEN) { l++; OBLV(queue_length, F[i].backlog == w_backlog, F[i].backlog, w_backlog); } else d++;
        }
    }
    OBLV(protocol, w_dgram ? l == 0 && d > 0 : d == 0 && l == w_nt, l, d);
    OBLV(storage_opened, (file_fd > 0) == w_storage, file_fd, w_storage);
    if (w_storage) {
        OBLV(storage_path, strcmp(env_open_path, w_path) == 0, 0, 0);
        OBLV(storage_mode, file_odirect == w_odirect && file_creat, file_odirect, w_odirect);
    }
}
int env_idle(void) {
    if (w_dgram) { if (step == 0) check_config(); step++; return 0; }
    if (w_nt > 1) { if (step == 0) check_config(); step++; return 0; }
    step++;
    if (step == 1) { check_config(); new_conn_on(find_listener(0), 1); return 1; }
    if (step == 2) { OBLV(accepted_no_delay, F[fd_of_tag(1)].nodelay == w_nodelay, F[fd_of_tag(1)].nodelay, w_nodelay); R_begin(1); if (KIND == 8) { R_reply(30, 1); R_end(0); client_sends(1); deliver_all(1); expect(1, 1, 30, 0); return 1; } if (w_storage) R_store(0, 9, 0); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 0, 0, 1, W_TCP); R_compute(1); R_reply(20, 1); R_reply(30, 1); R_end(0); client_sends(1); deliver_all(1); expect(1, 1, 30, 0); return 1; }
    if (step == 3 && KIND == 8) { R_begin(2); R_store(w_size - 100, 60, 0); R_store((uint64_t)-1, 40, 0); R_store((uint64_t)-1, 1, 0); R_reply(31, 1); R_end(0); client_sends(1); deliver_all(1); expect(1, 2, 31, 0); return 1; }
    if (step == 3) { OBLV(forward_no_delay, F[hopfd].nodelay == w_nodelay, F[hopfd].nodelay, w_nodelay); int n = R_answer(fid, 20, 0); put_bytes(hopfd, RQ, n); F[hopfd].rx_avail = F[hopfd].rx_len; return 1; }
    return 0;
}
#define LONG100 "/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"
#define LONG99 "/01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567"
int main(void) {
    env_max_events = 200;
    w_port = 7891;
#if KIND == 0
    switch (CHOOSE(8)) {
    case 0: break;
    case 1: env_option("bind-addr", "tcp://10.0.0.5:1234"); w_addr = 0x0500000a; w_port = 1234; break;
    case 2: env_option("bind-addr", "udp://10.0.0.5:1234"); w_addr = 0x0500000a; w_port = 1234; w_dgram = 1; break;
    case 3: env_option("bind-addr", ":65535"); w_port = 65535; break;
    case 4: env_option("bind-addr", "10.0.0.7"); w_addr = 0x0700000a; break;
    case 5: env_option("bind-addr", "udp:10.0.0.7:99"); w_addr = 0x0700000a; w_port = 99; w_dgram = 1; break;
    case 6: env_option("bl", "1"); w_backlog = 1; break;
    case 7: env_option("backlog-length", "1024"); w_backlog = 1024; env_option("bind-addr", "0.0.0.0:80"); w_addr = 0; w_port = 80; break;
    }
#elif KIND == 1
    switch (CHOOSE(4)) {
    case 0: env_option("no-delay", "0"); w_nodelay = 0; break;
    case 1: env_option("nd", "1"); break;
    case 2: env_option("no-delay", "1"); env_option("nd", "0"); w_nodelay = 0; break;
    case 3: break;
    }
#elif KIND == 2
    switch (CHOOSE(6)) {
    case 0: break;
    case 1: env_option("storage", "/x/y"); w_path = "/x/y"; break;
    case 2: env_option("storage", LONG99); w_path = LONG99; break;
    case 3: env_option("odirect", NULL); w_odirect = 1; break;
    case 4: env_option("odirect", NULL); env_option("storage", "z"); w_path = "z"; w_odirect = 1; break;
    case 5: env_option("storage", ""); w_storage = 0; break;
    }
#elif KIND == 3
    int k = 1 + CHOOSE(3);
    w_nt = k;
    env_option(CHOOSE(2) ? "nt" : "num-threads", k == 1 ? "1" : k == 2 ? "2" : "3");
#elif KIND == 4
    unsigned long want[4];
    int ncore = 0, k = CHOOSE(5);
    env_ncpu = 4;
    if (k == 0) { env_option("thread-affinity", "auto"); want[0] = 1; want[1] = 2; want[2] = 4; want[3] = 8; ncore = 4; }
    if (k == 1) { env_option("thread-affinity", "2"); want[0] = 4; ncore = 1; }
    if (k == 2) { env_option("thread-affinity", "1,3"); want[0] = 2; want[1] = 8; ncore = 2; }
    if (k == 3) { env_option("thread-affinity", "0-3:2,3"); want[0] = 1; want[1] = 4; want[2] = 8; ncore = 3; }
    if (k == 4) { env_option("thread-affinity", "3-2"); want[0] = 4; want[1] = 8; ncore = 2; }
    w_nt = 1 + CHOOSE(3);
    env_option("nt", w_nt == 1 ? "1" : w_nt == 2 ? "2" : "3");
#elif KIND == 5
    int k = CHOOSE(7);
    w_nt = 1 + CHOOSE(2);
    env_option("nt", w_nt == 1 ? "1" : "2");
    struct env_sched w;
    memset(&w, 0, sizeof(w));
    if (k == 1) env_option("sched-policy", "other");
    if (k == 2) { env_option("sched-policy", "other:-5"); w.nice = -5; }
    if (k == 3) { env_option("sched-policy", "rr:7"); w.policy = 2; w.prio = 7; }
    if (k == 4) { env_option("sched-policy", "fifo:99"); w.policy = 1; w.prio = 99; }
    if (k == 5) { env_option("sched-policy", "dl:10000,20000"); w.policy = 6; w.runtime = 10000000; w.deadline = w.period = 20000000; }
    if (k == 6) { env_option("sched-policy", "dl:5000000,6000000"); w.policy = 6; w.runtime = 5000000000UL; w.deadline = w.period = 6000000000UL; }
#elif KIND == 6
    int k = CHOOSE(4);
    if (k == 0) { env_option("sync", "1"); w_period = 1000; }
    if (k == 1) { env_option("sync", "999"); w_period = 999000; }
    if (k == 2) { env_option("sync", "61500"); w_period = 61500000; }
#elif KIND == 8
    int k = CHOOSE(5);
    if (k == 1) { env_option("max-storage-size", "100"); w_size = 100; }
    if (k == 2) { env_option("max-storage-size", "2147483648"); w_size = 2147483648L; }
    if (k == 3) { env_option("max-storage-size", "4294967396"); w_size = 4294967396L; }
    if (k == 4) { env_option("max-storage-size", "9007199254740993"); w_size = 9007199254740993L; }
#else
    invalid = 1;
    switch (CHOOSE(19)) {
    case 0: env_option("no-delay", "2"); break;
    case 1: env_option("no-delay", "-1"); break;
    case 2: env_option("accept-mode", "both"); break;
    case 3: env_option("accept-mode", ""); break;
    case 4: env_option("nt", "0"); break;
    case 5: env_option("nt", "-3"); break;
    case 6: env_option("nt", "4"); break; /* one more than the maximum, as scaled */
    case 7: env_option("storage", LONG100); break;
    case 8: env_option("sched-policy", "idle"); break;
    case 9: env_option("sched-policy", "rr"); break;
    case 10: env_option("sched-policy", "fifo"); break;
    case 11: env_option("sched-policy", "dl:10"); break;
    case 12: env_option("sched-policy", "otherwise"); break;
    case 13: env_option("thread-affinity", "9"); break;
    case 14: env_option("thread-affinity", "0-4"); break;
    case 15: env_option("thread-affinity", "x"); break;
    case 16: env_option("thread-affinity", "0-3:0"); break;
    case 17: env_option("bind-addr", "ftp://127.0.0.1"); break;
    case 18: env_option("bind-addr", "no.such.host:80"); break;
    }
#endif
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(served, served);
    if (KIND == 8) OBLV(stores_within_the_size, nwrote == 3 && wrote[0] == w_size - 100 && wrote[1] == w_size - 40 && wrote[2] == 0, wrote[1], wrote[2]);
    if (w_nt == 1) OBL(every_request_answered, all_answered());
    int workers = 0;
    for (int i = 0; i < nthr; i++) { int same = 0; for (int j = 0; j < nthr; j++) if (j != i && THR[j].fn == THR[i].fn) same = 1; workers += same; }
    OBLV(number_of_workers, w_nt == 1 ? workers == 0 : workers == w_nt, workers, w_nt);
    OBLV(synchronisation_period, period_seen == w_period, period_seen, w_period);
#if KIND == 4
    /* each worker, then the storage thread, in cyclic order */
    for (int i = 0; i < w_nt; i++) { int t = w_nt == 1 ? 0 : 2 + i; OBLV(worker_pinned, env_thr_pin[t] == want[i % ncore], t, env_thr_pin[t]); }
    OBLV(storage_thread_pinned, env_thr_pin[1] == want[w_nt % ncore], 1, env_thr_pin[1]);
#else
    for (int i = 0; i < 9; i++) OBLV(not_pinned_unless_asked, env_thr_pin[i] == 0, i, env_thr_pin[i]);
#endif
#if KIND == 5
    for (int i = 0; i < w_nt; i++) {
        int t = w_nt == 1 ? 0 : 2 + i;
        struct env_sched *s = &env_thr_sched[t];
        OBLV(scheduling_policy, (s->calls > 0 || k <= 1) && s->policy == w.policy && s->nice == w.nice && s->prio == w.prio, t, s->policy);
        OBLV(scheduling_reservation, s->runtime == w.runtime && s->deadline == w.deadline && s->period == w.period, s->runtime, s->deadline);
    }
#endif
    MARK(END);
    return 0;
}
