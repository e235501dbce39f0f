/*META {"props": ["C28"], "program": "dw_node", "min_obl": 20, "need": ["exit_status", "every_request_answered"],
 "variants": [{"name": "requests", "defs": ["-DKIND=0"]}, {"name": "storage", "defs": ["-DKIND=1"]}, {"name": "forward", "defs": ["-DKIND=2"]},
              {"name": "timeout", "defs": ["-DKIND=3"]}, {"name": "workers", "defs": ["-DKIND=4"]}, {"name": "udp", "defs": ["-DKIND=5"]}]} */
/* Waits for events are interrupted anywhere (as by a stop and continue of the process); perror() does not preserve errno. */
#define HAVE_on_forward
#define HAVE_connect
#define HAVE_storage_idle
#define HAVE_on_exit
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
#include "node.h"
static int ticks, step, nfid, hopfd, wstep[4];
static unsigned fid[4];
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, 40); return 0; }
static void on_forward(int fd, const unsigned char *p, int n) { fid[nfid & 3] = g32(p); nfid++; hopfd = fd; }
void env_on_exit(int code) { OBLV(node_survives_interruptions, 0, code, env_interrupted); }
int env_storage_idle(void) {
    if (ticks > 2 || KIND != 1) return 0;
    ticks++;
    now_us += 100000;
    return 1;
}
static void ask(int tag, unsigned id) { R_reply(30, 1); R_end(0); client_sends(tag); expect(tag, id, 30, KIND == 3 && id == 1 ? -1 : 0); deliver_all(tag); }
int env_idle(void) {
    step++; ticks = 0;
    int l = find_listener(0);
#if KIND == 0
    if (step == 1) { new_conn_on(l, 1); return 1; }
    if (step == 2) { new_conn_on(l, 2); R_begin(1); R_compute(1); ask(1, 1); return 1; }
    if (step == 3) { R_begin(2); R_compute(1); ask(2, 2); R_begin(3); R_compute(1); ask(1, 3); return 1; }
#elif KIND == 1
    if (step == 1) { new_conn_on(l, 1); return 1; }
    if (step == 2) { R_begin(1); R_store(0, 9, 0); R_load(0, 5); ask(1, 1); return 1; }
    if (step == 3) { R_begin(2); R_store(0, 9, 1); ask(1, 2); return 1; }
#elif KIND == 2
    if (step == 1) { new_conn_on(l, 1); return 1; }
    if (step == 2) { R_begin(1); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 0, 0, 1, W_TCP); R_compute(1); R_reply(20, 1); ask(1, 1); return 1; }
    if (step == 3) { int n = R_answer(fid[0], 20, 0); put_bytes(hopfd, RQ, n); F[hopfd].rx_avail = F[hopfd].rx_len; return 1; }
    if (step == 4) { R_begin(2); R_compute(1); ask(1, 2); return 1; }
#elif KIND == 3
    if (step == 1) { new_conn_on(l, 1); return 1; }
    if (step == 2) { R_begin(1); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 70, 1, 1, W_TCP); R_compute(1); R_reply(20, 1); ask(1, 1); return 1; }
    if (step == 3 || step == 4) { now_us += 70; return 1; }
    if (step == 5) { OBLV(retried_once, nfid == 2, nfid, 2); R_begin(2); R_compute(1); ask(1, 2); return 1; }
#elif KIND == 4
    int w = cur_thread - 1; /* thread 0 is the storage one */
    wstep[w]++;
    if (wstep[w] == 1) { new_conn_on(find_listener(w), 1 + w); return 1; }
    if (wstep[w] == 2) { R_begin(1 + w); R_store(0, 9, 0); ask(1 + w, 1 + w); return 1; }
#else
    if (step < 4) { R_begin(step); R_compute(1); R_reply(40, 1); R_end(0); client_dgram(0x0200000a, 60 + step); expect_dgram(step, 40, 0x0200000a, 60 + step); return 1; }
#endif
    return 0;
}
int main(void) {
    env_max_events = 200;
    env_interruptions = KIND == 0 ? 3 : 2;
    if (KIND == 5) env_option("bind-addr", "udp://127.0.0.1:7000");
    if (KIND == 4) env_option("nt", "2");
    if (KIND == 1 && CHOOSE(2)) env_option("sync", "100");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    MARK(END);
    return 0;
}
