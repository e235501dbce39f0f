/*META {"props": ["C18"], "program": "dw_client", "min_obl": 5, "caps": {"BUF_SIZE": "1024", "MAX_PKTS": "4", "MAX_CONNS": "2", "MAX_THREADS": "2"}, "need": ["command_in_order", "sent_once"],
 "variants": [{"name": "compute", "defs": ["-DFIRST=0", "-DLEN=3", "-DSIZE=0"]}, {"name": "store", "defs": ["-DFIRST=1", "-DLEN=3", "-DSIZE=1"]}, {"name": "store-nosync", "defs": ["-DFIRST=2", "-DLEN=3", "-DSIZE=0"]}, {"name": "load", "defs": ["-DFIRST=3", "-DLEN=3", "-DSIZE=1"]}, {"name": "forward", "defs": ["-DFIRST=4", "-DLEN=3", "-DSIZE=0"]}, {"name": "multi-forward", "defs": ["-DFIRST=5", "-DLEN=3", "-DSIZE=1"]}, {"name": "reply", "defs": ["-DFIRST=6", "-DLEN=3", "-DSIZE=0"]}, {"name": "store-offset", "defs": ["-DFIRST=7", "-DLEN=3", "-DSIZE=1"]}, {"name": "load-offset", "defs": ["-DFIRST=8", "-DLEN=3", "-DSIZE=0"]}]} */
/* Command options, against an encoding built from their documented meaning. */
#define HAVE_on_recv_block
#define HAVE_on_thread
#include "client.h"
static int want_size;
static void on_request(int fd, const unsigned char *p, int n) {
    OBLV(request_size, n == want_size, n, want_size);
    same_commands(p, n);
    reply_bytes(fd, g32(p), 16, 0);
}
void env_on_recv_block(int fd) { F[fd].rx_avail = F[fd].rx_len; }
void env_on_thread(int i) { env_run_thread(i); }
static int open_fwd, acks[4], final_size = 512, commands;
static uint64_t store_at = -1, load_at = -1;
static void close_fwd(int size, int nack) { open_fwd--; R_reply(size, nack ? nack : acks[open_fwd]); }
#define HOP2 0x0200000a
#define HOP3 0x0300000a
static void forward(int n, unsigned timeout, int retries) {
    if (n == 1) R_fwd(W_FORWARD, HOP2, htons(80), 512, timeout, retries, 1, W_TCP);
    else { R_fwd(W_MULTI_FORWARD, HOP2, htons(80), 512, timeout, retries, 1, W_TCP); R_fwd(W_MULTI_FORWARD, HOP3, htons(81), 512, timeout, retries, 1, W_UDP); }
    acks[open_fwd] = n;
    open_fwd++;
}
/* option number a at position k, and what it stands for */
static void action(int a, int k) {
    switch (a) {
    case 0: env_option("comp-time", k == 0 ? "100" : k == 1 ? "2ms" : "7"); R_compute(k == 0 ? 100 : k == 1 ? 2000 : 7); break;
    case 1: env_option("store-data", k == 0 ? "2000" : k == 1 ? "3kb,sync" : "9"); R_store(store_at, k == 0 ? 2000 : k == 1 ? 3000 : 9, 1); break;
    case 2: env_option("store-data", k == 0 ? "77,nosync" : "78b,nosync"); R_store(store_at, k == 0 ? 77 : 78, 0); break;
    case 3: env_option("load-data", k == 0 ? "4k" : k == 1 ? "5b" : "6"); R_load(load_at, k == 0 ? 4000 : k == 1 ? 5 : 6); break;
    case 4: env_option("forward", k == 0 ? "10.0.0.2:80" : k == 1 ? "tcp://10.0.0.2:80,timeout=900" : "10.0.0.2:80,retry=3"); forward(1, k == 1 ? 900 : 0, k == 2 ? 3 : 0); break;
    case 5:
        /* one right after another cannot be told apart on the wire */
        if (k > 0 && (int)g32(RQ + RQN - SZ_FWD) == W_MULTI_FORWARD && RQN >= HDR + SZ_FWD) env_halt();
        env_option("forward", k == 0 ? "10.0.0.2:80,udp://10.0.0.3:81" : "10.0.0.2:80,udp://10.0.0.3:81,timeout=500,retry=2"); forward(2, k == 0 ? 0 : 500, k == 0 ? 0 : 2); break;
    case 6:
        if (open_fwd == 0) { env_option("reply", "64"); final_size = 64; }
        else if (acks[open_fwd - 1] == 2) { env_option("reply", k == 1 ? "48,nack=2" : "nack=1,49"); close_fwd(k == 1 ? 48 : 49, k == 1 ? 2 : 1); }
        else { env_option("reply", "50"); close_fwd(50, 1); }
        return;
    case 7: env_option("store-offset", k == 0 ? "4096" : "1k"); store_at = k == 0 ? 4096 : 1000; return;
    default: env_option("load-offset", k == 0 ? "8192" : "2kb"); load_at = k == 0 ? 8192 : 2000; return;
    }
    commands++;
}
int main(void) {
    now_us = 5000000;
    R_begin(0);
#if SIZE
    env_option("send-pkt-size", "300");
#else
    env_option("send-pkt-size", "28");
#endif
    want_size = SIZE ? 300 : 28;
    action(FIRST, 0);
    for (int k = 1; k < LEN; k++) action(CHOOSE(9), k);
    if (commands == 0) R_compute(1000);
    while (open_fwd > 0) close_fwd(512, 0);
    R_reply(final_size, 1);
    r32(W_EOM);
    if (RQN > want_size) want_size = RQN;
    char *argv[2] = {"dw_client", NULL};
    pgm_main(1, argv);
    OBLV(sent_once, requests == 1, requests, 1);
    MARK(END);
    return 0;
}
