/*META {"props": ["C18"], "program": "dw_client", "min_obl": 30, "caps": {"BUF_SIZE": "1024", "MAX_PKTS": "4", "MAX_CONNS": "2", "MAX_THREADS": "2"}, "need": ["command_in_order", "sent_all"],
 "variants": [{"name": "skip-flat", "defs": ["-DKIND=0"]}, {"name": "skip-within", "defs": ["-DKIND=1"]}, {"name": "skip-multi", "defs": ["-DKIND=2"]}, {"name": "skip-nested", "defs": ["-DKIND=3"]},
              {"name": "values", "defs": ["-DKIND=4"]}, {"name": "nested", "defs": ["-DKIND=5"]}, {"name": "default", "defs": ["-DKIND=6"], "min_obl": 5},
              {"name": "skip-twice", "defs": ["-DKIND=7"]}]} */
/* Skipped commands, values that change from one request to the next, and deeper nesting. */
#define HAVE_on_recv_block
#define HAVE_on_thread
#include "client.h"
extern double env_draw_fixed;
static int want_size, npkts = 2, n_skip, prob, skipping;
#define HOP2 0x0200000a
#define HOP3 0x0300000a
static void fwd(int k) { R_fwd(W_FORWARD, k == 2 ? HOP2 : HOP3, htons(80), 512, 0, 0, 1, W_TCP); }
static void multi(void) { R_fwd(W_MULTI_FORWARD, HOP2, htons(80), 512, 0, 0, 1, W_TCP); R_fwd(W_MULTI_FORWARD, HOP3, htons(80), 512, 0, 0, 1, W_TCP); }
static void draw(void) {
    skipping = 1;
    if ((KIND <= 3 || KIND == 7) && prob) { skipping = CHOOSE(2); env_draw_fixed = skipping ? 0.2 : 0.8; }
}
/* what request i has to hold */
static void expected(int i) {
    int s = skipping ? n_skip : 0;
    R_begin(i);
#if KIND == 0
    R_compute(1);
    if (s < 1) R_compute(2);
    if (s < 2) { fwd(2); R_compute(3); R_reply(50, 1); }
    if (s < 3) R_compute(4);
#elif KIND == 1
    fwd(2);
    if (s < 1) R_compute(2);
    if (s < 2) R_store(-1, 5, 1);
    R_reply(50, 1);
    R_compute(4);
#elif KIND == 2
    if (s < 1) { multi(); R_compute(2); R_reply(50, 2); }
    if (s < 2) R_load(-1, 9);
    if (s < 3) R_compute(3);
#elif KIND == 3
    if (s < 1) { fwd(2); fwd(3); R_compute(1); R_reply(20, 1); R_compute(2); multi(); R_compute(5); R_reply(21, 1); R_reply(30, 1); }
    if (s < 2) R_compute(3);
#elif KIND == 7
    /* the second skip is itself a command to be skipped */
    R_compute(1);
    if (s < 1) R_compute(2);
    int second = s < 2;
    if (!second && s < 3) R_compute(3);
    if (!second && s < 4) R_compute(4);
    R_compute(5);
#elif KIND == 4
    R_compute(10 + 10 * i);
    R_store(i == 0 ? 64 : i == 1 ? 128 : 256, i == 0 ? 500 : i == 1 ? 400 : 300, 0);
    R_load(7, 5);
    fwd(2);
    R_reply(20 + 5 * i, 1);
#elif KIND == 5
    multi(); R_compute(1); fwd(2); R_store(-1, 3, 1); R_reply(40, 1); R_compute(2); R_reply(41, 1); R_compute(3); fwd(3); R_compute(4);
    R_reply(512, 1);
#else
    R_compute(1000);
#endif
    R_reply(KIND == 5 ? 99 : 512, 1);
    r32(W_EOM);
}
static void on_request(int fd, const unsigned char *p, int n) {
    int i = requests - 1, w = want_size;
    if (KIND == 4) w = i == 0 ? 40 : i == 1 ? 190 : 340;
    expected(i);
    if (w < RQN) w = RQN;
    OBLV(request_size, n == w, n, w);
    OBLV(request_id, g32(p) == i, g32(p), i);
    same_commands(p, n);
    reply_bytes(fd, g32(p), 16, 0);
    draw();
}
void env_on_recv_block(int fd) { F[fd].rx_avail = F[fd].rx_len; }
void env_on_thread(int i) { env_run_thread(i); }
static void option_skip(void) {
    static const char *a[] = {"1", "2", "3", "4"}, *b[] = {"1,prob=0.5", "2,prob=0.5", "prob=0.5,3", "4,prob=0.5"};
    n_skip = 1 + CHOOSE(4);
    prob = CHOOSE(2);
    env_option("skip", prob ? b[n_skip - 1] : a[n_skip - 1]);
}
int main(void) {
    now_us = 5000000;
    want_size = 200;
    env_draw_fixed = 0.9;
#if KIND == 0
    env_option("comp-time", "1"); option_skip(); env_option("comp-time", "2"); env_option("forward", "10.0.0.2:80"); env_option("comp-time", "3"); env_option("reply", "50"); env_option("comp-time", "4");
#elif KIND == 1
    env_option("forward", "10.0.0.2:80"); option_skip(); env_option("comp-time", "2"); env_option("store-data", "5"); env_option("reply", "50"); env_option("comp-time", "4");
#elif KIND == 2
    option_skip(); env_option("forward", "10.0.0.2:80,10.0.0.3:80"); env_option("comp-time", "2"); env_option("reply", "50,nack=2"); env_option("load-data", "9"); env_option("comp-time", "3");
#elif KIND == 3
    option_skip(); env_option("forward", "10.0.0.2:80"); env_option("forward", "10.0.0.3:80"); env_option("comp-time", "1"); env_option("reply", "20"); env_option("comp-time", "2"); env_option("forward", "10.0.0.2:80,10.0.0.3:80"); env_option("comp-time", "5"); env_option("reply", "21,nack=1"); env_option("reply", "30"); env_option("comp-time", "3");
#elif KIND == 4
    npkts = 3;
    env_option("comp-time", "aseq:min=10,max=30,step=10"); env_option("store-offset", "gseq:min=64,max=256,step=2"); env_option("store-data", "aseq:min=300,max=500,step=-100,nosync"); env_option("load-offset", "7"); env_option("load-data", "5"); env_option("forward", "10.0.0.2:80"); env_option("reply", "aseq:20,min=20,max=60,step=5");
#elif KIND == 5
    env_option("forward", "10.0.0.2:80,10.0.0.3:80"); env_option("comp-time", "1"); env_option("forward", "10.0.0.2:80"); env_option("store-data", "3"); env_option("reply", "40"); env_option("comp-time", "2"); env_option("reply", "nack=1,41"); env_option("comp-time", "3"); env_option("reply", "99"); env_option("forward", "10.0.0.3:80"); env_option("comp-time", "4");
#elif KIND == 7
    env_option("comp-time", "1"); option_skip(); env_option("comp-time", "2"); env_option("skip", "2"); env_option("comp-time", "3"); env_option("comp-time", "4"); env_option("comp-time", "5");
#endif
    env_option("send-pkt-size", KIND == 4 ? "aseq:min=40,max=400,step=150" : "200");
    env_option("num-pkts", KIND == 4 ? "3" : "2");
    draw();
    char *argv[2] = {"dw_client", NULL};
    pgm_main(1, argv);
    OBLV(sent_all, requests == npkts, requests, npkts);
    MARK(END);
    return 0;
}
