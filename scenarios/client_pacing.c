/*META {"props": ["C21"], "program": "dw_client", "min_obl": 10, "caps": {"BUF_SIZE": "1024", "MAX_PKTS": "12", "MAX_CONNS": "3", "MAX_THREADS": "3"}, "need": ["not_before_schedule", "not_after_schedule"],
 "variants": [{"name": "fixed", "defs": ["-DKIND=0", "-DSPIN=0"]}, {"name": "fixed-spin", "defs": ["-DKIND=0", "-DSPIN=1"]}, {"name": "changing", "defs": ["-DKIND=1", "-DSPIN=0"]}, {"name": "changing-spin", "defs": ["-DKIND=1", "-DSPIN=1"]},
              {"name": "random", "defs": ["-DKIND=2", "-DSPIN=0"]}, {"name": "ramp", "defs": ["-DKIND=3", "-DSPIN=0"]}, {"name": "ramp-threads", "defs": ["-DKIND=4", "-DSPIN=0"]}, {"name": "ramp-sessions", "defs": ["-DKIND=5", "-DSPIN=0"]},
              {"name": "staggered", "defs": ["-DKIND=6", "-DSPIN=0"], "need": ["staggered_start"]}]} */
/* When packets are sent, against the schedule that was asked for. */
#define HAVE_on_recv_block
#define HAVE_on_thread
#define HAVE_connect
#include "client.h"
#define SLACK (SPIN ? 60 : 3)
static long start_us, session_start, sched_lo, sched_hi, free_at, delay;
static int late, in_session, nt = 1, ns = 1, receivers, ramp, hiccup;
static double periods[8];
static int kind_of_period, sent;
int env_connect(int fd, uint32_t a, uint16_t p) {
#if KIND == 6
    long period = kind_of_period == 0 ? 100000 : kind_of_period == 1 ? 3000000 : 900000, at = start_us + 200000 + (receivers - 1) * period / nt;
    OBLV(staggered_start, now_us >= at - 1 && now_us <= at + SLACK, now_us - at, receivers);
#endif
    now_us += KIND >= 3 ? 3 : 300;
    return 0;
}
/* period in force after a packet sent at time t, the i-th of its session */
static void period_after(int i, long t, long *lo, long *hi) {
    long p = 0;
#if KIND == 0
    p = kind_of_period == 0 ? 400 : kind_of_period == 1 ? 2500 : kind_of_period == 2 ? 1250000 : kind_of_period == 3 ? 250000 : kind_of_period == 4 ? 333333 : 5000000;
#elif KIND == 1
    p = kind_of_period == 0 ? 100 + 200 * i : kind_of_period == 1 ? (i == 0 ? 800 : i == 1 ? 400 : 200) : (i == 0 ? 300 : i == 1 ? 70 : 520);
#elif KIND == 2
    *lo += kind_of_period == 0 ? 100 : 50; *hi += kind_of_period == 0 ? 300 : 400;
    return;
#elif KIND == 6
    p = kind_of_period == 0 ? 100000 : kind_of_period == 1 ? 3000000 : 900000;
#else
    /* one step every 1 or 2 s */
    int step = (int)((t - start_us) / 1000000) / ramp;
    if (kind_of_period == 0) p = 1000000 / (step >= 3 ? 5 : 2 + step);     /* 2, 3, 4, 5 per second */
    else p = 1000000 / (step >= 2 ? 4 : step == 1 ? 2 : 1);                /* 1, 2, 4 */
#endif
    *lo += p;
    *hi += p;
}
static void on_request(int fd, const unsigned char *p, int n) {
    if (in_session == 0) { sched_lo = sched_hi = session_start; free_at = session_start; }
    OBLV(not_before_schedule, now_us >= sched_lo, now_us - sched_lo, in_session);
    long latest = sched_hi + late > free_at ? sched_hi + late : free_at;
    OBLV(not_after_schedule, now_us <= latest + SLACK, now_us - latest, in_session);
    period_after(in_session, now_us, &sched_lo, &sched_hi);
    /* sending may take longer than usual */
    if (in_session == hiccup) now_us += delay;
    free_at = now_us;
    in_session++;
    sent++;
    reply_bytes(fd, g32(p), 16, 0);
}
void env_on_recv_block(int fd) { F[fd].rx_avail = F[fd].rx_len; }
static int connected(void) {
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_CONN || F[i].kind == K_DGRAM) return 1;
    return 0;
}
void env_on_thread(int i) {
    if (cur_thread < 0 && !connected()) {
        /* each receiver has a time of its own */
        receivers++;
        now_us = start_us + 4;
        env_sleep_late = 0;
        env_run_thread(i);
        return;
    }
    in_session = 0;
    session_start = now_us;
    env_sleep_late = late;
    env_run_thread(i);
    env_sleep_late = 0;
}
int main(void) {
    now_us = start_us = 5999000;
    clock_tick_us = SPIN ? 20 : 0;
    env_option("to", "10.0.0.2:80");
    env_option("send-pkt-size", "60");
    late = CHOOSE(2) ? 130 : 0;
    if (SPIN) late = 0;
#if KIND == 0
    kind_of_period = CHOOSE(SPIN ? 1 : 6);
    if (kind_of_period == 0) env_option("period", "400");
    else if (kind_of_period == 1) env_option("period", "2.5ms");
    else if (kind_of_period == 2) env_option("period", "1.25s");
    else if (kind_of_period == 3) env_option("rate", "4");
    else if (kind_of_period == 4) env_option("rate", "3");
    else env_option("period", "5s");
#elif KIND == 1
    kind_of_period = CHOOSE(3);
    if (kind_of_period == 2) { env_file_lines[0] = "300\n"; env_file_lines[1] = "70\n"; env_file_lines[2] = "520\n"; env_file_n = 3; }
    env_option("period", kind_of_period == 0 ? "aseq:min=100,max=900,step=200us" : kind_of_period == 1 ? "gseq:min=100us,max=800us,step=0.5" : "file:periods.txt");
#elif KIND == 2
    kind_of_period = CHOOSE(2);
    env_option("period", kind_of_period == 0 ? "unif:min=100,max=300" : "exp:150,min=50,max=400");
#elif KIND == 6
    nt = 2;
    kind_of_period = CHOOSE(3);
    env_option("period", kind_of_period == 0 ? "100ms" : kind_of_period == 1 ? "3s" : "900ms");
    env_option("num-threads", "2");
    env_option("stag-send", NULL);
#else
    kind_of_period = CHOOSE(2);
    ramp = 1 + CHOOSE(2);
    env_option("rate", kind_of_period == 0 ? "aseq:min=2,max=5,step=1" : "gseq:min=1,max=4,step=2");
    env_option("rate-step-secs", ramp == 1 ? "1" : "2");
    if (KIND == 4) { nt = 2; env_option("num-threads", "2"); }
    if (KIND == 5) { ns = 3; env_option("num-sessions", "3"); }
#endif
    if (SPIN) env_option("wait-spin", NULL);
    static const long delays[] = {0, 90, 700, 1300000};
    hiccup = CHOOSE(KIND >= 2 ? 1 : 3);
    delay = delays[KIND >= 2 ? 0 : CHOOSE(SPIN ? 3 : 4)];
    if (delay == 0 && hiccup) env_halt();
    int n = KIND < 3 ? 4 : KIND == 6 ? 2 : 9;
    env_option("num-pkts", KIND < 3 ? "4" : KIND == 6 ? "2" : "9");
    char *argv[2] = {"dw_client", NULL};
    pgm_main(1, argv);
    OBLV(all_sent, sent == n * nt, sent, n);
    MARK(END);
    return 0;
}
