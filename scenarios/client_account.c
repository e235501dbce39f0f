/*META {"props": ["C19"], "program": "dw_client", "min_obl": 20, "caps": {"BUF_SIZE": "1024", "MAX_PKTS": "6", "MAX_CONNS": "4", "MAX_THREADS": "3"}, "need": ["request_id", "response_time", "one_line_per_packet", "sessions"],
 "variants": [{"name": "order", "defs": ["-DKIND=0", "-DPSO=0"]}, {"name": "order-sessions", "defs": ["-DKIND=0", "-DPSO=1"]},
              {"name": "counts", "defs": ["-DKIND=1", "-DPSO=0"]}, {"name": "counts-sessions", "defs": ["-DKIND=1", "-DPSO=1"]},
              {"name": "threads", "defs": ["-DKIND=2", "-DPSO=0"]}, {"name": "threads-sessions", "defs": ["-DKIND=2", "-DPSO=1"]},
              {"name": "large", "defs": ["-DKIND=3", "-DPSO=0"], "caps": {"BUF_SIZE": "256"}},
              {"name": "datagrams", "defs": ["-DKIND=4", "-DPSO=0"]}, {"name": "datagrams-sessions", "defs": ["-DKIND=4", "-DPSO=1"]},
              {"name": "non-block", "defs": ["-DKIND=5", "-DPSO=0"]}, {"name": "late", "defs": ["-DKIND=6", "-DPSO=0"]}]} */
/* Packets sent, replies in any order and segmentation, and what is reported about them. */
#define HAVE_on_recv_block
#define HAVE_on_thread
#define HAVE_on_line
#define HAVE_on_close
#define HAVE_connect
#define HAVE_on_poll
#include "client.h"
#define MAXP 6
#define MAXT 2
static int n_asked = 1, ns = 1, nt = 1, total, pps;
static long start_us = 5000000;
static long sent_at[MAXT][MAXP], took[MAXT][MAXP];
static int sent[MAXT], lines[MAXT][MAXP], sessions, closed_sessions;
/* state of each session's socket */
static int s_thr[NFD], s_first[NFD], s_n[NFD], s_ids[NFD][MAXP], s_given[NFD], s_cut[NFD];
static int reply_order, seg, failing, lazy, pending_thread = -1;
static long sender_end, recv_time;
static int receivers;
static int cur_receiver = 0;
int env_connect(int fd, uint32_t a, uint16_t p) {
    OBLV(node_address, a == 0x0200000a && p == htons(80), a, p);
    now_us += 300;
    if (KIND == 5) { F[fd].tx_win = 45; return lazy; }
    return 0;
}
static int size_of(int id) { return KIND == 3 ? (id == 0 ? 200 : id == 1 ? 256 : id == 2 ? 100 : 131) : id == 1 ? 40 : 16; }
static int status_of(int t, int id) { (void)t; return failing >> id & 1 ? 255 : 0; }
static void on_request(int fd, const unsigned char *p, int n) {
    int t = cur_receiver, id = (int)g32(p);
    OBLV(request_id, id == sent[t], id, sent[t]);
    OBLV(no_more_than_requested, id < total, id, total);
    if (s_n[fd] == 0) { s_first[fd] = id; sessions++; OBLV(session_starts_at, id % pps == 0, id, pps); }
    OBLV(packets_per_session, s_n[fd] < pps, s_n[fd], pps);
    s_ids[fd][s_n[fd]++] = id;
    sent_at[t][id] = now_us;
    sent[t]++;
    now_us += 7; /* sending takes its time */
}
/* the i-th reply of a session of n, for each order */
static int perm(int o, int n, int i) {
    static const int p3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    if (n == 3) return p3[o][i];
    return o & 1 ? n - 1 - i : i;
}
static void give(int fd) {
    /* put the next reply in the stream; its bytes become available as seg says */
    int k = perm(reply_order, s_n[fd], s_given[fd]), id = s_ids[fd][k], t = cur_receiver;
    if (F[fd].stream) reply_bytes(fd, id, size_of(id), status_of(t, id));
    else {
        int before = F[fd].rx_len;
        reply_bytes(fd, id, size_of(id), status_of(t, id));
        int d = F[fd].dg_n++;
        F[fd].dg_len[d] = F[fd].rx_len - before;
        F[fd].dg_addr[d] = 0x0200000a;
        F[fd].dg_port[d] = htons(80);
    }
    s_given[fd]++;
    took[t][id] = status_of(t, id) ? 0 : recv_time - sent_at[t][id];
}
static void run_sender(void) {
    int i = pending_thread;
    pending_thread = -1;
    env_run_thread(i);
    sender_end = now_us;
}
void env_on_recv_block(int fd) {
    struct mfd *f = &F[fd];
    if (pending_thread >= 0 && THR[pending_thread].state == 0) run_sender();
    OBLV(waits_for_a_reply, s_given[fd] < s_n[fd] || f->rx_avail < f->rx_len, s_given[fd], s_n[fd]);
    /* a reply arrives some time after the last packet was sent */
    if (recv_time < sender_end) recv_time = sender_end;
    recv_time += 1000;
    now_us = recv_time;
    if (!f->stream) { give(fd); return; }
    if (f->rx_avail < f->rx_len) {
        /* rest of a segment; what it completes arrives now */
        if (s_cut[fd]) { int id = s_ids[fd][perm(reply_order, s_n[fd], s_given[fd] - 1)]; if (took[cur_receiver][id]) took[cur_receiver][id] = recv_time - sent_at[cur_receiver][id]; s_cut[fd] = 0; }
        f->rx_avail = f->rx_len;
        return;
    }
    int last = f->rx_len;
    give(fd);
    if (seg == 0) f->rx_avail = f->rx_len;                                                       /* one by one */
    else if (seg == 1) { while (s_given[fd] < s_n[fd]) give(fd); f->rx_avail = f->rx_len; }      /* all together */
    else if (seg == 2) { f->rx_avail = last + 5; s_cut[fd] = 1; }                                /* cut within the header */
    else if (seg == 3) { f->rx_avail = f->rx_len - 1; s_cut[fd] = 1; }                           /* cut before the last byte */
    else {                                                                                       /* one and a half */
        if (s_given[fd] < s_n[fd]) { last = f->rx_len; give(fd); f->rx_avail = last + 9; s_cut[fd] = 1; }
        else f->rx_avail = f->rx_len;
    }
}
static int connected(void) {
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_CONN || F[i].kind == K_DGRAM) return 1;
    return 0;
}
void env_on_thread(int i) {
    now_us += 50;
    if (cur_thread < 0 && !connected()) {
        /* a receiver: they run one after another */
        receivers++;
        cur_receiver = receivers - 1;
        env_run_thread(i);
        return;
    }
    pending_thread = i;
    recv_time = now_us;
    if (!lazy) run_sender();
}
void env_on_poll(int fd, int ev) { if (ev & POLLIN) env_on_recv_block(fd); else if (F[fd].conn_state == 1) F[fd].conn_state = 2; else if (F[fd].tx_win == 0) F[fd].tx_win = 100; now_us += 20; }
void env_on_close(int fd) {
    OBLV(sender_done_before_close, pending_thread < 0 || THR[pending_thread].state != 0, fd, 0);
    if (now_us < sender_end) now_us = sender_end;
    if (s_n[fd] > 0) { OBLV(packets_per_session, s_n[fd] == pps, s_n[fd], pps); closed_sessions++; }
    s_n[fd] = s_given[fd] = s_cut[fd] = 0;
    inbox_n[fd] = 0;
}
void env_on_line(const char *l) {
    if (l[0] != 't' || l[1] != ':') return;
    long t = field(l, "t: "), e = field(l, "elapsed: "), id = field(l, "req_id: "), th = field(l, "thr_id: "), ss = field(l, "sess_id: ");
    OBLV(line_of_a_packet, id >= 0 && id < total && th == cur_receiver, id, th);
    OBLV(line_session, ss == id / pps, ss, id);
    long at = sent_at[th][id] - start_us;
    if (KIND == 5) {
        /* sending may take several steps */
        OBLV(send_time, t <= at && t >= at - 200, t, at);
        OBLV(response_time, e + t == at + took[th][id], e, took[th][id]);
    } else {
        OBLV(send_time, t == at, t, at);
        OBLV(response_time, e == took[th][id], e, took[th][id]);
    }
    lines[th][id]++;
}
static void opt_n(const char *name, int v) { static char b[4][4]; static int k; b[k][0] = '0' + v; b[k][1] = 0; env_option(name, b[k]); k++; }
int main(void) {
    now_us = start_us;
    clock_tick_us = 0;
    env_text = 1;
    env_option("to", KIND == 4 ? "udp://10.0.0.2:80" : "10.0.0.2:80");
    env_option("period", "100us");
    env_option("send-pkt-size", KIND == 3 ? "90" : "60");
    if (KIND == 0) { n_asked = 3; reply_order = CHOOSE(6); seg = CHOOSE(5); failing = CHOOSE(3); if (failing == 2) failing = 4; lazy = seg & 1; }
    else if (KIND == 1) { n_asked = 1 + CHOOSE(5); ns = 1 + CHOOSE(3); reply_order = CHOOSE(2); lazy = reply_order; seg = n_asked & 1; if (reply_order) failing = 2; }
    else if (KIND == 2) { nt = 2; n_asked = 1 + CHOOSE(3); ns = 1 + CHOOSE(2); reply_order = CHOOSE(2); lazy = reply_order; seg = CHOOSE(2); }
    else if (KIND == 3) { n_asked = 4; reply_order = CHOOSE(2); seg = CHOOSE(5); lazy = CHOOSE(2); }
    else if (KIND == 4) { n_asked = 3; ns = 1 + CHOOSE(2); reply_order = CHOOSE(6); failing = CHOOSE(2) ? 2 : 0; lazy = CHOOSE(2); }
    else if (KIND == 6) { n_asked = 3; ns = 1 + CHOOSE(2); env_sleep_late = CHOOSE(2) * 40 + 30; reply_order = CHOOSE(2); }
    else { n_asked = 2; ns = 1 + CHOOSE(2); reply_order = CHOOSE(2); seg = CHOOSE(5); lazy = CHOOSE(2); env_recv_spin = 1; env_option("non-block", NULL); }
    opt_n("num-pkts", n_asked);
    opt_n("num-sessions", ns);
    if (nt > 1) opt_n("num-threads", nt);
    if (PSO) env_option("per-session-output", NULL);
    pps = (n_asked + ns - 1) / ns;
    total = pps * ns;
    char *argv[2] = {"dw_client", NULL};
    pgm_main(1, argv);
    for (int t = 0; t < nt; t++) {
        OBLV(packets_sent, sent[t] == total, sent[t], total);
        for (int i = 0; i < total; i++) OBLV(one_line_per_packet, lines[t][i] == 1, lines[t][i], i);
    }
    OBLV(sessions, sessions == ns * nt && closed_sessions == ns * nt, sessions, closed_sessions);
    MARK(END);
    return 0;
}
