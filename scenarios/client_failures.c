/*META {"props": ["C20"], "program": "dw_client", "min_obl": 20, "caps": {"BUF_SIZE": "1024", "MAX_PKTS": "6", "MAX_CONNS": "3", "MAX_THREADS": "2"},
 "variants": [{"name": "unreachable", "defs": ["-DKIND=0", "-DPSO=0"], "need": ["retry_interval", "error_reported"]}, {"name": "unreachable-later", "defs": ["-DKIND=1", "-DPSO=0"], "need": ["retry_interval", "error_reported"]},
              {"name": "close-before", "defs": ["-DKIND=2", "-DPSO=0"]}, {"name": "close-after", "defs": ["-DKIND=3", "-DPSO=0"]}, {"name": "close-reply", "defs": ["-DKIND=4", "-DPSO=0"]},
              {"name": "close-before-sessions", "defs": ["-DKIND=2", "-DPSO=1"]}, {"name": "close-after-sessions", "defs": ["-DKIND=3", "-DPSO=1"]}, {"name": "close-reply-sessions", "defs": ["-DKIND=4", "-DPSO=1"]},
              {"name": "non-block", "defs": ["-DKIND=5", "-DPSO=0"]}]} */
/* A node that refuses connections, or that goes away in the middle of a session. */
#define HAVE_on_recv_block
#define HAVE_on_thread
#define HAVE_on_line
#define HAVE_on_close
#define HAVE_connect
#define HAVE_on_exit
#define HAVE_on_poll
#include "client.h"
#define PPS 2
static int ns = 2, refusals, retries = 1, period_ms = 200, first_bad, session = -1, tries;
static long last_try, start_us = 5000000, arrival[4], sent_at[6];
static int sent[6], answered[6], lines[6], given, in_session, pending_thread = -1, cur_fd = -1;
static int when, how, gone_after, cut_at, bad;
int env_connect(int fd, uint32_t a, uint16_t p) {
    tries++;
    int open = 0;
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_CONN || F[i].kind == K_RAW) open++;
    OBLV(failed_attempts_released, open == 1, open, tries);
    if (tries > 1) OBLV(retry_interval, now_us - last_try >= period_ms * 1000L && now_us - last_try < period_ms * 1000L + 1000, now_us - last_try, period_ms);
    last_try = now_us;
    OBLV(no_more_tries, tries <= retries, tries, retries);
    now_us += 30;
    if (KIND <= 1 && session + 1 == first_bad && tries <= refusals) return 2;
    session++;
    tries = 0;
    in_session = given = 0;
    cur_fd = fd;
    bad = KIND >= 2 && session == first_bad;
    OBLV(session_count, session < ns, session, ns);
    if (bad && gone_after == 0 && when == 0) { if (how) F[fd].rst = 1; else F[fd].eof = 2; }
    return 0;
}
void env_on_exit(int code) {
    OBLV(exit_only_if_unreachable, KIND <= 1 && refusals >= retries && session + 1 == first_bad && tries == retries, tries, retries);
    OBLV(error_reported, code != 0, code, 0);
    MARK(END);
}
static void on_request(int fd, const unsigned char *p, int n) {
    int id = (int)g32(p);
    OBLV(socket_of_the_session, fd == cur_fd, fd, cur_fd);
    OBLV(request_id, id == session * PPS + in_session, id, session * PPS + in_session);
    sent[id]++;
    sent_at[id] = now_us;
    in_session++;
    /* the sender finds out at its next attempt */
    if (bad && when == 1 && in_session == gone_after) { if (how) F[fd].rst = 1; else F[fd].eof = 2; }
}
static void run_sender(void) { int i = pending_thread; pending_thread = -1; env_run_thread(i); }
static void gone(int fd) { F[fd].rx_avail = F[fd].rx_len; if (how) F[fd].rst = 1; else F[fd].eof = 2; }
void env_on_recv_block(int fd) {
    struct mfd *f = &F[fd];
    OBLV(socket_of_the_session, fd == cur_fd, fd, cur_fd);
    /* the sender may not have got going when the receiver is told that the node has gone */
    if (bad && when == 2 && gone_after == 0) { gone(fd); return; }
    if (pending_thread >= 0 && THR[pending_thread].state == 0) run_sender();
    if (f->eof || f->rst) return;
    now_us += 1000;
    if (bad && given == gone_after) {
        if (cut_at) {
            /* part of a reply, then nothing more */
            reply_bytes(fd, session * PPS + given, 40, 0);
            f->rx_len -= 40 - cut_at;
            f->rx_avail = f->rx_len;
            cut_at = 0;
            return;
        }
        gone(fd);
        return;
    }
    OBLV(waits_for_a_reply, given < in_session, given, in_session);
    int id = session * PPS + given;
    reply_bytes(fd, id, 40, 0);
    f->rx_avail = f->rx_len;
    answered[id] = 1;
    given++;
}
void env_on_poll(int fd, int ev) { if (ev & POLLIN) env_on_recv_block(fd); else if (F[fd].conn_state == 1) F[fd].conn_state = 2; else if (F[fd].tx_win == 0) F[fd].tx_win = 100; }
void env_on_thread(int i) {
    now_us += 50;
    pending_thread = i;
    if (when != 2) run_sender();
}
void env_on_close(int fd) {
    if (F[fd].kind != K_CONN) return;
    OBLV(sender_done_before_close, pending_thread < 0 || THR[pending_thread].state != 0, fd, 0);
    inbox_n[fd] = 0;
    cur_fd = -1;
}
void env_on_line(const char *l) {
    if (l[0] != 't' || l[1] != ':') return;
    long t = field(l, "t: "), e = field(l, "elapsed: "), id = field(l, "req_id: ");
    OBLV(line_of_a_packet, id >= 0 && id < ns * PPS, id, 0);
    if (answered[id]) OBLV(answered_has_a_time, e > 0, e, id);
    else OBLV(unanswered_has_none, e == 0, e, id);
    if (sent[id]) OBLV(send_time, t == sent_at[id] - start_us, t, sent_at[id] - start_us);
    lines[id]++;
}
int main(void) {
    now_us = start_us;
    clock_tick_us = 0;
    env_text = 1;
    env_option("to", "10.0.0.2:80");
    env_option("period", "100us");
    env_option("send-pkt-size", "60");
    env_option("num-pkts", "4");
    env_option("num-sessions", "2");
    if (PSO) env_option("per-session-output", NULL);
    first_bad = CHOOSE(2);
    if (KIND <= 1) {
        first_bad = KIND;
        retries = 1 + CHOOSE(4);
        refusals = CHOOSE(5);
        if (CHOOSE(2)) { period_ms = 1250; env_option("retry-period", "1250"); }
        env_option("retry-num", retries == 1 ? "1" : retries == 2 ? "2" : retries == 3 ? "3" : "4");
    } else {
        how = CHOOSE(2);
        when = KIND - 2;
        if (KIND == 2) gone_after = 0;                                       /* before anything is sent */
        else if (KIND == 3) gone_after = 1;                                  /* after the first packet */
        else if (KIND == 4) { gone_after = CHOOSE(PPS); static const int cuts[] = {0, 5, 12, 39}; cut_at = cuts[CHOOSE(4)]; }
        else { when = CHOOSE(2); gone_after = when; env_recv_spin = 1; env_option("non-block", NULL); }
    }
    char *argv[2] = {"dw_client", NULL};
    pgm_main(1, argv);
    if (KIND <= 1) OBLV(succeeds_if_reachable, refusals < retries, refusals, retries);
    OBLV(all_sessions, session == ns - 1, session, ns);
    for (int i = 0; i < ns * PPS; i++) {
        int was_bad = KIND >= 2 && i / PPS == first_bad;
        if (!was_bad) OBLV(other_session_complete, sent[i] == 1 && answered[i] && lines[i] == 1, i, lines[i]);
        else OBLV(reported_at_most_once, lines[i] == 1 || (PSO && lines[i] == 0 && !sent[i]), i, lines[i]);
    }
    MARK(END);
    return 0;
}
