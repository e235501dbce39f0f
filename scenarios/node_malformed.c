/*META {"props": ["C07"], "program": "dw_node", "min_obl": 100,
 "variants": [{"name": "compute-first", "defs": ["-DKIND=0", "-DFIRST=0"]}, {"name": "store-first", "defs": ["-DKIND=0", "-DFIRST=1"]},
              {"name": "load-first", "defs": ["-DKIND=0", "-DFIRST=2"]}, {"name": "forward-first", "defs": ["-DKIND=0", "-DFIRST=4"]},
              {"name": "multi-first", "defs": ["-DKIND=0", "-DFIRST=5"]}, {"name": "reply-first", "defs": ["-DKIND=0", "-DFIRST=6"]},
              {"name": "sizes", "defs": ["-DKIND=1"]}, {"name": "hop-reply", "defs": ["-DKIND=2"]}, {"name": "parameters", "defs": ["-DKIND=3"]},
              {"name": "udp", "defs": ["-DKIND=4"]}, {"name": "forged", "defs": ["-DKIND=5"], "need": ["resumed_only_by_its_own_completion"]},
              {"name": "forged-udp", "defs": ["-DKIND=6"], "need": ["resumed_only_by_its_own_completion"]},
              {"name": "full-buffers", "defs": ["-DKIND=7"]}]} */
/* Messages no client would build: any sequence of commands with unknown
 * parameters, ended in any way, with any announced size.  Memory is only accessed
 * within bounds, the node goes on, and other connections are served.            */
#define HAVE_on_send
#define HAVE_connect
#define HAVE_on_file_write
#define HAVE_on_file_read
#include "env.h"
void env_on_send(int fd, const unsigned char *p, int n);
/* storage sizes are unknown: what the storage thread does with them is not followed */
void env_on_file_write(long o, int n) { MARK(STORED); if (KIND < 5) env_halt(); }
void env_on_file_read(long o, int n) { MARK(LOADED); env_halt(); }
#include "node.h"
static int step, fwds, fwds_built, released, hop_fd;
static unsigned fwd_id;
int env_connect(int fd, uint32_t a, uint16_t p) { hop_opened(fd, p == 4000 ? 40 : 41); return 0; }
void env_on_send(int fd, const unsigned char *p, int n) {
    OBLV(send_length_within_buffer, n > 0 && n <= CAP_BUF_SIZE, n, fd);
    if (KIND == 5 || KIND == 6) {
        if (F[fd].stream ? F[fd].tag >= 40 : F[fd].tx_addr == 0x0900000a) { fwd_id = g32(p); hop_fd = fd; return; }
        OBLV(resumed_only_by_its_own_completion, released, g32(p), fd);
        if (KIND == 6) { check_reply(0, p, n, F[fd].tx_addr, F[fd].tx_port); return; }
        seen[2] = F[fd].tx_len; client_stream(fd);
        return;
    }
    if (KIND == 7) { if (F[fd].tag == 2) { seen[2] = F[fd].tx_len; client_stream(fd); } return; }
    if (KIND == 4) {
        if (F[fd].tx_port == 77) check_reply(0, p, n, F[fd].tx_addr, F[fd].tx_port);
        else { MARK(ANSWERED); env_halt(); }
        return;
    }
    if (F[fd].tag == 2) { seen[2] = F[fd].tx_len; client_stream(fd); return; }
    if (F[fd].tag >= 40) { fwds++; MARK(FORWARDED); fwd_id = g32(p); if (KIND == 2 && fwds == 1) return; }
    /* answered or forwarded; the length may be unknown: the path is not followed further */
    MARK(ANSWERED);
    env_halt();
}
static void unknown(int n) { for (int i = 0; i < n; i++) { RQ[RQN] = ANY(0, 255); RQN++; } }
static int size_of(int c) { return c == W_COMPUTE ? SZ_COMPUTE : c == W_STORE ? SZ_STORE : c == W_LOAD ? SZ_LOAD : c == W_REPLY ? SZ_REPLY : SZ_FWD; }
/* a command with unknown parameters */
static void any_cmd(int c) {
    r32(c);
    if (c == W_FORWARD || c == W_MULTI_FORWARD) {
        if (fwds_built) r32(0);
        else unknown(4);            /* packet size */
        r32(0x0900000a); r32(4000 + fwds_built);
        r32(fwds_built ? 0 : 0xffffffffu); /* timeout: none, or the longest */
        unknown(4);                 /* retries, skip */
        int p = fwds_built ? 1 : CHOOSE(3);
        fwds_built++;
        r32(p == 2 ? 0xfffffff0u : p);
    } else if (c == W_STORE || c == W_LOAD) {
        unknown(size_of(c) - 4);
    } else
        unknown(size_of(c) - 4);
}
static int pick_cmd(void) { int c = CHOOSE(6); return c >= 3 ? c + 1 : c; }
/* 0 EOM, 1 unknown code, 2 code never sent, 3 nothing, 4 cut within the last command, 5 huge code */
static void any_end(int deep) {
    int e = deep ? CHOOSE(2) * 3 : CHOOSE(6);
    uint32_t s;
    if (e == 0) r32(W_EOM);
    if (e == 1) { r32(8); r32(W_EOM); }
    if (e == 2) { r32(3); r32(W_EOM); }
    if (e == 5) { r32(0xffffffffu); r32(W_EOM); }
    s = RQN;
    if (e == 4) s = RQN - 3;
    if (e == 3) r32(W_EOM); /* belongs to the next message */
    memcpy(RQ + 4, &s, 4);
}
static void bad_size(void) {
    static const uint32_t S[] = { 0, 1, 4, 11, 12, 13, 15, 16, 20, 35, 37, 200, CAP_BUF_SIZE - 1, CAP_BUF_SIZE, CAP_BUF_SIZE + 1, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu };
    int i = CHOOSE(19);
    R_begin(1); R_compute(1); R_reply(20, 1); R_end(0);
    if (i != 8) memcpy(RQ + 4, &S[i], 4);
}
static void parameters(void) {
    static const uint32_t V[] = { 0, 1, 11, 12, 15, 16, CAP_BUF_SIZE - 1, CAP_BUF_SIZE, CAP_BUF_SIZE + 1, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu };
    int w = CHOOSE(4);
    uint32_t v = V[CHOOSE(13)];
    R_begin(1);
    if (w == 0) { R_reply(v, CHOOSE(2) * 255); }
    if (w == 1) { R_fwd(W_FORWARD, 0x0900000a, 4000, v, 0, 0, 1, CHOOSE(2)); R_compute(1); R_reply(30, CHOOSE(2) * 255); R_reply(20, 1); }
    if (w == 2) { R_fwd(W_MULTI_FORWARD, 0x0900000a, 4000, 40, v, 255, 255, W_TCP); R_fwd(W_MULTI_FORWARD, 0x0900000a, 4001, v, v, 0, 0, W_TCP); R_reply(v, 2); R_reply(20, 1); }
    if (w == 3) { R_fwd(W_FORWARD, 0x0900000a, 4000, 40, 0, 0, 1, W_TCP); R_fwd(W_FORWARD, 0x0900000a, 4000, v, v, 0, 1, W_TCP); R_reply(v, 1); R_reply(v, 1); R_reply(20, 1); }
    R_end(0);
}
#if KIND == 5 || KIND == 6
/* a peer that pretends to answer requests it was never sent */
static void victim(unsigned id, int size) {
    R_reply(size, 1); R_end(0);
    if (KIND == 6) { client_dgram(0x0300000a, 77); expect_dgram(id, size, 0x0300000a, 77); }
    else { client_sends(2); expect(2, id, size, 0); deliver_all(2); }
}
int env_idle(void) {
    step++;
    if (step == 1) { if (KIND == 5) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); } return 1; }
    if (step == 2) {
        env_storage_hold = 1;
        R_begin(8); R_store(0, 5, 0); victim(8, 24);
        R_begin(9); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 0, 0, 1, CHOOSE(2)); R_compute(1); R_reply(20, 1); victim(9, 25);
        return 1;
    }
    if (step == 3) {
        int k = CHOOSE(6), n;
        unsigned id = k == 0 ? fwd_id : k == 1 ? fwd_id - 1 : k == 2 ? fwd_id + 1 : k == 3 ? 8 : k == 4 ? 9 : 0;
        /* where a datagram comes from is not known for sure: answers over UDP go by their id only */
        if (id == fwd_id && KIND == 6 && !F[hop_fd].stream) id += 100;
        may_close[1] = 1;
        n = R_answer(id, 16 + CHOOSE(2) * 20, CHOOSE(2) * 255);
        if (KIND == 6) client_dgram(0x0200000a, 66);
        else { client_sends(1); deliver_all(1); }
        return n > 0;
    }
    if (step == 4) {
        released = 1;
        env_storage_hold = 0;
        int n = R_answer(fwd_id, 20, 0);
        if (F[hop_fd].stream) { put_bytes(hop_fd, RQ, n); F[hop_fd].rx_avail = F[hop_fd].rx_len; }
        else dgram(hop_fd, RQ, n, 0x0900000a, 4000);
        return 1;
    }
    return 0;
}
#elif KIND == 7
/* messages that end where the receive buffer does, replies that end where the send buffer does */
int env_idle(void) {
    step++;
    if (step == 1) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); return 1; }
    if (step == 2) {
        int k = CHOOSE(2), odd = CHOOSE(4);
        env_storage_hold = 1;
        may_close[1] = 1;
        if (k == 0) {
            /* the first message stays in the buffer; the second one fills it, with less than a command left */
            uint32_t first, size;
            R_begin(1); R_store(0, 5, 0); R_reply(20, 1); first = R_end(80 + odd);
            client_sends(1);
            R_begin(2); while (RQN + 8 + 4 + first < CAP_BUF_SIZE) R_compute(1);
            size = CAP_BUF_SIZE - first;
            memcpy(RQ + 4, &size, 4);
            RQN = size;
            client_sends(1);
        } else {
            F[fd_of_tag(1)].tx_win = 0;
            R_begin(1); R_reply(CAP_BUF_SIZE - 12 - odd, 1); R_end(0); client_sends(1);
            R_begin(2); R_reply(12 + odd, 1); R_end(0); client_sends(1);
        }
        deliver_all(1);
        return 1;
    }
    if (step == 3) { env_storage_hold = 0; return 1; }
    if (step == 4) { R_begin(8); R_compute(1); R_reply(24, 1); R_end(0); client_sends(2); expect(2, 8, 24, 0); deliver_all(2); return 1; }
    return 0;
}
#else
int env_idle(void) {
    step++;
    if (KIND == 4) {
        if (step == 1) {
            if (CHOOSE(2)) bad_size();
            else { R_begin(1); any_cmd(pick_cmd()); int two = CHOOSE(2); if (two) any_cmd(pick_cmd()); any_end(two); }
            client_dgram(0x0200000a, 66);
            env_storage_hold = 1;
            return 1;
        }
        if (step == 2) return 1;
        if (step == 3) { R_begin(8); R_compute(1); R_reply(24, 1); R_end(0); client_dgram(0x0300000a, 77); expect_dgram(8, 24, 0x0300000a, 77); return 1; }
        return 0;
    }
    if (step == 1) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); return 1; }
    if (step == 2) {
        env_storage_hold = 1;
        may_close[1] = 1;
#if KIND == 0
        int c = FIRST;
        R_begin(1); any_cmd(c);
        int deep = CHOOSE(3);
        if (deep > 0) any_cmd(pick_cmd());
        if (deep > 1) any_cmd(pick_cmd());
        any_end(deep > 1);
#elif KIND == 1
        bad_size();
#elif KIND == 2
        R_begin(1); R_fwd(W_FORWARD, 0x0900000a, 4000, 0, 0, 0, 1, W_TCP); R_reply(20, 1); R_reply(20, 1); R_end(0);
#else
        parameters();
#endif
        client_sends(1);
        deliver_all(1);
        return 1;
    }
    if (step == 3 && KIND == 2) {
        /* the next hop sends nonsense, or a request of its own, instead of a reply */
        may_close[40] = 1;
        int w = CHOOSE(3);
        static const uint32_t I[] = { 0, 1, 3, 4, 5, 0x7fffffff, 0x80000000u, 0xffffffffu };
        if (w == 0) { R_begin(I[CHOOSE(8)] + (CHOOSE(2) ? 0 : fwd_id)); R_end(30); }
        if (w == 1) bad_size();
        if (w == 2) { R_begin(fwd_id); int c = pick_cmd(); any_cmd(c); any_end(0); }
        client_sends(40);
        deliver_all(40);
        return 1;
    }
    if (step == 3) return 1 + 0 * (now_us += 10);
    if (step == 4) { R_begin(8); R_compute(1); R_reply(24, 1); R_end(0); client_sends(2); expect(2, 8, 24, 0); deliver_all(2); return 1; }
    return 0;
}
#endif
int main(void) {
    env_max_events = 80;
    clock_tick_us = 5000000000L;
    if (KIND == 4 || KIND == 6) env_option("bind-addr", "udp://127.0.0.1:7000");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(other_client_served, all_answered());
    MARK(END);
    return 0;
}
