/* Observer of a node from outside: clients on accepted connections (tags 1..39)
 * and next hops on outgoing ones (tags 40..).                                 */
#ifndef DWM_NODE_H
#define DWM_NODE_H
#include "env.h"
#include "wire.h"

struct expect { int tag; unsigned id; int size; int status; int answered; uint32_t addr; uint16_t port; };
#ifndef MAXEXP
#define MAXEXP 12
#endif
static struct expect EXP[MAXEXP];
static int NEXP;
static int parsed[64];      /* bytes of each tag's stream already checked */
static int closed_by_node[64];
static int may_close[64];   /* the node is entitled to close this connection */
static int ever[64];
static int seen[64];        /* bytes the node has sent on each tag's stream */

static inline void expect(int tag, unsigned id, int size, int status) {
    EXP[NEXP].tag = tag;
    EXP[NEXP].id = id;
    EXP[NEXP].size = size;
    EXP[NEXP].status = status;
    EXP[NEXP].answered = 0;
    NEXP++;
}
static inline int answered(int tag) {
    int n = 0;
    for (int i = 0; i < NEXP; i++) if (EXP[i].tag == tag && EXP[i].answered) n++;
    return n;
}
/* queue the request under construction on a client's stream */
static inline void client_sends(int tag) { put_bytes(fd_of_tag(tag), RQ, RQN); }
/* let the node see n more bytes of it */
static inline void deliver(int tag, int n) {
    int fd = fd_of_tag(tag);
    if (n > F[fd].rx_len - F[fd].rx_avail) n = F[fd].rx_len - F[fd].rx_avail;
    F[fd].rx_avail += n;
}
static inline void deliver_all(int tag) { int fd = fd_of_tag(tag); F[fd].rx_avail = F[fd].rx_len; }

/* UDP: the node's bound socket */
static int ever_dgram;
static inline int udp_sock(void) {
    for (int i = 3; i < NFD; i++) if (F[i].kind == K_DGRAM && F[i].bound) { ever_dgram = 1; return i; }
    OBL(udp_socket_stays_open, !ever_dgram);
    BROKEN(no_udp_socket);
    return 3;
}
/* the datagram p[0..n[ arrives at socket fd */
static inline void dgram(int fd, const void *p, int n, uint32_t addr, uint16_t port) {
    int k = F[fd].dg_n;
    put_bytes(fd, p, n);
    F[fd].dg_len[k] = n;
    F[fd].dg_addr[k] = addr;
    F[fd].dg_port[k] = port;
    F[fd].dg_n++;
}
/* the request under construction arrives from a client as one datagram */
static inline void client_dgram(uint32_t addr, uint16_t port) { dgram(udp_sock(), RQ, RQN, addr, port); }
static inline void expect_dgram(unsigned id, int size, uint32_t addr, uint16_t port) {
    EXP[NEXP].addr = addr;
    EXP[NEXP].port = port;
    expect(0, id, size, 0);
}

/* check one complete reply frame against the outstanding requests */
static void check_reply(int tag, const unsigned char *p, int n, uint32_t addr, uint16_t port) {
    unsigned id = g32(p);
    int status = (signed char)p[8];
    int hit = -1;
    for (int i = 0; i < NEXP; i++)
        if (hit < 0 && EXP[i].tag == tag && EXP[i].id == id && !EXP[i].answered) hit = i;
    OBLV(reply_matches_an_unanswered_request, hit >= 0, tag, id);
    OBLV(reply_has_requested_size, n == EXP[hit].size, n, EXP[hit].size);
    OBLV(reply_status, status == EXP[hit].status, status, EXP[hit].status);
    if (n >= HDR + 4) OBL(reply_carries_no_commands, g32(p + HDR) == W_EOM);
    if (tag == 0) OBLV(reply_datagram_announces_its_length, (int)g32(p + 4) == n, n, g32(p + 4));
    if (tag == 0) OBLV(reply_to_sender, EXP[hit].addr == addr && EXP[hit].port == port, addr, port);
    EXP[hit].answered = 1;
#ifdef HAVE_on_reply
    on_reply(hit);
#endif
}
static void client_stream(int fd) {
    int tag = F[fd].tag;
    while (F[fd].tx_len - parsed[tag] >= HDR) {
        const unsigned char *p = F[fd].tx + parsed[tag];
        int n = g32(p + 4);
        OBLV(reply_frame_is_sane, n >= HDR && n <= TXCAP, n, tag);
        if (F[fd].tx_len - parsed[tag] < n) break;
        check_reply(tag, p, n, 0, 0);
        parsed[tag] += n;
    }
}
#ifndef HAVE_on_forward
static void on_forward(int fd, const unsigned char *p, int n) { (void)fd; (void)p; (void)n; OBL(no_unsolicited_forward, 0); }
#endif
static void hop_stream(int fd) {
    int tag = F[fd].tag;
    while (F[fd].tx_len - parsed[tag] >= HDR) {
        const unsigned char *p = F[fd].tx + parsed[tag];
        int n = g32(p + 4);
        OBLV(forward_frame_is_sane, n >= HDR && n <= TXCAP, n, tag);
        if (F[fd].tx_len - parsed[tag] < n) break;
        parsed[tag] += n;
        on_forward(fd, p, n);
    }
}
/* a new connection to next hop tag */
static inline void hop_opened(int fd, int tag) { F[fd].tag = tag; parsed[tag] = 0; seen[tag] = 0; }
/* the thread that serves a connection is the one waiting on it */
static int served_by_owner(int fd) {
    for (int e = 0; e < NEP; e++)
        if (REG[e][fd].on && EPW[e] == cur_thread) return 1;
    return 0;
}
/* a datagram on the node's own socket may also be a forward */
#ifndef IS_HOP
#define IS_HOP(addr) 0
#endif
#ifndef HAVE_on_send
#define HAVE_on_send
void env_on_send(int fd, const unsigned char *p, int n) {
    if (F[fd].kind == K_DGRAM) {
        if (F[fd].bound && !IS_HOP(F[fd].tx_addr)) check_reply(0, p, n, F[fd].tx_addr, F[fd].tx_port);
        else on_forward(fd, p, n);
        return;
    }
    OBL(send_on_known_connection, F[fd].tag > 0);
    seen[F[fd].tag] = F[fd].tx_len;
    OBL(connection_served_by_its_worker, served_by_owner(fd));
    if (F[fd].tag < 40) client_stream(fd);
    else hop_stream(fd);
}
#endif
#ifndef HAVE_on_close
#define HAVE_on_close
void env_on_close(int fd) {
    int t = F[fd].tag;
    if (t > 0 && t < 64) {
        if (t < 40 && !term_pending) OBLV(healthy_connection_stays_open, may_close[t] || F[fd].eof || F[fd].rst, t, fd);
        closed_by_node[t] = 1;
    }
}
#endif
#ifndef HAVE_on_accept
#define HAVE_on_accept
void env_on_accept(int fd) { ever[F[fd].tag] = 1; }
#endif
static inline int all_answered(void) {
    for (int i = 0; i < NEXP; i++) if (!EXP[i].answered) return 0;
    return 1;
}
/* every byte sent belongs to a complete frame */
static inline int no_trailing(void) {
    for (int i = 0; i < 64; i++) if (seen[i] != parsed[i]) return 0;
    return 1;
}
static char *ARGV[2] = { "dw_node", NULL };
static inline int run_node(void) {
    env_has_storage = 1;
    int rv = pgm_main(1, ARGV);
    OBL(stops_only_when_asked_to, term_pending);
    return rv;
}
#include "default_hooks.h"
#endif
