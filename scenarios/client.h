/* The client's surroundings: a node that takes whole requests and sends replies back as the scenario says. */
#ifndef DWM_CLIENT_H
#define DWM_CLIENT_H
#include "wire.h"
#ifndef HAVE_on_recv_block
#define HAVE_on_recv_block
#define CLIENT_RECV
#endif
#define HAVE_on_send
#include "default_hooks.h"
int env_idle(void) { return 0; }

/* requests as the node receives them, whatever the segmentation */
static unsigned char inbox[NFD][512];
static int inbox_n[NFD];
static int requests;
static void on_request(int fd, const unsigned char *p, int n);
void env_on_send(int fd, const unsigned char *p, int n) {
    if (!F[fd].stream) {
        OBLV(one_request_per_datagram, n >= HDR && g32(p + 4) == n, n, 0);
        requests++;
        on_request(fd, p, n);
        return;
    }
    for (int i = 0; i < n;) {
        int have = inbox_n[fd], want = have < HDR ? HDR : (int)g32(inbox[fd] + 4);
        if (want > 512) BROKEN(request_larger_than_the_model);
        int k = want - have < n - i ? want - have : n - i;
        memcpy(inbox[fd] + have, p + i, k);
        inbox_n[fd] += k;
        i += k;
        if (inbox_n[fd] < HDR) continue;
        OBLV(request_has_a_size, g32(inbox[fd] + 4) >= HDR + 4, g32(inbox[fd] + 4), 0);
        if (inbox_n[fd] < (int)g32(inbox[fd] + 4)) continue;
        inbox_n[fd] = 0;
        requests++;
        on_request(fd, inbox[fd], (int)g32(inbox[fd] + 4));
    }
}

/* the commands of a request against those in RQ, field by field */
static int cmd_len(int c) { return c == W_COMPUTE ? SZ_COMPUTE : c == W_STORE ? SZ_STORE : c == W_LOAD ? SZ_LOAD : c == W_FORWARD || c == W_MULTI_FORWARD ? SZ_FWD : c == W_REPLY ? SZ_REPLY : SZ_EOM; }
static void same_commands(const unsigned char *p, int n) {
    int at = HDR;
    for (int k = 0;; k++) {
        const unsigned char *w = RQ + at, *g = p + at;
        int c = (int)g32(w);
        OBLV(request_holds_its_commands, at + cmd_len(c) <= n, at, n);
        OBLV(command_in_order, g32(g) == (uint32_t)c, g32(g), c);
        if (c == W_EOM) return;
        if (c == W_COMPUTE) OBLV(compute_time, g32(g + 4) == g32(w + 4), g32(g + 4), g32(w + 4));
        else if (c == W_STORE) {
            OBLV(store_offset, g64(g + 4) == g64(w + 4), g64(g + 4), g64(w + 4));
            OBLV(store_size, g64(g + 12) == g64(w + 12), g64(g + 12), g64(w + 12));
            OBLV(store_sync, g[20] == w[20], g[20], w[20]);
        } else if (c == W_LOAD) {
            OBLV(load_offset, g64(g + 4) == g64(w + 4), g64(g + 4), g64(w + 4));
            OBLV(load_size, g64(g + 12) == g64(w + 12), g64(g + 12), g64(w + 12));
        } else if (c == W_REPLY) {
            OBLV(reply_size, g32(g + 4) == g32(w + 4), g32(g + 4), g32(w + 4));
            OBLV(reply_acks, g[8] == w[8], g[8], w[8]);
        } else {
            OBLV(forward_host, g32(g + 8) == g32(w + 8), g32(g + 8), g32(w + 8));
            OBLV(forward_port, g16(g + 12) == g16(w + 12), g16(g + 12), g16(w + 12));
            OBLV(forward_size, g32(g + 4) == g32(w + 4), g32(g + 4), g32(w + 4));
            OBLV(forward_timeout, g32(g + 16) == g32(w + 16), g32(g + 16), g32(w + 16));
            OBLV(forward_retries, g[20] == w[20] && g[21] == w[21], g[20], w[20]);
            OBLV(forward_protocol, g32(g + 24) == g32(w + 24), g32(g + 24), g32(w + 24));
        }
        at += cmd_len(c);
    }
}

/* replies go through a queue of segments, made available one receive at a time */
static void reply_bytes(int fd, unsigned id, int size, int status) {
    static unsigned char keep[512];
    int n = RQN;
    memcpy(keep, RQ, 512);
    int k = R_answer(id, size, status);
    put_bytes(fd, RQ, k);
    memcpy(RQ, keep, 512);
    RQN = n;
}
/* number after a key in a line of output, or -1 */
static long field(const char *l, const char *key) {
    for (int i = 0; l[i]; i++) {
        int k = 0;
        while (key[k] && l[i + k] == key[k]) k++;
        if (!key[k] && (i == 0 || l[i - 1] == ' ')) { long v = atol(l + i + k); return v; }
    }
    return -1;
}
int main(void);
#endif
