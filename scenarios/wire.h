/* The wire format as a peer sees it, stated by byte offsets. */
#ifndef DWM_WIRE_H
#define DWM_WIRE_H
#include "env.h"
enum { W_COMPUTE, W_STORE, W_LOAD, W_PSKIP, W_FORWARD, W_MULTI_FORWARD, W_REPLY, W_EOM };
enum { W_UDP, W_TCP };
#define HDR 12
#define SZ_COMPUTE 8
#define SZ_STORE 28
#define SZ_LOAD 20
#define SZ_FWD 28
#define SZ_REPLY 12
#define SZ_EOM 4

static inline uint32_t g32(const unsigned char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static inline uint64_t g64(const unsigned char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static inline uint16_t g16(const unsigned char *p) { uint16_t v; memcpy(&v, p, 2); return v; }

/* request under construction */
static unsigned char RQ[512];
static int RQN;
static inline void r32(uint32_t v) { memcpy(RQ + RQN, &v, 4); RQN += 4; }
static inline void r64(uint64_t v) { memcpy(RQ + RQN, &v, 8); RQN += 8; }
static inline void R_begin(unsigned id) { memset(RQ, 0, sizeof(RQ)); RQN = 0; r32(id); r32(0); r32(0); }
static inline void R_compute(unsigned us) { r32(W_COMPUTE); r32(us); }
static inline void R_store(uint64_t off, uint64_t n, int sync) { r32(W_STORE); r64(off); r64(n); RQ[RQN] = sync; RQN += 8; }
static inline void R_load(uint64_t off, uint64_t n) { r32(W_LOAD); r64(off); r64(n); }
static inline void R_fwd(int cmd, uint32_t host, uint16_t port, unsigned pkt, unsigned timeout, int retries, int skip, int proto) {
    r32(cmd);
    r32(pkt);
    r32(host);
    memcpy(RQ + RQN, &port, 2);
    RQN += 4;
    r32(timeout);
    RQ[RQN] = retries;
    RQ[RQN + 1] = skip;
    RQN += 4;
    r32(proto);
}
static inline void R_reply(unsigned size, int nack) { r32(W_REPLY); r32(size); RQ[RQN] = nack; RQN += 4; }
/* finish with the end marker and pad to the announced size */
static inline int R_end(int size) {
    r32(W_EOM);
    if (size < RQN) size = RQN;
    uint32_t s = size;
    memcpy(RQ + 4, &s, 4);
    RQN = size;
    return size;
}
/* a bare answer, as a downstream node sends it */
static inline int R_answer(unsigned id, int size, int status) {
    R_begin(id);
    RQ[8] = status;
    return R_end(size);
}
#endif
