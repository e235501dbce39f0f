/*META {"props": ["C08"], "program": "dw_node", "min_obl": 20, "caps": {"BUF_SIZE": "256"},
 "variants": [{"name": "immediate", "defs": ["-DKIND=0"], "need": ["durable_when_proceeding", "durable_when_answered", "no_flush_for_unsynchronised"]},
              {"name": "periodic", "defs": ["-DKIND=1"], "need": ["durable_when_proceeding", "durable_when_answered"]},
              {"name": "periodic-order", "defs": ["-DKIND=2"], "need": ["durable_when_answered", "released_by_the_flush"]},
              {"name": "no-wait", "defs": ["-DKIND=3"], "caps": {"MAX_REQS": "8u", "BUF_SIZE": "256"}, "need": ["unsynchronised_answered_without_flush"]},
              {"name": "partial-writes", "defs": ["-DKIND=4"], "need": ["durable_when_answered"]},
              {"name": "zero-period", "defs": ["-DKIND=5"], "need": ["durable_when_answered"]},
              {"name": "backwards", "defs": ["-DKIND=6"], "need": ["durable_when_answered"]}]} */
/* What has been written and flushed for each store is tracked byte by byte; the
 * storage thread may stop (or the machine crash) right after any effect.       */
#define HAVE_on_forward
#define HAVE_on_reply
#define HAVE_on_file_write
#define HAVE_on_file_read
#define HAVE_on_fsync
#define HAVE_on_pipe_write
#define HAVE_storage_idle
#include "env.h"
static void on_forward(int fd, const unsigned char *p, int n);
static void on_reply(int hit);
#include "node.h"
#define SLOT 1000            /* request r stores at r * SLOT */
static int size[6], sync_[6], done[6], durable[6], stores[6];
static int step, flushes, ticks, nsync, acks, loads_only[6];
static void may_stop(void) { if (env_is_storage() && !term_pending) { env_storage_frozen = CHOOSE(2); if (env_storage_frozen) MARK(STOPPED); } }
void env_on_file_write(long off, int n) {
    int r = off / SLOT;
    OBLV(write_in_an_extent, r > 0 && r < 6 && off == r * SLOT + done[r], off, n);
    done[r] += n;
    if (KIND == 2) now_us += CHOOSE(2) * 5000; /* the timer may expire meanwhile */
    may_stop();
}
void env_on_fsync(void) {
    flushes++;
    if (KIND == 2) {
        int n = 0;
        for (int r = 0; r < 6; r++) if (size[r] && durable[r] >= size[r]) n++;
        OBLV(released_by_the_flush, acks >= n, acks, n); /* those of the flush before */
    }
    for (int r = 0; r < 6; r++) durable[r] = done[r];
    may_stop();
}
void env_on_pipe_write(int pipe, const unsigned char *b, int n) { if (env_is_storage()) acks++; may_stop(); }
static void past_store(int r) { if (sync_[r]) OBLV(durable_when_proceeding, durable[r] >= size[r], durable[r], size[r]); else OBLV(written_when_proceeding, done[r] >= size[r], done[r], size[r]); }
void env_on_file_read(long off, int n) { int r = off / SLOT; if (!loads_only[r]) past_store(r); }
static void on_reply(int hit) {
    int r = EXP[hit].id;
    if (sync_[r]) OBLV(durable_when_answered, durable[r] >= size[r], durable[r], size[r]);
    else {
        OBLV(written_when_answered, done[r] >= size[r], done[r], size[r]);
        if (!nsync) OBLV(no_flush_for_unsynchronised, flushes == 0, flushes, r);
    }
}
static void on_forward(int fd, const unsigned char *p, int n) { OBL(no_forward_expected, 0); }
int env_storage_idle(void) {
    if (KIND == 0 || KIND >= 3 || term_pending || ticks > 2) return 0;
    ticks++;
    now_us += 5000;
    return 1;
}
/* request r: a store, then optionally a load of what it stored, then the reply */
static void req(int tag, int r, int n, int sync, int load) {
    R_begin(r);
    R_store(r * SLOT, n, sync);
    if (load) R_load(r * SLOT, 4);
    R_reply(20 + r, 1);
    R_end(0);
    client_sends(tag);
    expect(tag, r, 20 + r, 0);
    size[r] = n; sync_[r] = sync;
    if (sync) nsync++;
}
static void load_req(int tag, int r) {
    R_begin(r); R_load(r * SLOT, 4); R_reply(20 + r, 1); R_end(0);
    client_sends(tag);
    expect(tag, r, 20 + r, 0);
    loads_only[r] = 1;
}
int env_idle(void) {
    step++;
    if (step == 1) { new_conn_on(find_listener(0), 1); new_conn_on(find_listener(0), 2); return 1; }
    if (step == 2) {
        env_storage_hold = 1; /* let several operations queue up */
#if KIND == 0
        req(1, 1, CHOOSE(2) ? 600 : 10, CHOOSE(2), CHOOSE(2));
        req(2, 2, 30, CHOOSE(2), CHOOSE(2));
#elif KIND == 1
        req(1, 1, CHOOSE(2) ? 600 : 10, 1, CHOOSE(2));
        req(2, 2, 30, CHOOSE(2) * 7, CHOOSE(2));
#elif KIND == 2
        env_evmode = CHOOSE(4);
        req(1, 1, 10, 1, 0);
        req(2, 2, 30, CHOOSE(2), 0);
        req(1, 3, 20, 1, 0);
#elif KIND == 3
        /* nothing ever triggers a flush */
        req(1, 1, 10, CHOOSE(2), CHOOSE(2));
        req(2, 2, 30, CHOOSE(2), CHOOSE(2));
        req(1, 3, 20, CHOOSE(2), 0);
        load_req(2, 4);
        load_req(1, 5);
#elif KIND == 5
        req(1, 1, 10, CHOOSE(2), CHOOSE(2));
        req(2, 2, 30, 1, 0);
#elif KIND == 6
        /* writing where the file had been written before */
        req(1, 5, 10, CHOOSE(2), 0);
        req(2, 3, 30, 1, CHOOSE(2));
        req(1, 4, 20, CHOOSE(2), 0);
        req(2, 1, 300, 1, 0);
#else
        file_short = 1;
        req(1, 1, 21, 1, 0);
        req(2, 2, 5, 1, 0);
#endif
        deliver_all(1);
        deliver_all(2);
        return 1;
    }
    env_storage_hold = 0;
    if (step == 3) return 1;
    if (step == 4 && KIND == 0) { req(1, 4, 40, CHOOSE(2), 0); deliver_all(1); return 1; }
    return 0;
}
int main(void) {
    env_max_events = 200;
    if (KIND == 1 || KIND == 2 || KIND == 3) env_option("sync", "5");
    if (KIND == 5) env_option("sync", "0");
    int rv = run_node();
    OBL(exit_status, rv == 0);
    if (!env_storage_frozen) {
        for (int i = 0; i < NEXP; i++) {
            if (KIND != 3) OBLV(every_request_answered, EXP[i].answered, EXP[i].id, i);
            else if (!sync_[EXP[i].id]) OBLV(unsynchronised_answered_without_flush, EXP[i].answered && !flushes, EXP[i].id, flushes);
        }
    }
    MARK(END);
    return 0;
}
