/*META {"props": ["C09"], "program": "dw_node", "min_obl": 20, "need": ["transfer_at_expected_offset", "operation_complete"],
 "variants": [{"name": "sequence", "defs": ["-DKIND=0"]}, {"name": "wrap", "defs": ["-DKIND=1"]}, {"name": "large", "defs": ["-DKIND=2"], "caps": {"BUF_SIZE": "128"}},
              {"name": "partial", "defs": ["-DKIND=3"], "caps": {"BUF_SIZE": "128"}}, {"name": "direct", "defs": ["-DKIND=4"], "caps": {"BUF_SIZE": "128"}},
              {"name": "far", "defs": ["-DKIND=5"]}, {"name": "load-wrap", "defs": ["-DKIND=6"]},
              {"name": "direct-unaligned", "defs": ["-DKIND=7"], "caps": {"BUF_SIZE": "128"}, "need": ["same_place_for_the_same_offset"]}]} */
/* The extents touched in the file are compared with the ones the operations ask for. */
#define HAVE_on_file_write
#define HAVE_on_file_read
#define HAVE_on_reply
#include "env.h"
static void on_reply(int hit);
#include "node.h"
struct op { int load; long off; long n; };     /* expected transfers, in order */
static struct op OPS[8];
static int nops, cur;
static long done_;
static long cursor, eof_, max_ = 1024 * 1024 * 1024;
static int step, last_op[8];
static long place = -1;      /* where the store with an unaligned offset went */
static void transfer(int load, long off, int n) {
#if KIND == 7
    OBLV(aligned_transfer, off % 16 == 0 && n % 16 == 0 && n > 0, off, n);
    OBLV(transfer_at_expected_offset, off > OPS[cur].off - 16 && off < OPS[cur].off + 16, off, OPS[cur].off);
    if (cur > 0) OBLV(same_place_for_the_same_offset, off == place, off, place);
    place = off; cur++;
    return;
#endif
    while (cur < nops && OPS[cur].n == 0) cur++;
    OBLV(transfer_expected, cur < nops, load, off);
    OBLV(transfer_of_expected_kind, OPS[cur].load == load, load, off);
    OBLV(transfer_at_expected_offset, off == OPS[cur].off + done_, off, OPS[cur].off + done_);
    OBLV(transfer_within_operation, n > 0 && done_ + n <= OPS[cur].n, n, OPS[cur].n);
    done_ += n;
    if (done_ == OPS[cur].n) { cur++; done_ = 0; }
}
void env_on_file_write(long off, int n) { transfer(0, off, n); }
void env_on_file_read(long off, int n) { transfer(1, off, n); }
static void on_reply(int hit) {
    while (cur < nops && OPS[cur].n == 0) cur++;
    OBLV(operation_complete, cur >= last_op[EXP[hit].id] && done_ == 0, cur, nops);
}
static long up(long v) { return KIND == 4 || KIND == 7 ? (v + 15) / 16 * 16 : v; }
/* off < 0: no explicit offset */
static void op(int load, long off, long n) {
    if (load) R_load(off < 0 ? (uint64_t)-1 : (uint64_t)off, n);
    else R_store(off < 0 ? (uint64_t)-1 : (uint64_t)off, n, 0);
    n = up(n);
    if (off >= 0) cursor = off;
    else if (load && cursor + n > eof_) cursor = 0;
    else if (!load && cursor + n > max_) cursor = 0;
    OPS[nops].load = load;
    OPS[nops].off = cursor;
    OPS[nops].n = n;
    nops++;
    cursor += n;
    if (!load && cursor > eof_) eof_ = cursor;
    if (eof_ > max_) eof_ = max_;
}
static void begin(int r) { R_begin(r); }
static void finish(int r) { R_reply(20 + r, 1); R_end(0); client_sends(1); expect(1, r, 20 + r, 0); last_op[r] = nops; deliver_all(1); }
static long pick(long a, long b, long c) { int k = CHOOSE(3); return k == 0 ? a : k == 1 ? b : c; }
int env_idle(void) {
    step++;
    if (step == 1) { new_conn_on(find_listener(0), 1); return 1; }
#if KIND == 0
    if (step == 2) { begin(1); op(0, pick(-1, 0, 50), CHOOSE(2) ? 30 : 100); op(CHOOSE(2), pick(-1, 10, 100), 20); finish(1); return 1; }
    if (step == 3) { begin(2); op(CHOOSE(2), CHOOSE(2) ? -1 : 20, 25); op(0, -1, 0); op(0, -1, 7); finish(2); return 1; }
#elif KIND == 1
    if (step == 2) { begin(1); op(0, -1, pick(60, 100, 40)); op(0, -1, pick(40, 41, 60)); finish(1); return 1; }
    if (step == 3) { begin(2); op(0, -1, pick(100, 20, 60)); op(CHOOSE(2), pick(-1, 90, 80), 10); op(0, -1, 11); finish(2); return 1; }
#elif KIND == 2
    if (step == 2) { begin(1); op(0, pick(-1, 3, 3), pick(127, 128, 129)); op(0, -1, pick(256, 255, 700)); finish(1); return 1; }
    if (step == 3) { begin(2); op(1, 5, pick(128, 127, 200)); op(0, -1, pick(1, 300, 128)); finish(2); return 1; }
#elif KIND == 3
    if (step == 2) { file_short = 1; begin(1); op(0, -1, pick(2, 5, 131)); op(1, 0, pick(2, 5, 100)); op(0, -1, 2); finish(1); return 1; }
#elif KIND == 4
    if (step == 2) { begin(1); op(0, CHOOSE(2) ? 32 : -1, pick(1, 16, 17)); op(0, -1, pick(15, 33, 200)); finish(1); return 1; }
    if (step == 3) { begin(2); op(1, pick(0, 16, 16), pick(1, 16, 20)); op(CHOOSE(2), -1, 3); finish(2); return 1; }
#elif KIND == 5
    if (step == 2) { begin(1); op(0, pick(0x7ffffff0L, 0x80000000L, 0x123456789aL), pick(32, 3, 100)); op(0, -1, 10); finish(1); return 1; }
    if (step == 3) { long o = OPS[0].off; begin(2); op(1, CHOOSE(2) ? o : -1, 8); op(1, o + 4, 9); op(0, -1, 6); finish(2); return 1; }
#elif KIND == 7
    /* a store and a load with the same explicit offset, not a multiple of the block size */
    if (step == 2) { long o = pick(5, 16, 33), n = pick(1, 16, 30); begin(1); op(0, o, n); op(1, o, n); finish(1); return 1; }
    if (step == 3) { begin(2); op(1, OPS[0].off, OPS[0].n - 3); finish(2); return 1; }
#else
    if (step == 2) { begin(1); op(0, -1, CHOOSE(2) ? 40 : 100); op(1, -1, pick(20, 40, 41)); finish(1); return 1; }
    if (step == 3) { begin(2); op(1, -1, CHOOSE(2) ? 20 : 60); op(CHOOSE(2), CHOOSE(2) ? -1 : 30, 10); op(1, -1, pick(10, 20, 30)); finish(2); return 1; }
#endif
    return 0;
}
int main(void) {
    env_max_events = 200;
    if (KIND == 1) { max_ = 100; env_option("max-storage-size", "100"); }
    if (KIND == 4 || KIND == 7) env_option("odirect", NULL);
    if (KIND == 5) { max_ = 1000000000000L; env_option("max-storage-size", "1000000000000"); }
    int rv = run_node();
    OBL(exit_status, rv == 0);
    while (cur < nops && OPS[cur].n == 0) cur++;
    OBL(every_request_answered, all_answered());
    OBLV(every_operation_done, cur == nops && done_ == 0, cur, nops);
    if (KIND == 4 || KIND == 7) OBL(direct_access, file_odirect);
    MARK(END);
    return 0;
}
