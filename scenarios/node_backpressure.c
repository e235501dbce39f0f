/*META {"props": ["C02"], "program": "dw_node", "min_obl": 50,
 "variants": [{"name": "second-conn", "defs": ["-DKIND=0"]}, {"name": "three-replies", "defs": ["-DKIND=1"]}, {"name": "trickle", "defs": ["-DKIND=2"]}]} */
/* The peer's receive window closes and reopens at arbitrary points. */
#include "node.h"
static int step;
int env_idle(void) {
    step++;
    if (step == 1) { new_conn_on(find_listener(0), 1); return 1; }
    if (step == 2) { new_conn_on(find_listener(0), 2); return 1; }
    int t = KIND == 1 ? 1 : 2;
    int fd = fd_of_tag(t);
    if (step == 3) {
        R_begin(7); R_compute(3); R_reply(40, 1); R_end(0); client_sends(t); expect(t, 7, 40, 0);
        R_begin(8); R_reply(24, 1); R_end(60); client_sends(t); expect(t, 8, 24, 0);
        if (KIND == 1) { R_begin(9); R_reply(33, 1); R_end(60); client_sends(t); expect(t, 9, 33, 0); }
        deliver_all(t);
        F[fd].tx_win = KIND == 2 ? 1 : CHOOSE(70);
        return 1;
    }
    if (KIND == 2 && step < 70) { F[fd].tx_win = 1; return 1; }
    if (step == 70 || (KIND != 2 && step == 4)) {
        /* another request while data is pending */
        R_begin(10); R_reply(20, 1); R_end(60); client_sends(t); expect(t, 10, 20, 0);
        deliver_all(t);
        return 1;
    }
    if (step == 5 && KIND != 2) { int c = CHOOSE(3); F[fd].tx_win += c == 0 ? 0 : c == 1 ? 13 : 60; return 1; }
    if (step == 6 || step == 71) { F[fd].tx_win = TXCAP; return 1; }
    /* the other client is still served afterwards */
    if (step == 7 || step == 72) { int o = 3 - t; R_begin(11); R_reply(20, 1); R_end(60); client_sends(o); expect(o, 11, 20, 0); deliver_all(o); return 1; }
    return 0;
}
int main(void) {
    env_max_events = 300;
    int rv = run_node();
    OBL(exit_status, rv == 0);
    OBL(every_request_answered, all_answered());
    OBL(no_trailing_bytes, no_trailing());
    MARK(END);
    return 0;
}
