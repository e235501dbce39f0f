/*META {"props": ["C26"], "program": "address", "units": ["address_utils", "thread_affinity"], "min_obl": 5, "subject": "src/address_utils.c, src/thread_affinity.c",
 "variants": [{"name": "addresses", "defs": ["-DKIND=0"], "min_obl": 50, "need": ["protocol", "host", "port"]},
              {"name": "defaults", "defs": ["-DKIND=1"], "min_obl": 10, "need": ["default_kept"]},
              {"name": "bad-addresses", "defs": ["-DKIND=2"], "min_obl": 10, "need": ["malformed_refused"]},
              {"name": "lengths", "defs": ["-DKIND=3"], "min_obl": 20, "need": ["written_within_buffer"]},
              {"name": "any-address", "defs": ["-DKIND=4"], "min_obl": 1, "need": ["written_within_buffer"]},
              {"name": "cpu-lists", "defs": ["-DKIND=5"], "min_obl": 60, "need": ["cpus", "cyclic_order"]},
              {"name": "bad-cpu-lists", "defs": ["-DKIND=6"], "min_obl": 10, "need": ["malformed_refused"]}]} */
#define _GNU_SOURCE
#define HAVE_on_exit
#include "env.h"
#include "default_hooks.h"
#include "address_utils.h"
#include "thread_affinity.h"
int env_idle(void) { return 0; }
int pgm_main(int argc, char **argv) { return 0; }
static int malformed, which;
void env_on_exit(int code) {
    OBLV(well_formed_accepted, malformed, which, code);
    OBLV(malformed_refused, code != 0, code, which);
    MARK(END);
}
static char buf[64];
static struct { char s[MAX_HOSTPORT_STRLEN]; unsigned char guard[16]; } out;
static char *str(const char *s) { int i = 0; for (; s[i]; i++) buf[i] = s[i]; buf[i] = 0; return buf; }
static void fresh(const char *s) { int i = 0; for (; s[i]; i++) out.s[i] = s[i]; out.s[i] = 0; for (i = 0; i < 16; i++) out.guard[i] = 0x5a; }
static void guarded(void) { for (int i = 0; i < 16; i++) OBLV(written_within_buffer, out.guard[i] == 0x5a, i, out.guard[i]); }
#define IP(a, b, c, d) ((uint32_t)(a) | (uint32_t)(b) << 8 | (uint32_t)(c) << 16 | (uint32_t)(d) << 24)
#define DEF "10.9.8.7:4321"
static const struct { const char *s; int proto; uint32_t host; int port; } good[] = {
    {"10.0.0.2:80", TCP, IP(10, 0, 0, 2), 80}, {"10.0.0.2", TCP, IP(10, 0, 0, 2), 7891}, {":80", TCP, IP(127, 0, 0, 1), 80}, {"localhost", TCP, IP(127, 0, 0, 1), 7891}, {"localhost:1", TCP, IP(127, 0, 0, 1), 1},
    {"tcp://10.0.0.2:80", TCP, IP(10, 0, 0, 2), 80}, {"udp://10.0.0.2:80", UDP, IP(10, 0, 0, 2), 80}, {"udp://10.0.0.2", UDP, IP(10, 0, 0, 2), 7891}, {"udp://:80", UDP, IP(127, 0, 0, 1), 80}, {"tcp://:65535", TCP, IP(127, 0, 0, 1), 65535},
    {"udp:10.0.0.2:80", UDP, IP(10, 0, 0, 2), 80}, {"tcp:10.0.0.2:80", TCP, IP(10, 0, 0, 2), 80}, {"udp:10.0.0.2", UDP, IP(10, 0, 0, 2), 7891}, {"0.0.0.0:0", TCP, 0, 0}, {"255.254.253.252:12345", TCP, IP(255, 254, 253, 252), 12345}, {"udp://111.112.113.114:65534", UDP, IP(111, 112, 113, 114), 65534},
    {"udphost", TCP, IP(10, 1, 1, 1), 7891}, {"udphost:80", TCP, IP(10, 1, 1, 1), 80}, {"tcp://udphost:81", TCP, IP(10, 1, 1, 1), 81}, {"udp:udphost:82", UDP, IP(10, 1, 1, 1), 82}};
static const char *bad_addr[] = {"10.0.0.2:", "10.0.0.2:abc", "10.0.0.2:80x", ":", ":65536", ":-1", ":4294967376", "nohost.:80", "10.0.0:80", "::80", "udp::80", "foo://10.0.0.2:80", "udp:tcp://10.0.0.2:80", "tcpserver:80"};
struct cpus { const char *s; uint64_t m; };
static const struct cpus lists[] = {
    {"0", 1}, {"7", 0x80}, {"0,2", 5}, {"0-3", 15}, {"3-0", 15}, {"1-1", 2}, {"0-7:2", 0x55}, {"1-7:2", 0xaa}, {"0-7:3", 0x49}, {"7-0:3", 0x49}, {"0-7:8", 1}, {"5,0-1", 0x23}, {"0-1,4-7:2,3", 0x5b}, {"0-7:3,1", 0x4b}, {"0-6:3,1-2", 0x4f}, {"2,2,2", 4}, {"0-5:5,6-7", 0xe1}, {"1-6:4,0-7:7", 0xa3}};
static const char *bad_cpu[] = {"", "8", "a", ",", "0-8", "8-9", "0,", "0,x", "0-3:0", "0-3:-1", "100", "0,,1", "1-99", "12-3"};
int main(void) {
    proto_t pr;
    struct sockaddr_in sa;
    cpu_set_t set;
    env_assert_exits = 1;
#if KIND == 0
    for (which = 0; which < sizeof(good) / sizeof(good[0]); which++) {
        fresh(DEF);
        pr = TCP;
        addr_proto_parse(str(good[which].s), out.s, &pr);
        guarded();
        addr_parse(out.s, &sa);
        OBLV(protocol, pr == good[which].proto, pr, which);
        OBLV(family, sa.sin_family == AF_INET, sa.sin_family, which);
        OBLV(host, sa.sin_addr.s_addr == good[which].host, sa.sin_addr.s_addr, which);
        OBLV(port, ntohs(sa.sin_port) == good[which].port, ntohs(sa.sin_port), which);
        /* the string itself can be used again */
        addr_parse(out.s, &sa);
        OBLV(port, ntohs(sa.sin_port) == good[which].port && sa.sin_addr.s_addr == good[which].host, ntohs(sa.sin_port), which);
    }
    MARK(END);
#elif KIND == 1
    static const struct { const char *s; int before, after; } d[] = {{"", TCP, TCP}, {"udp", TCP, UDP}, {"udp:", TCP, UDP}, {"udp://", TCP, UDP}, {"tcp", UDP, TCP}, {"tcp:", UDP, TCP}, {"tcp://", UDP, TCP}};
    for (which = 0; which < sizeof(d) / sizeof(d[0]); which++) {
        fresh(DEF);
        pr = d[which].before;
        addr_proto_parse(str(d[which].s), out.s, &pr);
        OBLV(protocol, pr == d[which].after, pr, which);
        OBLV(default_kept, strcmp(out.s, DEF) == 0, which, 0);
        addr_parse(out.s, &sa);
        OBLV(port, ntohs(sa.sin_port) == 4321 && sa.sin_addr.s_addr == IP(10, 9, 8, 7), ntohs(sa.sin_port), which);
    }
    /* a protocol is only changed if it is named */
    fresh(DEF);
    pr = UDP;
    addr_proto_parse(str("10.0.0.2:80"), out.s, &pr);
    OBLV(default_kept, pr == UDP, pr, 0);
    MARK(END);
#elif KIND == 2
    malformed = 1;
    which = CHOOSE(sizeof(bad_addr) / sizeof(bad_addr[0]));
    fresh(DEF);
    pr = TCP;
    addr_proto_parse(str(bad_addr[which]), out.s, &pr);
    addr_parse(out.s, &sa);
    OBLV(malformed_refused, 0, which, 0);
#elif KIND == 3
    malformed = 1;
    which = CHOOSE(60);
    static const char *pre[] = {"", "udp://", "tcp:"};
    int k = CHOOSE(3), n = 0;
    for (; pre[k][n]; n++) buf[n] = pre[k][n];
    if (n > which) env_halt();
    for (; n < which; n++) buf[n] = 'h';
    buf[n] = 0;
    fresh(DEF);
    pr = TCP;
    addr_proto_parse(buf, out.s, &pr);
    guarded();
    MARK(END);
#elif KIND == 4
    malformed = 1;
    for (int i = 0; i < 4; i++) buf[i] = (char)ANY(-128, 127);
    for (int i = 4; i < 40; i++) buf[i] = '1';
    buf[4 + CHOOSE(3) * 13] = 0;
    fresh(DEF);
    pr = TCP;
    addr_proto_parse(buf, out.s, &pr);
    guarded();
    MARK(END);
#elif KIND == 5
    for (which = 0; which < sizeof(lists) / sizeof(lists[0]); which++) {
        uint64_t m = 0;
        aff_list_parse(str(lists[which].s), &set, 8);
        for (int i = 0; i < 64; i++) if (CPU_ISSET(i, &set)) m |= 1ULL << i;
        OBLV(cpus, m == lists[which].m, m, lists[which].m);
        int it = aff_it_init(&set, 8), want = 0;
        while (!(m >> want & 1)) want++;
        for (int i = 0; i < 12; i++) {
            OBLV(cyclic_order, it == want, it, want);
            do { want = want == 7 ? 0 : want + 1; } while (!(m >> want & 1));
            aff_it_next(&it, &set, 8);
        }
    }
    MARK(END);
#else
    malformed = 1;
    which = CHOOSE(sizeof(bad_cpu) / sizeof(bad_cpu[0]));
    aff_list_parse(str(bad_cpu[which]), &set, 8);
    OBLV(malformed_refused, 0, which, 0);
#endif
    return 0;
}
