/*META {"props": ["C25"], "program": "distrib", "units": ["distrib"], "min_obl": 3, "subject": "src/distrib.c",
 "variants": [{"name": "parse", "defs": ["-DKIND=0"], "min_obl": 60, "need": ["kind", "value", "deviation", "bounds"]},
              {"name": "parse-time", "defs": ["-DKIND=1"], "min_obl": 40, "need": ["value", "deviation", "bounds"]},
              {"name": "parse-bytes", "defs": ["-DKIND=2"], "min_obl": 30, "need": ["value", "bounds"]},
              {"name": "malformed", "defs": ["-DKIND=3"], "min_obl": 10, "need": ["malformed_refused"]},
              {"name": "random", "defs": ["-DKIND=4"], "min_obl": 30, "need": ["sample_finite", "sample_within_bounds"]},
              {"name": "sequences", "defs": ["-DKIND=5"], "min_obl": 50, "need": ["sequence", "length", "last_value_held"]},
              {"name": "file", "defs": ["-DKIND=6"], "min_obl": 50, "need": ["sample_of_the_file", "length"]},
              {"name": "shape", "defs": ["-DKIND=7"], "min_obl": 12, "need": ["centre", "spread"]}]} */
#define HAVE_on_exit
#include "env.h"
#include "default_hooks.h"
#include "distrib.h"
#include <math.h>
int env_idle(void) { return 0; }
int pgm_main(int argc, char **argv) { return 0; }
extern const char *env_file_lines[40];
extern int env_file_n;
extern double env_draw_fixed;
static int malformed, which;
void env_on_exit(int code) {
    OBL(well_formed_accepted, malformed);
    OBLV(malformed_refused, code != 0, code, which);
    MARK(END);
}
static char buf[96];
static char *str(const char *s) { int i = 0; for (; s[i]; i++) buf[i] = s[i]; buf[i] = 0; return buf; }
#define NO (0.0 / 0.0)
static int same(double a, double b) { return a != a ? b != b : a == b; }
struct want { const char *s; int kind; double val, std, min, max; };
static void compare(pd_spec_t *p, const struct want *w) {
    OBLV(kind, p->prob == w->kind, p->prob, w->kind);
    OBLV(value, same(p->val, w->val), p->val, w->val);
    OBLV(deviation, same(p->std, w->std), p->std, w->std);
    OBLV(bounds, same(p->min, w->min) && same(p->max, w->max), p->min, p->max);
}
static const struct want plain[] = {
    {"0", FIXED, 0, NO, NO, NO}, {"20", FIXED, 20, NO, NO, NO}, {"2.5", FIXED, 2.5, NO, NO, NO}, {"-3", FIXED, -3, NO, NO, NO}, {"15k", FIXED, 15000, NO, NO, NO}, {"15K", FIXED, 15000, NO, NO, NO},
    {"15m", FIXED, 15e6, NO, NO, NO}, {"15M", FIXED, 15e6, NO, NO, NO}, {"15g", FIXED, 15e9, NO, NO, NO}, {"15G", FIXED, 15e9, NO, NO, NO}, {"1e3", FIXED, 1000, NO, NO, NO},
    {"unif:min=20,max=40", UNIF, NO, NO, 20, 40}, {"unif:max=40k,min=20k", UNIF, NO, NO, 20000, 40000},
    {"exp:20", EXPON, 20, NO, NO, NO}, {"exp:avg=20", EXPON, 20, NO, NO, NO}, {"exp:20,min=10,max=40", EXPON, 20, NO, 10, 40},
    {"norm:20,std=5", NORM, 20, 5, NO, NO}, {"norm:avg=2k,std=0.5k,min=1k", NORM, 2000, 500, 1000, NO},
    {"lognorm:3,std=1", LOGNORM, 3, 1, NO, NO}, {"gamma:k=4,scale=2", GAMMA, 8, 4, NO, NO}, {"gamma:8,std=4", GAMMA, 8, 4, NO, NO}, {"gamma:k=1,scale=2k", GAMMA, 2000, 2000, NO, NO},
    {"aseq:min=1000,max=2000", ARITH_SEQ, 1000, 1, 1000, 2000}, {"aseq:min=1000,max=2000,step=250", ARITH_SEQ, 1000, 250, 1000, 2000},
    {"aseq:min=10,max=20,step=-2", ARITH_SEQ, 20, -2, 10, 20}, {"aseq:15,min=10,max=20", ARITH_SEQ, 15, 1, 10, 20},
    {"gseq:min=1,max=64", GEO_SEQ, 1, 2, 1, 64}, {"gseq:min=1,max=81,step=3", GEO_SEQ, 1, 3, 1, 81}, {"gseq:min=1,max=64,step=0.5", GEO_SEQ, 64, 0.5, 1, 64}};
static const struct want times[] = {
    {"20", FIXED, 20, NO, NO, NO}, {"20us", FIXED, 20, NO, NO, NO}, {"20ms", FIXED, 20000, NO, NO, NO}, {"2s", FIXED, 2000000, NO, NO, NO}, {"500ns", FIXED, 0.5, NO, NO, NO}, {"1.5ms", FIXED, 1500, NO, NO, NO}, {"3k", FIXED, 3000, NO, NO, NO},
    {"exp:20ms", EXPON, 20000, NO, NO, NO}, {"exp:avg=1s,min=1ms,max=2s", EXPON, 1000000, NO, 1000, 2000000}, {"unif:min=500ns,max=2us", UNIF, NO, NO, 0.5, 2}, {"unif:min=1,max=3ms", UNIF, NO, NO, 1, 3000},
    {"norm:1ms,std=100us", NORM, 1000, 100, NO, NO}, {"aseq:min=1ms,max=3ms,step=1ms", ARITH_SEQ, 1000, 1000, 1000, 3000}};
static const struct want bytes[] = {
    {"20", FIXED, 20, NO, NO, NO}, {"20b", FIXED, 20, NO, NO, NO}, {"20B", FIXED, 20, NO, NO, NO}, {"2k", FIXED, 2000, NO, NO, NO}, {"2kb", FIXED, 2000, NO, NO, NO}, {"2KB", FIXED, 2000, NO, NO, NO}, {"3mb", FIXED, 3e6, NO, NO, NO}, {"1gb", FIXED, 1e9, NO, NO, NO},
    {"unif:min=1kb,max=2kb", UNIF, NO, NO, 1000, 2000}, {"unif:min=100b,max=2k", UNIF, NO, NO, 100, 2000}, {"norm:3kb,std=1kb,max=1mb", NORM, 3000, 1000, NO, 1e6}};
static const char *bad[] = {"", "abc", "k", ":", "unif:", "unif:min=1", "unif:max=1", "exp:", "exp:20,std=2", "norm:20", "norm:std=2", "lognorm:20", "gamma:20", "gamma:k=2",
    "aseq:", "aseq:step=2", "aseq:min=1", "aseq:max=9,step=-1", "gseq:", "gseq:min=1,step=2", "gseq:max=8,step=0.5", "file:", "file:col=2", "file:f,unit=h", "file:f,sep=", "unif:min=1,max=2,foo=3", "exp:20,bar", "10s", "norm:5s,std=1", "unif:1ms,2ms"};
static void number_is(pd_spec_t *p, double v, int i) { double g = pd_sample(p); OBLV(sequence, g == v, g, v); (void)i; }
int main(void) {
    pd_spec_t p;
#if KIND == 0
    for (int i = 0; i < sizeof(plain) / sizeof(plain[0]); i++) { OBL(accepted, pd_parse(&p, str(plain[i].s)) == 1); compare(&p, &plain[i]); }
    OBL(accepted, pd_parse(&p, str("lognorm:xavg=3,xstd=1")) == 1);
    OBLV(value, p.val > 33.1154 && p.val < 33.1155 && p.std > 43.408 && p.std < 43.409, p.val, p.std);
    MARK(END);
#elif KIND == 1
    for (int i = 0; i < sizeof(times) / sizeof(times[0]); i++) { OBL(accepted, pd_parse_time(&p, str(times[i].s)) == 1); compare(&p, &times[i]); }
    MARK(END);
#elif KIND == 2
    for (int i = 0; i < sizeof(bytes) / sizeof(bytes[0]); i++) { OBL(accepted, pd_parse_bytes(&p, str(bytes[i].s)) == 1); compare(&p, &bytes[i]); }
    MARK(END);
#elif KIND == 3
    malformed = 1;
    env_file_lines[0] = "1,2\n"; env_file_n = 1;
    which = CHOOSE(sizeof(bad) / sizeof(bad[0]));
    pd_parse(&p, str(bad[which]));
    OBLV(malformed_refused, 0, which, 0);
#elif KIND == 4
    static const struct { const char *s; double lo, hi; } r[] = {
        {"unif:min=20,max=40", 20, 40}, {"unif:min=-5,max=5", -5, 5}, {"unif:min=7,max=7", 7, 7}, {"exp:20", 0, 1e4}, {"exp:20,min=10", 10, 1e4}, {"exp:20,max=40", 0, 40}, {"exp:20,min=10,max=40", 10, 40},
        {"norm:20,std=5", -100, 200}, {"norm:20,std=5,min=10,max=40", 10, 40}, {"norm:20,std=5,min=0", 0, 200}, {"lognorm:3,std=1", 0, 1e6}, {"lognorm:3,std=1,min=2,max=5", 2, 5},
        {"gamma:k=1,scale=2", 0, 1e4}, {"gamma:k=3,scale=2,min=1,max=9", 1, 9}, {"42", 42, 42}};
    for (int i = 0; i < sizeof(r) / sizeof(r[0]); i++) {
        pd_parse(&p, str(r[i].s));
        for (int k = 0; k < 3; k++) {
            double v = pd_sample(&p);
            OBLV(sample_finite, v > -1e300 && v < 1e300, v, i);
            OBLV(sample_within_bounds, v >= r[i].lo && v <= r[i].hi, v, r[i].hi);
        }
    }
    MARK(END);
#elif KIND == 5
    static const struct { const char *s; int n; double first, add, mul; } q[] = {
        {"aseq:min=1000,max=2000,step=250", 5, 1000, 250, 1}, {"aseq:min=1,max=10", 10, 1, 1, 1}, {"aseq:min=1,max=9,step=4", 3, 1, 4, 1}, {"aseq:min=2,max=8,step=-2", 4, 8, -2, 1}, {"aseq:min=0,max=6,step=-1.5", 5, 6, -1.5, 1},
        {"gseq:min=1,max=64", 7, 1, 0, 2}, {"gseq:min=1,max=1000,step=10", 4, 1, 0, 10}, {"gseq:min=1,max=125,step=5", 4, 1, 0, 5}, {"gseq:min=3,max=243,step=3", 5, 3, 0, 3}, {"gseq:min=4,max=64,step=0.5", 5, 64, 0, 0.5}};
    for (int i = 0; i < sizeof(q) / sizeof(q[0]); i++) {
        pd_parse(&p, str(q[i].s));
        double v = q[i].first, last = v;
        int l = pd_len(&p);
        OBLV(length, l == q[i].n, l, q[i].n);
        for (int k = 0; k < q[i].n; k++) { number_is(&p, v, k); last = v; v = v * q[i].mul + q[i].add; }
        for (int k = 0; k < 2; k++) { double g = pd_sample(&p); OBLV(last_value_held, g == last, g, last); }
    }
    /* a start in the middle */
    pd_parse(&p, str("aseq:5,min=1,max=7"));
    number_is(&p, 5, 0); number_is(&p, 6, 1); number_is(&p, 7, 2);
    /* a step that does not divide the range ends on its bound */
    pd_parse(&p, str("aseq:min=0,max=5,step=2"));
    number_is(&p, 0, 0); number_is(&p, 2, 1); number_is(&p, 4, 2); number_is(&p, 5, 3); number_is(&p, 5, 4);
    /* others have no length */
    pd_parse(&p, str("exp:20"));
    OBLV(no_length, pd_len(&p) == -1, 0, 0);
    pd_parse(&p, str("7"));
    OBLV(no_length, pd_len(&p) == -1, 0, 0);
    for (int k = 0; k < 3; k++) number_is(&p, 7, k);
    MARK(END);
#elif KIND == 6
    static const char *f1[] = {"10\n", "20\n", "\n", "30\n", "-5\n", "2.5"};
    static const char *f2[] = {"a;b;c\n", "1;10;100\n", "2;20;200\n", "x;y;z\n", "3;30;300\n"};
    static const struct { const char *s; int f, n; double v[5]; int time; } q[] = {
        {"file:trace", 1, 5, {10, 20, 30, -5, 2.5}}, {"file:trace,col=0,sep=;", 2, 3, {1, 2, 3}}, {"file:trace,col=1,sep=;", 2, 3, {10, 20, 30}}, {"file:sep=;,col=2,trace", 2, 3, {100, 200, 300}},
        {"file:trace,unit=k", 1, 5, {10000, 20000, 30000, -5000, 2500}}, {"file:trace,unit=M,sep=;", 2, 3, {1e6, 2e6, 3e6}}, {"file:trace,unit=s,sep=;", 2, 3, {1e6, 2e6, 3e6}, 1}, {"file:trace,unit=ms,sep=;", 2, 3, {1e3, 2e3, 3e3}, 1}, {"file:trace,unit=us,sep=;", 2, 3, {1, 2, 3}, 1}};
    for (int i = 0; i < sizeof(q) / sizeof(q[0]); i++) {
        env_file_n = q[i].f == 1 ? 6 : 5;
        for (int k = 0; k < env_file_n; k++) env_file_lines[k] = q[i].f == 1 ? f1[k] : f2[k];
        OBL(accepted, (q[i].time ? pd_parse_time(&p, str(q[i].s)) : pd_parse(&p, str(q[i].s))) == 1);
        OBLV(length, pd_len(&p) == q[i].n, pd_len(&p), q[i].n);
        for (int k = 0; k < 2 * q[i].n + 1; k++) { double g = pd_sample(&p); OBLV(sample_of_the_file, g == q[i].v[k % q[i].n], g, q[i].v[k % q[i].n]); }
    }
    /* more samples than are allocated at first */
    env_file_n = 35;
    static char lines[35][4];
    for (int k = 0; k < 35; k++) { lines[k][0] = '0' + k / 10; lines[k][1] = '0' + k % 10; lines[k][2] = '\n'; lines[k][3] = 0; env_file_lines[k] = lines[k]; }
    pd_parse(&p, str("file:trace"));
    OBLV(length, pd_len(&p) == 35, pd_len(&p), 35);
    for (int k = 0; k < 72; k++) { double g = pd_sample(&p); OBLV(sample_of_the_file, g == k % 35, g, k % 35); }
    double a = pd_avg(&p);
    OBLV(average_of_the_file, a == 17, a, 17);
    MARK(END);
#else
    /* the middle draw gives the median, and deviations are in proportion to the parameters */
    static const struct { const char *s; double v; } c[] = {{"exp:20", 13.862943611}, {"exp:5ms", 3465.735902799}, {"norm:20,std=5", 20}, {"norm:-3,std=1", -3}, {"lognorm:3,std=1", 2.846049894},
        {"lognorm:xavg=3,xstd=1", 20.085536923}, {"gamma:k=1,scale=2", 1.386294361}, {"gamma:k=3,scale=2", 4.158883083}, {"gamma:6,std=3.464101615137755", 4.158883083}, {"unif:min=20,max=40", 30}};
    env_draw_fixed = 0.5;
    for (int i = 0; i < sizeof(c) / sizeof(c[0]); i++) { pd_parse_time(&p, str(c[i].s)); double v = pd_sample(&p); OBLV(centre, v > c[i].v - 1e-6 && v < c[i].v + 1e-6, v, c[i].v); }
    env_draw_fixed = 0.75;
    pd_parse(&p, str("norm:20,std=5")); double d1 = pd_sample(&p) - 20;
    pd_parse(&p, str("norm:20,std=10")); double d2 = pd_sample(&p) - 20;
    OBLV(spread, (d1 > 2.5 || d1 < -2.5) && d1 > -50 && d1 < 50, d1, 0);
    OBLV(spread, d2 - 2 * d1 > -1e-6 && d2 - 2 * d1 < 1e-6, d1, d2);
    pd_parse(&p, str("unif:min=20,max=40")); d1 = pd_sample(&p);
    OBLV(spread, d1 == 35 || d1 == 25, d1, 0);
    MARK(END);
#endif
    return 0;
}
