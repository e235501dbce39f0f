/*META {"props": ["C24"], "program": "timespec", "units": [], "models": [], "min_obl": 20, "subject": "src/timespec.h",
 "variants": [{"name": "exact", "defs": ["-DKIND=0"], "min_obl": 1000, "need": ["sum_exact", "difference_exact", "microseconds_exact", "comparison"]},
              {"name": "any-sum", "defs": ["-DKIND=1"], "min_obl": 3, "need": ["sum_normalised", "sum_in_range"]},
              {"name": "any-difference", "defs": ["-DKIND=2"], "min_obl": 3, "need": ["difference_normalised", "microseconds_in_range"]},
              {"name": "timers", "defs": ["-DKIND=3"], "min_obl": 30, "need": ["inverse", "timer_normalised"]}]} */
/* Time arithmetic: for whole ranges of operands what intervals can tell (normalised, in range), and
   exactly at the operands around every boundary. */
#include "env.h"
#include <time.h>
#include <sys/timerfd.h>
#include "timespec.h"
#define G 1000000000L
static const long S[] = {0, 1, 2, 59, 1700000000};
static const long N[] = {0, 1, 999, 1000, 1001, 499999999, 500000000, 999999000, 999999999};
#define NS 5
#define NN 9
static long flat(struct timespec t) { return t.tv_sec * G + t.tv_nsec; }
static struct timespec mk(long s, long n) { struct timespec t; t.tv_sec = s; t.tv_nsec = n; return t; }
static long floor_div(long a, long b) { long q = a / b; if (a % b < 0) q--; return q; }
static const long U[] = {0, 1, 999, 1000, 500000, 999999, 1000000, 1000001, 1999999, 2000000, 60000000, 4294967295, 4294967296, 86400000000};
#define NU 14
int main(void) {
    struct timespec a, b, c;
#if KIND == 0
    for (int i = 0; i < NS; i++) for (int j = 0; j < NN; j++) for (int k = 0; k < NS; k++) for (int l = 0; l < NN; l++) {
        a = mk(S[i], N[j]);
        b = mk(S[k], N[l]);
        c = ts_add(a, b);
        OBLV(sum_exact, flat(c) == flat(a) + flat(b) && c.tv_nsec >= 0 && c.tv_nsec < G, c.tv_sec, c.tv_nsec);
        c = ts_sub(a, b);
        OBLV(difference_exact, flat(c) == flat(a) - flat(b) && c.tv_nsec >= 0 && c.tv_nsec < G, c.tv_sec, c.tv_nsec);
        OBLV(microseconds_exact, ts_sub_us(a, b) == floor_div(flat(a) - flat(b), 1000) || ts_sub_us(a, b) == (flat(a) - flat(b)) / 1000, ts_sub_us(a, b), floor_div(flat(a) - flat(b), 1000));
        if (flat(a) != flat(b)) OBLV(comparison, (ts_leq(a, b) ? 1 : 0) == (flat(a) < flat(b)), ts_leq(a, b), flat(a) < flat(b));
        /* a difference added back */
        if (flat(a) >= flat(b)) OBLV(difference_undone, flat(ts_add(b, ts_sub(a, b))) == flat(a), flat(a), flat(b));
    }
#elif KIND == 1
    a = mk(ANY(0, 2000000000), ANY(0, 999999999));
    b = mk(ANY(0, 2000000000), ANY(0, 999999999));
    c = ts_add(a, b);
    OBLV(sum_normalised, c.tv_nsec >= 0 && c.tv_nsec < G, c.tv_nsec, 0);
    OBLV(sum_in_range, c.tv_sec >= 0 && c.tv_sec <= 4000000001, c.tv_sec, 0);
    /* not normalised to start with: a whole ramp of periods at once */
    b = mk(ANY(0, 10), ANY(0, 2000000000));
    c = ts_add(a, b);
    OBLV(sum_normalised, c.tv_nsec >= 0 && c.tv_nsec < G, c.tv_nsec, 0);
#elif KIND == 2
    a = mk(ANY(0, 2000000000), ANY(0, 999999999));
    b = mk(ANY(0, 2000000000), ANY(0, 999999999));
    c = ts_sub(a, b);
    OBLV(difference_normalised, c.tv_nsec >= 0 && c.tv_nsec < G, c.tv_nsec, 0);
    OBLV(microseconds_in_range, ts_sub_us(a, b) >= -2000000001L * 1000000 && ts_sub_us(a, b) < 2000000001L * 1000000, 0, 0);
    a = mk(ANY(1000, 1000), ANY(0, 499999999));
    b = mk(ANY(999, 999), ANY(500000000, 999999999));
    OBLV(comparison_across_seconds, ts_leq(a, b) == 0, 0, 0);
    OBLV(comparison_across_seconds, ts_leq(b, a) != 0, 0, 0);
#else
    for (int i = 0; i < NU; i++) {
        struct itimerspec t = us_to_its(U[i]);
        OBLV(timer_normalised, t.it_value.tv_nsec >= 0 && t.it_value.tv_nsec < G, t.it_value.tv_nsec, U[i]);
        OBLV(timer_exact, flat(t.it_value) == U[i] * 1000, flat(t.it_value), U[i]);
        OBLV(one_shot, t.it_interval.tv_sec == 0 && t.it_interval.tv_nsec == 0, t.it_interval.tv_sec, t.it_interval.tv_nsec);
        OBLV(inverse, its_to_us(t) == U[i], its_to_us(t), U[i]);
    }
    struct itimerspec t = us_to_its(Frama_C_long_interval(0, 86400000000));
    OBLV(timer_normalised, t.it_value.tv_nsec >= 0 && t.it_value.tv_nsec < G, t.it_value.tv_nsec, 0);
    OBLV(timer_in_range, its_to_us(t) >= 0 && its_to_us(t) < 86401000000, 0, 0);
#endif
    MARK(END);
    return 0;
}
