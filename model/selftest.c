/*META {"props": [], "program": "selftest", "units": [], "min_obl": 2, "need": ["within_bounds"], "subject": "model/selftest.c",
 "variants": [{"name": "right", "defs": ["-DLAST=3"]}, {"name": "wrong", "defs": ["-DLAST=4"]}, {"name": "memory", "defs": ["-DLAST=9", "-DLIM=10"]},
              {"name": "nothing", "defs": ["-DLAST=3", "-DNOTHING"]}]} */
/* Tells whether the analyser itself works: one program that is right, two that are wrong, one without anything to check. */
#include "env.h"
#include "default_hooks.h"
#ifndef LIM
#define LIM 4
#endif
static int a[8];
int main(void) {
    int i = CHOOSE(2) ? LAST : 0;
#ifndef NOTHING
    OBL(within_bounds, i < LIM);
#endif
    a[i] = 1;
    MARK(END);
    return 0;
}
