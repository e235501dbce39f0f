/* The part of libc the programs use that the analyser has no builtin for. */
#include "env.h"

int strcmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
    size_t i = 0;
    while (i < n && a[i] && a[i] == b[i]) i++;
    if (i == n) return 0;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
static int m_low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strncasecmp(const char *a, const char *b, size_t n) {
    size_t i = 0;
    while (i < n && a[i] && m_low(a[i]) == m_low(b[i])) i++;
    if (i == n) return 0;
    return m_low((unsigned char)a[i]) - m_low((unsigned char)b[i]);
}
void bzero(void *p, size_t n) { memset(p, 0, n); }
char *stpcpy(char *d, const char *s) { size_t i = 0; while (s[i]) { d[i] = s[i]; i++; } d[i] = 0; return d + i; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
int strcasecmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && m_low(a[i]) == m_low(b[i])) i++;
    return m_low((unsigned char)a[i]) - m_low((unsigned char)b[i]);
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i];
    return 0;
}
char *strcpy(char *d, const char *s) {
    size_t i = 0;
    while (s[i]) { d[i] = s[i]; i++; }
    d[i] = 0;
    return d;
}
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    while (i < n && s[i]) { d[i] = s[i]; i++; }
    while (i < n) { d[i] = 0; i++; }
    return d;
}
char *strcat(char *d, const char *s) {
    size_t i = 0, j = 0;
    while (d[i]) i++;
    while (s[j]) { d[i + j] = s[j]; j++; }
    d[i + j] = 0;
    return d;
}
char *strncat(char *d, const char *s, size_t n) {
    size_t i = 0, j = 0;
    while (d[i]) i++;
    while (j < n && s[j]) { d[i + j] = s[j]; j++; }
    d[i + j] = 0;
    return d;
}
char *strrchr(const char *s, int c) {
    char *r = NULL;
    size_t i = 0;
    while (1) {
        if (s[i] == (char)c) r = (char *)s + i;
        if (!s[i]) break;
        i++;
    }
    return r;
}
char *strstr(const char *h, const char *n) {
    for (size_t i = 0;; i++) {
        size_t j = 0;
        while (n[j] && h[i + j] == n[j]) j++;
        if (!n[j]) return (char *)h + i;
        if (!h[i]) return NULL;
    }
}
static int m_in(char c, const char *set) {
    for (size_t i = 0; set[i]; i++) if (set[i] == c) return 1;
    return 0;
}
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && m_in(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !m_in(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { size_t i = strcspn(s, set); return s[i] ? (char *)s + i : NULL; }
char *strsep(char **sp, const char *set) {
    char *s = *sp;
    if (!s) return NULL;
    size_t i = 0;
    while (s[i] && !m_in(s[i], set)) i++;
    if (s[i]) { s[i] = 0; *sp = s + i + 1; }
    else *sp = NULL;
    return s;
}
char *strtok_r(char *s, const char *set, char **save) {
    if (!s) s = *save;
    while (*s && m_in(*s, set)) s++;
    if (!*s) { *save = s; return NULL; }
    char *r = s;
    while (*s && !m_in(*s, set)) s++;
    if (*s) { *s = 0; s++; }
    *save = s;
    return r;
}
static char *m_tok;
char *strtok(char *s, const char *set) { return strtok_r(s, set, &m_tok); }
char *strdup(const char *s) {
    size_t n = strlen(s);
    char *p = malloc(n + 1);
    memcpy(p, s, n + 1);
    return p;
}
char *strndup(const char *s, size_t m) {
    size_t n = strlen(s);
    if (n > m) n = m;
    char *p = malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
static int m_sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int m_dig(char c) { return c >= '0' && c <= '9'; }
/* integer at s; *n = characters consumed, 0 if none */
static long m_int(const char *s, int *n) {
    int i = 0, neg = 0, d = 0;
    long v = 0;
    while (m_sp(s[i])) i++;
    if (s[i] == '-') { neg = 1; i++; }
    else if (s[i] == '+') i++;
    while (m_dig(s[i])) { v = v * 10 + (s[i] - '0'); i++; d++; }
    *n = d ? i : 0;
    return neg ? -v : v;
}
static double m_dbl(const char *s, int *n) {
    int i = 0, neg = 0, d = 0;
    double v = 0, scale = 1;
    while (m_sp(s[i])) i++;
    if (s[i] == '-') { neg = 1; i++; }
    else if (s[i] == '+') i++;
    while (m_dig(s[i])) { v = v * 10 + (s[i] - '0'); i++; d++; }
    if (s[i] == '.') {
        i++;
        while (m_dig(s[i])) { v = v * 10 + (s[i] - '0'); scale *= 10; i++; d++; }
    }
    if (!d) { *n = 0; return 0; }
    v /= scale;
    if (s[i] == 'e' || s[i] == 'E') {
        int k, en = 0, e = 0;
        k = i + 1;
        if (s[k] == '-') { en = 1; k++; } else if (s[k] == '+') k++;
        if (m_dig(s[k])) {
            while (m_dig(s[k])) { e = e * 10 + (s[k] - '0'); k++; }
            while (e > 0) { if (en) v /= 10; else v *= 10; e--; }
            i = k;
        }
    }
    *n = i;
    return neg ? -v : v;
}
long strtol(const char *s, char **end, int base) { int n; (void)base; long v = m_int(s, &n); if (end) *end = (char *)s + n; return v; }
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)strtol(s, end, base); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return (unsigned long)strtol(s, end, base); }
double strtod(const char *s, char **end) { int n; double v = m_dbl(s, &n); if (end) *end = (char *)s + n; return v; }
int atoi(const char *s) { int n; return (int)m_int(s, &n); }
long atol(const char *s) { int n; return m_int(s, &n); }
long long atoll(const char *s) { int n; return m_int(s, &n); }
double atof(const char *s) { int n; return m_dbl(s, &n); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

/* ------------------------------------------------------------- formatted input */
int dwm_sscanf(const char *s, const char *f, ...) {
    va_list ap;
    int got = 0, n, i = 0, j = 0;
    va_start(ap, f);
    while (f[j]) {
        if (f[j] == '%') {
            j++;
            int l = 0, w = 0;
            while (f[j] >= '0' && f[j] <= '9') { w = w * 10 + (f[j] - '0'); j++; }
            while (f[j] == 'l') { l++; j++; }
            if (f[j] == 'd' || f[j] == 'i' || f[j] == 'u') {
                char part[24];
                const char *from = s + i;
                if (w) { int k = 0; while (k < w && k < 23 && s[i + k]) { part[k] = s[i + k]; k++; } part[k] = 0; from = part; }
                long v = m_int(from, &n);
                if (!n) { va_end(ap); return s[i] || got ? got : -1; }
                if (l) *va_arg(ap, long *) = v;
                else *va_arg(ap, int *) = (int)v;
            } else if (f[j] == 'f' || f[j] == 'g') {
                double v = m_dbl(s + i, &n);
                if (!n) { va_end(ap); return s[i] || got ? got : -1; }
                if (l) *va_arg(ap, double *) = v;
                else *va_arg(ap, float *) = (float)v;
            } else BROKEN(scanf_conversion);
            i += n;
            got++;
            j++;
        } else if (m_sp(f[j])) {
            while (m_sp(s[i])) i++;
            j++;
        } else {
            if (s[i] != f[j]) { va_end(ap); return s[i] || got ? got : -1; }
            i++;
            j++;
        }
    }
    va_end(ap);
    return got;
}

/* ------------------------------------------------------------- formatted output */
long PA[12];            /* integer arguments of the last print */
const char *PS[12];     /* string arguments */
int PN;
static int m_put(char *d, long cap, long at, char c) {
    if (d && (cap < 0 || at < cap - 1)) d[at] = c;
    return 1;
}
static long m_format(char *d, long cap, const char *f, va_list ap) {
    long n = 0;
    PN = 0;
    for (int j = 0; f[j]; j++) {
        if (f[j] != '%') { n += m_put(d, cap, n, f[j]); continue; }
        j++;
        int zero = 0, width = 0, l = 0;
        if (f[j] == '0') { zero = 1; j++; }
        if (f[j] == '-') j++;
        while (m_dig(f[j])) { width = width * 10 + (f[j] - '0'); j++; }
        if (f[j] == '.') { j++; if (f[j] == '*') j++; while (m_dig(f[j])) j++; }
        while (f[j] == 'l' || f[j] == 'z' || f[j] == 'h') { l++; j++; }
        if (f[j] == 'd' || f[j] == 'u' || f[j] == 'i' || f[j] == 'x') {
            long v;
            if (l) v = va_arg(ap, long);
            else if (f[j] == 'u') v = va_arg(ap, unsigned int);
            else v = va_arg(ap, int);
            if (PN < 12) { PA[PN] = v; PN++; }
            if (d) {
                char t[24];
                int k = 0;
                unsigned long u = v < 0 && f[j] != 'u' ? -(unsigned long)v : (unsigned long)v;
                if (v < 0 && f[j] != 'u') n += m_put(d, cap, n, '-');
                do { t[k] = '0' + u % 10; u /= 10; k++; } while (u && k < 20);
                while (k < width) { t[k] = zero ? '0' : ' '; k++; }
                while (k > 0) { k--; n += m_put(d, cap, n, t[k]); }
            }
        } else if (f[j] == 's') {
            const char *s = va_arg(ap, const char *);
            if (PN < 12) { PS[PN] = s; PN++; }
            for (long k = 0; s[k]; k++) n += m_put(d, cap, n, s[k]);
        } else if (f[j] == 'g' || f[j] == 'f') {
            double v = va_arg(ap, double);
            if (PN < 12) { PN++; }
            if (d) {
                if (v >= 0 && v < 100000 && v == (double)(long)v) {
                    char t[24];
                    int k = 0;
                    unsigned long u = (unsigned long)v;
                    do { t[k] = '0' + u % 10; u /= 10; k++; } while (u && k < 20);
                    while (k > 0) { k--; n += m_put(d, cap, n, t[k]); }
                } else
                    for (int k = 0; k < 11; k++) n += m_put(d, cap, n, '1');
            }
        } else if (f[j] == 'c') {
            int c = va_arg(ap, int);
            if (PN < 12) { PA[PN] = c; PN++; }
            n += m_put(d, cap, n, (char)c);
        } else if (f[j] == 'p') {
            va_arg(ap, void *);
            for (int k = 0; k < 14; k++) n += m_put(d, cap, n, '0');
        } else if (f[j] == '%') n += m_put(d, cap, n, '%');
        else BROKEN(printf_conversion);
    }
    if (d) { if (cap < 0 || n < cap) d[n] = 0; else if (cap > 0) d[cap - 1] = 0; }
    return n;
}
/* standard output as text, line by line, when the scenario asks for it */
int env_text;
static char out_line[512];
static int out_n;
void env_out(const char *t, long n) {
    for (long i = 0; i < n; i++) {
        if (t[i] == '\n' || out_n == 511) { out_line[out_n] = 0; out_n = 0; env_on_line(out_line); }
        else { out_line[out_n] = t[i]; out_n++; }
    }
}
static char out_tmp[512];
static void m_print(int err, const char *f, va_list ap) {
    if (!err && env_text) { long n = m_format(out_tmp, 512, f, ap); env_out(out_tmp, n < 511 ? n : 511); }
    else { m_format(NULL, -1, f, ap); env_on_print(err, f); }
}
int dwm_printf(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    m_print(0, f, ap);
    va_end(ap);
    return 1;
}
int dwm_fprintf(FILE *o, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    m_print(o == stdout ? 0 : 1, f, ap);
    va_end(ap);
    return 1;
}
int dwm_sprintf(char *d, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = (int)m_format(d, -1, f, ap);
    va_end(ap);
    return n;
}
int dwm_snprintf(char *d, size_t cap, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = (int)m_format(d, (long)cap, f, ap);
    va_end(ap);
    return n;
}
int vprintf(const char *f, va_list ap) { m_print(0, f, ap); return 1; }
int vfprintf(FILE *o, const char *f, va_list ap) { m_print(o == stdout ? 0 : 1, f, ap); return 1; }
int vsprintf(char *d, const char *f, va_list ap) { return (int)m_format(d, -1, f, ap); }
int vsnprintf(char *d, size_t cap, const char *f, va_list ap) { return (int)m_format(d, (long)cap, f, ap); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return m_low(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static void m_puts(FILE *f, const char *t) { if (f == stdout && env_text) { long n = 0; while (t[n]) n++; env_out(t, n); } }
int puts(const char *s) { m_puts(stdout, s); m_puts(stdout, "\n"); return 1; }
int fputs(const char *s, FILE *f) { m_puts(f, s); return 1; }
int fputc(int c, FILE *f) { char t[2]; t[0] = c; t[1] = 0; m_puts(f, t); return c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stdout && env_text) env_out(p, s * n); return n; }
int fflush(FILE *f) { (void)f; return 0; }

/* ------------------------------------------------------------- input files (lines supplied by the scenario) */
const char *env_file_lines[40];
int env_file_n, env_file_cur;
static FILE *m_file;
FILE *fopen(const char *n, const char *m) { (void)m; if (!n[0]) { errno = ENOENT; return NULL; } env_file_cur = 0; m_file = (FILE *)malloc(8); return m_file; }
int fclose(FILE *f) { free(f); return 0; }
int feof(FILE *f) { (void)f; return env_file_cur >= env_file_n; }
char *fgets(char *b, int n, FILE *f) {
    (void)f;
    if (env_file_cur >= env_file_n) return NULL;
    const char *s = env_file_lines[env_file_cur];
    int i = 0;
    while (s[i] && i < n - 1) { b[i] = s[i]; i++; }
    b[i] = 0;
    env_file_cur++;
    return b;
}

int posix_memalign(void **p, size_t al, size_t n) { (void)al; *p = malloc(n); return 0; }
void *aligned_alloc(size_t al, size_t n) { (void)al; return malloc(n); }

/* ------------------------------------------------------------- random numbers */
int srand48_r(long s, struct drand48_data *b) { (void)s; (void)b; return 0; }
double env_draw_fixed = -1;
int drand48_r(struct drand48_data *b, double *r) {
    (void)b;
    if (env_draw_fixed >= 0) *r = env_draw_fixed;
    else *r = env_unit();
    return 0;
}
double drand48(void) { return env_unit(); }
int rand(void) { return ANY(0, 0x7fffffff); }
long random(void) { return ANY(0, 0x7fffffff); }
long lrint(double x) { return (long)(x + 0.5); }
/*@ assigns \result \from x;
    behavior nan: assumes \is_NaN(x); ensures \result == 1;
    behavior number: assumes !\is_NaN(x); ensures \result == 0;
    complete behaviors; disjoint behaviors; */
extern int (isnan)(double x);
double fabs(double x) { return x < 0 ? -x : x; }
float fabsf(float x) { return x < 0 ? -x : x; }
double fmax(double a, double b) { return a < b ? b : a; }
double fmin(double a, double b) { return b < a ? b : a; }
