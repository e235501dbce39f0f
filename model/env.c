#include "env.h"

struct mfd F[NFD];
struct mreg REG[NEP][NFD];
int EPW[NEP];
static int storage_thread(void);
struct mpipe PIPES[8];
int npipes;
int nep;
struct mthread THR[8];
int nthr;
int cur_thread = -1;
long now_us = 1000000;
long cpu_us = 0, cpu_total_us = 0;
static long proc_us = 0;      /* CPU clock of the process */
long clock_tick_us = 1;
int term_pending, usr1_pending, stor_term;
static int watches_term[8], term_taken;
int env_evmode;
int env_events, env_max_events = 60;
int env_ncpu = 4;
int file_fd = -1;
long file_pos, file_size;
int file_unsynced, file_short, file_odirect, file_trunc, file_creat;
struct env_opt env_opts[16];
int env_nopts;

static int env_errno;
int *__errno_location(void) { return &env_errno; }

/* ---------------------------------------------------------------- options */
static char env_optbuf[16][128];
void env_option(const char *name, const char *arg) {
    env_opts[env_nopts].name = name;
    if (arg) {
        int i = 0;
        while (arg[i]) { env_optbuf[env_nopts][i] = arg[i]; i++; }
        env_optbuf[env_nopts][i] = 0;
        env_opts[env_nopts].arg = env_optbuf[env_nopts];
    } else
        env_opts[env_nopts].arg = NULL;
    env_nopts++;
}

static int m_streq(const char *a, const char *b) {
    int i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return a[i] == b[i];
}

error_t argp_parse(const struct argp *argp, int argc, char **argv, unsigned flags, int *idx, void *input) {
    struct argp_state st;
    memset(&st, 0, sizeof(st));
    st.root_argp = argp;
    st.argc = argc;
    st.argv = argv;
    st.input = input;
    argp->parser(ARGP_KEY_INIT, NULL, &st);
    for (int i = 0; i < env_nopts; i++) {
        int j = 0, found = 0;
        while (argp->options[j].name || argp->options[j].key) {
            if (argp->options[j].name && m_streq(argp->options[j].name, env_opts[i].name)) {
                int rv = argp->parser(argp->options[j].key, env_opts[i].arg, &st);
                if (rv != 0) BROKEN(option_rejected);
                found = 1;
                break;
            }
            j++;
        }
        if (!found) BROKEN(option_missing);
    }
    argp->parser(ARGP_KEY_NO_ARGS, NULL, &st);
    argp->parser(ARGP_KEY_END, NULL, &st);
    argp->parser(ARGP_KEY_SUCCESS, NULL, &st);
    argp->parser(ARGP_KEY_FINI, NULL, &st);
    return 0;
}
void argp_state_help(const struct argp_state *s, FILE *f, unsigned fl) { (void)s; (void)f; (void)fl; exit(0); }
void argp_failure(const struct argp_state *s, int status, int err, const char *fmt, ...) { (void)s; (void)err; (void)fmt; exit(status); }
void argp_error(const struct argp_state *s, const char *fmt, ...) { (void)s; (void)fmt; exit(64); }
void argp_usage(const struct argp_state *s) { (void)s; exit(64); }

/* ---------------------------------------------------------------- process */
void exit(int code) { env_on_exit(code); env_halt(); }
void _exit(int code) { env_on_exit(code); env_halt(); }
int env_assert_exits;
void abort(void) { OBL(no_abort, 0); env_halt(); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    (void)e; (void)f; (void)l; (void)fn;
    if (env_assert_exits) { env_on_exit(134); env_halt(); }
    OBL(no_assert_failure, 0);
    env_halt();
}
static char env_home[] = "/home/u";
char *getenv(const char *n) { return m_streq(n, "HOME") ? env_home : NULL; }
long sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? env_ncpu : 4096; }
int prctl(int op, ...) { (void)op; return 0; }
__sighandler_t signal(int s, __sighandler_t h) { (void)s; (void)h; return SIG_DFL; }
int sigemptyset(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int sigaddset(sigset_t *s, int n) { s->__val[0] |= 1UL << (n - 1); return 0; }
int sigfillset(sigset_t *s) { memset(s, 0xff, sizeof(*s)); return 0; }
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { (void)how; (void)s; (void)o; return 0; }
int sigprocmask(int how, const sigset_t *s, sigset_t *o) { (void)how; (void)s; (void)o; return 0; }
int sigaction(int n, const struct sigaction *a, struct sigaction *o) { (void)n; (void)a; (void)o; return 0; }
static cpu_set_t env_avail;
int env_avail_init;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    (void)p;
    if (!env_avail_init) { env_avail.__bits[0] = (1UL << env_ncpu) - 1; }
    memcpy(m, &env_avail, n);
    return 0;
}
int env_pin_calls; unsigned long env_pin_mask[8];
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *m) {
    (void)t; (void)n;
    env_pin_mask[env_pin_calls & 7] = m->__bits[0];
    env_pin_calls++;
    env_thr_pin[t == 999 ? 0 : (int)t - 1000 + 1] = m->__bits[0];
    return 0;
}
int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *m) { (void)p; return pthread_setaffinity_np(pthread_self(), n, m); }
unsigned long env_thr_pin[9];
struct env_sched env_thr_sched[9];
int env_setattr_calls;
static long m_setattr(const unsigned char *a) {
    /* fields at the offsets of the kernel interface */
    struct env_sched *s = &env_thr_sched[cur_thread + 1];
    uint32_t v;
    memcpy(&v, a, 4);
    if (v < 48) { env_errno = E2BIG; return -1; }
    memcpy(&s->policy, a + 4, 4);
    memcpy(&s->nice, a + 16, 4);
    memcpy(&s->prio, a + 20, 4);
    memcpy(&s->runtime, a + 24, 8);
    memcpy(&s->deadline, a + 32, 8);
    memcpy(&s->period, a + 40, 8);
    s->calls++;
    env_setattr_calls++;
    return 0;
}
long syscall(long n, ...) {
    if (n != SYS_sched_setattr) BROKEN(system_call);
    va_list ap;
    va_start(ap, n);
    int pid = va_arg(ap, int);
    const unsigned char *a = va_arg(ap, const unsigned char *);
    va_end(ap);
    if (pid != 0) BROKEN(sched_setattr_target);
    return m_setattr(a);
}
char *strerror(int e) { (void)e; return "err"; }
void perror(const char *s) { (void)s; env_errno = ENOTTY; /* not preserved */ }
void srand(unsigned s) { (void)s; }

/* ---------------------------------------------------------------- time */
int clock_gettime(clockid_t c, struct timespec *ts) {
    long t;
    if (c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID) {
        cpu_us += clock_tick_us;
        cpu_total_us += clock_tick_us;
        /* other threads of the process are busy at the same time */
        proc_us += 3 * clock_tick_us;
        t = c == CLOCK_THREAD_CPUTIME_ID ? cpu_us : proc_us;
    } else {
        now_us += clock_tick_us;
        t = now_us;
    }
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = t % 1000000 * 1000;
    return 0;
}
time_t time(time_t *p) { if (p) *p = now_us / 1000000; return now_us / 1000000; }
int env_sleeps; long env_sleep_late, env_sleep_target_us; long env_sleep_target_ns;
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) {
    (void)c; (void)rem;
    if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) return EINVAL; /* without sleeping */
    long t = ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    env_sleeps++;
    env_sleep_target_us = t;
    env_sleep_target_ns = ts->tv_nsec;
    if (flags & TIMER_ABSTIME) { if (t > now_us) now_us = t + env_sleep_late; }
    else now_us += t + env_sleep_late;
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    (void)rem;
    if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) { env_errno = EINVAL; return -1; }
    env_sleeps++;
    now_us += ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    return 0;
}
int usleep(useconds_t u) { now_us += u; env_sleeps++; return 0; }
unsigned int sleep(unsigned int s) { now_us += s * 1000000L; return 0; }

/* ---------------------------------------------------------------- threads */
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void)a;
    int i = nthr++;
    THR[i].fn = fn;
    THR[i].arg = arg;
    THR[i].state = 0;
    THR[i].id = 1000 + i;
    *t = THR[i].id;
    env_on_thread(i);
    return 0;
}
void env_run_thread(int i) {
    int save = cur_thread;
    long save_cpu = cpu_us;
    cur_thread = i;
    cpu_us = 0;
    THR[i].state = 1;
    if (i != storage_thread()) term_pending = 0;
    THR[i].fn(THR[i].arg);
    THR[i].state = 2;
    cur_thread = save;
    cpu_us = save_cpu;
}
int pthread_join(pthread_t t, void **rv) {
    (void)rv;
    int i = (int)t - 1000;
    OBL(join_of_started_thread, i >= 0 && i < nthr);
    /* a storage thread only found out about the termination now */
    if (THR[i].state == 0 || (i == storage_thread() && !env_storage_frozen))
        env_run_thread(i);
    THR[i].state = 3;
    return 0;
}
pthread_t pthread_self(void) { return cur_thread < 0 ? 999 : THR[cur_thread].id; }
int pthread_detach(pthread_t t) { THR[(int)t - 1000].detached = 1; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { (void)m; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { (void)m; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int pthread_spin_init(pthread_spinlock_t *m, int s) { (void)m; (void)s; return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) { (void)m; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *m) { (void)m; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *m) { (void)m; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { (void)m; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { (void)m; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { (void)m; return 0; }
int pthread_setname_np(pthread_t t, const char *n) { (void)t; (void)n; return 0; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield(void) { return 0; }

/* ---------------------------------------------------------------- descriptors */
int env_new_fd(int kind) {
    int fd = 3;
    while (F[fd].kind != K_FREE) fd++;
    if (fd >= NFD) BROKEN(too_many_descriptors);
    memset(&F[fd], 0, sizeof(F[fd]));
    F[fd].kind = kind;
    F[fd].tag = -1;
    F[fd].idx = -1;
    F[fd].tx_win = TXCAP;
    F[fd].owner = cur_thread;
    return fd;
}
static int m_valid(int fd) {
    if (fd < 3 || fd >= NFD) return 0;
    if (F[fd].kind == K_FREE && F[fd].closed) OBLV(descriptor_not_used_after_close, 0, fd, cur_thread);
    return F[fd].kind != K_FREE;
}
#define VALID_FD(fd) m_valid(fd)

int fd_of_tag(int tag) {
    for (int i = 3; i < NFD; i++)
        if (F[i].kind != K_FREE && F[i].tag == tag) return i;
    return -1;
}
int close(int fd) {
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    env_on_close(fd);
    for (int e = 0; e < NEP; e++) REG[e][fd].on = 0;
    F[fd].kind = K_FREE;
    F[fd].closed = 1;
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    va_list ap;
    int v;
    if (cmd == F_GETFL) return F[fd].nonblock ? O_RDWR | O_NONBLOCK : O_RDWR;
    if (cmd == F_SETFL) {
        va_start(ap, cmd);
        v = va_arg(ap, int);
        va_end(ap);
        F[fd].nonblock = (v & O_NONBLOCK) ? 1 : 0;
    }
    return 0;
}

/* ---------------------------------------------------------------- sockets */
int env_socket_fails;
int socket(int dom, int type, int proto) {
    (void)dom; (void)proto;
    int fd = env_new_fd(K_RAW);
    F[fd].stream = (type & 0xf) == SOCK_STREAM;
    F[fd].nonblock = (type & SOCK_NONBLOCK) ? 1 : 0;
    if (!F[fd].stream) F[fd].kind = K_DGRAM;
    return fd;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) {
    (void)n;
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    int val = *(const int *)v;
    if (level == SOL_SOCKET && name == SO_REUSEADDR) F[fd].reuseaddr = val;
    if (level == SOL_SOCKET && name == SO_REUSEPORT) F[fd].reuseport = val;
    if (level == IPPROTO_TCP && name == TCP_NODELAY) F[fd].nodelay = val;
    return 0;
}
int getsockopt(int fd, int level, int name, void *v, socklen_t *n) {
    (void)level; (void)n;
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    if (name == SO_ERROR) *(int *)v = F[fd].conn_state == 3 ? ECONNREFUSED : 0;
    else *(int *)v = 0;
    return 0;
}
int env_binds;
int bind(int fd, const struct sockaddr *sa, socklen_t n) {
    (void)n;
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
    F[fd].bound = 1;
    F[fd].baddr = in->sin_addr.s_addr;
    F[fd].bport = in->sin_port;
    env_binds++;
    return 0;
}
int listen(int fd, int backlog) {
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    OBL(listen_after_bind, F[fd].bound);
    F[fd].kind = K_LISTEN;
    F[fd].backlog = backlog;
    return 0;
}
int find_listener(int nth) {
    for (int i = 3; i < NFD; i++)
        if (F[i].kind == K_LISTEN) { if (nth == 0) return i; nth--; }
    return -1;
}
static int acc_tag[NFD][8];
int new_conn_on(int lfd, int tag) { acc_tag[lfd][F[lfd].acc_pending] = tag; F[lfd].acc_pending++; return 0; }
int env_accepts, env_accept_errno, env_accept_failures;
int accept(int fd, struct sockaddr *sa, socklen_t *n) {
    if (!VALID_FD(fd) || F[fd].kind != K_LISTEN) { env_errno = EINVAL; return -1; }
    if (F[fd].acc_pending == 0) {
        if (!F[fd].nonblock) OBL(no_blocking_accept, 0);
        env_errno = EAGAIN;
        return -1;
    }
    if (env_accept_errno == EAGAIN && !F[fd].nonblock) OBL(no_blocking_accept, 0);
    if (env_accept_errno) { env_errno = env_accept_errno; env_accept_errno = 0; env_accept_failures++; return -1; }
    int tag = acc_tag[fd][0];
    for (int i = 1; i < F[fd].acc_pending; i++) acc_tag[fd][i - 1] = acc_tag[fd][i];
    F[fd].acc_pending--;
    int c = env_new_fd(K_CONN);
    F[c].stream = 1;
    F[c].conn_state = 2;
    F[c].tag = tag;
    F[c].paddr = 0x0100007f;
    F[c].pport = 1000 + tag;
    if (sa) {
        struct sockaddr_in *in = (struct sockaddr_in *)sa;
        memset(in, 0, sizeof(*in));
        in->sin_family = AF_INET;
        in->sin_addr.s_addr = F[c].paddr;
        in->sin_port = F[c].pport;
        *n = sizeof(*in);
    }
    env_accepts++;
    env_on_accept(c);
    return c;
}
int accept4(int fd, struct sockaddr *sa, socklen_t *n, int fl) { int c = accept(fd, sa, n); if (c >= 0) F[c].nonblock = (fl & SOCK_NONBLOCK) ? 1 : 0; return c; }
int connect(int fd, const struct sockaddr *sa, socklen_t n) {
    (void)n;
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
    F[fd].paddr = in->sin_addr.s_addr;
    F[fd].pport = in->sin_port;
    if (!F[fd].stream) { F[fd].conn_state = 2; return 0; }
    F[fd].kind = K_CONN;
    int r = env_connect(fd, F[fd].paddr, F[fd].pport);
    if (r == 0) { F[fd].conn_state = 2; return 0; }
    if (r == 1) { F[fd].conn_state = 1; env_errno = EINPROGRESS; return -1; }
    F[fd].kind = K_RAW;
    env_errno = ECONNREFUSED;
    return -1;
}
void put_bytes(int fd, const void *p, int n) {
    memcpy(F[fd].rx + F[fd].rx_len, p, n);
    F[fd].rx_len += n;
}
int env_recv_spin;
int env_spurious;
int env_dgram_taken; /* receives that find the datagram taken by another thread */
ssize_t recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *sa, socklen_t *sl) {
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    struct mfd *f = &F[fd];
    int n;
    if (f->kind == K_DGRAM) {
        env_on_recv_buf(fd, buf);
        if (env_dgram_taken > 0) {
            env_dgram_taken--;
            if (!f->nonblock && !(flags & MSG_DONTWAIT)) env_on_recv_block(fd);
            env_errno = EAGAIN;
            return -1;
        }
        if (f->dg_cur >= f->dg_n) {
            if (!f->nonblock && !(flags & MSG_DONTWAIT)) env_on_recv_block(fd);
            if (f->dg_cur >= f->dg_n) { env_errno = EAGAIN; return -1; }
        }
        int full = f->dg_len[f->dg_cur];
        n = full;
        if ((size_t)n > len) n = len;
        memcpy(buf, f->rx + f->rx_pos, n);
        f->rx_pos += full;
        if (sa) {
            struct sockaddr_in *in = (struct sockaddr_in *)sa;
            memset(in, 0, sizeof(*in));
            in->sin_family = AF_INET;
            in->sin_addr.s_addr = f->dg_addr[f->dg_cur];
            in->sin_port = f->dg_port[f->dg_cur];
            *sl = sizeof(*in);
        }
        f->dg_cur++;
        return n;
    }
    if (f->kind == K_CONN && f->conn_state == 1 && f->nonblock) {
        if (env_recv_spin) env_on_poll(fd, 0);
        env_errno = EAGAIN;
        return -1;
    }
    if (f->kind != K_CONN || f->conn_state != 2) { env_errno = ENOTCONN; return -1; }
    if (f->rst) { f->rst = 0; f->eof = 1; env_errno = ECONNRESET; return -1; }
    n = f->rx_avail - f->rx_pos;
    if (n > 0 && env_spurious > 0 && f->nonblock) { env_spurious--; env_errno = EAGAIN; return -1; }
    if (n == 0) {
        if (f->eof) {
            /* reading a closed connection over and over is not getting anywhere */
            OBL(no_endless_receive, ++f->eof_reads <= 16);
            return 0;
        }
        if (!f->nonblock || env_recv_spin && !(flags & MSG_DONTWAIT)) {
            env_on_recv_block(fd);
            n = f->rx_avail - f->rx_pos;
            if (n == 0 && f->rst) { f->rst = 0; f->eof = 1; env_errno = ECONNRESET; return -1; }
            if (n == 0 && f->eof) return 0;
        }
        if (n == 0) { env_errno = EAGAIN; return -1; }
    }
    if (len == 0) return 0;
    if ((size_t)n > len) n = len;
    memcpy(buf, f->rx + f->rx_pos, n);
    f->rx_pos += n;
    /* the kernel leaves the address argument of a connected stream untouched */
    return n;
}
ssize_t recv(int fd, void *buf, size_t len, int flags) { return recvfrom(fd, buf, len, flags, NULL, NULL); }
ssize_t sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *sa, socklen_t sl) {
    (void)sl;
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    struct mfd *f = &F[fd];
    int n;
    f->tx_calls++;
    if (f->kind == K_DGRAM) {
        if (sa) {
            const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
            f->tx_addr = in->sin_addr.s_addr;
            f->tx_port = in->sin_port;
        } else { f->tx_addr = f->paddr; f->tx_port = f->pport; }
        if (f->tx_port == 0) { env_errno = EINVAL; return -1; }
        OBLV(datagram_fits, len <= 65507, len, fd);
        n = len;
        if (f->tx_len + n > TXCAP) BROKEN(tx_log_full);
        memcpy(f->tx + f->tx_len, buf, n);
        f->tx_len += n;
        env_on_send(fd, f->tx + f->tx_len - n, n);
        return n;
    }
    if (f->kind == K_CONN && f->conn_state == 1 && f->nonblock) {
        if (env_recv_spin) env_on_poll(fd, 0);
        env_errno = EAGAIN;
        return -1;
    }
    if (f->kind != K_CONN || f->conn_state != 2) { env_errno = ENOTCONN; return -1; }
    if (f->rst || f->eof == 2 || (f->shut & 2)) {
        if (!(flags & MSG_NOSIGNAL)) OBL(no_sigpipe, 0);
        env_errno = f->rst ? ECONNRESET : EPIPE;
        return -1;
    }
    n = len;
    if (n > f->tx_win) n = f->tx_win;
    if (n == 0 && len > 0) {
        if (f->nonblock || (flags & MSG_DONTWAIT)) { env_errno = EAGAIN; return -1; }
        n = len; /* a blocking send waits */
    }
    f->tx_win -= n;
    if (f->tx_win < 0) f->tx_win = 0;
    if (f->tx_len + n > TXCAP) BROKEN(tx_log_full);
    memcpy(f->tx + f->tx_len, buf, n);
    f->tx_len += n;
    env_on_send(fd, f->tx + f->tx_len - n, n);
    return n;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
    int ready = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0) continue;
        if (!VALID_FD(p[i].fd)) { p[i].revents = POLLNVAL; ready++; continue; }
        struct mfd *f = &F[p[i].fd];
        if (timeout != 0) env_on_poll(p[i].fd, p[i].events);
        if ((p[i].events & POLLIN) && (f->kind == K_DGRAM ? f->dg_cur < f->dg_n : f->rx_avail > f->rx_pos || f->eof || f->rst)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT) && (f->kind == K_DGRAM || (f->conn_state == 2 && (f->tx_win > 0 || f->rst || f->eof == 2 || (f->shut & 2))))) p[i].revents |= POLLOUT;
        if (f->rst || (f->shut & 3) == 3) p[i].revents |= POLLHUP;
        if (p[i].revents) ready++;
    }
    return ready;
}
ssize_t send(int fd, const void *buf, size_t len, int flags) { return sendto(fd, buf, len, flags, NULL, 0); }
int shutdown(int fd, int how) {
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    if (F[fd].kind != K_CONN || F[fd].conn_state != 2) { env_errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) { F[fd].shut |= 1; F[fd].eof = F[fd].eof ? F[fd].eof : 1; F[fd].rx_pos = F[fd].rx_avail; }
    if (how == SHUT_WR || how == SHUT_RDWR) F[fd].shut |= 2;
    return 0;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
    if (m->msg_iovlen != 1) BROKEN(sendmsg_vector);
    return sendto(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, m->msg_name, m->msg_namelen);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags) {
    if (m->msg_iovlen != 1) BROKEN(recvmsg_vector);
    return recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, m->msg_name, &m->msg_namelen);
}

static struct hostent env_he;
static char env_addr[4];
static char *env_addrs[2];
struct hostent *gethostbyname(const char *s) {
    int v = 0, k = 0, i = 0, digits = 0;
    if (m_streq(s, "localhost")) s = "127.0.0.1";
    if (m_streq(s, "udphost")) s = "10.1.1.1";
    while (1) {
        if (s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); digits++; }
        else if (s[i] == '.' || s[i] == 0) {
            if (!digits || k > 3) return NULL;
            env_addr[k++] = v;
            v = 0; digits = 0;
            if (s[i] == 0) break;
        } else return NULL;
        i++;
    }
    if (k != 4) return NULL;
    env_addrs[0] = env_addr;
    env_addrs[1] = NULL;
    env_he.h_addrtype = AF_INET;
    env_he.h_length = 4;
    env_he.h_addr_list = env_addrs;
    return &env_he;
}
char *inet_ntoa(struct in_addr a) { (void)a; return "0.0.0.0"; }
uint16_t htons(uint16_t x) { return (uint16_t)((x << 8) | (x >> 8)); }
uint16_t ntohs(uint16_t x) { return (uint16_t)((x << 8) | (x >> 8)); }
uint32_t htonl(uint32_t x) { return (x << 24) | ((x << 8) & 0xff0000) | ((x >> 8) & 0xff00) | (x >> 24); }
uint32_t ntohl(uint32_t x) { return htonl(x); }

/* ---------------------------------------------------------------- pipes, timers, signals */
int pipe(int fds[2]) {
    int r = env_new_fd(K_PIPE_R), w;
    w = env_new_fd(K_PIPE_W);
    F[r].idx = npipes;
    F[w].idx = npipes;
    PIPES[npipes].len = 0;
    PIPES[npipes].rfd = r;
    PIPES[npipes].wfd = w;
    npipes++;
    fds[0] = r;
    fds[1] = w;
    return 0;
}
int pipe2(int fds[2], int fl) { (void)fl; return pipe(fds); }
int timerfd_create(int clk, int fl) { (void)clk; (void)fl; int fd = env_new_fd(K_TIMER); F[fd].nonblock = (fl & TFD_NONBLOCK) ? 1 : 0; return fd; }
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) {
    (void)fl; (void)o;
    if (!VALID_FD(fd) || F[fd].kind != K_TIMER) { env_errno = EBADF; return -1; }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 || n->it_value.tv_sec < 0) { env_errno = EINVAL; return -1; }
    long d = n->it_value.tv_sec * 1000000 + n->it_value.tv_nsec / 1000;
    F[fd].armed = (n->it_value.tv_sec != 0 || n->it_value.tv_nsec != 0);
    F[fd].deadline_us = now_us + d;
    F[fd].interval_us = n->it_interval.tv_sec * 1000000 + n->it_interval.tv_nsec / 1000;
    F[fd].ticks = 0;
    return 0;
}
int timerfd_gettime(int fd, struct itimerspec *o) {
    if (!VALID_FD(fd) || F[fd].kind != K_TIMER) { env_errno = EBADF; return -1; }
    long left = 0;
    if (F[fd].armed && F[fd].deadline_us > now_us) left = F[fd].deadline_us - now_us;
    memset(o, 0, sizeof(*o));
    o->it_value.tv_sec = left / 1000000;
    o->it_value.tv_nsec = left % 1000000 * 1000;
    return 0;
}
static void timer_update(int fd) {
    if (F[fd].armed && now_us >= F[fd].deadline_us) {
        F[fd].ticks = 1;
        if (F[fd].interval_us > 0) F[fd].deadline_us = now_us + F[fd].interval_us;
        else F[fd].armed = 0;
    }
}
int signalfd(int fd, const sigset_t *m, int fl) {
    (void)fl;
    if (fd == -1) fd = env_new_fd(K_SIG);
    F[fd].sig_term = (m->__val[0] >> (SIGTERM - 1)) & 1;
    F[fd].sig_usr1 = (m->__val[0] >> (SIGUSR1 - 1)) & 1;
    return fd;
}

/* ---------------------------------------------------------------- files */
char env_open_path[128];
int open(const char *path, int flags, ...) {
    int fd = env_new_fd(K_FILE);
    int k = 0;
    while (path[k] && k < 127) { env_open_path[k] = path[k]; k++; }
    env_open_path[k] = 0;
    file_fd = fd;
    file_pos = 0;
    file_size = 0;
    file_odirect = (flags & O_DIRECT) ? 1 : 0;
    file_trunc = (flags & O_TRUNC) ? 1 : 0;
    file_creat = (flags & O_CREAT) ? 1 : 0;
    return fd;
}
int env_blksize = 16;
int fallocate(int fd, int mode, off_t off, off_t len) { (void)mode; if (!VALID_FD(fd)) return -1; file_size = off + len; return 0; }
int fstat(int fd, struct stat *s) { if (!VALID_FD(fd)) return -1; memset(s, 0, sizeof(*s)); s->st_blksize = env_blksize; s->st_size = file_size; return 0; }
off_t lseek(int fd, off_t off, int wh) {
    if (!VALID_FD(fd) || F[fd].kind != K_FILE) { env_errno = ESPIPE; return -1; }
    long p = wh == SEEK_SET ? off : wh == SEEK_CUR ? file_pos + off : file_size + off;
    if (p < 0) { env_errno = EINVAL; return -1; }
    file_pos = p;
    return p;
}
/* A storage thread that is never scheduled again (or a crash, for what it makes
 * durable): from then on nothing it does has any effect.                     */
int env_storage_frozen;
int env_storage_quota = -1;  /* completions left before the storage thread is descheduled for a while */
static int storage_thread(void);
int env_is_storage(void) { return cur_thread >= 0 && cur_thread == storage_thread(); }
#define FROZEN (env_storage_frozen && env_is_storage())
int fsync(int fd) {
    if (!VALID_FD(fd) || F[fd].kind != K_FILE) { env_errno = EINVAL; return -1; }
    if (FROZEN) return 0;
    file_unsynced = 0;
    env_on_fsync();
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
void sync(void) { if (FROZEN) return; file_unsynced = 0; env_on_fsync(); }

static unsigned char file_sink[8192];
static ssize_t file_write(const void *buf, size_t len) {
    size_t n = len;
    if (n == 0 || FROZEN) return n;
    if (file_short && n > 1 && CHOOSE(2)) n = n / 2;
    /* the whole range handed over must be readable */
    if (len > sizeof(file_sink)) BROKEN(file_write_size);
    memcpy(file_sink, buf, len);
    env_on_file_write(file_pos, n);
    file_pos += n;
    if (file_pos > file_size) file_size = file_pos;
    file_unsynced = 1;
    return n;
}
static ssize_t file_read(void *buf, size_t len) {
    long n = len;
    if (FROZEN) return n;
    if (n > file_size - file_pos) n = file_size - file_pos;
    if (n <= 0) return 0;
    if (file_short && n > 1 && CHOOSE(2)) n = n / 2;
    memset(buf, 0x5a, n);
    env_on_file_read(file_pos, n);
    file_pos += n;
    return n;
}
ssize_t write(int fd, const void *buf, size_t len) {
    if (fd == 1 && env_text) { env_out(buf, len); return len; }
    if (fd == 1 || fd == 2) return len;
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    int k = F[fd].kind;
    if (k == K_FILE) return file_write(buf, len);
    if (k == K_CONN || k == K_DGRAM) return sendto(fd, buf, len, MSG_NOSIGNAL, NULL, 0);
    if (k == K_PIPE_W) {
        struct mpipe *p = &PIPES[F[fd].idx];
        if (FROZEN) return len;
        if (env_storage_quota > 0 && env_is_storage()) env_storage_quota--;
        if (p->len + (int)len > PIPECAP) BROKEN(pipe_log_full);
        memcpy(p->buf + p->len, buf, len);
        env_on_pipe_write(F[fd].idx, p->buf + p->len, len);
        p->len += len;
        return len;
    }
    env_errno = EINVAL;
    return -1;
}
ssize_t pwrite(int fd, const void *buf, size_t len, off_t off) {
    if (!VALID_FD(fd) || F[fd].kind != K_FILE) { env_errno = EBADF; return -1; }
    long save = file_pos;
    file_pos = off;
    ssize_t r = file_write(buf, len);
    file_pos = save;
    return r;
}
ssize_t pread(int fd, void *buf, size_t len, off_t off) {
    if (!VALID_FD(fd) || F[fd].kind != K_FILE) { env_errno = EBADF; return -1; }
    long save = file_pos;
    file_pos = off;
    ssize_t r = file_read(buf, len);
    file_pos = save;
    return r;
}
ssize_t read(int fd, void *buf, size_t len) {
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    int k = F[fd].kind;
    if (k == K_FILE) return file_read(buf, len);
    if (k == K_CONN || k == K_DGRAM) return recvfrom(fd, buf, len, 0, NULL, NULL);
    if (k == K_PIPE_R) {
        struct mpipe *p = &PIPES[F[fd].idx];
        if (p->len == 0) OBL(no_blocking_pipe_read, 0);
        int n = len;
        if (n > p->len) n = p->len;
        memcpy(buf, p->buf, n);
        memmove(p->buf, p->buf + n, p->len - n);
        p->len -= n;
        return n;
    }
    if (k == K_TIMER) {
        timer_update(fd);
        if (F[fd].ticks == 0) {
            if (!F[fd].nonblock) OBL(no_blocking_timer_read, 0);
            env_errno = EAGAIN;
            return -1;
        }
        *(uint64_t *)buf = F[fd].ticks;
        F[fd].ticks = 0;
        return 8;
    }
    if (k == K_SIG) {
        if (!(F[fd].sig_usr1 ? usr1_pending : term_pending || (stor_term && env_is_storage()))) {
            if (!F[fd].nonblock) OBL(no_blocking_signal_read, 0);
            env_errno = EAGAIN;
            return -1;
        }
        memset(buf, 0, len);
        if (F[fd].sig_usr1) usr1_pending = 0;
        else {
            /* whoever reads it takes it away from the others */
            for (int i = 0; i < nthr; i++)
                if (i != cur_thread && watches_term[i] && THR[i].state != 3) OBL(termination_reaches_every_thread, 0);
            term_taken = 1 + cur_thread + 1;
        }
        return len;
    }
    env_errno = EINVAL;
    return -1;
}

/* ---------------------------------------------------------------- epoll */
int epoll_create1(int fl) { (void)fl; int fd = env_new_fd(K_EPOLL); F[fd].idx = nep++; return fd; }
int epoll_create(int n) { (void)n; return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (!VALID_FD(ep) || F[ep].kind != K_EPOLL) { env_errno = EBADF; return -1; }
    if (!VALID_FD(fd)) { env_errno = EBADF; return -1; }
    struct mreg *r = &REG[F[ep].idx][fd];
    if (op == EPOLL_CTL_ADD) {
        if (r->on) { env_errno = EEXIST; return -1; }
    } else if (!r->on) { env_errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) { r->on = 0; return 0; }
    r->on = 1;
    r->ev = ev->events;
    r->data = ev->data.u64;
    r->disabled = 0;
    if (F[fd].kind == K_SIG && F[fd].sig_term && cur_thread >= 0) watches_term[cur_thread] = 1;
    if (op == EPOLL_CTL_ADD) env_on_watch(ep, fd);
    return 0;
}
int registered(int fd, unsigned int ev) {
    for (int e = 0; e < NEP; e++)
        if (REG[e][fd].on && !REG[e][fd].disabled && (REG[e][fd].ev & ev) == ev) return 1;
    return 0;
}
int reg_count(int fd) {
    int n = 0;
    for (int e = 0; e < NEP; e++) if (REG[e][fd].on) n++;
    return n;
}
static unsigned int readiness(int fd) {
    struct mfd *f = &F[fd];
    unsigned int r = 0;
    switch (f->kind) {
    case K_LISTEN: if (f->acc_pending > 0) r |= EPOLLIN; break;
    case K_CONN:
        if (f->conn_state == 1) break;
        if (f->conn_state == 3) { r |= EPOLLERR | EPOLLHUP | EPOLLOUT | EPOLLIN; break; }
        if (f->rx_pos < f->rx_avail || f->eof) r |= EPOLLIN;
        if (f->tx_win > 0) r |= EPOLLOUT;
        if (f->rst) r |= EPOLLERR | EPOLLHUP | EPOLLIN;
        if (f->shut == 3) r |= EPOLLHUP | EPOLLIN;
        break;
    case K_DGRAM: if (f->dg_cur < f->dg_n) r |= EPOLLIN; r |= EPOLLOUT; break;
    case K_PIPE_R: if (PIPES[f->idx].len > 0) r |= EPOLLIN; break;
    case K_TIMER: timer_update(fd); if (f->ticks > 0) r |= EPOLLIN; break;
    case K_SIG:
        if (f->sig_term && (term_pending || (stor_term && cur_thread >= 0 && cur_thread == storage_thread()))) r |= EPOLLIN;
        if (f->sig_usr1 && usr1_pending) r |= EPOLLIN;
        break;
    default: break;
    }
    return r;
}
static int collect1(int e, int fd, struct epoll_event *ev) {
    if (!REG[e][fd].on || REG[e][fd].disabled || F[fd].kind == K_FREE) return 0;
    unsigned int r = readiness(fd) & (REG[e][fd].ev | EPOLLERR | EPOLLHUP);
    if (!r) return 0;
    ev->events = r;
    ev->data.u64 = REG[e][fd].data;
    if (REG[e][fd].ev & EPOLLONESHOT) REG[e][fd].disabled = 1;
    return 1;
}
static int collect(int e, struct epoll_event *evs, int max) {
    int n = 0;
    if (env_evmode == 0 || env_evmode == 3) max = 1;
    if (env_evmode < 2) {
        for (int fd = 3; fd < NFD && n < max; fd++) n += collect1(e, fd, &evs[n]);
    } else {
        for (int fd = NFD - 1; fd >= 3 && n < max; fd--) n += collect1(e, fd, &evs[n]);
    }
    return n;
}
/* With storage enabled the node creates exactly one thread whose start routine
 * differs from all others (the connection workers share theirs).            */
int env_has_storage;
int env_storage_hold;
static int storage_thread(void) {
    if (!env_has_storage) return -1;
    for (int i = 0; i < nthr; i++) {
        int same = 0;
        for (int j = 0; j < nthr; j++) if (j != i && THR[j].fn == THR[i].fn) same = 1;
        if (!same) return i;
    }
    return -1;
}
static int pipe_bytes(void) {
    int n = 0;
    for (int i = 0; i < npipes; i++) n += PIPES[i].len;
    return n;
}
/* One activation of the storage thread: from its start routine until it has
 * nothing left to do.  A later activation starts over, which is the behaviour of
 * a thread that was idle in between; descriptors it made for itself go away.  */
static int storage_run(void) {
    int t = storage_thread();
    if (t < 0 || THR[t].state == 1 || env_storage_frozen) return 0;
    int before = pipe_bytes(), save_nep = nep;
    stor_term = 0;
    env_run_thread(t);
    stor_term = 0;
    THR[t].state = 2;
    for (int fd = 3; fd < NFD; fd++)
        if (F[fd].owner == t && (F[fd].kind == K_EPOLL || F[fd].kind == K_TIMER)) F[fd].kind = K_FREE;
    for (int e = save_nep; e < nep; e++)
        for (int fd = 3; fd < NFD; fd++) REG[e][fd].on = 0;
    nep = save_nep;
    return pipe_bytes() != before || env_storage_frozen;
}
extern int env_storage_idle(void);
int env_interruptions, env_interrupted;
int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
    (void)timeout;
    if (!VALID_FD(ep) || F[ep].kind != K_EPOLL || max <= 0) { env_errno = EBADF; return -1; }
    int e = F[ep].idx;
    env_events++;
    OBL(no_livelock, env_events < env_max_events);
    if (env_interruptions > 0 && CHOOSE(2)) { env_interruptions--; env_interrupted++; env_errno = EINTR; return -1; }
    int n = !stor_term && (FROZEN || (env_storage_quota == 0 && env_is_storage())) ? 0 : collect(e, evs, max);
    EPW[e] = cur_thread;
    while (n == 0) {
        if (cur_thread >= 0 && cur_thread == storage_thread()) {
            if (env_storage_frozen || env_storage_quota == 0 || !env_storage_idle()) {
                OBL(storage_thread_obeys_termination, !stor_term);
                if (term_taken && term_taken != cur_thread + 2) OBL(termination_reaches_every_thread, 0);
                stor_term = 1;
            }
        } else if (!env_storage_hold && env_storage_quota != 0 && pipe_bytes() > 0 && storage_run()) {
        } else if (!env_idle()) {
            OBL(worker_obeys_termination, !term_pending);
            if (term_taken && term_taken != cur_thread + 2) OBL(termination_reaches_every_thread, 0);
            term_pending = 1;
        }
        n = collect(e, evs, max);
    }
    return n;
}
