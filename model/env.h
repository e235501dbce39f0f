/* Environment model shared by all scenarios.
 *
 * The abstract interpreter analyses the programs of /repo from main(); every
 * library and system call they make is answered by this model.  The model keeps
 * its own (ghost) picture of the kernel -- descriptors, sockets, epoll sets,
 * pipes, timers, signals, the storage file, threads -- and evaluates obligations
 * (OBL) whenever the program does something observable.                      */
#ifndef DWM_ENV_H
#define DWM_ENV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <math.h>
#include <signal.h>
#include <sched.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <argp.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>

/*@ assigns \nothing; ensures \false; */
extern void env_halt(void);

/*@ requires lo <= hi; assigns \result \from lo, hi; ensures lo <= \result <= hi; */
extern int Frama_C_interval(int lo, int hi);
extern int Frama_C_interval_split(int lo, int hi);
/*@ assigns \result \from lo, hi; ensures lo <= \result <= hi; */
extern long Frama_C_long_interval(long lo, long hi);
/*@ assigns \result \from \nothing; ensures \is_finite(\result) && 0.0 <= \result <= 0x1.fffffffffffffp-1; */
extern double env_unit(void);

/* an unknown value in [lo,hi], kept as one abstract value */
#define ANY(lo, hi) Frama_C_interval((lo), (hi))
/* an unknown value in [0,n-1], analysed case by case */
#define CHOOSE(n) Frama_C_interval_split(0, (n) - 1)

/* obligation: shown once per abstract state; anything but {1} is a violation */
#define OBL(name, cond) do { int __c = (cond) ? 1 : 0; Frama_C_show_each_OBL_##name(__c); if (!__c) env_halt(); } while (0)
/* obligation with two witness values */
#define OBLV(name, cond, a, b) do { int __c = (cond) ? 1 : 0; Frama_C_show_each_OBL_##name(__c, a, b); if (!__c) env_halt(); } while (0)
/* coverage marker: the scenario must reach it */
#define MARK(name) Frama_C_show_each_MARK_##name(1)
/* the harness no longer fits the program: analysis broken */
#define BROKEN(name) do { Frama_C_show_each_BROKEN_##name(1); env_halt(); } while (0)

#define NFD 40
#define NEP 6
#ifndef RXCAP
#define RXCAP 2048
#endif
#define TXCAP 2048
#define PIPECAP 512

enum { K_FREE, K_RAW, K_LISTEN, K_CONN, K_DGRAM, K_PIPE_R, K_PIPE_W, K_EPOLL, K_TIMER, K_SIG, K_FILE };

struct mfd {
    int kind;
    int stream;              /* SOCK_STREAM vs SOCK_DGRAM */
    int nonblock;
    int idx;                 /* pipe index / epoll index */
    /* naming */
    int bound; uint32_t baddr; uint16_t bport;
    uint32_t paddr; uint16_t pport;
    int reuseaddr, reuseport, nodelay, backlog;
    /* connect */
    int conn_state;          /* 0 none, 1 in progress, 2 established, 3 refused */
    /* accept queue (listening) */
    int acc_pending;
    /* receive side */
    unsigned char rx[RXCAP]; int rx_pos, rx_avail, rx_len; int eof, rst, shut;
    int dg_len[8]; uint32_t dg_addr[8]; uint16_t dg_port[8]; int dg_n, dg_cur;
    /* transmit side */
    unsigned char tx[TXCAP]; int tx_len; int tx_win; int tx_calls;
    uint32_t tx_addr; uint16_t tx_port;
    /* timer */
    int armed; long deadline_us; long interval_us; int ticks;
    /* signal */
    int sig_term, sig_usr1;
    int eof_reads;
    int owner;               /* thread that made it */
    int closed;
    int tag;                 /* scenario's name for this socket */
};
extern struct mfd F[NFD];

struct mreg { int on; unsigned int ev; uint64_t data; int disabled; };
extern struct mreg REG[NEP][NFD];

struct mpipe { unsigned char buf[PIPECAP]; int len; int rfd, wfd; };
extern struct mpipe PIPES[8];
extern int npipes;

struct mthread { void *(*fn)(void *); void *arg; int state; pthread_t id; int detached; };
extern struct mthread THR[8];
extern int nthr;
extern int cur_thread;        /* index in THR, or -1 for main */

extern long now_us;           /* monotonic clock */
extern long cpu_us;           /* CPU clock of the running thread */
extern long cpu_total_us;     /* CPU time of all threads */
extern long env_sleep_late;   /* how late a sleeping thread wakes up */
extern long clock_tick_us;    /* how far a clock read moves time */
extern int term_pending, usr1_pending;
extern int env_evmode;        /* 0 one event, lowest fd first; 1 all ascending; 2 all descending; 3 one, highest first */
extern int env_events, env_max_events;
extern int env_ncpu;
extern int env_accepts, env_accept_errno, env_accept_failures;
extern int env_in_scenario;

/* storage file */
extern int file_fd;           /* -1 if never opened */
extern long file_pos, file_size;
extern int file_unsynced;     /* bytes written since the last fsync */
extern int file_short;        /* short reads and writes are possible */
extern int file_odirect, file_trunc, file_creat;

extern const char *env_file_lines[40];  /* contents of any file read */
extern int env_file_n;
extern int env_assert_exits;  /* a failed assertion counts as an exit with an error */
extern char env_open_path[128];

/* how many times a wait for events may be interrupted by a signal; how many times it was */
extern int env_interruptions, env_interrupted;


/* per thread: main, then in order of creation */
struct env_sched { int calls; uint32_t policy; int32_t nice; uint32_t prio; uint64_t runtime, deadline, period; };
extern struct env_sched env_thr_sched[9];
extern unsigned long env_thr_pin[9];

/* options given to the program */
struct env_opt { const char *name; char *arg; };
extern struct env_opt env_opts[16];
extern int env_nopts;
void env_option(const char *name, const char *arg);

/* helpers for scenarios */
int env_new_fd(int kind);
int fd_of_tag(int tag);
int new_conn_on(int lfd, int tag);               /* queue a connection on a listening socket */
int find_listener(int nth);
void put_bytes(int fd, const void *p, int n);
int registered(int fd, unsigned int ev);
int reg_count(int fd);

/* provided by each scenario */
void scenario_setup(void);
void env_on_watch(int ep, int fd); /* fd has just been added to epoll instance ep */
int env_idle(void);            /* inject the next external event; 0 when the scenario is over */
void env_on_accept(int fd);
void env_on_send(int fd, const unsigned char *p, int n);
int env_connect(int fd, uint32_t addr, uint16_t port);  /* 0 ok, 1 in progress, 2 refused now */
void env_on_file_write(long off, int n);
void env_on_file_read(long off, int n);
void env_on_fsync(void);
void env_on_close(int fd);
void env_on_exit(int code);
void env_on_thread(int i);
int env_storage_idle(void);
extern int env_has_storage, env_storage_hold, env_storage_frozen, env_storage_quota;
int env_is_storage(void);
extern int EPW[NEP];        /* thread that waits on each epoll instance */
void env_run_thread(int i);
extern int env_recv_spin;       /* non-blocking receives do get there */
void env_on_poll(int fd, int events);
void env_on_recv_buf(int fd, void *buf);
extern int env_dgram_taken;
extern int env_spurious;        /* receives that find nothing although data was announced */
void env_on_recv_block(int fd); /* blocking receive with nothing to read */
void env_on_pipe_write(int pipe, const unsigned char *p, int n);
void env_on_print(int err, const char *fmt);
extern int env_text;          /* standard output goes to env_on_line() */
void env_on_line(const char *line);
void env_out(const char *t, long n);
extern long PA[12];
extern const char *PS[12];
extern int PN;
extern int pgm_main(int argc, char **argv);
#endif
