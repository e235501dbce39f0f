/* A small program with threads, on which the rules of engine/threads.py must be quiet, and one that breaks each rule */
#include <pthread.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct { atomic_int busy; int owner; int val; int sock; } slot_t;
slot_t slots[8];
typedef struct { int id; int sum; int fd; } info_t;
info_t infos[4];
typedef struct { int kind;
#ifdef POINTER_SENT
    int *where;
#endif
} msg_t;
pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
int total;
atomic_int events;

static int slot_alloc() {
    for (int i = 0; i < 8; i++) {
#ifdef PLAIN_CLAIM
        if (slots[i].busy == 0) {
            slots[i].busy = 1;
            return i;
        }
#else
        if (atomic_exchange(&slots[i].busy, 1) == 0)
            return i;
#endif
    }
    return -1;
}

static void slot_free(int i) {
    slots[i].val = 0;
    slots[i].sock = -1;
    atomic_store(&slots[i].busy, 0);
#ifdef USE_AFTER_RELEASE
    slots[i].val = 1;
#endif
}

static void *worker(void *arg) {
    info_t *me = arg;
    int s = slot_alloc();
    if (s == -1)
        return NULL;
    slots[s].val = me->id;
    slots[s].sock = me->fd;
    me->sum += slots[s].val;
    slot_free(s);
    pthread_mutex_lock(&mtx);
    total += me->sum;
#ifdef LOCK_NOT_RELEASED
    if (total > 5)
        return NULL;
#endif
    pthread_mutex_unlock(&mtx);
#ifdef UNSYNCHRONISED
    total++;
#endif
#ifdef LOST_UPDATE
    events = events + 1;
#else
    atomic_fetch_add(&events, 1);
#endif
#ifdef UNSAFE_CALL
    me->sum = (int)lrand48();
#endif
    msg_t m;
    memset(&m, 0, sizeof m);
    m.kind = 1;
    if (write(me->fd, &m, sizeof m) < 0)
        return NULL;
    return NULL;
}

/* one thread asks, the one that created it gets the answers */
long *asked[4];
static void *asker(void *arg) {
    info_t *me = arg;
    for (int i = 0; i < 3; i++) {
        char c = i;
#ifndef TOUCHED_AFTER_SEND
        asked[me->id][i] = i;
#endif
        if (write(me->fd, &c, 1) < 0)
            break;
#ifdef TOUCHED_AFTER_SEND
        asked[me->id][i] = i;
#endif
    }
    return NULL;
}
static void *listener(void *arg) {
    info_t *me = arg;
    pthread_t t;
    for (int i = 0; i < 9; i++) {
        char c = 0;
        if (i % 3 == 0)
            pthread_create(&t, NULL, asker, me);
        if (read(me->fd, &c, 1) == 1)
            asked[me->id][c & 3] *= 2;
        if (i % 3 == 2)
            pthread_join(t, NULL);
    }
    return NULL;
}

int main() {
    pthread_t t[4], l[4];
#ifdef REUSED_ARGUMENT
    info_t one;
#endif
    for (int i = 0; i < 4; i++)
        asked[i] = calloc(4, sizeof(long));
    for (int i = 0; i < 4; i++) {
        infos[i].id = i;
#ifdef REUSED_ARGUMENT
        one.id = i;
        pthread_create(&t[i], NULL, worker, &one);
#else
        pthread_create(&t[i], NULL, worker, &infos[i]);
        pthread_create(&l[i], NULL, listener, &infos[i]);
#endif
    }
    for (int i = 0; i < 4; i++)
        pthread_join(t[i], NULL), pthread_join(l[i], NULL);
    return total;
}
