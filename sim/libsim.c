// libsim: the simulator's kernel. Loaded RTLD_GLOBAL into the Python process that hosts the
// real rumpy extension; sim_patch() redirects rumpy's own dynamic imports (never the
// interpreter's or numpy's) to the seams below. All decisions come from tables the case supplies:
// this file contains no source of randomness and reads no real clock.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <linux/stat.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXIT_DEADLOCK 77
#define EXIT_CRASHPOINT 78
#define EXIT_HARNESS 79

// ------------------------------------------------------------------ shared area (survives the child)
#define LOGCAP (1 << 20)
#define NSTAT 64
struct shared {
    uint64_t loglen;
    uint64_t stat[NSTAT];
    char note[512];      // what was going on when the process died
    char heap_error[512];
    char log[LOGCAP];
};
static struct shared *S;
enum { ST_SWITCH, ST_YIELD, ST_READ, ST_WRITE, ST_OPEN, ST_SHORT, ST_EINTR, ST_IOERR, ST_CRASH,
       ST_ALLOC, ST_ALLOCFAIL, ST_CLOCK, ST_GETRANDOM, ST_FUTEXWAIT, ST_POOLCHOICE, ST_POOLSTEAL,
       ST_GILREL, ST_EOF, ST_FREE, ST_OPENERR, ST_SEEKERR, ST_STATERR, ST_CLOSE, ST_PTHREAD,
       ST_FENCE, ST_FUTEXBLOCK, ST_POOLREORDER, ST_MISC, ST_SYNC, ST_RENAME };

struct shared *sim_shared(void) {
    if (!S) {
        S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) { S = 0; return 0; }
    }
    return S;
}
void sim_shared_reset(void) {
    S->loglen = 0; memset(S->stat, 0, sizeof S->stat); S->note[0] = 0; S->heap_error[0] = 0;
}
uint64_t sim_stat(int i) { return S->stat[i]; }
uint64_t sim_loglen(void) { return S->loglen; }
const char *sim_logbuf(void) { return S->log; }
const char *sim_note(void) { return S->note; }
const char *sim_heap_error(void) { return S->heap_error; }
void sim_set_note(const char *s) { snprintf(S->note, sizeof S->note, "%s", s); }
static void bump(int i) { if (S) S->stat[i]++; }

void sim_log(const char *s) {
    if (!S) return;
    size_t n = strlen(s);
    if (S->loglen + n + 1 >= LOGCAP) return;
    memcpy(S->log + S->loglen, s, n);
    S->log[S->loglen + n] = '\n';
    S->loglen += n + 1;
}
static void logf_(const char *fmt, ...) {
    char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim_log(b);
}

// ------------------------------------------------------------------ scheduler
#define MAXT 16
enum { T_NONE, T_RUN, T_FUTEX, T_GIL, T_DONE };
static struct { int state; uint32_t *faddr; int native; int timed; } T[MAXT];
static int nthreads, entered, cur = -1, started;
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t C[MAXT], CMAIN = PTHREAD_COND_INITIALIZER;
static __thread int my = -1;
static __thread int my_native = 0;   // inside rumpy with the GIL released
static unsigned char *sched; static int nsched, isched;
static int real_threads;             // threads rumpy itself created (none today)

static void die(int code, const char *why) {
    if (S) { snprintf(S->note, sizeof S->note, "%s", why); logf_("DIE %s", why); }
    _exit(code);
}
static int gil_blocked(void) { // a thread is asleep in rumpy while it holds the GIL
    for (int i = 0; i < nthreads; i++) if (T[i].state == T_FUTEX && !T[i].native) return 1;
    return 0;
}
static int runnable(int i) {
    if (T[i].state != T_RUN) return 0;
    return gil_blocked() ? T[i].native : 1;
}
static int pick(int me) {
    int r[MAXT], n = 0;
    if (me >= 0 && runnable(me)) r[n++] = me;
    for (int i = 0; i < nthreads; i++) if (i != me && runnable(i)) r[n++] = i;
    if (!n) return -1;
    int c = 0;
    if (n > 1) { c = isched < nsched ? sched[isched] : 0; isched++; }
    return r[c % n];
}
static void handoff(int me, int next, const char *tag) { // M held
    if (next == me) return;
    bump(ST_SWITCH);
    logf_("S %d>%d %s", me, next, tag);
    cur = next;
    pthread_cond_signal(&C[next]);
    while (cur != me) pthread_cond_wait(&C[me], &M);
}
void sim_sched_set(const unsigned char *s, int n) {
    free(sched); sched = malloc(n + 1); memcpy(sched, s, n); nsched = n; isched = 0;
}
int sim_sched_used(void) { return isched; }
void sim_threads_init(int n) {
    nthreads = n; entered = 0; cur = -1; started = 0;
    for (int i = 0; i < n; i++) { T[i].state = T_NONE; T[i].native = 0; pthread_cond_init(&C[i], 0); }
}
void sim_thread_enter(int tid) {
    pthread_mutex_lock(&M);
    my = tid; my_native = 0;
    T[tid].state = T_RUN; entered++;
    pthread_cond_signal(&CMAIN);
    while (cur != tid) pthread_cond_wait(&C[tid], &M);
    pthread_mutex_unlock(&M);
}
void sim_thread_exit(void) {
    pthread_mutex_lock(&M);
    T[my].state = T_DONE;
    int next = pick(-1);
    if (next < 0) {
        int left = 0;
        for (int i = 0; i < nthreads; i++) left += T[i].state != T_DONE;
        if (left) die(EXIT_DEADLOCK, "deadlock: every remaining thread is blocked");
        cur = -2; pthread_cond_signal(&CMAIN);
    } else { logf_("S %d>%d exit", my, next); cur = next; pthread_cond_signal(&C[next]); }
    my = -1;
    pthread_mutex_unlock(&M);
}
void sim_run(void) { // main: release the first thread, wait for all
    pthread_mutex_lock(&M);
    while (entered < nthreads) pthread_cond_wait(&CMAIN, &M);
    int f = pick(-1);
    if (f >= 0) {
        logf_("S start %d", f);
        cur = f; pthread_cond_signal(&C[f]);
        while (cur != -2) pthread_cond_wait(&CMAIN, &M);
    }
    pthread_mutex_unlock(&M);
}
static void yield_tag(const char *tag) {
    if (my < 0) return;
    pthread_mutex_lock(&M);
    bump(ST_YIELD);
    int n = pick(my);
    handoff(my, n, tag);
    pthread_mutex_unlock(&M);
}
void sim_yield(const char *tag) { yield_tag(tag); }
int sim_tid(void) { return my; }

// ------------------------------------------------------------------ GIL seam
static void *(*r_SaveThread)(void);
static void (*r_RestoreThread)(void *);
static int (*r_Ensure)(void);
static void (*r_Release)(int);
static __thread int ens_depth, ens_was_native[64];

static void *h_SaveThread(void) {
    void *t = r_SaveThread();
    if (my >= 0) {
        bump(ST_GILREL);
        pthread_mutex_lock(&M); T[my].native = 1; pthread_mutex_unlock(&M);
        my_native = 1;
        yield_tag("gil-release");
    }
    return t;
}
static void regain(const char *tag) {
    if (my < 0) return;
    pthread_mutex_lock(&M);
    if (gil_blocked()) { // the holder sleeps: we cannot proceed until it wakes
        T[my].state = T_GIL;
        int n = pick(-1);
        if (n < 0) die(EXIT_DEADLOCK, "deadlock: interpreter lock held by a sleeping thread");
        cur = n; pthread_cond_signal(&C[n]);
        while (cur != my) pthread_cond_wait(&C[my], &M);
    }
    T[my].native = 0;
    pthread_mutex_unlock(&M);
    my_native = 0;
}
static void h_RestoreThread(void *t) {
    if (my >= 0) { yield_tag("gil-acquire"); regain("gil-acquire"); }
    r_RestoreThread(t);
}
static int h_Ensure(void) {
    int wn = my_native;
    if (my >= 0 && wn) { yield_tag("gil-ensure"); regain("gil-ensure"); }
    int r = r_Ensure();
    if (ens_depth < 64) ens_was_native[ens_depth] = wn;
    ens_depth++;
    return r;
}
static void h_Release(int s) {
    r_Release(s);
    ens_depth--;
    if (my >= 0 && ens_depth < 64 && ens_was_native[ens_depth]) {
        pthread_mutex_lock(&M); T[my].native = 1; pthread_mutex_unlock(&M);
        my_native = 1;
        yield_tag("gil-unensure");
    }
}

// ------------------------------------------------------------------ futex seam
static long (*r_syscall)(long, ...);
static int r_getrandom_sim(void *b, size_t n);
static long h_syscall(long nr, long a, long b, long c, long d, long e, long f) {
    if (nr == SYS_getrandom) return r_getrandom_sim((void *)a, (size_t)b);
    if (nr != SYS_futex || real_threads) return r_syscall(nr, a, b, c, d, e, f);
    uint32_t *addr = (uint32_t *)a;
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        bump(ST_FUTEXWAIT);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
        if (my < 0) {
            if (d) { errno = ETIMEDOUT; return -1; }
            die(EXIT_DEADLOCK, "deadlock: the only thread waits for a lock it already holds");
        }
        bump(ST_FUTEXBLOCK);
        pthread_mutex_lock(&M);
        T[my].state = T_FUTEX; T[my].faddr = addr; T[my].timed = d != 0;
        int n = pick(-1);
        if (n < 0) {
            if (d) { T[my].state = T_RUN; pthread_mutex_unlock(&M); errno = ETIMEDOUT; return -1; }
            die(EXIT_DEADLOCK, "deadlock: a thread waits for a lock while holding the interpreter lock");
        }
        logf_("S %d>%d futex", my, n);
        cur = n; pthread_cond_signal(&C[n]);
        while (cur != my) pthread_cond_wait(&C[my], &M);
        pthread_mutex_unlock(&M);
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        int k = 0;
        pthread_mutex_lock(&M);
        for (int i = 0; i < nthreads && k < c; i++)
            if (T[i].state == T_FUTEX && T[i].faddr == addr) { T[i].state = T_RUN; k++; }
        if (!gil_blocked()) for (int i = 0; i < nthreads; i++) if (T[i].state == T_GIL) T[i].state = T_RUN;
        pthread_mutex_unlock(&M);
        return k;
    }
    return r_syscall(nr, a, b, c, d, e, f);
}
static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int h_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    bump(ST_PTHREAD); real_threads++;
    return r_pthread_create(t, a, f, x);
}

// ------------------------------------------------------------------ clock and entropy seams
static int64_t *clk; static int nclk, iclk; static int clk_on;
static int64_t clk_last;
static int64_t sim_elapsed;
void sim_clock_set(const int64_t *v, int n) { free(clk); clk = malloc((n + 1) * 8); memcpy(clk, v, n * 8); nclk = n; iclk = 0; clk_on = n > 0; }
int64_t sim_clock_elapsed(void) { return sim_elapsed; }
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static int h_clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clk_on) return r_clock_gettime(id, ts);
    bump(ST_CLOCK);
    int64_t v = iclk < nclk ? clk[iclk++] : clk[nclk - 1];
    int64_t d = v - clk_last; if (d > 0) sim_elapsed += d;
    clk_last = v;
    int64_t s = v / 1000000000, ns = v % 1000000000;
    if (ns < 0) { ns += 1000000000; s--; }
    ts->tv_sec = s; ts->tv_nsec = ns;
    return 0;
}
static uint64_t ent_state; static int ent_mode; // 0 off, 1 stream, 2 frozen (same bytes every time)
void sim_entropy_set(int mode, uint64_t seed) { ent_mode = mode; ent_state = seed; }
static int r_getrandom_sim(void *b, size_t n) {
    if (!ent_mode) return (int)r_syscall(SYS_getrandom, b, n, 0);
    bump(ST_GETRANDOM);
    uint64_t st = ent_state; unsigned char *p = b;
    for (size_t i = 0; i < n; i++) {
        st += 0x9E3779B97F4A7C15ull; uint64_t z = st;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        p[i] = (unsigned char)(z ^ (z >> 31));
    }
    if (ent_mode == 1) ent_state = st;
    return (int)n;
}
static ssize_t h_getrandom(void *b, size_t n, unsigned fl) { return r_getrandom_sim(b, n); }

// ------------------------------------------------------------------ thread-pool seam (simulated rayon-core)
static unsigned char *pool; static int npool, ipool; static int pool_threads = 1;
void sim_pool_set(int threads, const unsigned char *v, int n) {
    pool_threads = threads; free(pool); pool = malloc(n + 1); memcpy(pool, v, n); npool = n; ipool = 0;
}
uint32_t sim_pool_choice(uint32_t kind, uint32_t n) {
    if (kind == 0) return pool_threads;
    bump(ST_POOLCHOICE);
    uint32_t c = 0;
    if (npool && n) { c = pool[ipool % npool] % n; ipool++; }
    if (c && kind == 2) bump(ST_POOLSTEAL);
    if (c && kind == 1) bump(ST_POOLREORDER);
    return c;
}

// ------------------------------------------------------------------ disk seam
static char root[256]; static size_t rootlen;
static unsigned char simfd[4096];
enum { K_OPEN, K_READ, K_WRITE, K_SEEK, K_STAT, K_CLOSE, K_SYNC, K_RENAME, NKIND };
enum { A_ERR, A_SHORT, A_EINTR, A_CRASH, A_EOF, A_CLOSE_ERR };
struct fault { int kind, nth, action, arg, fired; };
static struct fault F[64]; static int nF;
static int cnt[NKIND];
static int32_t *chunks; static int nchunks, ichunk;
static int64_t disk_cap = -1, disk_used; // bytes the simulated device accepts before ENOSPC
void sim_disk_root(const char *p) { snprintf(root, sizeof root, "%s", p); rootlen = strlen(root); }
void sim_disk_reset(void) { nF = 0; memset(cnt, 0, sizeof cnt); nchunks = ichunk = 0; disk_cap = -1; disk_used = 0; }
void sim_fault_add(int kind, int nth, int action, int arg) { if (nF < 64) F[nF++] = (struct fault){kind, nth, action, arg, 0}; }
int sim_fault_fired(int i) { return F[i].fired; }
int sim_io_count(int kind) { return cnt[kind]; }
void sim_chunks_set(const int32_t *v, int n) { free(chunks); chunks = malloc((n + 1) * 4); memcpy(chunks, v, n * 4); nchunks = n; ichunk = 0; }
void sim_disk_cap(int64_t n) { disk_cap = n; disk_used = 0; }
static int issim(int fd) { return fd >= 0 && fd < 4096 && simfd[fd]; }
static struct fault *hit(int kind) {
    int n = cnt[kind]++;
    for (int i = 0; i < nF; i++) if (F[i].kind == kind && F[i].nth == n) { F[i].fired = 1; return &F[i]; }
    return 0;
}
static int next_chunk(void) { return ichunk < nchunks ? chunks[ichunk++] : 0; }

static int (*r_open64)(const char *, int, ...);
static int h_open64(const char *p, int fl, mode_t m) {
    if (!rootlen || strncmp(p, root, rootlen)) return r_open64(p, fl, m);
    if (my_native) yield_tag("open");
    bump(ST_OPEN);
    struct fault *f = hit(K_OPEN);
    if (f && f->action == A_EINTR) { bump(ST_EINTR); logf_("F open EINTR"); errno = EINTR; return -1; }
    if (f) { bump(ST_OPENERR); logf_("F open %d", f->arg); errno = f->arg; return -1; }
    int fd = r_open64(p, fl, m);
    if (fd >= 0 && fd < 4096) simfd[fd] = 1;
    logf_("D open %s %x", p + rootlen, fl);
    return fd;
}
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t sim_read(int fd, void *b, size_t n, int64_t off, int pos) {
    if (my_native) yield_tag("read");
    bump(ST_READ);
    struct fault *f = hit(K_READ);
    if (f) switch (f->action) {
        case A_ERR: bump(ST_IOERR); logf_("F read %d", f->arg); errno = f->arg; return -1;
        case A_EINTR: bump(ST_EINTR); logf_("F read EINTR"); errno = EINTR; return -1;
        case A_EOF: bump(ST_EOF); logf_("F read EOF"); return 0;
        case A_SHORT: if (n > (size_t)f->arg && f->arg > 0) { n = f->arg; bump(ST_SHORT); logf_("F read short %zu", n); } break;
    } else if (n > 1) {
        int c = next_chunk();
        if (c < 0) { bump(ST_EINTR); errno = EINTR; return -1; }
        if (c > 0 && (size_t)c < n) { n = c; bump(ST_SHORT); }
    }
    ssize_t r = pos ? syscall(SYS_pread64, fd, b, n, off) : r_read(fd, b, n);
    logf_("D read %zu %zd", n, r);
    return r;
}
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t sim_write(int fd, const void *b, size_t n, int64_t off, int pos) {
    if (my_native) yield_tag("write");
    bump(ST_WRITE);
    struct fault *f = hit(K_WRITE);
    if (f) switch (f->action) {
        case A_ERR: bump(ST_IOERR); logf_("F write %d", f->arg); errno = f->arg; return -1;
        case A_EINTR: bump(ST_EINTR); logf_("F write EINTR"); errno = EINTR; return -1;
        case A_CRASH: {
            size_t k = (size_t)f->arg < n ? (size_t)f->arg : n;
            if (k) { ssize_t q = pos ? syscall(SYS_pwrite64, fd, b, k, off) : r_write(fd, b, k); (void)q; }
            bump(ST_CRASH); logf_("F crash after %zu of %zu", k, n); _exit(EXIT_CRASHPOINT);
        }
        case A_SHORT: if (n > (size_t)f->arg && f->arg > 0) { n = f->arg; bump(ST_SHORT); logf_("F write short %zu", n); } break;
    } else if (n > 1) {
        int c = next_chunk();
        if (c < 0) { bump(ST_EINTR); errno = EINTR; return -1; }
        if (c > 0 && (size_t)c < n) { n = c; bump(ST_SHORT); }
    }
    if (disk_cap >= 0) {
        if (disk_used >= disk_cap && n) { bump(ST_IOERR); logf_("F write ENOSPC"); errno = ENOSPC; return -1; }
        if (disk_used + (int64_t)n > disk_cap) { n = disk_cap - disk_used; bump(ST_SHORT); }
    }
    ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, n, off) : r_write(fd, b, n);
    if (r > 0) disk_used += r;
    logf_("D write %zu %zd", n, r);
    return r;
}
static ssize_t h_read(int fd, void *b, size_t n) { return issim(fd) ? sim_read(fd, b, n, 0, 0) : r_read(fd, b, n); }
static ssize_t h_write(int fd, const void *b, size_t n) { return issim(fd) ? sim_write(fd, b, n, 0, 0) : r_write(fd, b, n); }
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t h_pread(int fd, void *b, size_t n, off_t o) { return issim(fd) ? sim_read(fd, b, n, o, 1) : r_pread(fd, b, n, o); }
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t h_pwrite(int fd, const void *b, size_t n, off_t o) { return issim(fd) ? sim_write(fd, b, n, o, 1) : r_pwrite(fd, b, n, o); }
static ssize_t (*r_readv)(int, const struct iovec *, int);
static ssize_t h_readv(int fd, const struct iovec *v, int n) {
    if (!issim(fd)) return r_readv(fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t h_writev(int fd, const struct iovec *v, int n) {
    if (!issim(fd)) return r_writev(fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
static int (*r_close)(int);
static int h_close(int fd) {
    if (issim(fd)) {
        bump(ST_CLOSE); simfd[fd] = 0; logf_("D close");
        struct fault *f = hit(K_CLOSE);
        int r = r_close(fd);
        if (f) { bump(ST_IOERR); errno = f->arg; return -1; }
        return r;
    }
    return r_close(fd);
}
static off64_t (*r_lseek64)(int, off64_t, int);
static off64_t h_lseek64(int fd, off64_t o, int w) {
    if (issim(fd)) {
        struct fault *f = hit(K_SEEK);
        if (f) { bump(ST_SEEKERR); logf_("F seek %d", f->arg); errno = f->arg; return -1; }
    }
    return r_lseek64(fd, o, w);
}
static int (*r_fstat64)(int, void *);
static int h_fstat64(int fd, void *st) {
    if (issim(fd)) {
        struct fault *f = hit(K_STAT);
        if (f) { bump(ST_STATERR); errno = f->arg; return -1; }
    }
    return r_fstat64(fd, st);
}
static int (*r_statx)(int, const char *, int, unsigned, void *);
static int h_statx(int fd, const char *p, int fl, unsigned m, void *st) {
    if (issim(fd) || (p && rootlen && !strncmp(p, root, rootlen))) {
        struct fault *f = hit(K_STAT);
        if (f) { bump(ST_STATERR); errno = f->arg; return -1; }
    }
    return r_statx(fd, p, fl, m, st);
}
static int (*r_fsync)(int);
static int h_fsync(int fd) {
    if (issim(fd)) { bump(ST_SYNC); struct fault *f = hit(K_SYNC); if (f) { bump(ST_IOERR); errno = f->arg; return -1; } return 0; }
    return r_fsync(fd);
}
static int (*r_fdatasync)(int);
static int h_fdatasync(int fd) { return issim(fd) ? h_fsync(fd) : r_fdatasync(fd); }
static int (*r_rename)(const char *, const char *);
static int h_rename(const char *a, const char *b) {
    if (rootlen && !strncmp(a, root, rootlen)) { bump(ST_RENAME); struct fault *f = hit(K_RENAME); if (f) { bump(ST_IOERR); errno = f->arg; return -1; } }
    return r_rename(a, b);
}

// ------------------------------------------------------------------ allocator seam
enum { AL_PASS, AL_REDZONE, AL_FENCE_R, AL_FENCE_L };
static int al_mode, al_on;
static size_t al_fail_min; static long al_fail_nth = -1, al_fail_run = 1, al_seen; // fail al_fail_run allocations >= al_fail_min starting at nth
static size_t al_limit; // refuse single requests above this size (0: off)
static int al_serial;
struct blk { void *p; size_t size; void *base; size_t len; int mode; int serial; };
#define HB (1 << 18)
static struct blk *H; static size_t nH;
static int64_t live_bytes, live_blocks;
static int al_stale = 0xA7; // what fresh uninitialised memory happens to contain
void sim_alloc_stale(int b) { al_stale = b & 255; }
static volatile char al_lock;
static void *(*r_malloc)(size_t); static void *(*r_calloc)(size_t, size_t); static void *(*r_realloc)(void *, size_t);
static void (*r_free)(void *); static int (*r_posix_memalign)(void **, size_t, size_t);
#define RZ 64
static char *arena; static size_t arena_off, arena_len;
static void lk(void) { while (__atomic_test_and_set(&al_lock, __ATOMIC_ACQUIRE)) ; }
static void ulk(void) { __atomic_clear(&al_lock, __ATOMIC_RELEASE); }
static size_t hs(void *p) { uint64_t x = (uint64_t)p >> 3; x *= 0x9E3779B97F4A7C15ull; return x >> (64 - 18); }
static struct blk *find(void *p) {
    for (size_t i = hs(p);; i = (i + 1) & (HB - 1)) { if (!H[i].p) return 0; if (H[i].p == p) return &H[i]; }
}
static uint64_t occ[HB / 64]; // which slots of H are taken: scans touch only those
#define OCC_SET(i) (occ[(i) >> 6] |= 1ull << ((i) & 63))
#define OCC_CLR(i) (occ[(i) >> 6] &= ~(1ull << ((i) & 63)))
#define EACH_BLK(i) for (size_t w_ = 0; w_ < HB / 64; w_++) for (uint64_t m_ = occ[w_]; m_; m_ &= m_ - 1) for (size_t i = w_ * 64 + __builtin_ctzll(m_), o_ = 1; o_; o_ = 0)
static void ins(struct blk b) {
    if (nH > HB / 2) die(EXIT_HARNESS, "too many live blocks");
    size_t i = hs(b.p); while (H[i].p) i = (i + 1) & (HB - 1);
    H[i] = b; OCC_SET(i); nH++;
}
static void del(struct blk *b) { // backward-shift deletion
    size_t i = b - H; H[i].p = 0; OCC_CLR(i); nH--;
    for (size_t j = (i + 1) & (HB - 1); H[j].p; j = (j + 1) & (HB - 1)) {
        struct blk t = H[j]; H[j].p = 0; OCC_CLR(j); nH--; ins(t);
    }
}
static void heap_err(const char *what, struct blk *b, size_t at) {
    if (S && !S->heap_error[0])
        snprintf(S->heap_error, sizeof S->heap_error, "%s: block of %zu bytes, byte %zd", what, b->size, (ssize_t)at);
}
static int check_blk(struct blk *b) {
    unsigned char *p = b->p, *e = (unsigned char *)b->base + b->len, *s = b->base;
    if (b->mode == AL_PASS) return 0;
    for (unsigned char *q = s; q < p; q++) if (*q != 0xCB) { heap_err("write before the start of an allocation", b, q - p); return 1; }
    for (unsigned char *q = p + b->size; q < e; q++) if (*q != 0xCB) { heap_err("write past the end of an allocation", b, q - p); return 1; }
    return 0;
}
static void *al_get(size_t n, size_t align, int zero) {
    bump(ST_ALLOC);
    if (n >= al_fail_min && al_fail_nth >= 0) {
        long k = al_seen++;
        if (k >= al_fail_nth && k < al_fail_nth + al_fail_run) { bump(ST_ALLOCFAIL); logf_("F alloc %zu", n); errno = ENOMEM; return 0; }
    }
    if (al_limit && n > al_limit) { bump(ST_ALLOCFAIL); logf_("F alloc-limit %zu", n); errno = ENOMEM; return 0; }
    if (align < 16) align = 16;
    struct blk b = {0, n, 0, 0, al_mode, 0};
    lk();
    b.serial = al_serial++;
    // A page of its own for what can be an array; of the short-lived index vectors (tiny, not zeroed) only a sample
    int own = zero || n > 64 || b.serial < 400 || ((uint64_t)b.serial * 0x9E3779B97F4A7C15ull) >> 61 == 0;
    if ((al_mode == AL_FENCE_R || al_mode == AL_FENCE_L) && !own) b.mode = AL_REDZONE;
    else if ((al_mode == AL_FENCE_R || al_mode == AL_FENCE_L) && align <= 4096) {
        size_t len = ((n ? n : 1) + 4095) & ~4095ul;
        if (arena_off + len + 8192 > arena_len) b.mode = AL_REDZONE;
        else {
            char *base = arena + arena_off + 4096;
            if (mprotect(base, len, PROT_READ | PROT_WRITE)) b.mode = AL_REDZONE;
            else {
                bump(ST_FENCE);
                arena_off += len + 4096;
                b.base = base; b.len = len;
                size_t r = (n + align - 1) & ~(align - 1);
                b.p = al_mode == AL_FENCE_R ? base + len - r : base;
                memset(base, 0xCB, (char *)b.p - base);
                memset((char *)b.p + n, 0xCB, base + len - ((char *)b.p + n));
            }
        }
    }
    if (b.mode == AL_REDZONE) {
        size_t rz = align > RZ ? align : RZ;
        void *q = 0;
        if (n > (1ul << 46) || r_posix_memalign(&q, align, n + 2 * rz)) { ulk(); errno = ENOMEM; return 0; }
        b.base = q; b.len = n + 2 * rz; b.p = (char *)q + rz;
        memset(q, 0xCB, rz); memset((char *)b.p + n, 0xCB, rz);
    }
    if (b.mode == AL_PASS) {
        void *q = 0;
        if (r_posix_memalign(&q, align, n ? n : 1)) { ulk(); errno = ENOMEM; return 0; }
        b.p = b.base = q; b.len = n;
    }
    memset(b.p, zero ? 0 : al_stale, n);
    ins(b); live_bytes += n; live_blocks++; ulk();
    return b.p;
}
static struct { void *base; size_t len; } Q[4096]; static int qi; static size_t qbytes;
static void al_put(void *p) {
    bump(ST_FREE);
    lk();
    struct blk *f = H ? find(p) : 0;
    if (!f) { ulk(); r_free(p); return; }
    struct blk b = *f; del(f); live_bytes -= b.size; live_blocks--;
    check_blk(&b);
    if (b.mode == AL_FENCE_R || b.mode == AL_FENCE_L) {
        mprotect(b.base, b.len, PROT_NONE); madvise(b.base, b.len, MADV_DONTNEED);
    } else if (b.mode == AL_REDZONE) { // poison, then keep it out of circulation for a while
        memset(b.p, 0xDD, b.size);
        if (Q[qi].base) { r_free(Q[qi].base); qbytes -= Q[qi].len; }
        Q[qi].base = b.base; Q[qi].len = b.len; qbytes += b.len; qi = (qi + 1) % 4096;
        for (int k = qi, c = 0; qbytes > (256u << 20) && c < 4096; k = (k + 1) % 4096, c++)
            if (Q[k].base) { r_free(Q[k].base); qbytes -= Q[k].len; Q[k].base = 0; }
    } else { memset(b.p, 0xDD, b.size); r_free(b.base); }
    ulk();
}
static void *h_malloc(size_t n) { return al_on ? al_get(n, 16, 0) : r_malloc(n); }
static void *h_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    return al_on ? al_get(n, 16, 1) : r_calloc(a, b);
}
static int h_posix_memalign(void **o, size_t al, size_t n) {
    if (!al_on) return r_posix_memalign(o, al, n);
    void *p = al_get(n, al, 0); if (!p) return ENOMEM; *o = p; return 0;
}
static void *(*r_aligned_alloc)(size_t, size_t);
static void *h_aligned_alloc(size_t al, size_t n) { return al_on ? al_get(n, al, 0) : r_aligned_alloc(al, n); }
static void h_free(void *p) { if (p) al_put(p); }
static void *h_realloc(void *p, size_t n) {
    lk(); struct blk *f = (p && H) ? find(p) : 0; size_t old = f ? f->size : 0; ulk();
    if (p && !f) return r_realloc(p, n);
    if (!p) return h_malloc(n);
    void *q = al_get(n, 16, 0); if (!q) return 0;
    memcpy(q, p, old < n ? old : n);
    al_put(p);
    return q;
}
void sim_alloc_config(int mode) {
    if (!H) H = mmap(0, HB * sizeof *H, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (!arena && (mode == AL_FENCE_R || mode == AL_FENCE_L)) {
        arena_len = 64ull << 30;
        arena = mmap(0, arena_len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED) { arena = 0; arena_len = 0; }
    }
    al_mode = mode; al_on = 1;
}
void sim_alloc_off(void) { al_on = 0; }
void sim_alloc_fail(size_t min, long nth, long run) { al_fail_min = min; al_fail_nth = nth; al_fail_run = run; al_seen = 0; }
void sim_alloc_limit(size_t n) { al_limit = n; }
int64_t sim_live_bytes(void) { return live_bytes; }
int64_t sim_live_blocks(void) { return live_blocks; }
int64_t sim_alloc_seen(void) { return al_seen; }
int64_t sim_blk_size(void *p) { struct blk *b = H ? find(p) : 0; return b ? (int64_t)b->size : -1; }
int sim_heap_check(void) {
    int bad = 0;
    lk();
    if (H) EACH_BLK(i) bad |= check_blk(&H[i]);
    ulk();
    return bad;
}
// Is [p, p+n) inside one live block?  0 yes, 1 no, -1 unknown block
int sim_in_live_block(void *p, size_t n) {
    if (!H) return -1;
    int r = 1;
    lk();
    EACH_BLK(i) if ((char *)p >= (char *)H[i].p && (char *)p + n <= (char *)H[i].p + H[i].size) r = 0;
    ulk();
    return r;
}

// ------------------------------------------------------------------ import table patching
static void *(*r_dlsym)(void *, const char *);
static void *h_dlsym(void *h, const char *name);
struct hook { const char *name; void *to; void **real; int count; };
static struct hook HK[] = {
    {"malloc", h_malloc, (void **)&r_malloc}, {"calloc", h_calloc, (void **)&r_calloc},
    {"realloc", h_realloc, (void **)&r_realloc}, {"free", h_free, (void **)&r_free},
    {"posix_memalign", h_posix_memalign, (void **)&r_posix_memalign},
    {"aligned_alloc", h_aligned_alloc, (void **)&r_aligned_alloc},
    {"open64", h_open64, (void **)&r_open64}, {"open", h_open64, (void **)&r_open64},
    {"read", h_read, (void **)&r_read}, {"write", h_write, (void **)&r_write},
    {"pread64", h_pread, (void **)&r_pread}, {"pwrite64", h_pwrite, (void **)&r_pwrite},
    {"readv", h_readv, (void **)&r_readv}, {"writev", h_writev, (void **)&r_writev},
    {"close", h_close, (void **)&r_close}, {"lseek64", h_lseek64, (void **)&r_lseek64},
    {"fstat64", h_fstat64, (void **)&r_fstat64}, {"statx", h_statx, (void **)&r_statx},
    {"fsync", h_fsync, (void **)&r_fsync}, {"fdatasync", h_fdatasync, (void **)&r_fdatasync},
    {"rename", h_rename, (void **)&r_rename},
    {"clock_gettime", h_clock_gettime, (void **)&r_clock_gettime},
    {"getrandom", h_getrandom, 0}, {"syscall", h_syscall, (void **)&r_syscall},
    {"pthread_create", h_pthread_create, (void **)&r_pthread_create},
    {"PyEval_SaveThread", h_SaveThread, (void **)&r_SaveThread},
    {"PyEval_RestoreThread", h_RestoreThread, (void **)&r_RestoreThread},
    {"PyGILState_Ensure", h_Ensure, (void **)&r_Ensure},
    {"PyGILState_Release", h_Release, (void **)&r_Release},
    {"dlsym", h_dlsym, (void **)&r_dlsym},
};
#define NHK (int)(sizeof HK / sizeof *HK)
static void *h_dlsym(void *h, const char *name) {
    for (int i = 0; i < NHK; i++) if (!strcmp(HK[i].name, name)) { HK[i].count++; return HK[i].to; }
    return dlsym(h, name);
}
static int patched;
static int cb(struct dl_phdr_info *in, size_t sz, void *data) {
    const char *want = data;
    if (!in->dlpi_name || !strstr(in->dlpi_name, want)) return 0;
    ElfW(Dyn) *dyn = 0; uintptr_t base = in->dlpi_addr;
    for (int i = 0; i < in->dlpi_phnum; i++) {
        const ElfW(Phdr) *ph = &in->dlpi_phdr[i];
        if (ph->p_type == PT_DYNAMIC) dyn = (void *)(base + ph->p_vaddr);
        if (ph->p_type == PT_GNU_RELRO) {
            uintptr_t a = (base + ph->p_vaddr) & ~4095ul, e = (base + ph->p_vaddr + ph->p_memsz + 4095) & ~4095ul;
            mprotect((void *)a, e - a, PROT_READ | PROT_WRITE);
        }
    }
    ElfW(Sym) *sym = 0; const char *str = 0; ElfW(Rela) *rela = 0, *jr = 0; size_t nr = 0, nj = 0;
    for (; dyn->d_tag; dyn++) switch (dyn->d_tag) {
        case DT_SYMTAB: sym = (void *)dyn->d_un.d_ptr; break;
        case DT_STRTAB: str = (void *)dyn->d_un.d_ptr; break;
        case DT_RELA: rela = (void *)dyn->d_un.d_ptr; break;
        case DT_RELASZ: nr = dyn->d_un.d_val / sizeof(ElfW(Rela)); break;
        case DT_JMPREL: jr = (void *)dyn->d_un.d_ptr; break;
        case DT_PLTRELSZ: nj = dyn->d_un.d_val / sizeof(ElfW(Rela)); break;
    }
    for (int pass = 0; pass < 2; pass++) {
        ElfW(Rela) *r = pass ? jr : rela; size_t n = pass ? nj : nr;
        for (size_t i = 0; r && i < n; i++) {
            int ty = ELF64_R_TYPE(r[i].r_info);
            if (ty != R_X86_64_GLOB_DAT && ty != R_X86_64_JUMP_SLOT && ty != R_X86_64_64) continue;
            const char *nm = str + sym[ELF64_R_SYM(r[i].r_info)].st_name;
            for (int k = 0; k < NHK; k++) if (!strcmp(nm, HK[k].name)) {
                void **slot = (void **)(base + r[i].r_offset);
                *slot = HK[k].to; HK[k].count++; patched++;
            }
        }
    }
    return 1;
}
int sim_patch(const char *libname) {
    for (int k = 0; k < NHK; k++) if (HK[k].real && !*HK[k].real) *HK[k].real = dlsym(RTLD_DEFAULT, HK[k].name);
    if (!r_syscall) r_syscall = (void *)dlsym(RTLD_DEFAULT, "syscall");
    dl_iterate_phdr(cb, (void *)libname);
    return patched;
}
int sim_hook_count(const char *name) {
    for (int k = 0; k < NHK; k++) if (!strcmp(HK[k].name, name)) return HK[k].count;
    return -1;
}
