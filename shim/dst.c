// libdst.so: the seam between a process and everything that could make two runs of it differ.
//
// Loaded with LD_PRELOAD. Two modes (environment variable DST_MODE):
//   passive  entropy only: getrandom is a per-thread stream that dst_seed_thread() (re)starts.
//   active   the whole process is simulated: exactly one thread runs at a time, handed on by a
//            seeded scheduler at every intercepted operation (file and standard-stream I/O, thread
//            creation/join/exit, futex wait/wake, clock reads, sleeps, and memory allocations);
//            time is simulated; entropy is seeded; faults come from an explicit list.
// Everything that happened is written to a trace file. Same configuration, same trace.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXT 128
#define MAXFD 1024
#define MAXPATH 256
#define PLEN 120
#define MAXFAULT 64
#define MAXDEV 200000

typedef uint64_t u64;
typedef int64_t i64;

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define raw3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
static inline long fix(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static u64 splitmix(u64 *x) {
    u64 z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static u64 mix2(u64 a, u64 b) {
    u64 x = a ^ (b << 23 | b >> 41);
    return splitmix(&x);
}

enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
typedef struct {
    int id, state, go, exiting;
    int timed_out, spurious;
    uintptr_t addr;
    unsigned bitset;
    u64 deadline; // 0: none
    int join_on;
    u64 stalled_until; // event number
    pthread_t pth;
    void *(*start)(void *);
    void *arg;
    u64 ent;
    int prio;
} Th;

static int mode; // 0 off, 1 passive, 2 active
static Th th[MAXT];
static int nth_;
static volatile int cur;
static pthread_key_t exit_key;
static __thread Th *self __attribute__((tls_model("initial-exec")));
static __thread int inshim __attribute__((tls_model("initial-exec")));
static __thread u64 ent_state __attribute__((tls_model("initial-exec")));
static __thread int ent_set __attribute__((tls_model("initial-exec")));

static u64 cfg_seed = 1, sched_rng, lat_rng, maxev = 3000000, sim_ns, ev, ndec, nswitch;
static i64 realtime_off;
static u64 clock0 = 1600000000ull * 1000000000ull;
static u64 lat_max = 200000; // ns per I/O operation
static int policy;           // 0 replay/default, 1 random, 2 pct, 3 round robin
static int policy_arg = 100; // random: per-mille switch probability
static u64 pct_points[32];
static int n_pct;
static int malloc_points;
static struct {
    u64 idx;
    int tid;
} dev[MAXDEV];
static int ndev, devpos;
static int finished;

// ---------------------------------------------------------------------------------------- trace
static char *tb;
static size_t tb_cap, tb_len;
static u64 th_hash = 0xcbf29ce484222325ull;
static int tfd = -1;
static void hash_bytes(const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) th_hash = (th_hash ^ (unsigned char)s[i]) * 0x100000001b3ull;
}
static void tr(const char *fmt, ...) {
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    hash_bytes(b, n);
    if (tb && tb_len + n < tb_cap) {
        memcpy(tb + tb_len, b, n);
        tb_len += n;
    }
}
static void tr_nohash(const char *fmt, ...) {
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    b[n++] = '\n';
    if (tb && tb_len + n < tb_cap) {
        memcpy(tb + tb_len, b, n);
        tb_len += n;
    }
}
#define NCLS 16
#define C_MALLOC_ 6
static u64 cnt[NCLS][MAXPATH + 1];
static void dump(const char *why) {
    if (finished || mode != 2) return;
    finished = 1;
    u64 h = th_hash;
    u64 mallocs = 0;
    for (int i = 0; i <= MAXPATH; i++) mallocs += cnt[C_MALLOC_][i];
    tr_nohash("end %s %llu %llu %llu %llu %d %016llx %llu", why, (unsigned long long)sim_ns,
              (unsigned long long)ev, (unsigned long long)ndec, (unsigned long long)nswitch, nth_,
              (unsigned long long)h, (unsigned long long)mallocs);
    if (tfd >= 0) {
        size_t off = 0;
        while (off < tb_len) {
            long r = raw3(SYS_write, tfd, tb + off, tb_len - off);
            if (r <= 0) break;
            off += r;
        }
        raw3(SYS_close, tfd, 0, 0);
    }
}
static void die(const char *why, int code) {
    dump(why);
    for (;;) raw3(SYS_exit_group, code, 0, 0);
}

// ---------------------------------------------------------------------------------------- faults
enum {
    F_ERRNO, F_SHORT, F_TORN, F_CRASH, F_CRASH_AFTER, F_JUMP, F_SPURIOUS, F_EXT, F_STALL, F_NULL
};
static const char *fkind[] = {"errno", "short", "torn", "crash", "crash_after", "jump", "spurious",
                              "ext", "stall", "null"};
typedef struct {
    int id, kind, sticky, fired;
    char cls[12], path[PLEN];
    u64 nth;
    i64 arg;
    char sarg[PLEN];
} Fault;
static Fault faults[MAXFAULT];
static int nfaults;

static const char *clsn[NCLS] = {"open", "read", "write", "stat", "thread", "clock", "malloc",
                                 "futexw", "futexk", "sleep", "yield", "rand", "trunc", "unlink",
                                 "sync", "any"};
enum { C_OPEN, C_READ, C_WRITE, C_STAT, C_THREAD, C_CLOCK, C_MALLOC, C_FUTEXW, C_FUTEXK, C_SLEEP,
       C_YIELD, C_RAND, C_TRUNC, C_UNLINK, C_SYNC, C_ANY };
_Static_assert(C_MALLOC == C_MALLOC_, "class numbers");
static char paths[MAXPATH][PLEN];
static int npaths;
static int fdpath[MAXFD]; // 0: untracked, else path index + 1

// Files of the simulated process are those below the directory it was started in.
static char cwd[PATH_MAX];
static size_t cwd_len;
static const char *norm(const char *p) {
    if (!p || !p[0]) return NULL;
    if (p[0] == '/') {
        if (!cwd_len || strncmp(p, cwd, cwd_len) || p[cwd_len] != '/') return NULL;
        p += cwd_len + 1;
    }
    while (p[0] == '.' && p[1] == '/') p += 2;
    return p[0] ? p : NULL;
}
static int path_idx(const char *p) {
    const char *q = norm(p);
    if (q) p = q;
    char b[PLEN];
    int n = 0;
    for (; p[n] && n < PLEN - 1; n++) b[n] = p[n] == ' ' || p[n] == '\n' ? '_' : p[n];
    b[n] = 0;
    for (int i = 0; i < npaths; i++)
        if (!strcmp(paths[i], b)) return i;
    if (npaths >= MAXPATH) return MAXPATH - 1;
    memcpy(paths[npaths], b, n + 1);
    return npaths++;
}
static void do_ext(const Fault *f) {
    int fd = (int)raw3(SYS_open, f->sarg, O_CREAT | O_EXCL | O_WRONLY, 0644);
    if (fd >= 0) {
        raw3(SYS_write, fd, "EXTERNAL\n", 9);
        raw3(SYS_close, fd, 0, 0);
    }
}
// Counts the operation and returns the fault that applies to it, if any. Crash-before, clock
// jumps, external file creation and stalls are carried out here.
static Fault *op(int cls, int pidx) {
    u64 n = ++cnt[cls][pidx];
    u64 a = cls == C_MALLOC ? 0 : ++cnt[C_ANY][MAXPATH];
    Fault *res = NULL;
    for (int i = 0; i < nfaults; i++) {
        Fault *f = &faults[i];
        int any = !strcmp(f->cls, "any");
        if (any ? cls == C_MALLOC : strcmp(f->cls, clsn[cls])) continue;
        u64 k = any ? a : n;
        if (!any && strcmp(f->path, "*") && strcmp(f->path, paths[pidx])) continue;
        if (!any && !strcmp(f->path, "*")) {
            k = 0;
            for (int p = 0; p <= MAXPATH; p++) k += cnt[cls][p];
        }
        if (f->sticky ? k < f->nth : k != f->nth) continue;
        if (!f->fired || f->kind != F_SHORT) {
            if (!(f->fired && f->sticky)) tr("f %d %s %s %llu", f->id, fkind[f->kind], clsn[cls], (unsigned long long)k);
        }
        f->fired++;
        switch (f->kind) {
        case F_CRASH: die("crash", 137); break;
        case F_JUMP:
            if (f->arg >= 0) sim_ns += (u64)f->arg;
            else realtime_off += f->arg;
            break;
        case F_EXT: do_ext(f); break;
        case F_STALL:
            if (f->arg > 0 && self) self->stalled_until = ev + (u64)f->arg;
            break;
        case F_SPURIOUS: {
            int c[MAXT], m = 0;
            for (int t = 0; t < nth_; t++)
                if (th[t].state == T_FUTEX) c[m++] = t;
            if (m) {
                Th *t = &th[c[(u64)f->arg % m]];
                t->state = T_RUN;
                t->spurious = 1;
            }
            break;
        }
        default:
            if (!res) res = f;
        }
    }
    return res;
}
static void after(Fault *f) {
    if (f && f->kind == F_CRASH_AFTER) die("crash", 137);
}

// -------------------------------------------------------------------------------------- scheduler
static void wait_go(Th *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
        raw6(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void give(Th *t) {
    cur = t->id;
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void expire(void) {
    for (int i = 0; i < nth_; i++) {
        Th *t = &th[i];
        if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline && t->deadline <= sim_ns) {
            t->timed_out = t->state == T_FUTEX;
            t->state = T_RUN;
            t->deadline = 0;
        }
    }
}
static int pick(int kind) {
    int c[MAXT], m;
    for (;;) {
        m = 0;
        int stalled = 0;
        expire();
        for (int i = 0; i < nth_; i++)
            if (th[i].state == T_RUN) {
                if (th[i].stalled_until > ev) stalled++;
                else c[m++] = i;
            }
        if (m) break;
        if (stalled) {
            for (int i = 0; i < nth_; i++) th[i].stalled_until = 0;
            continue;
        }
        u64 best = 0;
        for (int i = 0; i < nth_; i++)
            if ((th[i].state == T_FUTEX || th[i].state == T_SLEEP) && th[i].deadline &&
                (!best || th[i].deadline < best))
                best = th[i].deadline;
        if (!best) {
            for (int i = 0; i < nth_; i++)
                tr("b %d %d %d", i, th[i].state, th[i].join_on);
            die("deadlock", 253);
        }
        sim_ns = best;
    }
    int curok = 0;
    for (int i = 0; i < m; i++)
        if (c[i] == cur) curok = 1;
    int def = curok ? cur : c[0];
    if (m == 1) return c[0];
    u64 d = ndec++;
    int n = def;
    switch (policy) {
    case 0:
        while (devpos < ndev && dev[devpos].idx < d) devpos++;
        if (devpos < ndev && dev[devpos].idx == d) {
            for (int i = 0; i < m; i++)
                if (c[i] == dev[devpos].tid) n = c[i];
        }
        break;
    case 1: {
        u64 p = (u64)policy_arg;
        u64 r = splitmix(&sched_rng);
        if (kind == C_MALLOC) {
            if (r % 20000 < p) n = c[(r >> 32) % m];
        } else if (!curok || r % 1000 < p) {
            n = c[(r >> 32) % m];
        }
        break;
    }
    case 2: {
        for (int k = 0; k < n_pct; k++)
            if (pct_points[k] == d) th[def].prio = -1 - k;
        n = c[0];
        for (int i = 1; i < m; i++)
            if (th[c[i]].prio > th[n].prio) n = c[i];
        break;
    }
    case 3:
        if (kind != C_MALLOC || !curok) {
            n = c[0];
            for (int i = 0; i < m; i++)
                if (c[i] > cur) {
                    n = c[i];
                    break;
                }
        }
        break;
    }
    if (n != def) tr("s %llu %d", (unsigned long long)d, n);
    return n;
}
// Called with the token held: let the scheduler decide who goes on.
static void point(int kind) {
    Th *me = self;
    ev++;
    if (kind != C_MALLOC) {
        u64 l = splitmix(&lat_rng) % (lat_max + 1);
        sim_ns += kind == C_CLOCK ? l % 2000 : l;
    }
    if (ev > maxev) die("livelock", 252);
    int n = pick(kind);
    if (n != me->id) {
        nswitch++;
        give(&th[n]);
        wait_go(me);
    }
}
static void block(void) {
    Th *me = self;
    int n = pick(C_YIELD);
    if (n != me->id) {
        nswitch++;
        give(&th[n]);
        wait_go(me);
    }
}
static void on_thread_exit(void *v) {
    Th *t = v;
    if (mode != 2 || finished) return;
    if (t->exiting++ < 2) { // let the other destructors go first
        pthread_setspecific(exit_key, t);
        return;
    }
    inshim++;
    tr("x %d", t->id);
    t->state = T_DONE;
    for (int i = 0; i < nth_; i++)
        if (th[i].state == T_JOIN && th[i].join_on == t->id) th[i].state = T_RUN;
    ev++;
    int n = pick(C_YIELD);
    nswitch++;
    give(&th[n]);
}
static void *tramp(void *v) {
    Th *t = v;
    self = t;
    inshim = 1;
    wait_go(t);
    pthread_setspecific(exit_key, t);
    inshim = 0;
    return t->start(t->arg);
}

#define SIM (mode == 2 && self && !inshim && self->state != T_DONE && !finished)
#define ENTER inshim++
#define LEAVE inshim--

// ------------------------------------------------------------------------------------------ setup
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void load_cfg(const char *file) {
    int fd = (int)raw3(SYS_open, file, O_RDONLY, 0);
    if (fd < 0) {
        raw3(SYS_exit_group, 251, 0, 0);
    }
    struct stat st;
    raw3(SYS_fstat, fd, &st, 0);
    char *b = mmap(NULL, st.st_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t off = 0;
    while (off < (size_t)st.st_size) {
        long r = raw3(SYS_read, fd, b + off, st.st_size - off);
        if (r <= 0) break;
        off += r;
    }
    b[off] = 0;
    raw3(SYS_close, fd, 0, 0);
    char *save, *line = strtok_r(b, "\n", &save);
    for (; line; line = strtok_r(NULL, "\n", &save)) {
        unsigned long long a, c;
        int d;
        char w[40], x[PLEN], y[40], z[PLEN];
        if (sscanf(line, "seed %llu", &a) == 1) cfg_seed = a;
        else if (sscanf(line, "policy %d %d", &policy, &policy_arg) == 2) ;
        else if (sscanf(line, "malloc %d", &malloc_points) == 1) ;
        else if (sscanf(line, "maxev %llu", &a) == 1) maxev = a;
        else if (sscanf(line, "clock0 %llu", &a) == 1) clock0 = a;
        else if (sscanf(line, "latency %llu", &a) == 1) lat_max = a;
        else if (sscanf(line, "pct %llu", &a) == 1) {
            if (n_pct < 32) pct_points[n_pct++] = a;
        } else if (sscanf(line, "sched %llu %d", &a, &d) == 2) {
            if (ndev < MAXDEV) {
                dev[ndev].idx = a;
                dev[ndev++].tid = d;
            }
        } else if (!strncmp(line, "fault ", 6)) {
            // fault <id> <class> <path> <nth> <kind> <arg> <sticky> <sarg>
            Fault *f = &faults[nfaults];
            long long arg;
            if (nfaults < MAXFAULT &&
                sscanf(line, "fault %d %39s %119s %llu %39s %lld %d %119s", &f->id, w, x, &c, y, &arg,
                       &f->sticky, z) == 8) {
                snprintf(f->cls, sizeof f->cls, "%.11s", w);
                snprintf(f->path, sizeof f->path, "%s", x);
                f->nth = c;
                f->arg = arg;
                snprintf(f->sarg, sizeof f->sarg, "%s", z);
                f->kind = -1;
                for (int k = 0; k < (int)(sizeof fkind / sizeof *fkind); k++)
                    if (!strcmp(fkind[k], y)) f->kind = k;
                if (f->kind >= 0) nfaults++;
            }
        }
    }
}
__attribute__((constructor)) static void init(void) {
    const char *m = getenv("DST_MODE");
    if (!m) return;
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    const char *s = getenv("DST_SEED");
    if (s) cfg_seed = strtoull(s, NULL, 10);
    if (!strcmp(m, "passive")) {
        mode = 1;
        return;
    }
    const char *cfg = getenv("DST_CFG"), *out = getenv("DST_OUT");
    if (!cfg || !out) return;
    load_cfg(cfg);
    tb_cap = 24u << 20;
    tb = mmap(NULL, tb_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (tb == MAP_FAILED) tb = NULL;
    tfd = (int)raw3(SYS_open, out, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
    if (tfd >= 0 && tfd < 200) { // out of the way
        int n = (int)raw3(SYS_fcntl, tfd, F_DUPFD_CLOEXEC, 900);
        if (n >= 0) {
            raw3(SYS_close, tfd, 0, 0);
            tfd = n;
        }
    }
    unsetenv("DST_MODE");
    unsetenv("DST_CFG");
    unsetenv("DST_OUT");
    unsetenv("LD_PRELOAD");
    long cl = raw3(SYS_getcwd, cwd, sizeof cwd, 0);
    cwd_len = cl > 1 ? (size_t)cl - 1 : 0;
    sched_rng = mix2(cfg_seed, 11);
    lat_rng = mix2(cfg_seed, 12);
    fdpath[0] = path_idx("stdin") + 1;
    fdpath[1] = path_idx("stdout") + 1;
    fdpath[2] = path_idx("stderr") + 1;
    pthread_key_create(&exit_key, on_thread_exit);
    nth_ = 1;
    th[0].id = 0;
    th[0].state = T_RUN;
    th[0].pth = pthread_self();
    th[0].ent = mix2(cfg_seed, 1000);
    th[0].prio = (int)(mix2(cfg_seed, 5000) >> 40);
    self = &th[0];
    cur = 0;
    mode = 2;
}
__attribute__((destructor)) static void fini(void) { dump("exit"); }

// ---------------------------------------------------------------------------------------- entropy
void dst_seed_thread(u64 seed) {
    ent_state = seed;
    ent_set = 1;
}
static void fill(unsigned char *p, size_t n) {
    u64 *st;
    if (mode == 2 && self) st = &self->ent;
    else {
        if (!ent_set) {
            ent_state = mix2(cfg_seed, 77);
            ent_set = 1;
        }
        st = &ent_state;
    }
    while (n) {
        u64 v = splitmix(st);
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k;
        n -= k;
    }
}
static ssize_t sim_random(void *p, size_t n) {
    if (SIM) {
        ENTER;
        Fault *f = op(C_RAND, 0);
        LEAVE;
        if (f && f->kind == F_ERRNO) {
            errno = (int)f->arg;
            return -1;
        }
        if (f && f->kind == F_SHORT && (u64)f->arg < n && f->arg > 0) n = f->arg;
    }
    fill(p, n);
    return n;
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!mode) return fix(raw3(SYS_getrandom, p, n, flags));
    return sim_random(p, n);
}
int getentropy(void *p, size_t n) {
    fill(p, n);
    return 0;
}

// ------------------------------------------------------------------------------------------- time
static u64 now(clockid_t c) {
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) return clock0 + sim_ns + realtime_off;
    return 1000000000ull * 5000 + sim_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!SIM) return (int)fix(raw3(SYS_clock_gettime, c, ts, 0));
    ENTER;
    Fault *f = op(C_CLOCK, 0);
    (void)f;
    point(C_CLOCK);
    u64 t = now(c);
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    tr("c %d %d %llu", self->id, (int)c, (unsigned long long)t);
    LEAVE;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
static int sim_sleep(u64 until) {
    ENTER;
    op(C_SLEEP, 0);
    tr("z %d", self->id);
    self->state = T_SLEEP;
    self->deadline = until > sim_ns ? until : sim_ns + 1;
    block();
    LEAVE;
    return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
    if (!SIM) return (int)fix(raw3(SYS_nanosleep, r, rem, 0));
    return sim_sleep(sim_ns + (u64)r->tv_sec * 1000000000ull + r->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) {
    if (!SIM) return -(int)raw6(SYS_clock_nanosleep, c, flags, (long)r, (long)rem, 0, 0);
    u64 v = (u64)r->tv_sec * 1000000000ull + r->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        u64 n = now(c);
        v = v > n ? v - n : 0;
    }
    return sim_sleep(sim_ns + v);
}
static int (*wait_hook)(void);
int sched_yield(void) {
    if (!SIM && wait_hook && wait_hook()) return 0;
    if (!SIM) return (int)fix(raw3(SYS_sched_yield, 0, 0, 0));
    ENTER;
    op(C_YIELD, 0);
    point(C_YIELD);
    LEAVE;
    return 0;
}

// -------------------------------------------------------------------------------------- threads
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*start)(void *), void *arg) {
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!SIM) return real_create(out, attr, start, arg);
    ENTER;
    Fault *f = op(C_THREAD, 0);
    if (f && f->kind == F_ERRNO) {
        tr("t %d -1", self->id);
        LEAVE;
        return (int)f->arg;
    }
    if (nth_ >= MAXT) die("too-many-threads", 251);
    Th *t = &th[nth_];
    memset(t, 0, sizeof *t);
    t->id = nth_;
    t->state = T_RUN;
    t->start = start;
    t->arg = arg;
    t->ent = mix2(cfg_seed, 1000 + nth_);
    t->prio = (int)(mix2(cfg_seed, 5000 + nth_) >> 40);
    int r = real_create(&t->pth, attr, tramp, t);
    if (r == 0) {
        nth_++;
        *out = t->pth;
        tr("t %d %d", self->id, t->id);
        point(C_THREAD);
    }
    LEAVE;
    return r;
}
int pthread_join(pthread_t p, void **ret) {
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (SIM) {
        ENTER;
        for (int i = nth_ - 1; i >= 0; i--)
            if (pthread_equal(th[i].pth, p)) {
                if (th[i].state != T_DONE) {
                    self->state = T_JOIN;
                    self->join_on = i;
                    ev++;
                    block();
                }
                break;
            }
        LEAVE;
    }
    return real_join(p, ret);
}
static long sim_futex(uintptr_t addr, int o, u64 val, u64 timeout, u64 addr2, u64 val3) {
    int cmd = o & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    unsigned bits = FUTEX_BITSET_MATCH_ANY;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (cmd == FUTEX_WAIT_BITSET) bits = (unsigned)val3;
        op(C_FUTEXW, 0);
        point(C_FUTEXW);
        if (__atomic_load_n((unsigned *)addr, __ATOMIC_SEQ_CST) != (unsigned)val) return -EAGAIN;
        Th *me = self;
        me->state = T_FUTEX;
        me->addr = addr;
        me->bitset = bits;
        me->timed_out = me->spurious = 0;
        me->deadline = 0;
        if (timeout) {
            const struct timespec *ts = (const struct timespec *)timeout;
            u64 v = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            if (cmd == FUTEX_WAIT_BITSET) {
                u64 n = now(o & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC);
                v = v > n ? v - n : 0;
            }
            me->deadline = sim_ns + v + 1;
        }
        tr("w %d", me->id);
        block();
        me->deadline = 0;
        if (me->timed_out) {
            me->timed_out = 0;
            return -ETIMEDOUT;
        }
        if (me->spurious) {
            me->spurious = 0;
            return -EINTR;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        if (cmd == FUTEX_WAKE_BITSET) bits = (unsigned)val3;
        op(C_FUTEXK, 0);
        long woken = 0;
        while ((u64)woken < val) {
            int c[MAXT], m = 0;
            for (int i = 0; i < nth_; i++)
                if (th[i].state == T_FUTEX && th[i].addr == addr && (th[i].bitset & bits)) c[m++] = i;
            if (!m) break;
            Th *t = &th[c[policy == 1 || policy == 2 ? mix2(cfg_seed, ev) % m : 0]];
            t->state = T_RUN;
            woken++;
        }
        tr("k %d %ld", self->id, woken);
        point(C_FUTEXK);
        return woken;
    }
    return raw6(SYS_futex, (long)addr, o, val, timeout, addr2, val3);
}
/* In the harness process itself: called instead of waiting on a futex (or yielding) on a thread that takes part in a
   simulated schedule; returns 0 on other threads. */
void dst_set_wait_hook(int (*f)(void)) { wait_hook = f; }
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom && mode) return sim_random((void *)a, b);
    if (n == SYS_futex && SIM) {
        ENTER;
        long r = sim_futex(a, (int)b, c, d, e, f);
        LEAVE;
        return fix(r);
    }
    if (n == SYS_futex && wait_hook && !SIM && !d) {
        int cmd = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if ((cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) && wait_hook()) return 0;
    }
    if (n == SYS_gettid && SIM) return 10000 + self->id;
    return fix(raw6(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------------------------------------ files
static void log_op(int cls, int p, i64 res, int e) {
    if (!strcmp(paths[p], "stderr")) tr("o %d %s %s", self->id, clsn[cls], paths[p]);
    else
        tr("o %d %s %s %llu %lld %d", self->id, clsn[cls], paths[p], (unsigned long long)cnt[cls][p],
           (long long)res, e);
}
static long io_rw(int cls, int fd, void *buf, size_t n, int p) {
    ENTER;
    point(cls);
    Fault *f = op(cls, p);
    long r;
    if (f && f->kind == F_ERRNO) {
        r = -f->arg;
    } else {
        size_t m = n;
        if (f && (f->kind == F_SHORT || f->kind == F_TORN) && f->arg >= 0 && (u64)f->arg < m)
            m = f->arg;
        if (f && f->kind == F_SHORT && m == 0 && n) m = 1;
        r = m || !n ? raw3(cls == C_READ ? SYS_read : SYS_write, fd, buf, m) : 0;
    }
    log_op(cls, p, r < 0 ? -1 : r, r < 0 ? (int)-r : 0);
    if (f && f->kind == F_TORN) die("crash", 137);
    after(f);
    LEAVE;
    return fix(r);
}
ssize_t read(int fd, void *buf, size_t n) {
    int p = fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
    if (!p || !SIM) return fix(raw3(SYS_read, fd, buf, n));
    return io_rw(C_READ, fd, buf, n, p - 1);
}
ssize_t write(int fd, const void *buf, size_t n) {
    int p = fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
    if (!p || !SIM) return fix(raw3(SYS_write, fd, buf, n));
    return io_rw(C_WRITE, fd, (void *)buf, n, p - 1);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    int p = fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
    if (!p || !SIM) return fix(raw3(SYS_writev, fd, v, k));
    for (int i = 0; i < k; i++)
        if (v[i].iov_len) return io_rw(C_WRITE, fd, v[i].iov_base, v[i].iov_len, p - 1);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    int p = fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
    if (!p || !SIM) return fix(raw3(SYS_readv, fd, v, k));
    for (int i = 0; i < k; i++)
        if (v[i].iov_len) return io_rw(C_READ, fd, v[i].iov_base, v[i].iov_len, p - 1);
    return 0;
}
static int tracked(const char *path) { return norm(path) != NULL; }
static int do_open(int dfd, const char *path, int flags, mode_t md) {
    if (!SIM || !tracked(path)) return (int)fix(raw6(SYS_openat, dfd, (long)path, flags, md, 0, 0));
    ENTER;
    point(C_OPEN);
    int p = path_idx(path);
    Fault *f = op(C_OPEN, p);
    long r;
    if (f && f->kind == F_ERRNO) r = -f->arg;
    else {
        r = raw6(SYS_openat, dfd, (long)path, flags, md, 0, 0);
        if (r >= 0 && r < MAXFD) fdpath[r] = p + 1;
    }
    tr("o %d open %s %llu %d %d %o", self->id, paths[p], (unsigned long long)cnt[C_OPEN][p],
       r < 0 ? -1 : 0, r < 0 ? (int)-r : 0, flags & (O_ACCMODE | O_CREAT | O_EXCL | O_TRUNC | O_APPEND));
    after(f);
    LEAVE;
    return (int)fix(r);
}
#define MD                                                                                         \
    mode_t md = 0;                                                                                 \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                           \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        md = va_arg(ap, mode_t);                                                                   \
        va_end(ap);                                                                                \
    }
int open(const char *path, int flags, ...) { MD return do_open(AT_FDCWD, path, flags, md); }
int open64(const char *path, int flags, ...) { MD return do_open(AT_FDCWD, path, flags, md); }
int openat(int d, const char *path, int flags, ...) { MD return do_open(d, path, flags, md); }
int openat64(int d, const char *path, int flags, ...) { MD return do_open(d, path, flags, md); }
int close(int fd) {
    if (fd == tfd && mode == 2 && !finished) return 0;
    if (SIM && fd > 2 && fd < MAXFD && fdpath[fd]) {
        ENTER;
        tr("o %d close %s", self->id, paths[fdpath[fd] - 1]);
        fdpath[fd] = 0;
        LEAVE;
    }
    return (int)fix(raw3(SYS_close, fd, 0, 0));
}
static int path_op(int cls, const char *path, long (*go)(void *), void *ctx) {
    ENTER;
    point(cls);
    int p = path_idx(path);
    Fault *f = op(cls, p);
    long r = f && f->kind == F_ERRNO ? -f->arg : go(ctx);
    log_op(cls, p, r < 0 ? -1 : 0, r < 0 ? (int)-r : 0);
    after(f);
    LEAVE;
    return (int)fix(r);
}
typedef struct {
    long n, a, b, c, d, e;
} Sc;
static long go_sc(void *v) {
    Sc *s = v;
    return raw6(s->n, s->a, s->b, s->c, s->d, s->e, 0);
}
int statx(int d, const char *path, int flags, unsigned mask, struct statx *b) {
    Sc s = {SYS_statx, d, (long)path, flags, mask, (long)b};
    if (!SIM || !tracked(path)) return (int)fix(go_sc(&s));
    return path_op(C_STAT, path, go_sc, &s);
}
#define STATF(name, nr)                                                                            \
    int name(const char *path, struct stat *b) {                                                   \
        Sc s = {nr, (long)path, (long)b, 0, 0, 0};                                                 \
        if (!SIM || !tracked(path)) return (int)fix(go_sc(&s));                                    \
        return path_op(C_STAT, path, go_sc, &s);                                                   \
    }
STATF(stat, SYS_stat)
STATF(lstat, SYS_lstat)
int stat64(const char *p, struct stat64 *b) { return stat(p, (struct stat *)b); }
int lstat64(const char *p, struct stat64 *b) { return lstat(p, (struct stat *)b); }
int access(const char *path, int m) {
    Sc s = {SYS_access, (long)path, m, 0, 0, 0};
    if (!SIM || !tracked(path)) return (int)fix(go_sc(&s));
    return path_op(C_STAT, path, go_sc, &s);
}
int unlink(const char *path) {
    Sc s = {SYS_unlink, (long)path, 0, 0, 0, 0};
    if (!SIM || !tracked(path)) return (int)fix(go_sc(&s));
    return path_op(C_UNLINK, path, go_sc, &s);
}
int rename(const char *a, const char *b) {
    Sc s = {SYS_rename, (long)a, (long)b, 0, 0, 0};
    if (!SIM || !tracked(b)) return (int)fix(go_sc(&s));
    return path_op(C_UNLINK, b, go_sc, &s);
}
static int fd_op(int cls, int fd, Sc *s) {
    int p = fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
    if (!SIM || !p) return (int)fix(go_sc(s));
    return path_op(cls, paths[p - 1], go_sc, s);
}
int ftruncate(int fd, off_t l) {
    Sc s = {SYS_ftruncate, fd, l, 0, 0, 0};
    return fd_op(C_TRUNC, fd, &s);
}
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int fsync(int fd) {
    Sc s = {SYS_fsync, fd, 0, 0, 0, 0};
    return fd_op(C_SYNC, fd, &s);
}
int fdatasync(int fd) {
    Sc s = {SYS_fdatasync, fd, 0, 0, 0, 0};
    return fd_op(C_SYNC, fd, &s);
}

// ----------------------------------------------------------------------------------------- memory
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int mem_point(void) {
    if (!malloc_points || !SIM) return 0;
    ENTER;
    Fault *f = op(C_MALLOC, 0);
    point(C_MALLOC);
    LEAVE;
    if (f && f->kind == F_NULL) {
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
void *malloc(size_t n) { return mem_point() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return mem_point() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return mem_point() ? NULL : __libc_realloc(p, n); }
void free(void *p) { __libc_free(p); }
int posix_memalign(void **out, size_t al, size_t n) {
    if (mem_point()) return ENOMEM;
    void *p = __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void abort(void) {
    dump("abort");
    for (;;) raw3(SYS_exit_group, 134, 0, 0);
}
void _exit(int c) {
    dump("exit");
    for (;;) raw3(SYS_exit_group, c, 0, 0);
}
