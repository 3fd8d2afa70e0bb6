// C16: pipes, time-outs and paths that cannot be read.
#include "model.hpp"
#include "bignew.hpp"
#include "TraceDB.hpp"
#include <atomic>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>

#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>

using pbt::Gen;

// ---- waits of hours in a moment: while fast.scale is set, this thread's clock
// ---- runs that many times faster, and so do the waits it asks for ----------------
struct Fast { double scale, start; };
static thread_local Fast fast = { 0, 0 };
static double realNow(clockid_t id = CLOCK_MONOTONIC) {
    struct timespec ts;
    syscall(SYS_clock_gettime, id, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void realNap(double s) {
    struct timespec ts;
    ts.tv_sec = (time_t) s;
    ts.tv_nsec = (long) ((s - ts.tv_sec) * 1e9);
    syscall(SYS_nanosleep, &ts, NULL);
}
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !__has_feature(address_sanitizer)
#define HAVE_FAST 1
static struct timespec split(double s) {
    struct timespec t;
    t.tv_sec = (time_t) s;
    t.tv_nsec = (long) ((s - (double) t.tv_sec) * 1e9);
    return t;
}
static bool shrink(const struct timespec *t, struct timespec *r) {      // a length of time, made shorter
    if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { *r = *t; return false; }   // the kernel shall refuse it
    *r = split(((double) t->tv_sec + t->tv_nsec * 1e-9) / fast.scale);
    return true;
}
static int waitOn(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t) {
    struct timespec k;
    if (t) shrink(t, &k);
    struct { const sigset_t *s; size_t n; } mask = { NULL, 8 };
    return syscall(SYS_pselect6, n, r, w, e, t ? &k : NULL, &mask);
}
extern "C" {
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (!fast.scale) return syscall(SYS_select, n, r, w, e, tv);
    struct timespec t = { 0, 0 };
    if (tv) { t.tv_sec = tv->tv_sec; t.tv_nsec = tv->tv_usec * 1000; }
    double t0 = realNow();
    int rc = waitOn(n, r, w, e, tv ? &t : NULL);
    if (tv && (rc >= 0 || errno == EINTR)) {          // as Linux does
        int keep = errno;
        double left = (double) t.tv_sec + t.tv_nsec * 1e-9 - (realNow() - t0) * fast.scale;
        if (rc == 0 || left < 0) left = 0;
        tv->tv_sec = (time_t) left;
        tv->tv_usec = (suseconds_t) ((left - (double) tv->tv_sec) * 1e6);
        errno = keep;
    }
    return rc;
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) {
    if (fast.scale) return waitOn(n, r, w, e, t);
    struct { const sigset_t *s; size_t n; } mask = { m, 8 };
    struct timespec k;
    if (t) k = *t;
    return syscall(SYS_pselect6, n, r, w, e, t ? &k : NULL, &mask);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *m) {
    struct timespec k;
    if (t) { k = *t; if (fast.scale) shrink(t, &k); }
    return syscall(SYS_ppoll, f, n, t ? &k : NULL, m, 8);
}
int poll(struct pollfd *f, nfds_t n, int ms) {
    struct timespec t = split(ms / 1000.0);
    return ppoll(f, n, ms < 0 ? NULL : &t, NULL);
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int ms) {
    if (fast.scale && ms > 0) {
        struct timespec t = split(ms / 1000.0);
        struct pollfd p = { ep, POLLIN, 0 };
        int rc = ppoll(&p, 1, &t, NULL);
        if (rc <= 0) return rc;
        ms = 0;
    }
    return syscall(SYS_epoll_pwait, ep, ev, max, ms, NULL, 8);
}
int clock_gettime(clockid_t id, struct timespec *t) {
    int rc = syscall(SYS_clock_gettime, id, t);
    if (!rc && fast.scale) *t = split((double) t->tv_sec + t->tv_nsec * 1e-9 + (realNow() - fast.start) * (fast.scale - 1));
    return rc;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec t;
    int rc = clock_gettime(CLOCK_REALTIME, &t);
    if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return rc;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec *t, struct timespec *left) {
    struct timespec k = *t;
    if (fast.scale) { shrink(t, &k); left = NULL; }
    return syscall(SYS_nanosleep, &k, left);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *left) {
    struct timespec k = *t;
    if (fast.scale) {
        if (flags & TIMER_ABSTIME) {
            struct timespec now;
            clock_gettime(id, &now);
            double d = (double) (t->tv_sec - now.tv_sec) + (t->tv_nsec - now.tv_nsec) * 1e-9;
            if (d <= 0) return 0;
            k = split(d);
            flags = 0;
        }
        struct timespec q = k;
        shrink(&q, &k);
        left = NULL;
        id = CLOCK_MONOTONIC;
    }
    return syscall(SYS_clock_nanosleep, id, flags, &k, left) < 0 ? errno : 0;
}
int usleep(useconds_t us) { struct timespec t = { (time_t) (us / 1000000), (long) (us % 1000000) * 1000 }; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = { (time_t) s, 0 }; nanosleep(&t, NULL); return 0; }
}
#endif

// ---- signals that arrive while the library works ---------------------------------
static void onSignal(int) {}
struct Signals {
    pthread_t target;
    unsigned every_us;
    std::atomic<bool> stop;
    std::thread th;
    // every_us 0: none
    Signals(unsigned us) : target(pthread_self()), every_us(us), stop(false) {
        if (!us) return;
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGUSR2, &sa, NULL);
        th = std::thread([this]() {
            while (!stop) {
                unsigned us = every_us;
                while (us && !stop) { unsigned k = std::min(us, 20000u); realNap(k * 1e-6); us -= k; }
                if (!stop) pthread_kill(target, SIGUSR2);
            }
        });
    }
    ~Signals() { stop = true; if (th.joinable()) th.join(); }
};
static unsigned genSignals(Gen & g) {
    if (!g.chance(1, 3)) return 0;
    g.label("signals");
    switch (g.draw(3)) { case 0: return 200 + g.draw(2000); case 1: return 2000 + g.draw(20000); default: return 20000 + g.draw(150000); }
}

// ---- the program that writes the trace into the pipe ---------------------------
struct Plan {
    std::string bytes;
    std::vector<std::pair<size_t, unsigned> > chunks;   // length, pause before it in us
    unsigned arrive_us, linger_us;
    bool preload;                     // the first chunk is in the pipe before the reader comes
};
struct Writer {
    std::string path;
    Plan plan;
    std::atomic<bool> stop;
    std::thread th;
    int held;
    Writer(const std::string & p, const Plan & pl) : path(p), plan(pl), stop(false), held(-1) {
        if (plan.preload) {
            held = open(path.c_str(), O_RDWR | O_NONBLOCK);
            if (held < 0) _exit(77);
            if (!plan.chunks.empty()) put(held, 0, plan.chunks[0].first);
        }
        th = std::thread([this]() { run(); });
    }
    ~Writer() { stop = true; th.join(); if (held >= 0) close(held); }
    void nap(unsigned us) { while (us && !stop) { unsigned k = std::min(us, 20000u); usleep(k); us -= k; } }
    bool put(int fd, size_t from, size_t n) {
        while (n && !stop) {
            ssize_t k = write(fd, plan.bytes.data() + from, n);
            if (k > 0) { from += k; n -= k; continue; }
            if (k < 0 && errno == EAGAIN) { usleep(300); continue; }
            return false;
        }
        return n == 0;
    }
    void run() {
        nap(plan.arrive_us);
        int fd = held;
        held = -1;
        size_t i = 0, at = 0;
        if (fd >= 0) { if (!plan.chunks.empty()) at = plan.chunks[0].first; i = 1; }
        else
            while (!stop) {           // a blocking open that can be called off
                fd = open(path.c_str(), O_WRONLY | O_NONBLOCK);
                if (fd >= 0 || errno != ENXIO) break;
                usleep(100);
            }
        if (fd < 0) return;
        for (; i < plan.chunks.size() && !stop; i++) {
            nap(plan.chunks[i].second);
            if (!put(fd, at, plan.chunks[i].first)) break;
            at += plan.chunks[i].first;
        }
        nap(plan.linger_us);
        if (plan.preload) {
            // our end counts as a reader too: leave only when the data has been taken
            while (!stop) {
                int left = 0;
                if (ioctl_left(fd, &left) || left == 0) break;
                usleep(300);
            }
        }
        close(fd);
    }
    static int ioctl_left(int fd, int *n);
};
#include <sys/ioctl.h>
int Writer::ioctl_left(int fd, int *n) { return ioctl(fd, FIONREAD, n); }

struct Fifo {
    std::string path;
    Fifo() : path(scratchPath("fifo")) { unlink(path.c_str()); if (mkfifo(path.c_str(), 0600)) _exit(77); }
    ~Fifo() { unlink(path.c_str()); }
};

static Plan genPlan(Gen & g, const std::string & bytes) {
    Plan p;
    p.bytes = bytes;
    size_t at = 0;
    uint64_t style = g.draw(4);
    size_t most = g.coin() ? 4000 : 1 + g.draw(60000);   // what the first chunk may be, to fit into the pipe
    while (at < bytes.size()) {
        size_t left = bytes.size() - at, n;
        if (p.chunks.size() > 60) n = left;
        else switch (style) {
            case 0: n = left; break;
            case 1: n = 1 + g.draw(4); break;
            case 2: n = 1 + g.draw(std::min<size_t>(left, 40)); break;
            default: n = 1 + g.draw(left);
        }
        n = std::min(n, left);
        if (p.chunks.empty()) n = std::min<size_t>(n, most);
        unsigned us = 0;
        switch (g.draw(5)) { case 0: us = 1 + g.draw(300); break; case 1: us = p.chunks.size() < 20 ? 500 + g.draw(3000) : 0; break; case 2: us = p.chunks.size() < 3 && g.chance(1, 4) ? 20000 + g.draw(30000) : 0; break; default: break; }
        p.chunks.push_back(std::make_pair(n, us));
        at += n;
    }
    p.arrive_us = g.coin() ? 0 : g.draw(30000);
    p.linger_us = g.coin() ? 0 : g.draw(20000);
    p.preload = g.chance(1, 4) && !bytes.empty();
    return p;
}
static std::string showPlan(const Plan & p) {
    std::string s = pbt::fmt("writer arrives after %u us%s, chunks", p.arrive_us, p.preload ? " (first chunk already in the pipe)" : "");
    for (size_t i = 0; i < p.chunks.size() && i < 20; i++) s += pbt::fmt(" %zu(+%uus)", p.chunks[i].first, p.chunks[i].second);
    return s + pbt::fmt(", closes after %u us", p.linger_us);
}

struct Outcome {
    bool ok;
    void *trace, *db;
    double seconds;
    Outcome() : ok(false), trace(NULL), db(NULL), seconds(0) {}
    ~Outcome() { if (trace) free_trace(trace); if (db) free_db(db); }
    const Trace & t() const { return trace ? *(const Trace *) trace : *(const Trace *) get_trace(db, n_traces(db) - 1); }
};
static void fetch(Outcome & o, const std::string & path, uint32_t timeout, uint64_t limit, bool add) {
    double t0 = pbt::now();
    if (add) {
        o.db = create_db();
        int rc = add_trace(o.db, path.c_str(), timeout, limit);
        o.seconds = pbt::now() - t0;
        PBT_CHECK(rc == 0 || rc == 1, "add_trace returned %d", rc);
        o.ok = rc == 1;
        PBT_CHECK(n_traces(o.db) == (unsigned) rc, "add_trace returned %d but the database holds %u traces", rc, n_traces(o.db));
    } else {
        o.trace = read_trace(path.c_str(), timeout, limit);
        o.seconds = pbt::now() - t0;
        o.ok = o.trace != NULL;
    }
}

// Without standard input, the next file opened gets descriptor 0.
struct NoInput {
    int saved;
    NoInput(bool on) : saved(on ? dup(0) : -1) { if (saved >= 0) close(0); }
    ~NoInput() { if (saved >= 0) { dup2(saved, 0); close(saved); } }
};
// With other files open, the next one opened gets a higher descriptor.
struct Others {
    std::vector<int> fds;
    Others(size_t n) {
        if (!n) return;
        struct rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (rl.rlim_cur < 1200) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl); }
        while (fds.size() < n) {
            int fd = open("/dev/null", O_RDONLY);
            if (fd < 0) break;
            fds.push_back(fd);
            if (fd >= (int) n) break;
        }
    }
    ~Others() { for (int fd : fds) close(fd); }
};
static void deliver(Gen & g) {
    signal(SIGPIPE, SIG_IGN);
    srand(g.draw(1000));
    TraceOpts o;
    o.bulk = 20;
    MTrace t = genTrace(g, o);
    if (g.chance(1, 6)) alignTrace(g, t);
    Layout lay;
    std::string bytes = encode(t, &lay);
    bool whole = true;
    switch (g.draw(6)) {
    case 0: bytes.resize(g.draw(bytes.size() + 1)); whole = false; g.label("writer-dies-early"); break;
    case 1: if (g.coin()) { bytes += (char) (g.coin() ? 9 : 2); whole = false; g.label("malformed"); } break;
    default: break;
    }
    uint64_t limit = g.chance(1, 5) ? g.draw(t.points.size() + 2) : 0;
    static const uint32_t to[] = { 0, 0, 10, 30, 3600, 0x7fffffff, 0xffffffffu };
    uint32_t timeout = to[g.draw(7)];
    bool add = g.coin();
    Plan p = genPlan(g, bytes);
    unsigned sig = genSignals(g);
    if (g.rendering) g.out << showTrace(t) << "\n" << bytes.size() << " bytes, " << showPlan(p) << ", timeout " << timeout << " limit " << limit << (add ? " add_trace" : " read_trace") << ", a signal every " << sig << " us";
    // from a regular file
    Outcome a, b;
    bool none = g.chance(1, 10);
    g.label(none, "descriptor-0");
    NoInput no(none);
    size_t n_others = g.chance(1, 8) ? 20 + g.draw(g.coin() ? 300 : 970) : 0;
    g.label(n_others > 0, "high-descriptor");
    Others others(n_others);
    {
        ScratchFile f(bytes);
        fetch(a, f.path, g.coin() ? timeout : 0, limit, g.coin());
    }
    {
        Fifo fifo;
        Writer w(fifo.path, p);
        g.at("reading from the pipe");
        Signals signals(sig);
        fetch(b, fifo.path, timeout, limit, add);
    }
    PBT_CHECK(a.ok == b.ok, "reading the file %s, reading the pipe %s", a.ok ? "succeeded" : "failed", b.ok ? "succeeded" : "failed");
    if (a.ok) PBT_CHECK(a.t() == b.t(), "the pipe gave another trace than the file");
    if (whole) {
        PBT_CHECK(b.ok, "a well-formed trace was not read");
        size_t n = limit && limit < t.points.size() ? limit : t.points.size();
        std::string s = cmpTrace(b.t(), t, n);
        PBT_CHECK(s.empty(), "trace read from the pipe: %s", s.c_str());
    }
    g.evals();
    g.label(p.chunks.size() > 1, "several-chunks");
    g.label(bytes.size() > 65536, "larger-than-the-pipe");
    g.label(p.preload, "data-before-reader");
    g.label(p.preload && p.chunks[0].first > 4096, "much-data-before-reader");
    g.label(p.arrive_us > 1000, "late-writer");
    g.label(timeout ? "with-timeout" : "no-timeout");
    g.label(b.ok ? "read" : "rejected");
    if (p.chunks.size() > 1) g.nontrivial();
}

// Nobody writes; or the writer is slower than the time-out once it has begun.
static void waiting(Gen & g) {
    signal(SIGPIPE, SIG_IGN);
    srand(g.draw(1000));
    uint64_t kind = g.draw(4);
    bool add = g.coin();
    uint32_t timeout = 1 + g.chance(1, 3);
    unsigned sig = genSignals(g);
    if (g.rendering) g.out << "a signal every " << sig << " us; ";
    Fifo fifo;
    if (kind < 2) {
        Outcome o;
        int held = -1;
        if (g.rendering) g.out << (kind ? "a writer holds the pipe open and writes nothing" : "nobody opens the pipe") << ", timeout " << timeout << (add ? " add_trace" : " read_trace");
        if (kind) held = open(fifo.path.c_str(), O_RDWR);
        g.at("waiting for a pipe nobody writes to");
        Signals signals(sig);
        fetch(o, fifo.path, timeout, 0, add);
        if (held >= 0) close(held);
        PBT_CHECK(!o.ok, "reading a pipe nobody writes to succeeded");
        PBT_CHECK(o.seconds >= 0.9 * timeout, "gave up after %.2f s, the timeout was %u s", o.seconds, timeout);
        PBT_CHECK(o.seconds <= timeout + 10, "gave up after %.2f s only, the timeout was %u s", o.seconds, timeout);
        g.label(kind ? "writer-silent" : "no-writer");
    } else {
        TraceOpts to;
        to.bulk = 0;
        MTrace t = genTrace(g, to);
        Plan p;
        p.bytes = encode(t);
        p.arrive_us = g.draw(100000);
        p.linger_us = 0;
        p.preload = false;
        size_t first = 1 + g.draw(p.bytes.size() - 1);
        if (kind == 2) {             // a pause longer than the timeout in the middle
            timeout = 1;
            p.chunks.push_back(std::make_pair(first, 0u));
            p.chunks.push_back(std::make_pair(p.bytes.size() - first, 1200000u + (unsigned) g.draw(400000)));
            g.label("pause-longer-than-timeout");
        } else {                     // no timeout: waits as long as it takes
            timeout = 0;
            p.arrive_us = 300000 + g.draw(900000);
            p.chunks.push_back(std::make_pair(p.bytes.size(), (unsigned) g.draw(500000)));
            g.label("long-wait-without-timeout");
        }
        if (g.rendering) g.out << showTrace(t) << "\n" << showPlan(p) << " timeout " << timeout;
        Outcome o;
        {
            Writer w(fifo.path, p);
            g.at("waiting for a slow writer");
            Signals signals(sig);
            fetch(o, fifo.path, timeout, 0, add);
        }
        PBT_CHECK(o.ok, "a trace delivered slowly was not read");
        std::string s = cmpTrace(o.t(), t, t.points.size());
        PBT_CHECK(s.empty(), "trace read from the pipe: %s", s.c_str());
    }
    g.evals();
    g.nontrivial();
}

// Time-outs of minutes to decades, with a clock that runs fast.
static void waitingLong(Gen & g) {
#ifdef HAVE_FAST
    srand(g.draw(1000));
    uint32_t timeout;
    switch (g.draw(6)) {
    case 0: timeout = 2 + g.draw(60); break;
    case 1: timeout = 60 * (1 + g.draw(60)) + g.draw(2); break;
    case 2: timeout = 3600 + g.draw(100000); break;
    case 3: timeout = (1u << (5 + g.draw(27))) - g.draw(3) + g.draw(3); break;
    case 4: timeout = 0xffffffffu - g.draw(5); break;
    default: timeout = 2147480 + g.draw(100); if (g.coin()) timeout *= 1 + g.draw(1000); break;
    }
    bool add = g.coin(), hold = g.coin();
    double span = 0.02 + g.draw(60) * 1e-3, scale = timeout / span;
    if (g.rendering) g.out << (hold ? "a silent writer" : "nobody writes") << ", timeout " << timeout << (add ? " add_trace" : " read_trace");
    Fifo fifo;
    int held = hold ? open(fifo.path.c_str(), O_RDWR) : -1;
    void *db = create_db(), *tr = NULL;
    int rc = 0;
    // should the wait use a clock that cannot be hurried: give up, deciding nothing
    std::atomic<bool> done(false), rescued(false);
    std::thread rescue([&]() {
        double t0 = realNow();
        while (!done && realNow() - t0 < 6) realNap(0.001);
        while (!done) {
            rescued = true;
            int fd = open(fifo.path.c_str(), O_RDWR | O_NONBLOCK);
            if (fd >= 0) { if (write(fd, "x", 1)) {} realNap(0.05); close(fd); }
            if (held >= 0 && write(held, "x", 1)) {}
            realNap(0.05);
        }
    });
    g.at("waiting with a fast clock");
    double t0 = realNow();
    fast.start = t0;
    fast.scale = scale;
    if (add) rc = add_trace(db, fifo.path.c_str(), timeout, 0);
    else tr = read_trace(fifo.path.c_str(), timeout, 0);
    fast.scale = 0;
    double t1 = realNow();
    done = true;
    rescue.join();
    if (held >= 0) close(held);
    unsigned n = n_traces(db);
    free_db(db);
    if (tr) free_trace(tr);
    g.label(rescued, "not-decided");
    if (rescued) return;
    PBT_CHECK(!tr && rc == 0 && n == 0, "reading a pipe nobody writes to succeeded");
    PBT_CHECK((t1 - t0) * scale >= 0.9 * timeout, "gave up after %.1f s, the timeout was %u s (clock running %.0f times faster)", (t1 - t0) * scale, timeout, scale);
    g.evals();
    g.nontrivial();
#else
    (void) g;
#endif
}

static std::string scratchDir() { return getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp"; }

static void paths(Gen & g) {
    srand(g.draw(1000));
    TraceOpts to;
    to.bulk = 0;
    to.max_points = 4;
    MTrace t = genTrace(g, to);
    ScratchFile good(encode(t), "good");
    std::string other = scratchPath("odd"), path;
    unlink(other.c_str());
    struct Un { std::string p; bool dir; ~Un() { if (dir) rmdir(p.c_str()); else unlink(p.c_str()); } } un = { other, false };
    uint32_t timeout = g.coin() ? 0 : 1 + g.draw(3);
    bool add = g.coin(), drop = false;
    int expect = 0;               // 1 success, 0 failure, 2 either
    int sock = -1;
    std::vector<int> fds;
    const char *what = "";
    switch (g.draw(14)) {
    case 0: what = "missing file"; path = other; break;
    case 1: what = "missing directory"; path = other + "/x/y"; break;
    case 2: what = "directory"; if (mkdir(other.c_str(), 0700)) _exit(77); un.dir = true; path = other + (g.coin() ? "/" : ""); break;
    case 3: what = "file used as a directory"; path = good.path + "/x"; break;
    case 4: what = "symbolic link loop"; if (symlink(other.c_str(), other.c_str())) _exit(77); path = other; break;
    case 5: what = "dangling link"; if (symlink((other + "-gone").c_str(), other.c_str())) _exit(77); path = other; break;
    case 6: what = "empty path"; path = ""; break;
    case 7: what = "name too long"; path = scratchDir() + "/" + std::string(300 + g.draw(5000), 'a'); break;
    case 8: {
        what = "socket";
        path = other;
        struct sockaddr_un sa;
        memset(&sa, 0, sizeof sa);
        sa.sun_family = AF_UNIX;
        if (other.size() < sizeof sa.sun_path) {
            strcpy(sa.sun_path, other.c_str());
            sock = socket(AF_UNIX, SOCK_STREAM, 0);
            if (bind(sock, (struct sockaddr *) &sa, sizeof sa)) {}
        }
        break;
    }
    case 9: what = "empty device"; path = "/dev/null"; break;
    case 10: what = "unreadable file"; path = good.path; drop = true; if (chmod(good.path.c_str(), 0)) _exit(77); break;
    case 11: what = "link to a good file"; if (symlink(good.path.c_str(), other.c_str())) _exit(77); path = other; expect = 1; break;
    case 12: what = "good file"; path = good.path; expect = 1; break;
    default: {
        what = "many open descriptors";
        path = good.path;
        struct rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (rl.rlim_cur < 1200) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl); }
        size_t n = g.coin() ? 1100 : 1015 + g.draw(12);
        while (fds.size() < n) { int fd = open("/dev/null", O_RDONLY); if (fd < 0) break; fds.push_back(fd); if (fd >= (int) n) break; }
        expect = 2;
    }
    }
    if (g.rendering) g.out << what << ": " << path.substr(0, 200) << " timeout " << timeout << (add ? " add_trace" : " read_trace");
    g.label(what);
    g.at("%s", what);
    Outcome o;
    bool dropped = false;
    if (drop) { if (geteuid() == 0) dropped = seteuid(65534) == 0; else dropped = true; if (!dropped) expect = 2; }
    try { fetch(o, path, timeout, 0, add); } catch (...) { if (drop && getuid() == 0) { if (seteuid(0)) {} } for (int fd : fds) close(fd); if (sock >= 0) close(sock); throw; }
    if (drop && getuid() == 0) { if (seteuid(0)) {} }
    for (int fd : fds) close(fd);
    if (sock >= 0) close(sock);
    PBT_CHECK(o.seconds < 20, "%s: took %.1f s", what, o.seconds);
    PBT_CHECK(expect == 2 || o.ok == (expect == 1), "%s: reading %s", what, o.ok ? "succeeded" : "failed");
    if (o.ok) {
        std::string s = cmpTrace(o.t(), t, t.points.size());
        PBT_CHECK(s.empty(), "%s: %s", what, s.c_str());
    }
    // and a good file can be read right afterwards
    Outcome p;
    ScratchFile again(encode(t), "again");
    fetch(p, again.path, 0, 0, add);
    PBT_CHECK(p.ok, "after %s: a good file cannot be read", what);
    g.evals();
    if (expect != 1) g.nontrivial();
}

static pbt::Register f1("deliver", deliver, 10, 40), f2("waiting", waiting, 1, 40), f3("paths", paths, 20, 40), f4("waiting-long", waitingLong, 10, 40);

int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
