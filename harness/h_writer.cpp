// The C code inserted into instrumented programs: C17 what it writes is read
// back, C18 threads, C25 programs that die, C26 whole programs and the
// handshake.  The code comes out of the Lisp sources (tools/extract.py).
#include "sched.hpp"
#include "model.hpp"
#include "writer_text.h"
#include <atomic>
#include <spawn.h>
#include <sys/prctl.h>

using pbt::Gen;
extern char **environ;

struct VerifArg { uint32_t name, type; size_t size; int format; int i; int64_t l; double d; void *p; };
extern "C" {
#define WRITER(l) \
    void l##_header(void *, void *, const char **, unsigned long, const uint32_t *, unsigned long); \
    void l##_id(void *, void *, unsigned long long); \
    void l##_end(void *, void *); \
    void l##_size(void *, void *, unsigned long long); \
    void l##_vars(void *, int, const VerifArg *); \
    void l##_blobs(void *, int, const VerifArg *);
WRITER(c)
WRITER(cxx)
int pthread_mutex_lock(pthread_mutex_t *m) { return sched::mutexLock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return sched::mutexUnlock(m); }
static long die_at = -1, calls = 0;      // C25
static int die_how = 0;
static void die() {
    static const int sigs[] = { SIGKILL, 0, SIGABRT, SIGSEGV, SIGTERM };
    if (die_how == 1) _exit(3);
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGTERM, SIG_DFL);
    if (die_how == 2) abort();
    kill(getpid(), sigs[die_how]);
    while (1) pause();
}
void verif_point(void) {
    if (die_at >= 0 && calls++ == die_at) {
        die();
    }
    sched::point();
}
}
struct Writer {
    void (*header)(void *, void *, const char **, unsigned long, const uint32_t *, unsigned long);
    void (*id)(void *, void *, unsigned long long);
    void (*end)(void *, void *);
    void (*size)(void *, void *, unsigned long long);
    void (*vars)(void *, int, const VerifArg *);
    void (*blobs)(void *, int, const VerifArg *);
};
static const Writer WRITERS[2] = { { c_header, c_id, c_end, c_size, c_vars, c_blobs }, { cxx_header, cxx_id, cxx_end, cxx_size, cxx_vars, cxx_blobs } };

// ---- generation ----------------------------------------------------------------
// One call of the writer, as a range of the point's entries.
struct Call { int kind; size_t first, n; int pattern; };   // kind: T_SIZE, T_VAR, 100 blobs
struct WPoint { MPoint m; std::vector<Call> calls; };
struct WTrace { MTrace t; std::vector<std::vector<Call> > calls; };

static const MType KINDS[] = {
    { 0, M_SIGNED, 1 }, { 0, M_SIGNED, 2 }, { 0, M_SIGNED, 4 }, { 0, M_SIGNED, 8 },
    { 0, M_UNSIGNED, 1 }, { 0, M_UNSIGNED, 2 }, { 0, M_UNSIGNED, 4 }, { 0, M_UNSIGNED, 8 },
    { 0, M_FLOAT, 4 }, { 0, M_FLOAT, 8 }, { 0, M_POINTER, 8 }, { 0, M_BLOB, 0 } };
static char classOf(const MType & y) {
    switch (y.fmt) {
    case M_FLOAT: return 'd';
    case M_POINTER: return 'p';
    case M_BLOB: return 'b';
    default: return y.size == 8 ? 'l' : 'i';
    }
}
static int patternOf(const std::string & s) {
    static std::map<std::string, int> m;
    if (m.empty()) { int k = 0; for (auto p : WRITER_PATTERNS) m[p] = k++; }
    auto it = m.find(s);
    return it == m.end() ? -1 : it->second;
}
static uint64_t wFloat(Gen & g, unsigned size) {
    uint64_t b = genFloatBits(g, size);
    // A signalling NaN does not survive the conversions a C call makes.
    if (size == 4) { if ((b & 0x7f800000u) == 0x7f800000u && (b & 0x7fffff)) b |= 0x400000; }
    return b;
}
static std::string cname(Gen & g, bool weird) {
    static const char *odd[] = { "%s", "%d", "%n%n", "100%", "%%", "a\tb", "a\nb", "int (*)(char)", "a::b<c>", "\"q\"" };
    if (g.chance(1, 12)) return odd[g.draw(10)];
    std::string s = genName(g, weird);
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    return s;
}
static void wHeader(Gen & g, MTrace & t) {
    size_t nn = g.chance(31, 32) ? 1 + g.count(5, 14) : 0;
    bool weird = g.chance(1, 4);
    for (size_t i = 0; i < nn; i++) t.names.push_back(cname(g, weird));
    if (nn && g.chance(1, 25)) t.names[g.draw(nn)] = std::string(1000 + g.draw(9000), 'n');
    if (g.chance(1, 40)) { size_t k = 200 + g.draw(400); for (size_t i = 0; nn && i < k; i++) t.names.push_back(pbt::fmt("v%zu", i)); nn = t.names.size(); }
    size_t nt = nn && g.chance(15, 16) ? 1 + g.count(6, 14) : 0;
    for (size_t i = 0; i < nt; i++) { MType y = KINDS[g.draw(12)]; y.name = g.draw(nn); t.types.push_back(y); }
}
static MVar wVar(Gen & g, const MTrace & t, uint32_t type, const std::vector<uint64_t> & addr) {
    MVar v;
    v.name = g.draw(t.names.size());
    v.type = type;
    const MType & y = t.types[type];
    v.fmt = y.fmt;
    v.size = y.size;
    switch (y.fmt) {
    case M_FLOAT: v.raw = wFloat(g, y.size); break;
    case M_POINTER: v.raw = addr.empty() || g.chance(1, 4) ? g.interesting() : addr[g.draw(addr.size())] + g.draw(40); break;
    case M_BLOB: v.blob = genBlob(g, g.chance(1, 30) ? 3000 + g.draw(6000) : g.count(8, 40)); v.size = v.blob.size(); break;
    default: v.raw = canonInt(g.interesting(), y.fmt, y.size);
    }
    return v;
}
static WPoint wPoint(Gen & g, const MTrace & t, std::vector<uint64_t> & addr, size_t max_groups) {
    WPoint w;
    MPoint & p = w.m;
    p.stmt = g.coin() ? g.draw(100) : g.interesting();
    p.order.push_back(std::make_pair((uint8_t) T_STMT, 0u));
    std::vector<uint32_t> scalar, blob;
    for (uint32_t i = 0; i < t.types.size(); i++) (t.types[i].fmt == M_BLOB ? blob : scalar).push_back(i);
    size_t groups = g.count(3, max_groups);
    for (size_t k = 0; k < groups; k++) {
        Call c = { 0, 0, 0, -1 };
        uint64_t kind = g.draw(4);
        if (kind == 0) {
            c.kind = T_SIZE; c.first = p.sizes.size(); c.n = 1;
            uint64_t a = addr.empty() || g.coin() ? g.draw(1ull << 47) : addr[g.draw(addr.size())];
            addr.push_back(a);
            p.order.push_back(std::make_pair((uint8_t) T_SIZE, (uint32_t) p.sizes.size()));
            p.sizes.push_back(std::make_pair(a, g.chance(1, 4) ? 0 : g.coin() ? g.draw(64) : g.draw(1ull << 40)));
        } else if (kind == 1 ? !blob.empty() : scalar.empty() && !blob.empty()) {
            static const size_t many[] = { 12, 16, 17, 33, 64, 70, 130, 257 };      // extract.py has the same numbers
            c.kind = 100; c.first = p.vars.size(); c.n = g.chance(1, 24) ? many[g.draw(8)] : 1 + g.draw(8);
            for (size_t i = 0; i < c.n; i++) {
                p.order.push_back(std::make_pair((uint8_t) T_VAR, (uint32_t) p.vars.size()));
                p.vars.push_back(wVar(g, t, blob[g.draw(blob.size())], addr));
            }
        } else if (!scalar.empty()) {
            c.kind = T_VAR; c.first = p.vars.size();
            std::vector<uint32_t> ys;
            if (g.coin()) {                                    // a long call: one of the patterns there are
                std::map<char, std::vector<uint32_t> > of;
                for (auto y : scalar) of[classOf(t.types[y])].push_back(y);
                std::vector<int> can;
                int k = 0;
                for (auto pt : WRITER_PATTERNS) { bool ok = strlen(pt) > 3; for (const char *q = pt; *q; q++) ok = ok && of.count(*q); if (ok) can.push_back(k); k++; }
                while (can.size() > 1 && strlen(WRITER_PATTERNS[can.back()]) > 14 && !g.chance(1, 3)) can.pop_back();
                c.pattern = can[g.draw(can.size())];
                for (const char *q = WRITER_PATTERNS[c.pattern]; *q; q++) ys.push_back(of[*q][g.draw(of[*q].size())]);
            } else {
                size_t n = 1 + g.draw(3);
                std::string s;
                for (size_t i = 0; i < n; i++) { ys.push_back(scalar[g.draw(scalar.size())]); s += classOf(t.types[ys.back()]); }
                c.pattern = patternOf(s);
            }
            c.n = ys.size();
            for (auto y : ys) {
                p.order.push_back(std::make_pair((uint8_t) T_VAR, (uint32_t) p.vars.size()));
                p.vars.push_back(wVar(g, t, y, addr));
            }
        } else continue;
        w.calls.push_back(c);
    }
    return w;
}
// ---- running the calls -----------------------------------------------------------
static VerifArg argOf(const MVar & v) {
    VerifArg a;
    memset(&a, 0, sizeof a);
    a.name = v.name; a.type = v.type; a.size = v.size; a.format = v.fmt;
    if (v.fmt == M_FLOAT) {
        if (v.size == 4) { uint32_t b = (uint32_t) v.raw; float f; memcpy(&f, &b, 4); a.d = f; }
        else memcpy(&a.d, &v.raw, 8);
    }
    a.i = (int) v.raw;
    a.l = (int64_t) v.raw;
    a.p = v.fmt == M_BLOB ? (void *) v.blob.data() : (void *) v.raw;
    return a;
}
static void writeHeader(const Writer & w, void *out, void *lock, const MTrace & t) {
    std::vector<const char *> n;
    for (auto & s : t.names) n.push_back(s.c_str());
    std::vector<uint32_t> y;
    for (auto & d : t.types) { y.push_back(d.name); y.push_back(d.fmt); y.push_back(d.size); }
    w.header(out, lock, n.data(), n.size(), y.data(), t.types.size());
}
static void writePoint(const Writer & w, void *out, void *lock, const WPoint & p) {
    w.id(out, lock, p.m.stmt);
    for (auto & c : p.calls) {
        if (c.kind == T_SIZE) { w.size(out, (void *) p.m.sizes[c.first].first, p.m.sizes[c.first].second); continue; }
        std::vector<VerifArg> a(c.n);
        for (size_t i = 0; i < c.n; i++) a[i] = argOf(p.m.vars[c.first + i]);
        if (c.kind == 100) w.blobs(out, c.n, a.data()); else w.vars(out, c.pattern, a.data());
    }
    w.end(out, lock);
}
static std::string readFile(const std::string & path) {
    std::ifstream f(path.c_str(), std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
struct Loaded {
    void *p;
    Loaded(const std::string & path, uint64_t limit) : p(read_trace(path.c_str(), 0, limit)) {}
    ~Loaded() { if (p) free_trace(p); }
private:
    Loaded(const Loaded &);
};
static void compareFile(const std::string & path, const MTrace & t, uint64_t limit, const char *what) {
    Loaded l(path, limit);
    PBT_CHECK(l.p, "%s: the trace cannot be read", what);
    std::string s = cmpTrace(*(const Trace *) l.p, t, t.points.size());
    if (s.empty()) s = cmpCTrace(l.p, t, t.points.size());
    PBT_CHECK(s.empty(), "%s: %s", what, s.c_str());
}
struct Out {
    std::string path;
    FILE *f;
    char *buf;
    Out(Gen & g, const char *name) : path(scratchPath(name)), f(fopen(path.c_str(), "w")), buf(NULL) {
        PBT_CHECK(f, "cannot open %s", path.c_str());
        switch (g.draw(4)) {
        case 0: case 1: break;
        case 2: setvbuf(f, NULL, _IONBF, 0); break;
        default: { size_t n = 1 + g.draw(100); buf = (char *) malloc(n); setvbuf(f, buf, _IOFBF, n); }
        }
    }
    void close() { if (f) fclose(f); f = NULL; }
    ~Out() { close(); unlink(path.c_str()); free(buf); }
};

// ------------------------------------------------------------------ C17
static void written(Gen & g) {
    const Writer & w = WRITERS[g.draw(2)];
    MTrace t;
    wHeader(g, t);
    std::vector<WPoint> ps;
    std::vector<uint64_t> addr;
    size_t n = g.chance(1, 100) ? 300 + g.draw(300) : g.count(6, 20), vars = 0;
    for (size_t i = 0; i < n; i++) { ps.push_back(wPoint(g, t, addr, n > 100 ? 1 : 6)); t.points.push_back(ps.back().m); vars += ps.back().m.vars.size(); }
    annotate(t);
    if (g.rendering) g.out << (&w == &WRITERS[0] ? "C: " : "C++: ") << showTrace(t) << "\n";
    Out o(g, "w");
    pthread_mutex_t lock;
    pthread_mutex_init(&lock, NULL);
    g.at("writing");
    writeHeader(w, o.f, &lock, t);
    for (auto & p : ps) writePoint(w, o.f, &lock, p);
    o.close();
    PBT_CHECK(pthread_mutex_trylock(&lock) == 0, "the lock is still held after the last point");
    pthread_mutex_unlock(&lock);
    g.at("reading");
    std::string got = readFile(o.path), want = encode(t);
    compareFile(o.path, t, 0, "as written");
    PBT_CHECK(got == want, "%zu bytes were written, differing from the format's %zu bytes", got.size(), want.size());
    g.evals(n + 1);
    if (vars > 1) g.nontrivial();
    for (auto & p : ps) for (auto & c : p.calls) {
        g.label(c.kind == T_SIZE, "buffer-sizes"); g.label(c.kind == 100, "strings"); g.label(c.n > 3 && c.kind == T_VAR, "long-calls");
        if (c.kind == T_VAR) for (size_t i = 0; i < c.n; i++) g.label(pbt::fmt("format-%u-size-%u", p.m.vars[c.first + i].fmt, p.m.vars[c.first + i].size));
    }
}
static pbt::Register r1("written", written, 60, 60);

// ------------------------------------------------------------------ C18
static void threads(Gen & g) {
    const Writer & w = WRITERS[g.draw(2)];
    MTrace t;
    wHeader(g, t);
    size_t nt = 2 + g.draw(3);
    std::vector<std::vector<WPoint> > ps(nt);
    std::vector<uint64_t> addr;
    uint64_t id = 0;
    for (size_t i = 0; i < nt; i++) {
        size_t n = 1 + g.count(3, 5);
        for (size_t k = 0; k < n; k++) {
            ps[i].push_back(wPoint(g, t, addr, 3));
            ps[i].back().m.stmt = (++id << 8) | (g.draw(2) ? 0xff00000000000000ull : 0);     // unique
        }
    }
    if (g.rendering) {
        g.out << showTrace(t) << "\n";
        for (size_t i = 0; i < nt; i++) for (auto & p : ps[i]) g.out << "thread " << i << ": " << showPoint(p.m) << "\n";
    }
    pthread_mutex_t lock;
    std::atomic<FILE *> f(NULL);
    std::vector<std::function<void()> > fs;
    for (size_t i = 0; i < nt; i++) fs.push_back([&, i]() { for (auto & p : ps[i]) writePoint(w, f, &lock, p); });
    size_t rounds = 1 + g.draw(4);
    uint64_t steps = 0, all = 0;
    for (size_t r = 0; r <= rounds; r++) {
        Out o(g, "t");
        f = o.f;
        pthread_mutex_init(&lock, NULL);
        sched::Plan p;
        p.every = 0; p.seed = 0;
        if (r) p = sched::genPlan(g, steps);
        if (g.rendering && r) g.out << "schedule: " << sched::showPlan(p) << "\n";
        g.at("under a schedule: %s", sched::showPlan(p).c_str());
        writeHeader(w, o.f, &lock, t);
        uint64_t sw = 0, stuck = 0;
        uint64_t s = sched::run(p, fs, &sw, &stuck);
        if (!r) steps = s; else all += sw;
        o.close();
        g.label(stuck > 0, "scheduler-bypassed");
        Loaded l(o.path, 0);
        PBT_CHECK(l.p, "the trace cannot be read");
        // every point of every thread once, in the thread's order
        const Trace & x = *(const Trace *) l.p;
        std::map<uint64_t, std::pair<size_t, size_t> > where;
        for (size_t i = 0; i < nt; i++) for (size_t k = 0; k < ps[i].size(); k++) where[ps[i][k].m.stmt] = std::make_pair(i, k);
        std::vector<size_t> next(nt, 0);
        MTrace m = t;
        for (auto & q : x.getPoints()) {
            auto it = where.find(q.getStatement());
            PBT_CHECK(it != where.end(), "a point has statement id 0x%llx, which no thread wrote", (unsigned long long) q.getStatement());
            size_t i = it->second.first, k = it->second.second;
            PBT_CHECK(k == next[i], "thread %zu: point %zu comes where point %zu is due", i, k, next[i]);
            next[i]++;
            m.points.push_back(ps[i][k].m);
        }
        for (size_t i = 0; i < nt; i++) PBT_CHECK(next[i] == ps[i].size(), "thread %zu: %zu of %zu points are in the trace", i, next[i], ps[i].size());
        annotate(m);
        std::string e = cmpTrace(x, m, m.points.size());
        PBT_CHECK(e.empty(), "%s", e.c_str());
        g.evals();
        g.tick();
    }
    g.label(all > nt, "preempted");
    if (all > nt) g.nontrivial();
    g.label(pbt::fmt("threads-%zu", nt));
}
static pbt::Register r2("threads", threads, 20, 60);

// ------------------------------------------------------------------ C25
static void dying(Gen & g) {
    const Writer & w = WRITERS[g.draw(2)];
    MTrace t;
    wHeader(g, t);
    std::vector<WPoint> ps;
    std::vector<uint64_t> addr;
    size_t n = 1 + g.count(6, 20);
    for (size_t i = 0; i < n; i++) { ps.push_back(wPoint(g, t, addr, 4)); t.points.push_back(ps.back().m); }
    annotate(t);
    if (g.rendering) g.out << showTrace(t) << "\n";
    static volatile uint64_t *done = NULL;
    if (!done) done = (volatile uint64_t *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t rounds = 1 + g.draw(4);
    for (size_t r = 0; r < rounds; r++) {
        Out o(g, "d");
        long at = r == 0 ? -1 : (long) g.draw(20 + n * 12);
        int how = g.draw(5);
        *done = 0;
        g.at("program dies");
        pid_t pid = fork();
        if (pid == 0) {
            die_at = at; die_how = how; calls = 0;
            pthread_mutex_t lock;
            pthread_mutex_init(&lock, NULL);
            writeHeader(w, o.f, &lock, t);
            for (auto & p : ps) { writePoint(w, o.f, &lock, p); *done = *done + 1; }
            die();
        }
        PBT_CHECK(pid > 0, "fork failed");
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        uint64_t k = *done;
        if (g.rendering) g.out << "dies (" << how << ") at call " << at << " after " << k << " points\n";
        g.label(k == 0 ? "no-point-completed" : k == n ? "all-points-completed" : "some-points-completed");
        g.evals();
        g.tick();
        if (k == 0) continue;
        MTrace m = t;
        m.points.resize(k);
        std::string what = pbt::fmt("a program that died after completing %llu points", (unsigned long long) k);
        compareFile(o.path, m, k, what.c_str());
        if (k < n) g.nontrivial();
    }
}
static pbt::Register r3("dying", dying, 40, 60);

static void dyingThreads(Gen & g) {
    const Writer & w = WRITERS[g.draw(2)];
    MTrace t;
    wHeader(g, t);
    size_t nt = 2 + g.draw(3), total = 0;
    std::vector<std::vector<WPoint> > ps(nt);
    std::vector<uint64_t> addr;
    uint64_t id = 0;
    for (size_t i = 0; i < nt; i++) {
        size_t n = 1 + g.count(3, 6);
        total += n;
        for (size_t k = 0; k < n; k++) { ps[i].push_back(wPoint(g, t, addr, 2)); ps[i].back().m.stmt = ++id; }
    }
    if (g.rendering) {
        g.out << showTrace(t) << "\n";
        for (size_t i = 0; i < nt; i++) for (auto & p : ps[i]) g.out << "thread " << i << ": " << showPoint(p.m) << "\n";
    }
    static volatile uint64_t *done = NULL;
    if (!done) done = (volatile uint64_t *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<uint64_t, std::pair<size_t, size_t> > where;
    for (size_t i = 0; i < nt; i++) for (size_t k = 0; k < ps[i].size(); k++) where[ps[i][k].m.stmt] = std::make_pair(i, k);
    size_t rounds = 1 + g.draw(3);
    for (size_t r = 0; r < rounds; r++) {
        Out o(g, "d");
        long at = g.chance(1, 6) ? -1 : (long) g.draw(20 + total * 9);
        int how = g.draw(5);
        sched::Plan plan = sched::genPlan(g, 30 + total * 10);
        for (size_t i = 0; i < nt; i++) done[i] = 0;
        g.at("program dies, %s", sched::showPlan(plan).c_str());
        pid_t pid = fork();
        if (pid == 0) {
            die_at = at; die_how = how; calls = 0;
            pthread_mutex_t lock;
            pthread_mutex_init(&lock, NULL);
            writeHeader(w, o.f, &lock, t);
            std::vector<std::function<void()> > fs;
            for (size_t i = 0; i < nt; i++) fs.push_back([&, i]() { for (auto & p : ps[i]) { writePoint(w, o.f, &lock, p); done[i] = done[i] + 1; } });
            sched::run(plan, fs);
            die();
        }
        PBT_CHECK(pid > 0, "fork failed");
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        uint64_t k = 0;
        std::string list;
        for (size_t i = 0; i < nt; i++) { k += done[i]; list += pbt::fmt(" %llu", (unsigned long long) done[i]); }
        if (g.rendering) g.out << "dies (" << how << ") at call " << at << " after points" << list << "; " << sched::showPlan(plan) << "\n";
        g.label(k == 0 ? "no-point-completed" : k == total ? "all-points-completed" : "some-points-completed");
        g.evals();
        g.tick();
        if (k == 0) continue;
        // A point may be in the file whose thread had no time to count it.
        bool read = false;
        for (uint64_t limit = k + nt; limit >= k && !read; limit--) {
            Loaded l(o.path, limit);
            if (!l.p) continue;
            const Trace & x = *(const Trace *) l.p;
            if (limit > k && x.getPoints().size() != limit) continue;
            read = true;
            std::vector<size_t> next(nt, 0);
            MTrace m = t;
            for (auto & q : x.getPoints()) {
                auto it = where.find(q.getStatement());
                PBT_CHECK(it != where.end(), "a point has statement id 0x%llx, which no thread wrote", (unsigned long long) q.getStatement());
                size_t i = it->second.first;
                PBT_CHECK(it->second.second == next[i]++, "the points of thread %zu are out of order", i);
                m.points.push_back(ps[i][it->second.second].m);
            }
            for (size_t i = 0; i < nt; i++) PBT_CHECK(next[i] >= done[i], "thread %zu completed %llu points, %zu are in the file", i, (unsigned long long) done[i], next[i]);
            annotate(m);
            std::string e = cmpTrace(x, m, m.points.size());
            PBT_CHECK(e.empty(), "%s", e.c_str());
        }
        PBT_CHECK(read, "the %llu points completed before the program died cannot be read", (unsigned long long) k);
        if (k < total) g.nontrivial();
    }
}
static pbt::Register r3b("dying-threads", dyingThreads, 40, 60);

// ------------------------------------------------------------------ whole programs
static std::string cLit(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) o += c >= 32 && c < 127 && c != '"' && c != '\\' && c != '?' ? std::string(1, c) : pbt::fmt("\\%03o", c);
    return o + "\"";
}
static std::string replaceAll(std::string s, const std::string & a, const std::string & b) {
    for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b);
    return s;
}
struct CType { const char *name; uint32_t fmt, size; };
static const CType CTYPES[] = {
    { "char", M_SIGNED, 1 }, { "int8_t", M_SIGNED, 1 }, { "wchar_t", M_SIGNED, 4 }, { "short int", M_SIGNED, 2 }, { "int16_t", M_SIGNED, 2 },
    { "int", M_SIGNED, 4 }, { "int32_t", M_SIGNED, 4 }, { "long int", M_SIGNED, 8 }, { "int64_t", M_SIGNED, 8 },
    { "unsigned char", M_UNSIGNED, 1 }, { "uint8_t", M_UNSIGNED, 1 }, { "unsigned short int", M_UNSIGNED, 2 }, { "uint16_t", M_UNSIGNED, 2 },
    { "unsigned int", M_UNSIGNED, 4 }, { "uint32_t", M_UNSIGNED, 4 }, { "unsigned long int", M_UNSIGNED, 8 }, { "uint64_t", M_UNSIGNED, 8 }, { "size_t", M_UNSIGNED, 8 },
    { "float", M_FLOAT, 4 }, { "double", M_FLOAT, 8 }, { "void *", M_POINTER, 8 }, { "char *", M_BLOB, 0 }, { "char[]", M_BLOB, 0 }, { "std::string", M_BLOB, 0 } };
static const size_t NCTYPES = sizeof CTYPES / sizeof *CTYPES;
static const char *FORMATS[] = { "__GT_TRACEDB_UNSIGNED", "__GT_TRACEDB_SIGNED", "__GT_TRACEDB_FLOAT", "__GT_TRACEDB_POINTER", "__GT_TRACEDB_BLOB" };

struct Program {
    bool cxx;
    MTrace t;                                      // names and types
    std::vector<size_t> ctype;                     // of each trace type
    std::vector<std::vector<MPoint> > threads;     // [0]: main
    std::vector<std::string> tu;                   // source files
    size_t blobs_per_call;
    size_t before, after;                          // points of main's sequence that come before main() and after it
    int before_how, after_how;
    std::vector<size_t> repeat;                    // of each thread
    int code;                                      // the exit status
};
// The code around one statement, as the instrumenter writes it.
static std::string pointCode(Program & P, const MPoint & p) {
    std::string decl, vars, s;
    std::vector<std::string> va, bl;
    auto flush = [&]() {
        if (!va.empty()) { s += pbt::fmt("    __write_trace_variables(%s, %zu", WRITER_LOG, va.size()); for (auto & x : va) s += ", " + x; s += ");\n"; }
        if (!bl.empty()) { s += pbt::fmt("    __write_trace_blobs(%s, %zu", WRITER_LOG, bl.size()); for (auto & x : bl) s += ", " + x; s += ");\n"; }
        va.clear(); bl.clear();
    };
    size_t k = 0;
    for (auto & e : p.order) {
        if (e.first == T_STMT) s += pbt::fmt("    __write_trace_id(%s, %s, %lluu);\n", WRITER_LOG, WRITER_LOCK, (unsigned long long) p.stmt);
        else if (e.first == T_SIZE) {
            flush();
            s += pbt::fmt("    __write_buffer_size(%s, (void *) %lluull, %lluull);\n", WRITER_LOG, (unsigned long long) p.sizes[e.second].first, (unsigned long long) p.sizes[e.second].second);
        } else {
            const MVar & v = p.vars[e.second];
            const CType & c = CTYPES[P.ctype[v.type]];
            std::string id = pbt::fmt("x%zu", k++);
            std::string ty = c.name;
            if (c.fmt == M_BLOB && ty == "char *") decl += "    const char *" + id + " = " + cLit(v.blob) + ";\n";
            else if (c.fmt == M_BLOB && ty == "char[]") decl += "    char " + id + "[] = " + cLit(v.blob) + ";\n";
            else if (c.fmt == M_BLOB) decl += "    std::string " + id + "(" + cLit(v.blob) + ", " + std::to_string(v.blob.size()) + ");\n";
            else if (c.fmt == M_FLOAT) decl += pbt::fmt("    %s %s; { %s b = %lluu; memcpy(&%s, &b, sizeof b); }\n", c.name, id.c_str(), c.size == 4 ? "uint32_t" : "uint64_t", (unsigned long long) v.raw, id.c_str());
            else if (c.fmt == M_POINTER) decl += pbt::fmt("    void *%s = (void *) %lluull;\n", id.c_str(), (unsigned long long) v.raw);
            else decl += pbt::fmt("    %s %s = (%s) %lluull;\n", c.name, id.c_str(), c.name, (unsigned long long) v.raw);
            if (c.fmt == M_BLOB) {
                bl.push_back(pbt::fmt(ty == "std::string" ? "%u, %u, (%s).length(), (%s).c_str()" : "%u, %u, strlen(%s), %s", v.name, v.type, id.c_str(), id.c_str()));
                if (bl.size() >= P.blobs_per_call) flush();
            } else {
                if (!bl.empty()) flush();
                std::string sz = c.fmt == M_POINTER ? "sizeof(void*)" : std::string("sizeof(") + c.name + ")";
                va.push_back(pbt::fmt("%u, %u, %s, %s, %s", v.name, v.type, sz.c_str(), FORMATS[c.fmt], id.c_str()));
            }
        }
    }
    flush();
    s += pbt::fmt("    __write_end_entry(%s, %s);\n", WRITER_LOG, WRITER_LOCK);
    return "  {\n" + decl + s + "  }\n";
}
static Program genProgram(Gen & g, int kind) {
    Program P;
    P.cxx = g.chance(1, 4);
    P.blobs_per_call = g.chance(3, 4) ? 6 : 10000;
    size_t nn = g.chance(15, 16) ? 1 + g.count(5, 12) : 0;
    for (size_t i = 0; i < nn; i++) P.t.names.push_back(cname(g, g.chance(1, 4)));
    size_t nt = nn && g.chance(15, 16) ? 1 + g.count(6, 12) : 0;
    for (size_t i = 0; i < nt; i++) {
        size_t c = g.draw(P.cxx ? NCTYPES : NCTYPES - 1);
        P.ctype.push_back(c);
        MType y = { (uint32_t) g.draw(nn), CTYPES[c].fmt, CTYPES[c].size };
        P.t.types.push_back(y);
    }
    size_t nth = kind == 1 || (kind == 2 && g.chance(1, 3)) ? 1 + g.draw(3) : 0;
    static const int codes[] = { 0, 0, 1, 7, 255 };
    P.code = codes[g.draw(5)];
    std::vector<uint64_t> addr;
    uint64_t id = 0;
    for (size_t i = 0; i <= nth; i++) {
        P.threads.push_back(std::vector<MPoint>());
        size_t n = g.count(6, 10);
        for (size_t k = 0; k < n; k++) {
            WPoint w = wPoint(g, P.t, addr, 4);
            MPoint & p = w.m;
            if (k == 0 && !p.vars.empty() && g.chance(1, 10)) {        // a function with very many variables
                static const size_t many[] = { 40, 128, 129, 256, 257, 300 };
                size_t m = many[g.draw(6)], from = p.vars.size();
                bool alike = g.coin();
                while (p.vars.size() < m) {
                    MVar v = p.vars[alike ? 0 : g.draw(from)];
                    v.name = p.vars.size() % P.t.names.size();
                    p.order.push_back(std::make_pair((uint8_t) T_VAR, (uint32_t) p.vars.size()));
                    p.vars.push_back(v);
                }
                g.label("many-variables");
            }
            for (auto & v : p.vars) if (v.fmt == M_BLOB) {
                if (std::string(CTYPES[P.ctype[v.type]].name) != "std::string") v.blob.erase(std::remove(v.blob.begin(), v.blob.end(), '\0'), v.blob.end());
                v.size = v.blob.size();
            }
            if (nth) p.stmt = (p.stmt << 12 & 0xffffffff000ull) | (g.coin() ? 1ull << 63 : 0) | ++id;
            P.threads.back().push_back(p);
        }
    }
    size_t n0 = P.threads[0].size();
    P.before = g.chance(1, 3) ? g.draw(n0 + 1) : 0;
    P.after = g.chance(1, 3) ? g.draw(n0 - P.before + 1) : 0;
    P.before_how = g.draw(3);
    P.after_how = g.draw(3);
    for (size_t i = 0; i <= nth; i++) P.repeat.push_back(i == 0 || g.chance(2, 3) ? 1 : g.coin() ? 20 : 300);
    return P;
}
static const char SAID[] = "what the program prints\n", LAST[] = "the last line\n";
static std::string sources(Gen & g, Program & P, const std::string & open_expr, int stop, bool split, bool prints, bool hurry) {
    std::string inc = "#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <signal.h>\n#include <pthread.h>\n"
                      "static unsigned verif_sleep(unsigned s) { usleep(s * " + std::string(hurry ? "20" : "2000") + "); return 0; }\n#define sleep(n) verif_sleep(n)\n";
    if (P.cxx) inc = "#include <string>\n" + inc;
    std::string a = std::string(WRITER_FORWARD) + inc, b = a;
    for (size_t i = 1; i < P.threads.size(); i++) {
        std::string f = pbt::fmt("%svoid *worker%zu(void *arg) {\n", P.cxx ? "extern \"C\" " : "", i);
        f += pbt::fmt("  int round;\n  for (round = 0; round < %zu; round++) {\n", P.repeat[i]);
        for (auto & p : P.threads[i]) f += pointCode(P, p);
        f += "  }\n  return NULL;\n}\n";
        if (split && i == 1) { b += f; a += pbt::fmt("%svoid *worker%zu(void *arg);\n", P.cxx ? "extern \"C\" " : "", i); }
        else a += f;
    }
    const std::vector<MPoint> & mine = P.threads[0];
    if (stop > 1) P.after = 0;
    bool object = P.cxx && P.before_how == 2;
    std::string pre, post, outside;
    for (size_t i = 0; i < P.before; i++) pre += pointCode(P, mine[i]);
    for (size_t i = mine.size() - P.after; i < mine.size(); i++) post += pointCode(P, mine[i]);
    if (P.before) outside += object ? "struct Before {\n  Before() {\n" + pre + "  }\n} before_main;\n"
                                    : std::string("static void __attribute__((constructor") + (P.before_how ? "" : "(102)") + ")) before_main(void) {\n" + pre + "}\n";
    if (P.after) outside += P.cxx && P.after_how == 2 ? "struct After {\n  ~After() {\n" + post + "  }\n} after_main;\n"
                                                      : (P.after_how ? "static void " : "static void __attribute__((destructor)) ") + std::string("after_main(void) {\n") + post + "}\n";
    bool reg = P.after && P.after_how && !(P.cxx && P.after_how == 2);
    if (split && !reg && g.coin()) b += outside; else a += outside;
    a += WRITER_ENTRY;
    a += "int main(int argc, char **argv) {\n";
    if (prints) a += "  if (write(1, " + cLit(SAID) + pbt::fmt(", %zu) < 0) return 99;\n", strlen(SAID));
    if (reg) a += "  atexit(after_main);\n";
    for (size_t i = 1; i < P.threads.size(); i++) a += pbt::fmt("  pthread_t t%zu; pthread_create(&t%zu, NULL, worker%zu, NULL);\n", i, i, i);
    for (size_t i = P.before; i < mine.size() - P.after; i++) a += pointCode(P, mine[i]);
    for (size_t i = 1; i < P.threads.size() && stop != 5; i++) a += pbt::fmt("  pthread_join(t%zu, NULL);\n", i);
    if (prints && stop < 2) a += "  fputs(" + cLit(LAST) + ", stdout);\n";
    static const char *ends[] = { "return %d;", "exit(%d);", "_exit(%d);", "abort();", "kill(getpid(), SIGKILL);", "pthread_exit(NULL);" };
    a += "  " + pbt::fmt(ends[stop], P.code) + "\n  return 0;\n}\n";
    a += WRITER_IMPLEMENTATION;
    b += WRITER_IMPLEMENTATION;
    std::string names = "const char **names = NULL", types = "const __trace_type_description *types = NULL";
    if (!P.t.names.empty()) { names = "const char *names[] = {"; for (auto & s : P.t.names) names += cLit(s) + ", "; names += "}"; }
    if (!P.t.types.empty()) {
        types = "const __trace_type_description types[] = {";
        for (size_t i = 0; i < P.t.types.size(); i++) {
            const CType & c = CTYPES[P.ctype[i]];
            std::string sz = c.fmt == M_POINTER ? "sizeof(void*)" : c.fmt == M_BLOB ? "0" : std::string("sizeof(") + c.name + ")";
            types += pbt::fmt("{%u, %s, %s}, ", P.t.types[i].name, FORMATS[c.fmt], sz.c_str());
        }
        types += "}";
    }
    std::string init = WRITER_INIT;
    init = replaceAll(init, "\001env\002", WRITER_ENV);
    init = replaceAll(init, "\001open\002", open_expr);
    init = replaceAll(init, "\001n_names\002", std::to_string(P.t.names.size()));
    init = replaceAll(init, "\001n_types\002", std::to_string(P.t.types.size()));
    init = replaceAll(init, "\001names\002", names);
    init = replaceAll(init, "\001types\002", types);
    a += init;
    P.tu.push_back(a);
    if (split) P.tu.push_back(b);
    return a;
}
static pid_t start(const std::vector<std::string> & cmd, const std::string & out, const std::string & err, const std::vector<std::string> & env) {
    std::vector<char *> av, ev;
    for (auto & s : cmd) av.push_back((char *) s.c_str());
    av.push_back(NULL);
    for (char **e = environ; *e; e++) if (strncmp(*e, "__SEL", 5) && strncmp(*e, "MALLOC_", 7)) ev.push_back(*e);
    for (auto & s : env) ev.push_back((char *) s.c_str());
    ev.push_back(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), in = open("/dev/null", O_RDONLY);
        dup2(in, 0); dup2(fd, 1);
        dup2(err.empty() ? fd : open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
        execvpe(av[0], av.data(), ev.data());
        _exit(127);
    }
    return pid;
}
// 0: still running after the time
static bool finish(pid_t pid, double seconds, int *st) {
    double end = pbt::now() + seconds;
    while (1) {
        pid_t r = waitpid(pid, st, WNOHANG);
        if (r == pid || (r < 0 && errno != EINTR)) return true;
        if (pbt::now() > end) { kill(pid, SIGKILL); while (waitpid(pid, st, 0) < 0 && errno == EINTR) {} return false; }
        usleep(1000);
    }
}
// kind 0: one thread, a file; 1: threads; 2: anything
static void program(Gen & g, int kind) {
    Program P = genProgram(g, kind);
    int mode = g.draw(kind == 2 ? 6 : 1);             // 0 fixed file, 1 file from the environment, 2 handshake, 3 handshake with a pipe, 4 stdout, 5 stderr
    int stop = g.draw(6);             // 0 return, 1 exit, 2 _exit, 3 abort, 4 killed, 5 main ends, threads go on
    bool split = P.threads.size() > 1 && g.coin();
    int hand = g.draw(5);             // the handshake file: 0 there before, 1 comes later, 2 comes empty and is filled later, 3 filled without end of line, 4 with more lines
    bool hurry = (mode == 2 || mode == 3) && (hand == 1 || hand == 2) && g.chance(1, 3);    // a very long wait
    bool prints = mode != 4;
    const char *opt[] = { "-O0", "-O2" };
    std::string O = opt[g.draw(2)];
    std::string dir = scratchPath("prog");
    PBT_CHECK(mkdir(dir.c_str(), 0700) == 0 || errno == EEXIST, "mkdir");
    // where the trace goes: a plain path, an odd name or a long path
    std::string name = "trace";
    std::vector<std::string> made;
    int odd = g.draw(5);
    if (odd == 3) {
        static const char *names[] = { "a trace", " trace", "trace ", "tra\tce", "trace\r", "tr%s%n", "tr\"ace\\", "tr\xc3\xa9", "#", "~", "trace\t ", "-" };
        name = names[g.draw(12)];
    }
    struct Remove { std::vector<std::string> & v; std::string last, hs; ~Remove() { unlink(last.c_str()); unlink(hs.c_str()); while (!v.empty()) { rmdir(v.back().c_str()); v.pop_back(); } } } rem = { made, "", "" };
    std::string trace = dir;
    if (odd == 4) {
        size_t want = g.coin() ? 250 + g.draw(20) : 100 + g.draw(900);
        while (trace.size() + 110 < want) {
            trace += "/" + std::string(1 + g.draw(100), 'd');
            PBT_CHECK(mkdir(trace.c_str(), 0700) == 0 || errno == EEXIST, "mkdir");
            made.push_back(trace);
        }
        if (trace.size() + 6 < want) name = std::string(want - trace.size() - 1, 't');
        g.label(want > 255, "long-path");
    }
    std::string deep = trace;
    trace += "/" + name;
    rem.last = trace;
    static const char *hnames[] = { "handshake", "handshake", "hand shake", "-h", "%s%n", "h\xc3\xa9" };
    std::string out = dir + "/out", err = dir + "/err", exe = dir + "/prog", hs = (odd == 4 ? deep : dir) + "/" + hnames[g.draw(6)];
    rem.hs = hs;
    unlink(trace.c_str()); unlink(hs.c_str());
    std::string open_expr = mode == 0 ? "fopen(" + cLit(trace) + ", \"w\")" : mode == 1 ? "fopen(getenv(\"TRACE_OUT\"), \"w\")" : mode == 4 ? "stdout" : mode == 5 ? "stderr" : "fopen(buffer, \"w\")";
    sources(g, P, open_expr, stop, split, prints, hurry);
    size_t points = 0;
    for (size_t i = 0; i < P.threads.size(); i++) points += P.threads[i].size() * P.repeat[i];
    if (g.rendering) {
        g.out << (P.cxx ? "C++" : "C") << " program, output mode " << mode << ", ends by " << stop << ", " << O << (split ? ", two files" : "") << ", handshake " << hand << ", trace in " << cLit(trace.substr(dir.size())) << "; " << showTrace(P.t) << "\n";
        for (size_t i = 0; i < P.threads.size(); i++) for (auto & p : P.threads[i]) g.out << "thread " << i << ": " << showPoint(p) << "\n";
    }
    if (g.rendering) g.out << P.before << " points before main, " << P.after << " after it; exit status " << P.code << "\n";
    std::vector<std::string> cmd;
    bool reversed = split && g.coin();
    cmd.push_back(P.cxx ? "g++" : "gcc");
    cmd.push_back("-w"); cmd.push_back(O);
    for (size_t i = 0; i < P.tu.size(); i++) {
        std::string f = dir + pbt::fmt("/p%zu.%s", i, P.cxx ? "cpp" : "c");
        std::ofstream(f.c_str()) << P.tu[i];
        cmd.insert(reversed ? cmd.begin() + 3 : cmd.end(), f);
    }
    cmd.push_back("-o"); cmd.push_back(exe); cmd.push_back("-lpthread");
    std::vector<std::string> env;
    int st;
    g.at("compiling");
    PBT_CHECK(finish(start(cmd, out, "", env), 120, &st), "compiling takes too long");
    g.tick();
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the instrumented program does not compile: %s", readFile(out).substr(0, 1500).c_str());
    g.at("running");
    auto handshake = [&](const std::string & text) { std::ofstream(hs.c_str()) << text; };
    std::string text = trace + (hand == 3 ? "" : hand == 4 ? "\nsecond line\n\nlast" : "\n");
    if (mode == 1) env.push_back("TRACE_OUT=" + trace);
    if (mode == 2 || mode == 3) {
        env.push_back(std::string(WRITER_ENV) + "=" + hs);
        if (mode == 3) PBT_CHECK(mkfifo(trace.c_str(), 0600) == 0, "mkfifo");
        if (hand == 0 || hand >= 3) handshake(text);
        if (hand == 2) handshake("");
    }
    cmd.assign(1, exe);
    pid_t pid = start(cmd, out, err, env);
    if ((mode == 2 || mode == 3) && (hand == 1 || hand == 2)) {
        usleep(hurry ? 300000 + g.draw(3) * 100000 : g.draw(12) * 1000);
        int early;
        bool over = waitpid(pid, &early, WNOHANG) == pid;
        if (hand == 1) {                                     // complete when it appears
            std::string tmp = hs + ".tmp";
            std::ofstream(tmp.c_str()) << text;
            rename(tmp.c_str(), hs.c_str());
        } else { std::ofstream f(hs.c_str(), std::ios::app); f << text; }
        PBT_CHECK(!over, "the program did not wait for the handshake");
    }
    void *tr = NULL;
    bool have = false;
    if (mode == 3) {
        g.at("reading from the pipe");
        tr = read_trace(trace.c_str(), 20, 0);
        have = true;
    }
    struct Free { void *&p; ~Free() { if (p) free_trace(p); } } fr = { tr };
    g.at("waiting for the program to end");
    bool ended = finish(pid, 12, &st);
    g.tick();
    PBT_CHECK(ended, "the program does not end");
    bool sig = stop == 3 || stop == 4;
    PBT_CHECK(sig ? WIFSIGNALED(st) && WTERMSIG(st) == (stop == 3 ? SIGABRT : SIGKILL) : WIFEXITED(st) && WEXITSTATUS(st) == (stop == 5 ? 0 : P.code),
              "the program ends with status 0x%x", st);
    if (mode == 2 || mode == 3) PBT_CHECK(access(hs.c_str(), F_OK) != 0, "the handshake file is still there");
    if (prints) PBT_CHECK(readFile(out) == std::string(SAID) + (stop < 2 ? LAST : ""), "the program printed \"%s\"", readFile(out).substr(0, 300).c_str());
    if (mode != 5) PBT_CHECK(readFile(err).empty(), "there is output on the error stream: %s", readFile(err).substr(0, 300).c_str());
    if (!have) tr = read_trace((mode == 4 ? out : mode == 5 ? err : trace).c_str(), 0, 0);
    g.label(pbt::fmt("mode-%d", mode));
    g.label(P.threads.size() > 1, "threads");
    g.label(P.cxx, "C++");
    g.label(split, "two-files");
    g.label(stop >= 2 && stop < 5, "dies");
    g.label(P.before > 0, "points-before-main");
    g.label(P.after > 0, "points-after-main");
    g.label(hurry, "long-wait");
    g.evals();
    if (!tr && points == 0 && stop >= 2) return;               // the header was never flushed
    PBT_CHECK(tr, "the trace of the program cannot be read");
    const Trace & x = *(const Trace *) tr;
    MTrace m = P.t;
    if (P.threads.size() == 1) m.points = P.threads[0];
    else {
        std::map<uint64_t, std::pair<size_t, size_t> > where;
        for (size_t i = 0; i < P.threads.size(); i++) for (size_t k = 0; k < P.threads[i].size(); k++) where[P.threads[i][k].stmt] = std::make_pair(i, k);
        std::vector<size_t> next(P.threads.size(), 0);
        for (auto & q : x.getPoints()) {
            auto it = where.find(q.getStatement());
            PBT_CHECK(it != where.end(), "a point has statement id 0x%llx, which no thread wrote", (unsigned long long) q.getStatement());
            PBT_CHECK(it->second.second == next[it->second.first]++ % P.threads[it->second.first].size(), "the points of thread %zu are out of order", it->second.first);
            m.points.push_back(P.threads[it->second.first][it->second.second]);
        }
        PBT_CHECK(m.points.size() == points, "%zu of %zu points are in the trace", m.points.size(), points);
    }
    annotate(m);
    std::string s = cmpTrace(x, m, m.points.size());
    PBT_CHECK(s.empty(), "%s", s.c_str());
    if (points > 1) g.nontrivial();
}
static pbt::Register r4("program", [](Gen & g) { program(g, 2); }, 4, 200);
static pbt::Register r5("program-values", [](Gen & g) { program(g, 0); }, 4, 200);
static pbt::Register r6("program-threads", [](Gen & g) { program(g, 1); }, 4, 200);

int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
