// C19, resources: any cycle of interface calls that frees everything, repeated,
// leaves no open descriptor and no memory behind.  Every block allocated with
// malloc and friends is counted (plain build only).
#include "query.hpp"
#include "TraceDB.hpp"
#include <atomic>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <poll.h>
#include <sys/select.h>

using pbt::Gen;

static std::atomic<long> live_blocks(0), live_bytes(0);
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static const size_t TOO_BIG = (size_t) 1 << 30;     // fails, as on a machine with little memory
static void *counted(void *p) { if (p) { live_blocks++; live_bytes += malloc_usable_size(p); } return p; }
static void uncount(void *p) { if (p) { live_blocks--; live_bytes -= malloc_usable_size(p); } }
void *malloc(size_t n) { if (n > TOO_BIG) { errno = ENOMEM; return NULL; } return counted(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { if (b && a > TOO_BIG / b) { errno = ENOMEM; return NULL; } return counted(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
    if (n > TOO_BIG) { errno = ENOMEM; return NULL; }
    if (p) uncount(p);
    void *q = __libc_realloc(p, n);
    if (q) counted(q); else if (p && n) counted(p);
    return q;
}
void *memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void **out, size_t a, size_t n) { *out = counted(__libc_memalign(a, n)); return *out ? 0 : ENOMEM; }
void free(void *p) { uncount(p); __libc_free(p); }

// Time-outs run a thousand times faster.
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    static int (*real)(int, fd_set *, fd_set *, fd_set *, struct timeval *) = NULL;
    if (!real) *(void **) &real = dlsym(RTLD_NEXT, "select");
    struct timeval u;
    if (t) { uint64_t us = ((uint64_t) t->tv_sec * 1000000 + t->tv_usec) / 1000; u.tv_sec = us / 1000000; u.tv_usec = us % 1000000; }
    return real(n, r, w, e, t ? &u : NULL);
}
int poll(struct pollfd *f, nfds_t n, int ms) {
    static int (*real)(struct pollfd *, nfds_t, int) = NULL;
    if (!real) *(void **) &real = dlsym(RTLD_NEXT, "poll");
    return real(f, n, ms > 0 ? (ms + 999) / 1000 : ms);
}
}

static std::set<int> openFds() {
    std::set<int> s;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return s;
    int self = dirfd(d);
    while (struct dirent *e = readdir(d)) { int fd = atoi(e->d_name); if (e->d_name[0] != '.' && fd != self) s.insert(fd); }
    closedir(d);
    return s;
}

enum Op { O_READ, O_ADD, O_POINTS, O_NAMES, O_QUERY, O_SERIALIZE, O_ADD_POINTS, O_FRESH_DB, O_FREE_DB };
struct Step {
    int op;
    std::string path;
    uint32_t timeout;
    uint64_t limit;
    size_t which;
    MQuery q;
    bool ok;
};

struct Script {
    std::vector<MTrace> ts;
    std::vector<Step> steps;
    std::vector<c_trace_point_struct> pts;
    std::vector<c_trace_var_info_struct> vars;
    std::vector<uint64_t> aux;
    std::vector<char *> names;

    void inspect(void *tr, bool names) {
        if (names) { free(get_names(tr)); free(get_types(tr)); }
        else { c_trace_point_struct *p = get_points(tr); free_trace_points(p, trace_size(tr)); }
    }
    // one cycle; everything allocated is released
    void run() {
        void *db = create_db();
        for (auto & s : steps) {
            uint32_t n = n_traces(db);
            switch (s.op) {
            case O_READ: {
                void *t = read_trace(s.path.c_str(), s.timeout, s.limit);
                if (t) { inspect(t, s.which % 2); free_trace(t); }
                break;
            }
            case O_ADD: add_trace(db, s.path.c_str(), s.timeout, s.limit); break;
            case O_POINTS: if (n) inspect((void *) get_trace(db, s.which % n), false); break;
            case O_NAMES: if (n) inspect((void *) get_trace(db, s.which % n), true); break;
            case O_QUERY: {
                if (!n) break;
                CQuery c(s.q);
                c_trace_point_struct *res = NULL;
                uint64_t nr = 0;
                query_trace(db, s.which % n, c.fv.data(), c.fv.size(), c.hard, (const c_predicate **) c.soft.data(), c.soft.size(),
                            s.q.seed, s.q.keep, s.q.mask, s.q.stmt, &res, &nr);
                free_trace_points(res, nr);
                break;
            }
            case O_SERIALIZE: {
                char *t = serialize_trace_db(db);
                void *d2 = deserialize_trace_db(t);
                free(t);
                if (s.ok) std::swap(db, d2);
                free_db(d2);
                break;
            }
            case O_ADD_POINTS: add_trace_points(db, pts.data(), pts.size(), names.data(), names.size()); break;
            case O_FRESH_DB: { void *d2 = create_db(); if (n) add_trace(d2, s.path.c_str(), 0, s.limit); free_db(d2); break; }
            case O_FREE_DB: free_db(db); db = create_db(); break;
            }
        }
        free_db(db);
    }
};

static void leaks(Gen & g) {
    srand(g.draw(1000));
    Script sc;
    std::vector<std::unique_ptr<ScratchFile> > good, bad;
    size_t nt = 1 + g.draw(3);
    for (size_t i = 0; i < nt; i++) {
        TraceOpts o;
        o.bulk = 300; o.max_points = 8; o.max_vars = 8;
        if (g.chance(1, 30)) { o.bulk = 1; o.dim = 5; g.label("many-blocks"); }
        sc.ts.push_back(genTrace(g, o));
        MTrace & t = sc.ts.back();
        if (!t.points.empty() && g.chance(1, 8)) {       // a few hundred of something
            MPoint & p = t.points[g.draw(t.points.size())];
            static const size_t some[] = { 20, 33, 64, 100, 130, 260, 520, 1030 };
            size_t n = some[g.draw(8)];
            switch (g.draw(4)) {
            case 0: while (p.aux.size() < n) p.aux.push_back(p.aux.size()); break;
            case 1: if (!p.vars.empty()) { n = std::min<size_t>(n, 300); while (p.vars.size() < n) { MVar v = p.vars[0]; p.vars.push_back(v); } } break;
            case 2: { MPoint q = p; while (t.points.size() < n) t.points.push_back(q); break; }
            default: while (t.names.size() < n) t.names.push_back(pbt::fmt("name%zu", t.names.size()));
            }
            for (auto & q : t.points) canonicalOrder(q);
            annotate(t);
            g.label("some-hundreds");
        }
        if (g.rendering) g.out << "trace " << i << ": " << showTrace(sc.ts[i]) << "\n";
        std::string bytes = encode(sc.ts[i]);
        good.push_back(std::unique_ptr<ScratchFile>(new ScratchFile(bytes, pbt::fmt("g%zu", i).c_str())));
        // and a damaged copy
        std::string b = bytes;
        switch (g.draw(5)) {
        case 0: b.resize(g.draw(b.size() + 1)); break;
        case 1: if (!b.empty()) b[g.draw(b.size())] ^= 1 << g.draw(8); break;
        case 2: b += std::string("\x02\xff\xff\xff\xff\xff\xff\xff\xff", 9); break;
        case 3: b += (char) (5 + g.draw(250)); break;
        default: if (!b.empty()) { b.resize(1 + g.draw(b.size())); b[g.draw(b.size())] = (char) 0xff; }
        }
        bad.push_back(std::unique_ptr<ScratchFile>(new ScratchFile(b, pbt::fmt("b%zu", i).c_str())));
    }
    std::string missing = scratchPath("none"), fifo = scratchPath("fifo");
    bool have_fifo = g.chance(1, 4);
    if (have_fifo) { unlink(fifo.c_str()); if (mkfifo(fifo.c_str(), 0600)) _exit(77); }
    struct Un { std::string p; bool on; ~Un() { if (on) unlink(p.c_str()); } } un = { fifo, have_fifo };
    // in-memory points over the names of the first trace
    {
        const std::vector<std::string> & nm = sc.ts[0].names;
        for (auto & s : nm) sc.names.push_back((char *) s.c_str());
        size_t np = nm.empty() ? 0 : g.draw(4);
        sc.vars.resize(8);
        sc.aux.assign(600, 7);
        for (auto & v : sc.vars) { memset(&v, 0, sizeof v); if (!nm.empty()) { v.var_name_index = g.draw(nm.size()); v.type_name_index = g.draw(nm.size()); v.value.u = g.interesting(); } }
        for (size_t i = 0; i < np; i++) {
            c_trace_point_struct p;
            memset(&p, 0, sizeof p);
            p.statement = i; p.vars = sc.vars.data() + i; p.n_vars = g.draw(5); p.aux = sc.aux.data(); p.n_aux = g.chance(1, 8) ? g.draw(600) : g.draw(4);
            sc.pts.push_back(p);
        }
    }
    size_t ns = 1 + g.count(6, 12);
    std::map<int, size_t> ops;
    for (size_t i = 0; i < ns; i++) {
        Step s;
        static const int w[] = { O_READ, O_READ, O_READ, O_ADD, O_ADD, O_ADD, O_ADD, O_POINTS, O_NAMES, O_QUERY, O_QUERY, O_QUERY, O_SERIALIZE, O_ADD_POINTS, O_FRESH_DB, O_FREE_DB };
        s.op = w[g.draw(16)];
        static const uint32_t to[] = { 0, 1, 0, 1, 2, 5, 30, 100, 3600, UINT32_MAX };
        s.timeout = to[g.draw(10)];
        s.limit = g.chance(1, 4) ? 1 + g.draw(4) : 0;
        s.which = g.draw(4);
        s.ok = g.coin();
        s.path = good[g.draw(nt)]->path;
        size_t k = g.draw(nt);
        if (s.op == O_READ || s.op == O_ADD)
            switch (g.draw(9)) {
            case 0: case 1: s.path = bad[k]->path; g.label("damaged-file"); break;
            case 2: s.path = missing; g.label("missing-file"); break;
            case 3: if (have_fifo) { s.path = fifo; s.timeout = 1; g.label("time-out"); } break;
            case 4: if (g.coin()) { s.path = "/dev/null"; g.label("empty-device"); } else { s.path = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp"; g.label("directory"); } break;
            }
        if (s.op == O_QUERY) {
            MTrace & t = sc.ts[k];
            // the database's traces are among these, in some order, so that types may be out of range: harmless
            s.q = genQuery(g, t, 2, 100);
            if (g.chance(1, 3)) genFilter(g, t, s.q);
            s.q.keep = g.draw(2);
            if (g.chance(1, 4)) s.q.seed = 1 + g.draw(9);
            if (!s.q.free.empty() && g.chance(1, 3)) s.q.soft.push_back(genBool(g, predCtx(t, s.q.free.size()), 2));
            // every trace of this case must stay affordable
            for (auto & u : sc.ts) { size_t tot = 0; for (auto & p : u.points) { tot += productSize(p, s.q.free); if (tot > 2000) break; } if (tot > 2000) { s.q.free.clear(); s.q.hard = MPred(); s.q.soft.clear(); break; } }
        }
        ops[s.op]++;
        sc.steps.push_back(s);
        if (g.rendering) g.out << "step " << i << ": op " << s.op << " path " << s.path << " timeout " << s.timeout << " limit " << s.limit << (s.op == O_QUERY ? " " + showQuery(s.q) : "") << "\n";
    }
    for (auto & o : ops) g.label(pbt::fmt("op-%d", o.first));
    if (ops[O_READ] + ops[O_ADD] > 0) g.nontrivial();
    static const int WARM = 3, N = 12;
    std::set<int> f0 = openFds();
    long b[3], y[3];
    for (int ph = 0; ph < 3; ph++) {
        for (int i = 0; i < (ph == 0 ? WARM : N); i++) { g.at("cycle %d of phase %d", i, ph); sc.run(); g.tick(); g.evals(); }
        b[ph] = live_blocks;
        y[ph] = live_bytes;
    }
    std::set<int> f1 = openFds();
    PBT_CHECK(f0 == f1, "%zu descriptors were open before and %zu after %d cycles", f0.size(), f1.size(), WARM + 2 * N);
    long d1 = b[1] - b[0], d2 = b[2] - b[1];
    PBT_CHECK(d1 < N || d2 < N, "%d repetitions of the cycle leave %ld and %ld additional memory blocks", N, d1, d2);
    long e1 = y[1] - y[0], e2 = y[2] - y[1];
    PBT_CHECK(e1 < 8 * N || e2 < 8 * N, "%d repetitions of the cycle leave %ld and %ld additional bytes", N, e1, e2);
}
static pbt::Register l1("leaks", leaks, 20, 120);

int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
