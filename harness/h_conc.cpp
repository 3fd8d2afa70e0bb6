// C15: traces added from several threads at once.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define FREE_THREADS 1
#endif
#endif
#include "sched.hpp"
#include "model.hpp"
#include "raw.hpp"
#include "TraceDB.hpp"

using pbt::Gen;

#ifndef FREE_THREADS
// Yield points.
#include <new>
static size_t read_limit = 0;
void *operator new(size_t n) {
    void *p = n > ((size_t) 1 << 30) ? NULL : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    sched::point();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); sched::point(); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
extern "C" {
ssize_t read(int fd, void *buf, size_t n) {
    if (sched::self >= 0) { sched::point(); if (read_limit && n > read_limit) n = read_limit; }
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (sched::self >= 0) sched::point();
    return r;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return sched::mutexLock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return sched::mutexUnlock(m); }
}
#endif

struct File {
    MTrace t;
    size_t limit;
    bool good;
    std::unique_ptr<ScratchFile> f;
    RawTrace raw;                        // in-memory points, if f is not set
    std::unique_ptr<CPoints> c;
};
struct Task { size_t file, db; int rc; };

static void conc(Gen & g) {
    srand(g.draw(1000));
    size_t nthreads = 2 + g.draw(3), ndbs = g.chance(1, 5) ? 2 : 1;
    TraceOpts o;
    o.bulk = 0; o.max_points = 8; o.max_vars = 8; o.point_den = 4; o.weird_names = g.chance(1, 4);
    std::vector<File> files;
    std::vector<std::vector<Task> > tasks(nthreads);
    MTrace base = genTrace(g, o);
    for (size_t i = 0; i < nthreads; i++) {
        size_t n = 1 + g.count(3, 2);
        for (size_t k = 0; k < n; k++) {
            File f;
            if (g.chance(1, 6)) {
                f.raw = genRaw(g, 4, false);
                f.raw.names.push_back(pbt::fmt("#%zu", files.size()));
                f.limit = 0;
                f.good = true;
                f.c.reset(new CPoints);
                toC(g, f.raw, *f.c);
                Task t = { files.size(), g.draw(ndbs), -1 };
                tasks[i].push_back(t);
                if (g.rendering) g.out << "thread " << i << " adds #" << files.size() << " to db" << t.db << ": " << showRaw(f.raw) << "\n";
                g.label("in-memory points");
                files.push_back(std::move(f));
                continue;
            }
            f.t = g.coin() ? base : genTrace(g, o);      // same variables and points, or others
            if (!f.t.points.empty() && g.chance(1, 3)) std::reverse(f.t.points.begin(), f.t.points.end());
            f.t.names.push_back(pbt::fmt("#%zu", files.size()));    // tells the traces apart
            annotate(f.t);
            f.limit = g.chance(1, 6) ? 1 + g.draw(f.t.points.size() + 1) : 0;
            f.good = !g.chance(1, 6);
            std::string bytes = encode(f.t);
            if (!f.good) { bytes += g.coin() ? std::string("\x02\xff\xff\xff\xff\xff\xff\xff\xff", 9) : std::string("\x04\x01", 2); f.limit = 0; }
            f.f.reset(new ScratchFile(bytes, pbt::fmt("c%zu", files.size()).c_str()));
            if (f.limit && f.limit < f.t.points.size()) f.t.points.resize(f.limit);
            Task t = { files.size(), g.draw(ndbs), -1 };
            tasks[i].push_back(t);
            if (g.rendering) g.out << "thread " << i << " adds #" << files.size() << " to db" << t.db << (f.good ? "" : " (malformed)") << " limit " << f.limit << ": " << showTrace(f.t) << "\n";
            files.push_back(std::move(f));
        }
    }
    // what is in the databases before
    std::vector<MTrace> pre;
    size_t npre = g.draw(4);
    for (size_t i = 0; i < npre; i++) { pre.push_back(base); pre.back().names.push_back(pbt::fmt("pre%zu", i)); }
    struct Dbs { std::vector<void *> p; ~Dbs() { for (auto x : p) if (x) free_db(x); } } dbs;
    std::vector<std::function<void()> > fs;
    auto setup = [&]() {
        for (size_t i = 0; i < dbs.p.size(); i++) free_db(dbs.p[i]);
        dbs.p.clear();
        for (size_t d = 0; d < ndbs; d++) {
            dbs.p.push_back(create_db());
            for (auto & t : pre) { std::istringstream is(encode(t)); ((TraceDB *) dbs.p[d])->addTrace(Trace(is)); }
        }
        for (auto & v : tasks) for (auto & t : v) t.rc = -1;
    };
    for (size_t i = 0; i < nthreads; i++)
        fs.push_back([&, i]() {
            for (auto & t : tasks[i]) {
                File & f = files[t.file];
                if (f.c) t.rc = add_trace_points(dbs.p[t.db], f.c->arr, f.c->pts.size(), f.c->names.data(), f.c->names.size());
                else t.rc = add_trace(dbs.p[t.db], f.f->path.c_str(), 0, f.limit);
            }
        });
    auto verify = [&](const char *when) {
        for (size_t i = 0; i < nthreads; i++) for (auto & t : tasks[i])
            PBT_CHECK(t.rc == (files[t.file].good ? 1 : 0), "%s: adding #%zu returned %d", when, t.file, t.rc);
        for (size_t d = 0; d < ndbs; d++) {
            size_t want = npre;
            for (auto & v : tasks) for (auto & t : v) if (t.db == d && files[t.file].good) want++;
            PBT_CHECK(n_traces(dbs.p[d]) == want, "%s: db%zu holds %u traces, %zu were added", when, d, n_traces(dbs.p[d]), want);
            std::map<size_t, size_t> pos;
            for (size_t i = 0; i < want; i++) {
                const void *tr = get_trace(dbs.p[d], i);
                std::string s;
                if (i < npre) s = cmpCTrace(tr, pre[i], pre[i].points.size());
                else {
                    const Trace & x = *(const Trace *) tr;
                    size_t id = SIZE_MAX;
                    if (!x.getNames().empty() && x.getNames().back()[0] == '#') id = strtoul(x.getNames().back().c_str() + 1, NULL, 10);
                    PBT_CHECK(id < files.size() && files[id].good, "%s: db%zu[%zu] is none of the traces added", when, d, i);
                    PBT_CHECK(!pos.count(id), "%s: db%zu holds #%zu twice", when, d, id);
                    pos[id] = i;
                    if (files[id].c) files[id].t = rawModel(files[id].raw, x);
                    s = cmpCTrace(tr, files[id].t, files[id].t.points.size());
                    if (s.empty()) s = cmpTrace(x, files[id].t, files[id].t.points.size());
                    if (!s.empty()) s = pbt::fmt("#%zu: ", id) + s;
                }
                PBT_CHECK(s.empty(), "%s: db%zu[%zu]: %s", when, d, i, s.c_str());
            }
            for (auto & v : tasks) {
                size_t last = 0;
                for (auto & t : v) if (t.db == d && files[t.file].good) {
                    PBT_CHECK(pos.count(t.file), "%s: #%zu was added but is not in db%zu", when, t.file, d);
                    PBT_CHECK(pos[t.file] >= last, "%s: #%zu is stored before a trace added earlier by the same thread", when, t.file);
                    last = pos[t.file];
                }
            }
        }
    };
#ifdef FREE_THREADS
    for (int round = 0; round < 3; round++) {
        setup();
        std::atomic<size_t> ready(0);
        std::vector<std::thread> ts;
        for (size_t i = 0; i < nthreads; i++)
            ts.push_back(std::thread([&, i]() { ready++; while (ready < nthreads) {} fs[i](); }));
        for (auto & t : ts) t.join();
        verify("threads running freely");
        g.evals();
        g.tick();
    }
    g.nontrivial();
#else
    static const size_t lim[] = { 0, 1, 3, 8, 30, 100 };
    read_limit = lim[g.draw(6)];
    // one thread after the other, to know how long it takes
    setup();
    sched::Plan none;
    none.every = 0;
    none.seed = 0;
    g.at("one after the other");
    uint64_t steps = sched::run(none, fs);
    verify("one after the other");
    size_t rounds = 1 + g.draw(4);
    uint64_t all = 0;
    for (size_t r = 0; r < rounds; r++) {
        sched::Plan p = sched::genPlan(g, steps);
        if (g.rendering) g.out << "schedule: " << sched::showPlan(p) << ", reads of at most " << read_limit << " bytes\n";
        setup();
        g.at("under a schedule: %s", sched::showPlan(p).c_str());
        uint64_t sw = 0, stuck = 0;
        sched::run(p, fs, &sw, &stuck);
        verify("under a schedule");
        all += sw;
        g.label(stuck > 0, "scheduler-bypassed");
        g.evals();
        g.tick();
    }
    g.label(all > nthreads, "preempted");
    g.label(all > 50, "switches>50");
    if (all > nthreads) g.nontrivial();
#endif
    g.label(pbt::fmt("threads-%zu", nthreads));
}
static pbt::Register c1("concurrent-add", conc, 10, 60);

int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
