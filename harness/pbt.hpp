// pbt.hpp -- a small property-based testing engine.
//
// A test case is the sequence of bounded integers ("choices") its generator
// drew.  Cases are generated from (seed, property, case number), run in forked
// children in batches (so a crash, a sanitizer report or a hang is just
// another failing case, and code under test keeps its process-wide state over
// a batch), and a failing case is shrunk by editing its choice sequence,
// replayed three times in fresh processes and written to a replay file.
#ifndef PBT_HPP
#define PBT_HPP

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

static const size_t MAX_CHOICES = 1u << 18;
static const size_t MAX_BATCH = 256;
static const size_t MAX_LABELS = 160;
static const size_t MAX_PREFIX = MAX_BATCH;

struct CaseResult { uint64_t hash; uint8_t nontrivial; uint8_t discarded; };

struct Shm {
    volatile uint64_t progress;
    volatile uint64_t cur;            // position inside the batch
    volatile uint32_t n_choices;
    volatile uint32_t overflow;
    volatile int status;              // 0 running, 1 done, 2 property failed
    volatile uint32_t n_done;
    volatile uint64_t evals;          // inner evaluations (queries, cuts ...)
    char msg[16384];
    char render[65536];
    volatile uint32_t render_len;
    char label_name[MAX_LABELS][56];
    volatile uint64_t label_count[MAX_LABELS];
    volatile uint32_t n_labels;
    CaseResult res[MAX_BATCH];
    uint64_t choices[MAX_CHOICES];
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

class Gen {
    Shm *m_shm;
    const std::vector<uint64_t> *m_replay;
    uint64_t m_state;
    uint64_t m_hash;
    bool m_nontrivial;
    std::set<std::string> m_labels;
public:
    bool rendering;
    uint64_t case_no;
    std::ostringstream out;

    Gen(Shm *shm, const std::vector<uint64_t> *replay, uint64_t rng_seed,
        bool render) :
        m_shm(shm), m_replay(replay), m_state(rng_seed), m_hash(0),
        m_nontrivial(false), rendering(render), case_no(0) {
        m_shm->n_choices = 0;
        m_shm->overflow = 0;
    }

    // Uniform integer in [0, n); n == 0 means all 64 bits.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        uint32_t pos = m_shm->n_choices;
        if (m_replay) {
            v = pos < m_replay->size() ? (*m_replay)[pos] : 0;
            if (n != 0 && v >= n) v = n - 1;
        } else {
            m_state += 0x9e3779b97f4a7c15ull;
            uint64_t r = mix(m_state);
            v = n == 0 ? r : (uint64_t) (((unsigned __int128) r * n) >> 64);
        }
        if (pos < MAX_CHOICES) {
            m_shm->choices[pos] = v;
            m_shm->n_choices = pos + 1;
        } else {
            m_shm->overflow = 1;
            throw Discard();
        }
        m_hash = mix(m_hash ^ v) + n;
        return v;
    }

    uint64_t upto(uint64_t max) { return max == UINT64_MAX ? draw(0) : draw(max + 1); }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo) + 1); }
    // True with probability num/den; shrinks to false.
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
    bool coin() { return draw(2) == 1; }
    template <class T> const T & pick(const std::vector<T> & v) { return v[draw(v.size())]; }
    // Geometric list control: true with probability (den-1)/den.
    bool more(uint64_t den) { return draw(den) != 0; }
    size_t count(uint64_t den, size_t max) {
        size_t n = 0;
        while (n < max && more(den)) n++;
        return n;
    }
    uint64_t interesting() {
        switch (draw(8)) {
        case 0: return draw(4);
        case 1: return draw(300);
        case 2: { // around a power of two
            uint64_t p = 1ull << draw(64);
            return p + (uint64_t) range(-2, 2);
        }
        case 3: { // around a negated power of two
            uint64_t p = 1ull << draw(64);
            return (uint64_t) 0 - p + (uint64_t) range(-2, 2);
        }
        case 4: return (uint64_t) 0 - draw(4);
        case 5: return draw(1ull << 32);
        case 6: { // repeated byte
            uint64_t b = draw(256);
            return b * 0x0101010101010101ull;
        }
        default: return draw(0);
        }
    }

    void nontrivial() { m_nontrivial = true; }
    bool isNontrivial() const { return m_nontrivial; }
    uint64_t hash() const { return m_hash; }
    void label(const std::string & s) { m_labels.insert(s); }
    void label(bool c, const std::string & s) { if (c) m_labels.insert(s); }
    void evals(uint64_t n = 1) { m_shm->evals = m_shm->evals + n; }
    void tick() { m_shm->progress = m_shm->progress + 1; }
    const std::set<std::string> & labels() const { return m_labels; }
    // Where the failure is, for crashes: remembered in shared memory.
    void at(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(m_shm->msg, 512, fmt, ap);
        va_end(ap);
    }
};

inline std::string vfmt(const char *fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    Failure x = { vfmt(f, ap) };
    va_end(ap);
    throw x;
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

typedef std::function<void(Gen &)> PropFn;
struct Prop {
    std::string name;
    PropFn fn;
    unsigned batch;        // cases per process
    unsigned hang_s;       // no progress for so long is a hang
};
inline std::vector<Prop> & props() { static std::vector<Prop> p; return p; }
struct Register {
    Register(const char *name, PropFn fn, unsigned batch = 40, unsigned hang_s = 60) {
        Prop p = { name, fn, batch, hang_s };
        props().push_back(p);
    }
};

inline double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// What a child is asked to run: generated cases [first, first+n), or explicit
// sequences (the last one is the case proper, the others its history).
struct Job {
    bool generated;
    uint64_t first;
    unsigned n;
    std::vector<std::vector<uint64_t> > seqs;
    bool render;
};

enum Outcome { OK_DONE, FAILED, CRASHED, HUNG };
inline const char *outcomeName(Outcome o) {
    switch (o) {
    case OK_DONE: return "ok";
    case FAILED: return "property failed";
    case CRASHED: return "crash";
    default: return "hang";
    }
}

struct Slot {
    Shm *shm;
    pid_t pid;
    Job job;
    uint64_t last_progress;
    double last_time;
    int errfd;
    Slot() : shm(NULL), pid(0), last_progress(0), last_time(0), errfd(-1) {}
};

class Runner {
public:
    Prop prop;
    uint64_t seed;
    double hang_s;

    Runner() : seed(1), hang_s(60) {}

    static Shm *newShm() {
        void *p = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        return (Shm *) p;
    }
    void initSlot(Slot & s) {
        s.shm = newShm();
        char path[] = "/tmp/pbt-err-XXXXXX";
        s.errfd = mkstemp(path);
        unlink(path);
    }
    uint64_t caseSeed(uint64_t i) const {
        uint64_t h = 1469598103934665603ull;
        for (char c : prop.name) h = (h ^ (unsigned char) c) * 1099511628211ull;
        return mix(mix(seed ^ h) + mix(i));
    }

    // Runs in the child; never returns.
    void childMain(Slot & s) {
        Shm *shm = s.shm;
        dup2(s.errfd, 2);
        int nul = open("/dev/null", O_RDWR);
        if (nul >= 0) { dup2(nul, 1); dup2(nul, 0); }
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        unsigned n = s.job.generated ? s.job.n : s.job.seqs.size();
        for (unsigned k = 0; k < n; k++) {
            shm->cur = k;
            shm->progress = shm->progress + 1;
            shm->msg[0] = 0;
            bool last = k + 1 == n;
            Gen g(shm, s.job.generated ? NULL : &s.job.seqs[k],
                  s.job.generated ? caseSeed(s.job.first + k) : 0,
                  s.job.render && last);
            g.case_no = s.job.generated ? s.job.first + k : 0;
            CaseResult & r = shm->res[k < MAX_BATCH ? k : MAX_BATCH - 1];
            r.hash = 0; r.nontrivial = 0; r.discarded = 0;
            bool failed = false;
            std::string msg;
            try {
                prop.fn(g);
            } catch (const Discard &) {
                r.discarded = 1;
            } catch (const Failure & f) {
                failed = true; msg = f.msg;
            } catch (const std::exception & e) {
                failed = true; msg = std::string("unexpected exception: ") + e.what();
            }
            if (s.job.render && last) {
                std::string t = g.out.str();
                size_t len = std::min(t.size(), sizeof(shm->render) - 1);
                memcpy(shm->render, t.data(), len);
                shm->render[len] = 0;
                shm->render_len = len;
            }
            if (failed) {
                snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
                shm->status = 2;
                _exit(90);
            }
            r.hash = g.hash();
            r.nontrivial = g.isNontrivial() && !r.discarded;
            if (!r.discarded)
                for (auto & l : g.labels()) {
                    uint32_t i = 0;
                    for (; i < shm->n_labels; i++)
                        if (l == shm->label_name[i]) break;
                    if (i == MAX_LABELS) continue;
                    if (i == shm->n_labels) {
                        snprintf(shm->label_name[i], sizeof shm->label_name[i], "%s", l.c_str());
                        shm->label_count[i] = 0;
                        shm->n_labels = i + 1;
                    }
                    shm->label_count[i] = shm->label_count[i] + 1;
                }
            shm->n_done = k + 1;
        }
        shm->status = 1;
        _exit(0);
    }

    void start(Slot & s) {
        Shm *shm = s.shm;
        shm->progress = 0; shm->cur = 0; shm->n_choices = 0; shm->status = 0;
        shm->n_done = 0; shm->evals = 0; shm->msg[0] = 0; shm->render_len = 0;
        shm->render[0] = 0; shm->n_labels = 0;
        if (ftruncate(s.errfd, 0)) {}
        lseek(s.errfd, 0, SEEK_SET);
        s.last_progress = 0;
        s.last_time = now();
        fflush(stdout); fflush(stderr);
        s.pid = fork();
        if (s.pid < 0) { perror("fork"); exit(3); }
        if (s.pid == 0) childMain(s);
        setpgid(s.pid, s.pid);
    }

    // 0: still running, else finished with *o set.
    bool poll(Slot & s, Outcome *o, std::string *detail, double limit) {
        int st;
        pid_t r = waitpid(s.pid, &st, WNOHANG);
        if (r == s.pid) {
            killpg(s.pid, SIGKILL);
            s.pid = 0;
            if (s.shm->status == 1) { *o = OK_DONE; return true; }
            if (s.shm->status == 2) { *o = FAILED; *detail = s.shm->msg; return true; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
                fprintf(stderr, "harness error: scratch file could not be written\n");
                exit(3);
            }
            *o = CRASHED;
            std::string d = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st))
                                            : fmt("exited with status %d", WEXITSTATUS(st));
            if (s.shm->msg[0]) d += std::string(" at: ") + s.shm->msg;
            char buf[6001];
            ssize_t n = pread(s.errfd, buf, 6000, 0);
            if (n > 0) { buf[n] = 0; d += std::string("\n") + buf; }
            *detail = d;
            return true;
        }
        double t = now();
        if (s.shm->progress != s.last_progress) { s.last_progress = s.shm->progress; s.last_time = t; }
        else if (t - s.last_time > limit) {
            killpg(s.pid, SIGKILL);
            kill(s.pid, SIGKILL);
            waitpid(s.pid, &st, 0);
            s.pid = 0;
            *o = HUNG;
            *detail = fmt("no progress for %.0f s", limit);
            if (s.shm->msg[0]) *detail += std::string(" at: ") + s.shm->msg;
            return true;
        }
        return false;
    }

    Outcome runNow(Slot & s, std::string *detail, double limit) {
        start(s);
        Outcome o;
        useconds_t w = 200;
        while (!poll(s, &o, detail, limit)) {
            usleep(w);
            if (w < 5000) w += 200;
        }
        return o;
    }

    static std::vector<uint64_t> taken(Slot & s) {
        return std::vector<uint64_t>(s.shm->choices, s.shm->choices + s.shm->n_choices);
    }

    // Run explicit sequences; on failure *seqs is cut after the failing one and
    // the choices it really used replace it.
    Outcome trySeqs(Slot & s, std::vector<std::vector<uint64_t> > *seqs,
                    std::string *detail, double limit, bool render = false) {
        s.job.generated = false;
        s.job.seqs = *seqs;
        s.job.render = render;
        Outcome o = runNow(s, detail, limit);
        if (o != OK_DONE) {
            uint64_t k = s.shm->cur;
            if (k < seqs->size()) {
                seqs->resize(k + 1);
                std::vector<uint64_t> t = taken(s);
                if (t.size() <= (*seqs)[k].size() || o == FAILED) (*seqs)[k] = t;
            }
        }
        return o;
    }
};

struct RunStats {
    uint64_t cases, nontrivial, discarded, evals, unreproduced;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    RunStats() : cases(0), nontrivial(0), discarded(0), evals(0), unreproduced(0) {}
};

inline size_t cost(const std::vector<std::vector<uint64_t> > & s) {
    size_t c = 0;
    for (auto & x : s) c += x.size() + 1;
    return c;
}

inline void shrink(Runner & R, Slot & s, std::vector<std::vector<uint64_t> > & best,
                   Outcome & outcome, std::string & detail, double budget_s) {
    double end = now() + budget_s;
    double limit = outcome == HUNG ? 20 : R.hang_s;
    unsigned runs = 0;
    auto attempt = [&](const std::vector<std::vector<uint64_t> > & cand) -> bool {
        if (now() > end || runs > 3000) return false;
        runs++;
        std::vector<std::vector<uint64_t> > c = cand;
        std::string d;
        Outcome o = R.trySeqs(s, &c, &d, limit);
        if (o == outcome) {
            // accept only if not larger
            if (cost(c) < cost(best) || (cost(c) == cost(best) && c < best)) {
                best = c; detail = d;
                return true;
            }
        }
        return false;
    };
    // drop history cases
    for (size_t i = 0; best.size() > 1 && i + 1 < best.size();) {
        std::vector<std::vector<uint64_t> > c = best;
        c.erase(c.begin() + i);
        if (!attempt(c)) i++;
    }
    bool improved = true;
    while (improved && now() < end) {
        improved = false;
        size_t li = best.size() - 1;
        for (size_t len = best[li].size(); len >= 1; len = len / 2) {
            for (size_t pos = 0; pos + len <= best[li].size();) {
                std::vector<std::vector<uint64_t> > c = best;
                c[li].erase(c[li].begin() + pos, c[li].begin() + pos + len);
                if (attempt(c)) improved = true; else pos += len;
                if (now() > end) return;
                if (best.size() - 1 != li) { li = best.size() - 1; break; }
            }
            if (len == 1) break;
        }
        for (size_t len = 8; len >= 1; len /= 2)
            for (size_t pos = 0; pos + len <= best[li].size(); pos += len) {
                std::vector<std::vector<uint64_t> > c = best;
                bool any = false;
                for (size_t k = 0; k < len; k++) { any |= c[li][pos + k] != 0; c[li][pos + k] = 0; }
                if (any && attempt(c)) improved = true;
                if (now() > end) return;
                li = best.size() - 1;
            }
        for (size_t pos = 0; pos < best[li].size(); pos++) {
            uint64_t lo = 0, hi = best[li][pos];
            while (lo < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<std::vector<uint64_t> > c = best;
                if (pos >= c[li].size()) break;
                c[li][pos] = mid;
                if (attempt(c)) { improved = true; hi = mid; }
                else lo = mid + 1;
                li = best.size() - 1;
                if (pos >= best[li].size()) break;
            }
        }
    }
}

inline void writeReplay(const std::string & path, const std::string & prop,
                        const std::vector<std::vector<uint64_t> > & seqs,
                        const std::string & what, const std::string & rendered) {
    std::ofstream o(path.c_str());
    o << "pbt-replay 1\nproperty " << prop << "\nsequences " << seqs.size() << "\n";
    for (auto & s : seqs) {
        o << s.size();
        for (uint64_t v : s) o << " " << v;
        o << "\n";
    }
    o << "---- what failed ----\n" << what << "\n---- case ----\n" << rendered << "\n";
}

inline bool readReplay(const std::string & path, std::string *prop,
                       std::vector<std::vector<uint64_t> > *seqs) {
    std::ifstream i(path.c_str());
    std::string a;
    int ver;
    size_t n;
    if (!(i >> a >> ver) || a != "pbt-replay") return false;
    if (!(i >> a >> *prop >> a >> n)) return false;
    for (size_t k = 0; k < n; k++) {
        size_t m;
        if (!(i >> m)) return false;
        std::vector<uint64_t> s(m);
        for (auto & v : s) if (!(i >> v)) return false;
        seqs->push_back(s);
    }
    return true;
}

inline const Prop *findProp(const std::string & name) {
    for (auto & p : props()) if (p.name == name) return &p;
    return NULL;
}

// The harness' main():
//   --prop P --seed S --cases N --time T --jobs J --out FILE --replay-out FILE
//   --replay FILE
inline int harnessMain(int argc, char **argv) {
    // Fixed addresses make address-dependent behaviour repeatable.
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
        setenv("PBT_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    std::string prop, out, replay, replay_out = "replay.txt";
    uint64_t seed = 1, cases = 1000;
    double time_s = 30;
    unsigned jobs = 4;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), NULL, 0);
        else if (a == "--cases") cases = strtoull(v.c_str(), NULL, 0);
        else if (a == "--time") time_s = atof(v.c_str());
        else if (a == "--jobs") jobs = atoi(v.c_str());
        else if (a == "--out") out = v;
        else if (a == "--replay") replay = v;
        else if (a == "--replay-out") replay_out = v;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    Runner R;
    R.seed = seed;
    if (!replay.empty()) {
        std::vector<std::vector<uint64_t> > seqs;
        if (!readReplay(replay, &prop, &seqs)) { fprintf(stderr, "bad replay file\n"); return 2; }
        const Prop *p = findProp(prop);
        if (!p) { fprintf(stderr, "no property %s\n", prop.c_str()); return 2; }
        R.prop = *p;
        Slot s;
        R.initSlot(s);
        std::string d;
        Outcome o = R.trySeqs(s, &seqs, &d, p->hang_s, true);
        printf("%s: %s\n%s\n", prop.c_str(), outcomeName(o), d.c_str());
        if (s.shm->render_len) printf("%s\n", s.shm->render);
        return o == OK_DONE ? 0 : 1;
    }
    const Prop *p = findProp(prop);
    if (!p) { fprintf(stderr, "no property %s\n", prop.c_str()); return 2; }
    R.prop = *p;
    R.hang_s = p->hang_s;

    RunStats st;
    std::vector<Slot> slots(jobs);
    for (auto & s : slots) R.initSlot(s);
    Slot aux;
    R.initSlot(aux);
    uint64_t next = 0;
    double t0 = now(), t_end = t0 + time_s;
    bool violated = false;
    std::string vdetail, vrender;
    Outcome vout = OK_DONE;
    std::vector<uint64_t> sample_idx;
    unsigned batch = std::min<unsigned>(p->batch, MAX_BATCH);

    auto account = [&](Slot & s) {
        unsigned n = s.shm->n_done;
        for (unsigned k = 0; k < n; k++) {
            CaseResult & r = s.shm->res[k];
            st.cases++;
            if (r.discarded) st.discarded++;
            else if (r.nontrivial) {
                st.nontrivial++;
                st.distinct.insert(r.hash);
                if (sample_idx.size() < 3 && (s.job.first + k) >= sample_idx.size() * 37)
                    sample_idx.push_back(s.job.first + k);
            }
        }
        st.evals += s.shm->evals;
        for (uint32_t i = 0; i < s.shm->n_labels; i++)
            st.labels[s.shm->label_name[i]] += s.shm->label_count[i];
    };

    while (!violated) {
        bool any = false;
        for (auto & s : slots) {
            if (s.pid == 0) {
                if (next >= cases || now() > t_end) continue;
                s.job.generated = true;
                s.job.render = false;
                s.job.first = next;
                s.job.n = std::min<uint64_t>(batch, cases - next);
                next += s.job.n;
                R.start(s);
            }
            any = true;
            Outcome o;
            std::string d;
            if (!R.poll(s, &o, &d, R.hang_s)) continue;
            account(s);
            if (o == OK_DONE) continue;
            // A failing case. Its choices are in shared memory.
            st.cases++;
            uint64_t k = s.shm->cur;
            std::vector<std::vector<uint64_t> > alone(1, Runner::taken(s)), found;
            double climit = o == HUNG ? std::max(30.0, R.hang_s) : R.hang_s;
            std::string d2;
            Outcome o2 = R.trySeqs(aux, &alone, &d2, climit);
            if (o2 != OK_DONE) found = alone;
            else {
                // needs the cases that ran before it in the same process
                std::vector<std::vector<uint64_t> > hist;
                for (uint64_t j = 0; j <= k; j++) {
                    aux.job.generated = true; aux.job.render = false;
                    aux.job.first = s.job.first + j; aux.job.n = 1;
                    std::string dd;
                    R.runNow(aux, &dd, climit);
                    hist.push_back(Runner::taken(aux));
                }
                hist.back() = Runner::taken(s);
                o2 = R.trySeqs(aux, &hist, &d2, climit);
                if (o2 != OK_DONE) found = hist;
            }
            if (found.empty()) {
                st.unreproduced++;
                fprintf(stderr, "%s: case %llu failed (%s) but did not fail again: %s\n",
                        prop.c_str(), (unsigned long long) (s.job.first + k), outcomeName(o), d.c_str());
                continue;
            }
            Outcome so = o2;
            std::string sd = d2;
            std::vector<std::vector<uint64_t> > orig = found;
            shrink(R, aux, found, so, sd, so == HUNG ? 60 : 25);
            // three confirmations in fresh processes
            for (int round = 0; round < 2 && !violated; round++) {
                unsigned again = 0;
                std::vector<std::vector<uint64_t> > f = round == 0 ? found : orig;
                for (int t = 0; t < 3; t++) {
                    std::vector<std::vector<uint64_t> > c = f;
                    std::string dd;
                    Outcome oo = R.trySeqs(aux, &c, &dd, climit, true);
                    if (oo != OK_DONE) { again++; sd = dd; so = oo; }
                }
                if (again == 3) {
                    violated = true;
                    vdetail = sd; vout = so;
                    if (aux.shm->render_len) vrender = aux.shm->render;
                    writeReplay(replay_out, prop, f, std::string(outcomeName(so)) + ": " + sd, vrender);
                }
            }
            if (!violated) {
                st.unreproduced++;
                fprintf(stderr, "%s: failure not repeatable three times: %s\n", prop.c_str(), sd.c_str());
            }
            break;
        }
        if (!any) break;
        usleep(1000);
    }
    for (auto & s : slots)
        if (s.pid) { killpg(s.pid, SIGKILL); kill(s.pid, SIGKILL); waitpid(s.pid, NULL, 0); s.pid = 0; }

    std::vector<std::string> samples;
    if (!violated)
        for (uint64_t i : sample_idx) {
            aux.job.generated = true; aux.job.render = true;
            aux.job.first = i; aux.job.n = 1;
            std::string d;
            R.runNow(aux, &d, R.hang_s);
            if (aux.shm->render_len)
                samples.push_back(fmt("case %llu: ", (unsigned long long) i) +
                                  std::string(aux.shm->render).substr(0, 3000));
        }

    std::ostringstream o;
    o << "{\"prop\":" << jstr(prop) << ",\"seed\":" << seed << ",\"cases\":" << st.cases
      << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << st.distinct.size()
      << ",\"discarded\":" << st.discarded << ",\"evals\":" << st.evals
      << ",\"unreproduced\":" << st.unreproduced << ",\"wall_s\":" << (now() - t0)
      << ",\"requested\":" << cases << ",\"labels\":{";
    bool first = true;
    for (auto & l : st.labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto & s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"violated\":" << (violated ? "true" : "false");
    if (violated)
        o << ",\"replay\":" << jstr(replay_out) << ",\"outcome\":" << jstr(outcomeName(vout))
          << ",\"detail\":" << jstr(vdetail.substr(0, 4000)) << ",\"render\":" << jstr(vrender.substr(0, 6000));
    o << "}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout);
    else { std::ofstream f(out.c_str()); f << o.str(); }
    return violated ? 1 : 0;
}

} // namespace pbt
#endif
