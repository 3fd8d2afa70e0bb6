// Database properties: C12 serialization, C13 equality/hash/order, C14 the
// database over histories, C19 lifetime of handed-out results, C20 in-memory
// points.
#include "query.hpp"
#include "raw.hpp"
#include "bignew.hpp"
#include "TraceDB.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

using pbt::Gen;

struct Db {
    void *p;
    Db() : p(create_db()) {}
    explicit Db(void *x) : p(x) {}
    ~Db() { if (p) free_db(p); }
    void reset(void *x) { if (p) free_db(p); p = x; }
private:
    Db(const Db &);
};
struct Text {
    char *p;
    explicit Text(char *x) : p(x) {}
    ~Text() { free(p); }
private:
    Text(const Text &);
};

static std::string cmpDb(const void *db, const std::vector<const MTrace *> & ts, bool cpp) {
    if (n_traces(db) != ts.size()) return pbt::fmt("%u traces, expected %zu", n_traces(db), ts.size());
    for (size_t i = 0; i < ts.size(); i++) {
        const void *tr = get_trace(db, i);
        std::string s = cmpCTrace(tr, *ts[i], ts[i]->points.size());
        if (s.empty() && cpp) s = cmpTrace(*(const Trace *) tr, *ts[i], ts[i]->points.size());
        if (!s.empty()) return pbt::fmt("trace %zu: ", i) + s;
    }
    return "";
}

static MTrace limited(const MTrace & t, size_t n) {
    MTrace r = t;
    if (n && n < r.points.size()) r.points.resize(n);
    return r;
}

// An index that does not exist.
static uint32_t beyond(Gen & g, size_t n) {
    switch (g.draw(4)) {
    case 0: return n;
    case 1: return n + g.draw(300);
    case 2: return UINT32_MAX - g.draw(3);
    default: { uint64_t x = 1ull << g.draw(32); return std::max<uint64_t>(x, n); }
    }
}
static TraceOpts dbOpts(Gen & g) {
    TraceOpts o;
    o.bulk = 300;
    o.huge = g.chance(1, 3);
    o.max_points = 8;
    o.max_vars = 8;
    o.point_den = 4;
    o.weird_names = g.chance(1, 4);
    return o;
}

static void checkQuery(Gen & g, const void *db, size_t index, const MTrace & t, const MQuery & q, const char *what) {
    Expected e = expect(t, q);
    bool d;
    g.at("query %s", what);
    std::string s = checkResults(t, q, runC(db, index, q), &d, e);
    PBT_CHECK(s.empty(), "%s: query %s: %s", what, showQuery(q).c_str(), s.c_str());
    g.evals();
}

// ------------------------------------------------------------------ C12
static void serialize(Gen & g) {
    srand(g.draw(1000));
    size_t n = g.chance(1, 10) ? 0 : 1 + g.count(3, 5);
    bool many = g.chance(1, 120);         // many traces, mostly repetitions
    if (many) n = 30 + g.draw(g.chance(1, 3) ? 500 : 60);
    bool mem = g.chance(1, 4);            // built with the C++ constructors, no queries then
    std::vector<MTrace> ts;
    ts.reserve(n + 4);
    std::vector<RawTrace> raws(n);
    std::vector<int> how(n);
    for (size_t i = 0; i < n; i++) {
        how[i] = mem ? 2 : g.chance(1, 4) ? 1 : 0;
        if (how[i] == 1) { raws[i] = genRaw(g, 8, false); ts.push_back(MTrace()); if (g.rendering) g.out << showRaw(raws[i]) << "\n"; continue; }
        if (i && (many ? g.chance(7, 8) : g.chance(1, 5))) { how[i] = how[i - 1] == 1 ? 0 : how[i - 1]; if (how[i - 1] != 1) { ts.push_back(ts[i - 1]); if (g.rendering) g.out << "(the same trace again)\n"; continue; } }
        TraceOpts o = dbOpts(g);
        if (many) { o.bulk = 0; o.max_points = 3; o.max_vars = 3; }
        if (mem) o.canonical = true;
        if (!many && n < 3 && g.chance(1, 1500)) { o.bulk = 1; o.dim = 2; o.huge = true; }   // many points
        ts.push_back(genTrace(g, o));
        if (mem && g.coin()) { ts[i].first = g.interesting(); ts[i].step = g.coin() ? 1 : g.interesting(); g.label("other-numbers"); }
        if (g.rendering) g.out << showTrace(ts[i]) << "\n";
        labelTrace(g, ts[i]);
    }
    // destroyed before the models
    Db db;
    if (mem) {
        Traces v;
        for (auto & t : ts) v.push_back(toTrace(t));
        if (g.coin()) db.reset(new TraceDB(v)); else for (auto & t : v) ((TraceDB *) db.p)->addTrace(t);
    } else
        for (size_t i = 0; i < n; i++) {
            if (how[i] == 1) { ts[i] = addRaw(g, db.p, raws[i]); continue; }
            std::string bytes = encode(ts[i]);
            size_t lim = g.chance(1, 6) ? g.draw(ts[i].points.size() + 2) : 0;
            ts[i] = limited(ts[i], lim);
            if (g.coin()) {
                ScratchFile f(bytes);
                PBT_CHECK(add_trace(db.p, f.path.c_str(), 0, lim), "add_trace failed");
            } else {
                std::istringstream is(bytes);
                ((TraceDB *) db.p)->addTrace(Trace(is, lim));
            }
        }
    std::vector<const MTrace *> want;
    size_t vars = 0;
    for (auto & t : ts) { want.push_back(&t); for (auto & p : t.points) vars += p.vars.size(); }
    if (n && vars) g.nontrivial();
    g.label(many ? std::string("traces-many") : pbt::fmt("traces-%zu", n));
    std::vector<std::pair<size_t, MQuery> > qs;
    if (n && !mem) {
        size_t nq = g.draw(4);
        for (size_t i = 0; i < nq; i++) {
            size_t k = g.draw(n);
            MQuery q = genQuery(g, ts[k], 2, 300);
            if (g.chance(1, 4)) genFilter(g, ts[k], q);
            if (g.chance(1, 4)) q.keep = 0;
            qs.push_back(std::make_pair(k, q));
        }
    }
    // queries before must not change what is serialized
    if (g.coin()) for (auto & q : qs) checkQuery(g, db.p, q.first, ts[q.first], q.second, "before serializing");
    size_t rounds = 1 + g.count(3, 4);
    uint64_t drop = g.draw(3);             // free each database before looking at (1) or making (2) its successor
    Db cur(NULL);
    for (size_t r = 0; r < rounds; r++) {
        void *src = r == 0 ? db.p : cur.p;
        g.at("serialize_trace_db, round %zu", r);
        Text text(serialize_trace_db(src));
        PBT_CHECK(text.p, "serialize_trace_db returned NULL");
        std::string s;
        if (r == 0) {
            s = cmpDb(src, want, true);
            PBT_CHECK(s.empty(), "the original changed when it was serialized: %s", s.c_str());
        }
        if (drop == 2) { if (r == 0) db.reset(NULL); else cur.reset(NULL); src = NULL; }
        g.at("deserialize_trace_db, round %zu", r);
        void *nx = deserialize_trace_db(text.p);
        memset(text.p, 'x', strlen(text.p));
        Db next(nx);
        if (src) {
            PBT_CHECK(*(const TraceDB *) src == *(const TraceDB *) nx, "round %zu: the deserialized database differs from the original", r);
            PBT_CHECK(hash_value(*(const TraceDB *) src) == hash_value(*(const TraceDB *) nx), "round %zu: hashes differ", r);
        }
        if (drop == 1) { if (r == 0) db.reset(NULL); else cur.reset(NULL); }
        g.at("compare, round %zu", r);
        s = cmpDb(nx, want, true);
        PBT_CHECK(s.empty(), "round %zu: the deserialized database: %s", r, s.c_str());
        for (auto & q : qs) checkQuery(g, nx, q.first, ts[q.first], q.second, "after deserializing");
        if (!drop && db.p) {
            s = cmpDb(db.p, want, true);
            PBT_CHECK(s.empty(), "round %zu: the original changed: %s", r, s.c_str());
        }
        cur.reset(next.p);
        next.p = NULL;
        g.evals();
        g.tick();
    }
    g.label(rounds > 1, "repeated");
    g.label(drop == 2, "original-freed-first");
    // the copy is a database like any other
    if (g.coin() && cur.p && !mem) {
        TraceOpts o = dbOpts(g);
        ts.push_back(genTrace(g, o));
        std::istringstream is(encode(ts.back()));
        ((TraceDB *) cur.p)->addTrace(Trace(is));
        want.clear();
        for (auto & t : ts) want.push_back(&t);
        std::string s = cmpDb(cur.p, want, true);
        PBT_CHECK(s.empty(), "after adding to the deserialized database: %s", s.c_str());
    }
}

// ------------------------------------------------------------------ C13
template <class T> static T archiveTrip(const T & x) {
    std::stringstream ss;
    { boost::archive::text_oarchive oa(ss); oa << x; }
    T y;
    { boost::archive::text_iarchive ia(ss); ia >> y; }
    return y;
}
static std::string order(bool ab, bool ba, bool eq) { return pbt::fmt("a<b is %d, b<a is %d, a==b is %d", ab, ba, eq); }

// xs[i] and ys[i] are built independently from the same contents i; same[i][j]
// says whether contents i and j are equal.
static size_t eqPairs, nePairs;
template <class T, class Same>
static void relations(Gen & g, const char *what, const std::vector<T> & xs, const std::vector<T> & ys, Same same, bool less(const T &, const T &)) {
    size_t n = xs.size();
    std::hash<T> h;
    for (size_t i = 0; i < n; i++) {
        PBT_CHECK(xs[i] == xs[i], "%s %zu is not equal to itself", what, i);
        PBT_CHECK(hash_value(xs[i]) == h(xs[i]), "%s %zu: hash_value and std::hash differ", what, i);
        PBT_CHECK(hash_value(xs[i]) == hash_value(xs[i]), "%s %zu: hash changes", what, i);
        T c(xs[i]);
        PBT_CHECK(c == xs[i] && xs[i] == c, "%s %zu is not equal to its copy", what, i);
        PBT_CHECK(hash_value(c) == hash_value(xs[i]), "%s %zu: hash of a copy differs", what, i);
        for (size_t j = 0; j < n; j++) {
            bool want = same(i, j), got = xs[i] == ys[j];
            PBT_CHECK(got == want, "%s %zu and %zu compare %s although their contents are %s", what, i, j, got ? "equal" : "unequal", want ? "equal" : "different");
            if (i != j) (want ? eqPairs : nePairs)++;
            PBT_CHECK((ys[j] == xs[i]) == got, "%s: equality is not symmetric (%zu, %zu)", what, i, j);
            if (want) PBT_CHECK(hash_value(xs[i]) == hash_value(ys[j]), "equal %ss %zu and %zu have different hashes", what, i, j);
            if (less) {
                bool ab = less(xs[i], ys[j]), ba = less(ys[j], xs[i]);
                PBT_CHECK((int) ab + (int) ba + (int) want == 1, "%s %zu and %zu: %s", what, i, j, order(ab, ba, want).c_str());
                PBT_CHECK(less(xs[i], xs[j]) == ab, "%s: order of %zu and %zu depends on where they are stored", what, i, j);
            }
            g.evals();
        }
    }
    if (less)
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++)
            if (less(xs[i], xs[j]) && less(xs[j], xs[k])) PBT_CHECK(less(xs[i], xs[k]), "%s: the order is not transitive (%zu, %zu, %zu)", what, i, j, k);
}
template <class T> static bool lt(const T & a, const T & b) { return a < b; }

static uint64_t tweak64(Gen & g, uint64_t v) {
    switch (g.draw(9)) {
    case 0: return v + 1;
    case 1: return v - 1;
    case 2: return v ^ (1ull << g.draw(64));
    case 3: return v ^ (1ull << g.draw(64)) ^ (1ull << g.draw(64));
    case 4: return g.interesting();
    case 5: return g.coin() ? v << 32 | v >> 32 : __builtin_bswap64(v);
    case 6: return g.coin() ? ~v : -v;
    case 7: return g.coin() ? v * 2 : v / 2;
    default: return v;
    }
}
static uint32_t tweak32(Gen & g, uint32_t v) {
    switch (g.draw(9)) {
    case 0: return v + 1;
    case 1: return v - 1;
    case 2: return v ^ (1u << g.draw(32));
    case 3: return v ^ (1u << g.draw(5)) ^ (1u << g.draw(32));
    case 4: return (uint32_t) g.interesting();
    case 5: return g.coin() ? v << 16 | v >> 16 : __builtin_bswap32(v);
    case 6: return g.coin() ? ~v : -v;
    case 7: return g.coin() ? v * 2 : v / 2;
    default: return v;
    }
}
static uint32_t typeSize(Gen & g) {
    static const uint32_t sz[] = { 0, 1, 2, 4, 8, 12, 16 };
    return g.coin() ? sz[g.draw(7)] : (uint32_t) g.interesting();
}
static MVar freeVar(Gen & g) {
    MVar v;
    v.name = g.coin() ? g.draw(3) : (uint32_t) g.interesting();
    v.type = g.coin() ? g.draw(3) : (uint32_t) g.interesting();
    v.fmt = g.draw(5);
    static const uint32_t sz[] = { 1, 2, 4, 8 };
    switch (v.fmt) {
    case M_FLOAT: v.size = g.coin() ? 4 : 8; v.raw = genFloatBits(g, v.size); break;
    case M_BLOB: v.blob = genBlob(g, g.chance(1, 12) ? (g.chance(1, 6) ? manyOf(g, g.chance(1, 8) ? 70000 : 9000) : 20 + g.draw(300)) : g.count(5, 20)); v.size = v.blob.size(); break;
    default: v.size = sz[g.draw(4)]; v.raw = canonInt(g.interesting(), v.fmt, v.size);
    }
    if (g.chance(1, 3)) { v.hasbs = true; v.bs = g.interesting(); }
    return v;
}
static MVar tweakVar(Gen & g, MVar v) {
    switch (g.draw(10)) {
    case 9: if (v.fmt == M_BLOB && v.blob.size() > 1) {             // the same bytes in another order
                size_t i = g.draw(v.blob.size()), j = g.draw(v.blob.size());
                std::swap(v.blob[i], v.blob[j]);
            } else std::swap(v.name, v.type);
            break;
    case 0: v.name = tweak32(g, v.name); break;
    case 1: v.type = tweak32(g, v.type); break;
    case 2: case 3: case 4:
        if (v.fmt == M_BLOB) {
            if (v.blob.empty() || g.chance(1, 3)) { v.blob += (char) (g.coin() ? 0 : g.draw(256)); }
            else if (g.chance(1, 3)) v.blob.resize(v.blob.size() - 1);
            else v.blob[g.chance(1, 3) ? v.blob.size() - 1 : g.draw(v.blob.size())] ^= 1 << g.draw(8);
            v.size = v.blob.size();
        } else if (v.fmt == M_FLOAT && g.chance(1, 3)) {      // the two zeros, or another NaN
            uint64_t sign = 1ull << (8 * v.size - 1), e = v.size == 4 ? 0x7f800000ull : 0x7ff0000000000000ull;
            if (v.raw == 0 || v.raw == sign) v.raw ^= sign;
            else if ((v.raw & e) == e) v.raw ^= 2;
            else v.raw = g.coin() ? 0 : e | 1ull << g.draw(20);
        } else v.raw = v.fmt == M_FLOAT ? (tweak64(g, v.raw) & valueMask(v.size)) : canonInt(tweak64(g, v.raw), v.fmt, v.size);
        break;
    case 5: if (v.hasbs) v.bs = tweak64(g, v.bs); else { v.hasbs = true; v.bs = 0; } break;
    case 6: if (v.hasbs) { v.hasbs = false; v.bs = 0; } break;
    case 7:                                        // another format, same bits
        if (v.fmt == M_UNSIGNED) v.fmt = M_POINTER;
        else if (v.fmt == M_POINTER) v.fmt = M_UNSIGNED;
        else if (v.fmt == M_SIGNED && v.size == 8) v.fmt = M_UNSIGNED;
        else if (v.fmt == M_FLOAT) v.fmt = M_UNSIGNED;
        break;
    default:                                       // another size
        if (v.fmt == M_UNSIGNED || v.fmt == M_POINTER) { v.size = v.size == 8 ? 4 : 8; v.raw = canonInt(v.raw, v.fmt, v.size); }
    }
    return v;
}
static MPoint freePoint(Gen & g) {
    MPoint p;
    p.stmt = g.coin() ? g.draw(3) : g.interesting();
    int which = g.chance(1, 10) ? 1 + g.draw(3) : 0;               // a long list
    size_t n = which == 1 ? 5 + g.draw(40) : g.count(3, 4);
    for (size_t i = 0; i < n; i++) p.sizes.push_back(std::make_pair(g.interesting(), g.interesting()));
    n = which == 2 ? 5 + g.draw(20) : g.count(3, 4);
    for (size_t i = 0; i < n; i++) p.vars.push_back(freeVar(g));
    n = which == 3 ? 5 + g.draw(80) : g.count(3, 4);
    for (size_t i = 0; i < n; i++) p.aux.push_back(g.interesting());
    return p;
}
static MPoint tweakPoint(Gen & g, MPoint p) {
    switch (g.draw(10)) {
    case 8: if (p.aux.size() > 1) std::swap(p.aux[g.draw(p.aux.size())], p.aux[g.draw(p.aux.size())]); break;
    case 9: if (p.sizes.size() > 1 && g.coin()) std::swap(p.sizes[g.draw(p.sizes.size())], p.sizes[g.draw(p.sizes.size())]);
            else if (!p.sizes.empty()) { auto & x = p.sizes[g.draw(p.sizes.size())]; std::swap(x.first, x.second); }
            break;
    case 0: p.stmt = tweak64(g, p.stmt); break;
    case 1: if (p.sizes.empty()) p.sizes.push_back(std::make_pair(0, 0)); else { auto & s = p.sizes[g.draw(p.sizes.size())]; if (g.coin()) s.first = tweak64(g, s.first); else s.second = tweak64(g, s.second); } break;
    case 2: case 3: if (p.vars.empty()) p.vars.push_back(freeVar(g)); else { MVar & v = p.vars[g.draw(p.vars.size())]; v = tweakVar(g, v); } break;
    case 4: if (p.aux.empty()) p.aux.push_back(0); else { uint64_t & a = p.aux[g.draw(p.aux.size())]; a = tweak64(g, a); } break;
    case 5: if (!p.vars.empty()) { if (g.coin()) p.vars.pop_back(); else p.vars.push_back(p.vars[0]); } break;
    case 6: if (!p.aux.empty()) { if (g.coin()) p.aux.pop_back(); else p.aux.push_back(p.aux[0]); } break;
    default: if (p.vars.size() > 1) std::swap(p.vars[0], p.vars[1]); else if (p.aux.size() > 1) std::swap(p.aux[0], p.aux[1]);
             else if (!p.sizes.empty()) p.sizes.pop_back();
    }
    return p;
}
// the unused bytes of a narrow value do not count
static MVar dirty(Gen & g, MVar v) {
    if (v.fmt != M_BLOB && v.size < 8 && g.chance(1, 3)) v.raw = (v.raw & valueMask(v.size)) | (g.interesting() & ~valueMask(v.size));
    return v;
}
static MTrace tweakTrace(Gen & g, MTrace t) {
    switch (g.draw(8)) {
    case 6: if (t.names.size() > 1) std::swap(t.names[g.draw(t.names.size())], t.names[g.draw(t.names.size())]); break;
    case 7: if (t.types.size() > 1) std::swap(t.types[g.draw(t.types.size())], t.types[g.draw(t.types.size())]);
            else if (!t.names.empty()) t.names.pop_back();
            break;
    case 0: t.names.push_back(genName(g, true)); break;
    case 1: if (!t.names.empty()) { std::string & s = t.names[g.draw(t.names.size())]; if (s.empty() || g.coin()) s += "x"; else s[g.draw(s.size())] ^= 2; for (auto & c : s) if (!c) c = 'q'; } break;
    case 2: if (!t.types.empty()) { MType & y = t.types[g.draw(t.types.size())]; switch (g.draw(3)) { case 0: y.name = g.draw(t.names.size() + 1); break; case 1: y.size = y.size + 1; break; default: y.fmt = g.draw(5); } } break;
    case 3: if (!t.points.empty()) { if (g.coin()) t.points.pop_back(); else t.points.push_back(t.points[0]); } break;
    default: if (!t.points.empty()) { MPoint & p = t.points[g.draw(t.points.size())]; p = tweakPoint(g, p); }
    }
    return t;
}
static bool sameTypes(const std::vector<MType> & a, const std::vector<MType> & b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].name != b[i].name || a[i].fmt != b[i].fmt || a[i].size != b[i].size) return false;
    return true;
}
static bool sameTrace(const MTrace & a, const MTrace & b) { return a.names == b.names && sameTypes(a.types, b.types) && a.points == b.points; }
static bool samePred(const MPred & a, const MPred & b) {
    if (a.kind != b.kind || a.kids.size() != b.kids.size()) return false;
    switch (a.kind) {
    case K_REF: if (a.var != b.var) return false; break;
    case K_UNSIGNED: if (a.u != b.u) return false; break;
    case K_SIGNED: if (a.s != b.s) return false; break;
    case K_FLOAT: if (memcmp(&a.d, &b.d, 8)) return false; break;
    }
    for (size_t i = 0; i < a.kids.size(); i++) if (!samePred(a.kids[i], b.kids[i])) return false;
    return true;
}

// values 0..n-1: a base, and others that differ from an earlier one in one
// field or not at all
template <class M> static std::vector<M> family(Gen & g, size_t n, std::function<M()> fresh, std::function<M(M)> tweak) {
    std::vector<M> v;
    v.push_back(fresh());
    while (v.size() < n) {
        uint64_t k = g.draw(8);
        if (k == 0) v.push_back(fresh());
        else if (k == 1) v.push_back(v[g.draw(v.size())]);
        else v.push_back(tweak(v[g.draw(v.size())]));
    }
    return v;
}

static void relationsProp(Gen & g) {
    eqPairs = nePairs = 0;
    size_t n = 3 + g.draw(4);
    switch (g.draw(8)) {
    case 0: {
        g.label("types");
        typedef MType M;
        std::vector<M> m = family<M>(g, n, [&]() { M y = { (uint32_t) g.interesting(), (uint32_t) g.draw(5), typeSize(g) }; return y; },
            [&](M y) { switch (g.draw(5)) { case 0: y.name = tweak32(g, y.name); break; case 1: y.fmt = g.draw(5); break; case 2: y.size = typeSize(g); break; case 3: std::swap(y.name, y.size); break; default: y.size = tweak32(g, y.size); } return y; });
        TypeDescriptions a = toTypes(m), b = toTypes(m);
        for (auto & y : m) if (g.rendering) g.out << pbt::fmt("type(%u,%u,%u) ", y.name, y.fmt, y.size);
        relations<TypeDescription>(g, "type", a, b, [&](size_t i, size_t j) { return sameTypes(std::vector<M>(1, m[i]), std::vector<M>(1, m[j])); }, lt<TypeDescription>);
        for (auto & x : a) { TypeDescription y(archiveTrip(x)); PBT_CHECK(y == x && hash_value(y) == hash_value(x), "type differs after serialization"); }
        break;
    }
    case 1: {
        g.label("buffer-sizes");
        typedef std::pair<uint64_t, uint64_t> M;
        std::vector<M> m = family<M>(g, n, [&]() { uint64_t a = g.interesting(); return M(a, g.interesting()); },
            [&](M y) { if (g.chance(1, 6)) std::swap(y.first, y.second); else if (g.coin()) y.first = tweak64(g, y.first); else y.second = tweak64(g, y.second); return y; });
        TraceBufferSizes a, b;
        for (auto & y : m) { a.push_back(TraceBufferSize(y.first, y.second)); b.push_back(TraceBufferSize(y.first, y.second)); if (g.rendering) g.out << pbt::fmt("size(0x%llx,0x%llx) ", (unsigned long long) y.first, (unsigned long long) y.second); }
        relations<TraceBufferSize>(g, "buffer size", a, b, [&](size_t i, size_t j) { return m[i] == m[j]; }, lt<TraceBufferSize>);
        for (auto & x : a) { TraceBufferSize y(archiveTrip(x)); PBT_CHECK(y == x && hash_value(y) == hash_value(x), "buffer size differs after serialization"); }
        break;
    }
    case 2: case 3: {
        g.label("variables");
        std::vector<MVar> m = family<MVar>(g, n, [&]() { return freeVar(g); }, [&](MVar v) { return tweakVar(g, v); }), m2 = m, m1 = m;
        for (auto & v : m1) v = dirty(g, v);
        for (auto & v : m2) { v.blob = std::string(v.blob.data(), v.blob.size()); v = dirty(g, v); }
        std::vector<TraceVarInfo> a, b;
        for (size_t i = 0; i < n; i++) { a.push_back(toVar(m1[i])); b.push_back(toVar(m2[i])); if (g.rendering) g.out << showVar(m1[i]) << " "; }
        relations<TraceVarInfo>(g, "variable", a, b, [&](size_t i, size_t j) { return m[i] == m[j]; }, lt<TraceVarInfo>);
        for (size_t i = 0; i < n; i++) {
            TraceVarInfo y(archiveTrip(a[i]));
            PBT_CHECK(y == a[i] && hash_value(y) == hash_value(a[i]), "variable %zu differs after serialization", i);
            PBT_CHECK(!(y < a[i]) && !(a[i] < y), "variable %zu is ordered before or after its serialization round trip", i);
            std::string s = m1[i] == m[i] ? cmpVar(y, m[i]) : "";
            PBT_CHECK(s.empty(), "variable %zu after serialization: %s", i, s.c_str());
        }
        break;
    }
    case 4: case 5: {
        g.label("points");
        struct M { uint64_t c; MPoint p; };
        std::vector<M> m = family<M>(g, n, [&]() { M x; x.c = g.draw(3); x.p = freePoint(g); return x; },
            [&](M x) { if (g.chance(1, 7)) x.c = tweak64(g, x.c); else x.p = tweakPoint(g, x.p); return x; }), m2 = m;
        for (auto & x : m2) for (auto & v : x.p.vars) v.blob = std::string(v.blob.data(), v.blob.size());
        std::vector<TracePoint> a, b;
        for (size_t i = 0; i < n; i++) {
            a.push_back(toPoint(m[i].p, m[i].c));
            b.push_back(toPoint(m2[i].p, m2[i].c));
            canonicalOrder(m[i].p);
            if (g.rendering) g.out << m[i].c << ":" << showPoint(m[i].p) << "\n";
        }
        relations<TracePoint>(g, "point", a, b, [&](size_t i, size_t j) { return m[i].c == m[j].c && m[i].p == m[j].p; }, lt<TracePoint>);
        std::vector<TracePointData> da, db;
        for (size_t i = 0; i < n; i++) { da.push_back(a[i].getData().get()); db.push_back(b[i].getData().get()); }
        relations<TracePointData>(g, "point data", da, db,
            [&](size_t i, size_t j) { return m[i].p.sizes == m[j].p.sizes && m[i].p.vars == m[j].p.vars && m[i].p.aux == m[j].p.aux; }, lt<TracePointData>);
        for (size_t i = 0; i < n; i++) {
            TracePoint y(archiveTrip(a[i]));
            PBT_CHECK(y == a[i] && hash_value(y) == hash_value(a[i]), "point %zu differs after serialization", i);
            PBT_CHECK(!(y < a[i]) && !(a[i] < y), "point %zu is ordered before or after its serialization round trip", i);
            std::string s = cmpPoint(y, m[i].p);
            PBT_CHECK(s.empty() && y.getCounter() == m[i].c, "point %zu after serialization: %s", i, s.c_str());
        }
        break;
    }
    case 6: {
        g.label("traces");
        TraceOpts o;
        o.bulk = 0; o.canonical = true; o.max_points = 5; o.max_vars = 4;
        if (n > 4) n = 4;
        std::vector<MTrace> m = family<MTrace>(g, n, [&]() { return genTrace(g, o); }, [&](MTrace t) { return tweakTrace(g, t); }), m2 = m;
        for (auto & t : m2) for (auto & p : t.points) for (auto & v : p.vars) v.blob = std::string(v.blob.data(), v.blob.size());
        Traces a, b;
        for (size_t i = 0; i < n; i++) { a.push_back(toTrace(m[i])); b.push_back(toTrace(m2[i])); if (g.rendering) g.out << showTrace(m[i]) << "\n"; }
        Trace none;
        PBT_CHECK(none.getNames().empty() && none.getTypes().empty() && none.getPoints().empty(), "a default trace is not empty");
        relations<Trace>(g, "trace", a, b, [&](size_t i, size_t j) { return sameTrace(m[i], m[j]); }, NULL);
        for (size_t i = 0; i < n; i++) {
            Trace y(archiveTrip(a[i]));
            PBT_CHECK(y == a[i] && hash_value(y) == hash_value(a[i]), "trace %zu differs after serialization", i);
        }
        // databases over these traces
        std::vector<std::vector<size_t> > d = family<std::vector<size_t> >(g, 4,
            [&]() { std::vector<size_t> v; size_t k = g.draw(4); for (size_t i = 0; i < k; i++) v.push_back(g.draw(n)); return v; },
            [&](std::vector<size_t> v) { switch (g.draw(3)) { case 0: v.push_back(g.draw(n)); break; case 1: if (!v.empty()) v.pop_back(); break;
                default: if (!v.empty()) v[g.draw(v.size())] = g.draw(n); } return v; });
        std::vector<TraceDB> x, y;
        x.reserve(d.size()); y.reserve(d.size());
        for (auto & v : d) { Traces p, q; for (auto i : v) { p.push_back(a[i]); q.push_back(b[i]); } x.push_back(TraceDB(p)); y.push_back(TraceDB(q)); }
        relations<TraceDB>(g, "database", x, y, [&](size_t i, size_t j) {
            if (d[i].size() != d[j].size()) return false;
            for (size_t k = 0; k < d[i].size(); k++) if (!sameTrace(m[d[i][k]], m[d[j][k]])) return false;
            return true; }, NULL);
        break;
    }
    default: {
        g.label("predicates");
        MTrace t;
        PredCtx c;
        c.t = &t;
        c.n = 3;
        MVar vv[2];
        vv[0].fmt = M_SIGNED; vv[0].size = 8; vv[0].raw = g.interesting();
        vv[1].fmt = M_FLOAT; vv[1].size = 8; vv[1].raw = genFloatBits(g, 8);
        c.pool.push_back(&vv[0]); c.pool.push_back(&vv[1]);
        std::vector<MPred> m = family<MPred>(g, n, [&]() { return genBool(g, c, 3); },
            [&](MPred p) {
                if (g.chance(1, 5) && !p.kids.empty()) { if (g.coin()) p.kids.pop_back(); else p.kids.push_back(p.kids[0]); return p; }
                nudge(g, p, 3); return p; });
        Predicates a, b;
        for (auto & p : m) { a.push_back(toCpp(p)); b.push_back(toCpp(p)); if (g.rendering) g.out << showPred(p) << "\n"; }
        relations<Predicate>(g, "predicate", a, b, [&](size_t i, size_t j) { return samePred(m[i], m[j]); }, NULL);
        std::vector<std::vector<uint32_t> > f = family<std::vector<uint32_t> >(g, n,
            [&]() { std::vector<uint32_t> v; size_t k = g.draw(5); for (size_t i = 0; i < k; i++) v.push_back(g.coin() ? g.draw(4) : (uint32_t) g.interesting()); return v; },
            [&](std::vector<uint32_t> v) { switch (g.draw(6)) { case 0: v.push_back(g.draw(4)); break; case 1: if (!v.empty()) v.pop_back(); break;
                case 2: if (v.size() > 1) std::swap(v[0], v[1]); break;
                case 3: if (v.size() > 1) { static const uint32_t w[] = { 1, 31, 33, 37, 256, 65599 }; size_t i = g.draw(v.size() - 1); v[i]++; v[i + 1] -= w[g.draw(6)]; } break;  // same weighted sum
                default: if (!v.empty()) { uint32_t & x = v[g.draw(v.size())]; x = tweak32(g, x); } } return v; });
        FreeVariables fa, fb;
        for (auto & v : f) { fa.push_back(FreeVariable(v)); fb.push_back(FreeVariable(v)); }
        relations<FreeVariable>(g, "free variable", fa, fb, [&](size_t i, size_t j) { return f[i] == f[j]; }, NULL);
    }
    }
    if (eqPairs && nePairs) g.nontrivial();
}

// ------------------------------------------------------------------ C20
static void inMemory(Gen & g) {
    bool junk = g.chance(1, 6);
    Db db;
    std::vector<MTrace> ts;
    size_t n = 1 + g.count(3, 3);
    size_t vars = 0;
    for (size_t i = 0; i < n; i++) {
        RawTrace r = genRaw(g, g.chance(1, 30) ? 400 : 12, junk, true);
        if (g.rendering) g.out << showRaw(r) << "\n";
        ts.push_back(addRaw(g, db.p, r));
        std::set<bool> sgn;
        for (auto & y : ts.back().types) sgn.insert(y.fmt == M_SIGNED);
        g.label(sgn.size() == 2, "signed-and-unsigned-types");
        g.label(ts.back().types.size() > 1, "types>1");
        for (auto & p : ts.back().points) { vars += p.vars.size(); g.label(!p.aux.empty(), "aux"); g.label(p.vars.empty(), "point-without-variables"); }
        std::vector<const MTrace *> want;
        for (auto & t : ts) want.push_back(&t);
        g.at("compare");
        std::string s = cmpDb(db.p, want, true);
        PBT_CHECK(s.empty(), "after adding in-memory points %zu times: %s", i + 1, s.c_str());
        g.evals();
    }
    if (vars) g.nontrivial();
    if (!junk) {
        size_t nq = g.draw(4);
        for (size_t i = 0; i < nq; i++) {
            size_t k = g.draw(ts.size());
            MQuery q = genQuery(g, ts[k], 2, 300);
            if (g.chance(1, 4)) genFilter(g, ts[k], q);
            if (g.chance(1, 4)) q.keep = 0;
            if (!q.free.empty() && g.chance(1, 4)) q.soft.push_back(genBool(g, predCtx(ts[k], q.free.size()), 1));
            if (g.rendering) g.out << "query trace " << k << " " << showQuery(q) << "\n";
            checkQuery(g, db.p, k, ts[k], q, "in-memory trace");
        }
    }
}

// ------------------------------------------------------------------ C14, C19
typedef std::shared_ptr<MTrace> PTrace;
struct Base { void *db; std::vector<PTrace> ts; };
// A point array handed out by the library, kept while other things happen.
struct Kept {
    c_trace_point_struct *ps;
    uint64_t n;
    size_t base;                 // database it came from, or SIZE_MAX: a trace of its own
    void *own;                   // that trace
    PTrace own_model;
    std::vector<std::string> want;
    bool live;                   // its source has not been freed
};
struct World {
    std::vector<Base> dbs;
    std::vector<Kept> kept;
    ~World() {
        for (auto & k : kept) { free_trace_points(k.ps, k.n); if (k.own && k.live) free_trace(k.own); }
        for (auto & b : dbs) if (b.db) free_db(b.db);
    }
};
static std::string fullKey(const c_trace_point_struct & p) {
    std::string o = keyOf(p);
    le(o, p.n_vars, 4);
    le(o, p.n_aux, 4);
    for (uint32_t i = 0; i < p.n_aux; i++) le(o, p.aux[i], 8);
    return o;
}
static std::string cmpBase(const Base & b, bool cpp) {
    std::vector<const MTrace *> want;
    for (auto & t : b.ts) want.push_back(t.get());
    return cmpDb(b.db, want, cpp);
}
static void histories(Gen & g, bool lifetime) {
    srand(g.draw(1000));
    std::vector<PTrace> pool;
    size_t np = 1 + g.draw(3);
    for (size_t i = 0; i < np; i++) {
        TraceOpts o = dbOpts(g);
        if (lifetime) { o.bulk = 0; o.max_points = 5; }
        pool.push_back(PTrace(new MTrace(genTrace(g, o))));
        if (g.rendering) g.out << "trace " << i << ": " << showTrace(*pool[i]) << "\n";
        labelTrace(g, *pool[i]);
    }
    World w;
    size_t ops = 3 + g.count(14, 40), changes = 0, failed = 0, queries = 0, trips = 0, freed = 0, rechecks = 0, adds = 0;
    Base first = { create_db(), std::vector<PTrace>() };
    w.dbs.push_back(first);
    for (size_t step = 0; step < ops; step++) {
        g.tick();
        size_t bi = g.draw(w.dbs.size());
        Base & b = w.dbs[bi];
        uint64_t op = g.draw(lifetime ? 16 : 13);
        g.at("step %zu, operation %llu", step, (unsigned long long) op);
        if (op < 3) {                                       // add from a file
            PTrace t = pool[g.draw(np)];
            std::string bytes = encode(*t);
            size_t lim = g.chance(1, 3) ? g.draw(t->points.size() + 2) : 0;
            uint64_t lim64 = lim == t->points.size() + 1 && g.coin() ? UINT64_MAX - g.draw(2) : lim;
            ScratchFile f(bytes);
            if (g.rendering) g.out << "db" << bi << " add, limit " << lim64 << "\n";
            size_t times = 1;                               // now and then the same trace many times over
            if (!lifetime && bytes.size() < 400 && b.ts.size() < 1000 && g.chance(1, 40)) {
                times = g.chance(1, 3) ? 200 + g.draw(200) : 20 + g.draw(100);
                if (bytes.size() < 150 && g.chance(1, 150)) times = 66000;
                g.label(pbt::fmt("many-adds-%s", times > 1000 ? ">65536" : times >= 200 ? "200..400" : "20..120"));
                if (g.rendering) g.out << "(" << times << " times)\n";
            }
            PTrace m(new MTrace(limited(*t, lim)));
            uint32_t wait = g.draw(2);
            for (size_t i = 0; i < times; i++) {
                int rc = add_trace(b.db, f.path.c_str(), wait, lim64);
                PBT_CHECK(rc == 1, "step %zu: adding a well-formed trace returned %d", step, rc);
                b.ts.push_back(m);
                PBT_CHECK(n_traces(b.db) == b.ts.size(), "step %zu: %u traces, expected %zu", step, n_traces(b.db), b.ts.size());
                if (i % 100 == 99) g.tick();
            }
            changes++; adds++;
        } else if (op == 3) {                               // a failing add
            PTrace t = pool[g.draw(np)];
            Layout lay;
            std::string bytes = encode(*t, &lay);
            int kind = g.draw(8), rc;
            // any limit that does not end the reading before the damage
            size_t good = kind < 2 || kind > 5 ? 0 : kind == 5 && !t->points.empty() ? g.draw(t->points.size()) : t->points.size();
            uint64_t lim = g.coin() ? 0 : g.chance(3, 4) ? good + 1 + g.draw(6) : UINT64_MAX - g.draw(3);
            uint32_t wait = g.draw(2);
            if (g.rendering) g.out << "db" << bi << " failing add, kind " << kind << ", limit " << lim << "\n";
            if (kind == 0) rc = add_trace(b.db, scratchPath("none").c_str(), wait, lim);
            else {
                if (kind == 1) bytes.resize(g.draw(lay.header_end));                       // cut in the dictionaries
                else if (kind == 2) {                                                      // bad indices
                    bytes += '\x02';
                    bool name = g.coin(), type = !name || t->types.empty() || g.coin();
                    le(bytes, name ? beyond(g, t->names.size()) : 0, 4);
                    le(bytes, type ? beyond(g, t->types.size()) : 0, 4);
                    if (g.coin()) bytes += std::string(9, '\0');
                }
                else if (kind > 5) {                                                       // a type with a bad name or format
                    MTrace bad = limited(*t, 0);
                    MType y = { 0, M_UNSIGNED, 8 };
                    if (kind == 6 || bad.names.empty()) y.name = beyond(g, bad.names.size());
                    else y.fmt = beyond(g, M_BLOB + 1);
                    bad.types.insert(bad.types.begin() + g.draw(bad.types.size() + 1), y);
                    if (g.coin()) bad.points.clear();
                    bytes = encode(bad);
                }
                else if (kind == 3) bytes += (char) (5 + g.draw(251));                     // unknown tag
                else if (kind == 4) bytes += std::string("\x01\x02\x03", 3);              // cut in an entry
                else {                                                                     // an unknown tag between two points
                    MTrace head = limited(*t, 0);
                    head.points.assign(t->points.begin(), t->points.begin() + good);
                    bytes.insert(encode(head).size(), 1, (char) (5 + g.draw(251)));
                }
                ScratchFile f(bytes);
                rc = add_trace(b.db, f.path.c_str(), wait, lim);
            }
            PBT_CHECK(rc == 0, "step %zu: adding a missing or malformed trace (kind %d) returned %d", step, kind, rc);
            failed++;
        } else if (op == 4) {
            RawTrace r = genRaw(g, 6, false);
            if (g.rendering) g.out << "db" << bi << " " << showRaw(r) << "\n";
            b.ts.push_back(PTrace(new MTrace(addRaw(g, b.db, r))));
            changes++; adds++;
        } else if (op < 7) {                                // query
            if (b.ts.empty()) continue;
            size_t k = g.draw(b.ts.size());
            if (g.chance(1, 15)) {                          // or many, by statement
                size_t n = 8 + g.draw(30);
                uint64_t m = g.interesting();
                const MTrace & t = *b.ts[k];
                if (g.rendering) g.out << "db" << bi << "[" << k << "] " << n << " filters from " << m << "\n";
                for (size_t i = 0; i < n && t.points.size() < 200; i++) {
                    MQuery q;
                    q.mask = i % 3 ? m + i : pbt::mix(m + i);
                    if (!t.points.empty()) q.stmt = t.points[i % t.points.size()].stmt & q.mask;
                    bool d;
                    std::string s = checkResults(t, q, runC(b.db, k, q), &d, expect(t, q));
                    PBT_CHECK(s.empty(), "step %zu: query %zu of a series on db%zu[%zu]: %s", step, i, bi, k, s.c_str());
                }
                g.label("long-series");
                queries++;
                continue;
            }
            MQuery q = genQuery(g, *b.ts[k], 2, 200);
            if (g.chance(1, 3)) genFilter(g, *b.ts[k], q);
            if (g.chance(1, 3)) q.keep = 0;
            if (g.chance(1, 6)) q.seed = 1 + g.draw(50);
            if (!q.free.empty() && g.chance(1, 4)) q.soft.push_back(genBool(g, predCtx(*b.ts[k], q.free.size()), 1));
            if (g.rendering) g.out << "db" << bi << "[" << k << "] query " << showQuery(q) << "\n";
            Expected e = expect(*b.ts[k], q);
            bool d;
            std::string s = checkResults(*b.ts[k], q, runC(b.db, k, q), &d, e);
            PBT_CHECK(s.empty(), "step %zu: query of db%zu[%zu]: %s", step, bi, k, s.c_str());
            queries++;
        } else if (op == 7) {                               // round trip, replacing or adding
            Text text(serialize_trace_db(b.db));
            uint64_t mode = g.draw(3);
            if (g.rendering) g.out << "db" << bi << " round trip " << mode << "\n";
            if (w.dbs.size() < 4 && mode == 0) { Base c = { deserialize_trace_db(text.p), b.ts }; w.dbs.push_back(c); }
            else {
                for (auto & k : w.kept) if (k.base == bi) k.live = false;
                void *n = mode == 2 ? NULL : deserialize_trace_db(text.p);
                free_db(b.db);
                b.db = n ? n : deserialize_trace_db(text.p);
                freed++;
            }
            trips++;
        } else if (op == 8) {                               // create
            if (w.dbs.size() < 4) { Base c = { create_db(), std::vector<PTrace>() }; w.dbs.push_back(c); if (g.rendering) g.out << "create db" << w.dbs.size() - 1 << "\n"; }
        } else if (op == 9) {                               // free and start over
            if (!g.chance(1, 2)) continue;
            for (auto & k : w.kept) if (k.base == bi) k.live = false;
            free_db(b.db);
            b.db = create_db();
            b.ts.clear();
            freed++;
            if (g.rendering) g.out << "db" << bi << " freed and created anew\n";
        } else if (op == 10) {                              // unrelated read
            PTrace t = pool[g.draw(np)];
            std::string bytes = encode(*t);
            if (g.coin()) bytes += (char) 9;
            ScratchFile f(bytes);
            void *x = read_trace(f.path.c_str(), 0, 0);
            if (x) free_trace(x);
            if (g.rendering) g.out << "read_trace and free_trace\n";
        } else if (op < 13) {                               // look at everything
            std::string s = cmpBase(b, g.coin());
            PBT_CHECK(s.empty(), "step %zu: db%zu: %s", step, bi, s.c_str());
        } else if (op < 15) {                               // keep what is handed out
            if (w.kept.size() >= 6) {
                size_t k = g.draw(w.kept.size());
                free_trace_points(w.kept[k].ps, w.kept[k].n);
                if (w.kept[k].own && w.kept[k].live) free_trace(w.kept[k].own);
                w.kept.erase(w.kept.begin() + k);
                continue;
            }
            Kept x;
            x.own = NULL;
            x.live = true;
            x.base = bi;
            if (g.chance(1, 3)) {
                x.own_model = pool[g.draw(np)];
                ScratchFile f(encode(*x.own_model));
                x.own = read_trace(f.path.c_str(), 0, 0);
                PBT_CHECK(x.own, "step %zu: read_trace failed", step);
                x.base = SIZE_MAX;
                x.ps = get_points(x.own);
                x.n = trace_size(x.own);
            } else {
                if (b.ts.empty()) continue;
                size_t k = g.draw(b.ts.size());
                if (g.coin()) { x.ps = get_points(get_trace(b.db, k)); x.n = trace_size(get_trace(b.db, k)); }
                else {
                    MQuery q = genQuery(g, *b.ts[k], 2, 100);
                    q.keep = g.draw(2);
                    CQuery c(q);
                    x.ps = NULL; x.n = 0;
                    query_trace(b.db, k, c.fv.data(), c.fv.size(), c.hard, NULL, 0, 0, q.keep, 0, 0, &x.ps, &x.n);
                }
            }
            for (uint64_t i = 0; i < x.n; i++) x.want.push_back(fullKey(x.ps[i]));
            w.kept.push_back(x);
            if (g.rendering) g.out << "keep " << x.n << " points\n";
        } else if (!w.kept.empty()) {                       // release
            size_t k = g.draw(w.kept.size());
            if (w.kept[k].own && w.kept[k].live && g.coin()) { free_trace(w.kept[k].own); w.kept[k].live = false; }
            else {
                if (w.kept[k].live) {
                    for (uint64_t i = 0; i < w.kept[k].n; i++) PBT_CHECK(fullKey(w.kept[k].ps[i]) == w.kept[k].want[i], "step %zu: a result that was handed out changed", step);
                }
                free_trace_points(w.kept[k].ps, w.kept[k].n);
                if (w.kept[k].own && w.kept[k].live) free_trace(w.kept[k].own);
                w.kept.erase(w.kept.begin() + k);
            }
        }
        // counts after every step, contents of every database now and then
        for (size_t i = 0; i < w.dbs.size(); i++)
            PBT_CHECK(n_traces(w.dbs[i].db) == w.dbs[i].ts.size(), "step %zu: db%zu has %u traces, expected %zu", step, i, n_traces(w.dbs[i].db), w.dbs[i].ts.size());
        if (g.chance(1, 4))
            for (size_t i = 0; i < w.dbs.size(); i++) {
                std::string s = cmpBase(w.dbs[i], false);
                PBT_CHECK(s.empty(), "after step %zu: db%zu: %s", step, i, s.c_str());
            }
        for (auto & k : w.kept) if (k.live) {
            for (uint64_t i = 0; i < k.n; i++) PBT_CHECK(fullKey(k.ps[i]) == k.want[i], "after step %zu: point %llu of a result that was handed out changed", step, (unsigned long long) i);
            rechecks++;
        }
        g.evals();
    }
    for (size_t i = 0; i < w.dbs.size(); i++) {
        std::string s = cmpBase(w.dbs[i], true);
        PBT_CHECK(s.empty(), "at the end: db%zu: %s", i, s.c_str());
    }
    g.label(w.dbs.size() > 1, "several-databases");
    g.label(failed > 0, "failed-add");
    g.label(failed > 0 && adds > 0, "failed-and-successful-add");
    g.label(queries > 0, "queries");
    g.label(trips > 0, "serialization");
    g.label(freed > 0, "database-freed");
    g.label(rechecks > 3, "results-kept");
    if (lifetime ? rechecks > 3 && (freed || adds) : adds > 1 || (adds && (failed || trips))) g.nontrivial();
}
static void database(Gen & g) { histories(g, false); }
static void lifetime(Gen & g) { histories(g, true); }

static pbt::Register r1("serialize", serialize, 20), r2("relations", relationsProp, 60), r3("in-memory", inMemory), r4("database", database, 25),
    r5("lifetime", lifetime, 25);

int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
