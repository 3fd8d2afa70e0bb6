// Query properties: C06 results, C07 predicate values, C08 soft predicates,
// C09 independence of history, C10 filters and picking, C11 deduplication,
// C21 printing.
#include "query.hpp"
#include "bignew.hpp"
#include "TraceDB.hpp"

using pbt::Gen;

static void addModel(void *db, const MTrace & t, bool file) {
    std::string bytes = encode(t);
    if (file) {
        ScratchFile f(bytes);
        PBT_CHECK(add_trace(db, f.path.c_str(), 0, 0), "add_trace of a well-formed trace failed");
    } else {
        std::istringstream is(bytes);
        ((TraceDB *) db)->addTrace(Trace(is));
    }
}
struct Db {
    void *p;
    Db() : p(create_db()) {}
    ~Db() { if (p) free_db(p); }
private:
    Db(const Db &);
};

static bool same(const Results & a, const Results & b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].key != b[i].key || a[i].aux != b[i].aux || a[i].n_vars != b[i].n_vars) return false;
    return true;
}

// Run a query through the C interface (and the C++ one) and compare.
static Expected ask(Gen & g, void *db, uint32_t index, const MTrace & t, const MQuery & q, bool cpp, bool *decided = NULL) {
    Expected e = expect(t, q);
    bool d;
    g.at("query_trace");
    Results r = runC(db, index, q);
    std::string s = checkResults(t, q, r, &d, e);
    PBT_CHECK(s.empty(), "query_trace, trace %u, %s: %s", index, showQuery(q).c_str(), s.c_str());
    if (cpp && q.keep) {
        g.at("Trace::query");
        Results r2 = runCpp(*(const Trace *) get_trace(db, index), q);
        s = checkResults(t, q, r2, &d, e);
        PBT_CHECK(s.empty(), "Trace::query, %s: %s", showQuery(q).c_str(), s.c_str());
        PBT_CHECK(same(r, r2), "Trace::query and query_trace differ for %s", showQuery(q).c_str());
    }
    g.evals();
    g.tick();
    g.label(d ? "decided" : "left-open-by-rounding");
    if (decided) *decided = d;
    return e;
}

static TraceOpts queryOpts(Gen & g) {
    TraceOpts o;
    o.bulk = 0;
    o.max_points = 10;
    o.max_vars = 8;
    o.point_den = 4;
    o.var_den = 5;
    o.weird_names = g.chance(1, 8);
    return o;
}
// Make equal and nearly equal variables more frequent; the points come out in
// canonical order, in a mixed order, or with sizes recorded between variables.
static void nearCopies(Gen & g, MTrace & t, size_t n) {
    for (auto & p : t.points) canonicalOrder(p);
    annotate(t);
    if (t.types.empty() || t.points.empty()) return;
    for (size_t i = 0; i < n; i++) {
        MPoint & a = t.points[g.draw(t.points.size())];
        MPoint & b = t.points[g.draw(t.points.size())];
        if (a.vars.empty() || b.vars.size() > 8) continue;
        MVar v = a.vars[g.draw(a.vars.size())];
        switch (g.draw(5)) {
        case 0: break;
        case 1: v.name = g.draw(t.names.size()); break;
        case 4: if (v.fmt == M_UNSIGNED || v.fmt == M_SIGNED) v.raw = canonInt(v.raw ^ 1ull << (g.coin() ? 8 * v.size - 1 : g.draw(8 * v.size)), v.fmt, v.size); break;
        case 2: { // same value, another type of any scalar format and size
            uint32_t y = g.draw(t.types.size());
            if (v.fmt == M_BLOB) {      // or the same bytes, another blob type
                for (size_t k = 0; k < t.types.size(); k++, y = (y + 1) % t.types.size())
                    if (y != v.type && t.types[y].fmt == M_BLOB && (t.types[y].size == 0 || t.types[y].size == v.size)) { v.type = y; break; }
                break;
            }
            if (t.types[y].fmt == M_BLOB) break;
            v.type = y; v.fmt = t.types[y].fmt; v.size = t.types[y].size;
            v.raw = canonInt(v.raw, v.fmt, v.size);
        } break;
        default: if (v.fmt == M_UNSIGNED || v.fmt == M_SIGNED) v.raw = canonInt(v.raw + 1, v.fmt, v.size);
        }
        b.vars.push_back(v);
    }
}
static void finishOrder(Gen & g, MTrace & t) {
    bool mix = g.chance(1, 4);
    for (auto & p : t.points) {
        canonicalOrder(p);
        // the block a pointer points into changes within the point
        std::vector<uint32_t> ptr;
        for (uint32_t i = 0; i < p.vars.size(); i++) if (p.vars[i].fmt == M_POINTER && p.vars[i].raw < 1ull << 63) ptr.push_back(i);
        if (!ptr.empty() && p.vars.size() < 9 && g.chance(1, 4)) {
            size_t n = 1 + g.draw(2);
            for (size_t i = 0; i < n; i++) {
                MVar v = p.vars[g.pick(ptr)];
                uint64_t at = g.coin() ? v.raw : v.raw - std::min<uint64_t>(v.raw, g.draw(16));
                p.order.push_back(std::make_pair((uint8_t) T_SIZE, (uint32_t) p.sizes.size()));
                p.sizes.push_back(std::make_pair(at, g.draw(40)));
                p.order.push_back(std::make_pair((uint8_t) T_VAR, (uint32_t) p.vars.size()));
                p.vars.push_back(v);
            }
            g.label("block-changes-within-point");
        } else if (mix) mixOrder(g, p);
    }
    annotate(t);
}
static void confuse(Gen & g, MTrace & t) {
    nearCopies(g, t, g.count(3, 6));
    if (!t.points.empty() && !t.types.empty() && g.coin())
        for (size_t i = 0; i < t.points.size(); i++) if (g.chance(1, 3)) t.points[i].stmt = t.points[0].stmt;
    finishOrder(g, t);
}
// One point with so many variables that a query has tens of thousands of results.
static MTrace crowdedTrace(Gen & g) {
    MTrace t;
    t.names.push_back("a"); t.names.push_back("b");
    MType y = { 0, g.coin() ? M_UNSIGNED : M_SIGNED, 4 };
    t.types.push_back(y);
    y.fmt = M_UNSIGNED; y.size = 8;
    t.types.push_back(y);
    size_t np = 1 + g.draw(2), at = g.draw(np);
    size_t n = g.chance(1, 5) ? 16 + g.draw(3) : g.chance(1, 3) ? 256 + g.draw(3) : 100 + g.draw(200);
    for (size_t i = 0; i < np; i++) {
        MPoint p;
        p.stmt = i + 1;
        for (size_t k = 0; k < (i == at ? n : 3); k++) {
            MVar v;
            v.type = k & 1; v.name = k / 2 & 1; v.fmt = t.types[v.type].fmt; v.size = t.types[v.type].size;
            v.raw = k;
            p.vars.push_back(v);
        }
        canonicalOrder(p);
        t.points.push_back(p);
    }
    annotate(t);
    return t;
}

// Traces on which queries distinguish bindings: a few types, small and
// neighbouring values, live buffers, several variables per point.
static MTrace queryTrace(Gen & g, size_t max_points = 8, size_t max_vars = 7) {
    if (g.chance(1, 5)) {
        TraceOpts o = queryOpts(g);
        o.max_points = max_points;
        MTrace t = genTrace(g, o);
        confuse(g, t);
        return t;
    }
    MTrace t;
    size_t nn = 1 + g.draw(4);
    for (size_t i = 0; i < nn; i++) t.names.push_back(genName(g, false));
    TraceOpts o;
    size_t nt = 1 + g.draw(5);
    for (size_t i = 0; i < nt; i++) {
        o.blobs = g.chance(1, 4);
        t.types.push_back(genType(g, nn, o));
    }
    Pools P;
    genPools(g, P, true);
    uint64_t base = g.coin() ? g.draw(20) : g.interesting();
    for (int i = 0; i < 3; i++) P.ints.push_back(base + g.draw(4));
    std::vector<std::pair<uint64_t, uint64_t> > seen;
    size_t np = 1 + g.draw(max_points);
    for (size_t i = 0; i < np; i++) {
        MPoint p;
        p.stmt = g.pick(P.stmts);
        if (g.coin()) {
            size_t ns = 1 + g.draw(2);
            for (size_t k = 0; k < ns; k++) { p.sizes.push_back(genAlloc(g, P)); seen.push_back(p.sizes.back()); }
        }
        size_t nv = g.draw(max_vars + 1);
        for (size_t k = 0; k < nv; k++) p.vars.push_back(genVar(g, t, P, seen));
        if (g.chance(1, 4)) { size_t na = 1 + g.draw(3); for (size_t k = 0; k < na; k++) p.aux.push_back(g.interesting()); }
        t.points.push_back(p);
    }
    for (auto & p : t.points) canonicalOrder(p);
    annotate(t);
    confuse(g, t);
    return t;
}

// ------------------------------------------------------------------ C06
static void query(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o = queryOpts(g);
    bool big = g.chance(1, 60);
    if (big) { o.bulk = 1; o.dims = 4; if (g.chance(1, 4)) o.dim = 6; }
    bool crowded = !big && g.chance(1, 150);
    MTrace t = big ? genTrace(g, o) : crowded ? crowdedTrace(g) : queryTrace(g);
    if (g.rendering) g.out << showTrace(t);
    Db db;
    size_t at = g.draw(3);
    for (size_t i = 0; i < at; i++) { TraceOpts s; s.bulk = 0; s.max_points = 2; addModel(db.p, genTrace(g, s), false); }
    addModel(db.p, t, g.chance(1, 4));
    unsigned n = big ? 2 : crowded ? 1 : 1 + g.draw(5);
    for (unsigned i = 0; i < n; i++) {
        MQuery q;
        if (crowded) {
            std::vector<uint32_t> y;
            for (uint32_t k = g.draw(2); k < 2; k++) y.push_back(k);
            size_t vars = 0;
            for (auto & p : t.points) vars = std::max(vars, p.vars.size());
            do q.free.push_back(y); while (q.free.size() < 2 || (y.size() == 1 && vars < 104 && q.free.size() < 3) || (vars < 19 && q.free.size() < 4));
            if (g.chance(1, 4)) q.hard = pOp(K_LT, pOp(K_VALUE, pRef(0)), pOp(K_VALUE, pRef(1)));
            g.label("crowded-point");
        } else q = genQuery(g, t, 4, o.dim == 6 ? 200 : big ? 60000 : 1500);
        if (big && q.free.size() && g.coin()) q.hard = MPred();
        if (g.chance(1, 6)) genFilter(g, t, q);
        if (g.rendering) g.out << "\nquery " << showQuery(q);
        Expected e = ask(g, db.p, at, t, q, g.chance(1, 3));
        size_t must = 0, tot = 0;
        for (auto & pr : e.at) { must += pr.must.size(); tot += q.free.empty() ? 1 : productSize(t.points[pr.point], q.free); }
        g.label(pbt::fmt("free-%zu", q.free.size()));
        g.label(must == 0, "no-results");
        g.label(must > 0 && must < tot, "some-but-not-all-bindings");
        g.label(must > 1000, "results>1000");
        g.label(must > 20000, "results>20000");
        if (must > 0 && must < tot) g.nontrivial();
    }
}

// ------------------------------------------------------------------ C07
// An expression with the given value, from constants that fit 64 bits.
static MPred bigConst(Gen & g, const Int & v) {
    if (v >= 0 && v <= Int(UINT64_MAX) && (v > Int(INT64_MAX) || g.coin())) return pU((uint64_t) v);
    if (v >= Int(INT64_MIN) && v <= Int(INT64_MAX)) return pS((int64_t) v);
    Int base = Int(1) << (32 + g.draw(31));
    Int hi = v / base, lo = v - hi * base;
    MPred h = bigConst(g, hi), l = bigConst(g, lo);
    return pOp(K_ADD, pOp(K_MUL, h, pU((uint64_t) base)), l);
}
// Compares an expression with a number equal to or next to its value for some binding.
static MPred nearTie(Gen & g, const MTrace & t, const PredCtx & c, size_t nf) {
    const MPoint & p = t.points[g.draw(t.points.size())];
    std::vector<const MVar *> b;
    for (size_t i = 0; i < nf; i++) b.push_back(&p.vars[g.draw(p.vars.size())]);
    MPred e = genNum(g, c, 2);
    if (g.coin()) e = pOp(K_ADD + g.draw(4), e, genNum(g, c, 1));
    if (g.chance(1, 4)) e = pOp(K_DIV, pOp(K_MUL, e, genConst(g, c)), genConst(g, c));
    if (g.chance(1, 4)) {       // an exact quotient of large numbers
        static const int64_t ds[] = { -1, 1, 2, -2, 3, -7, 10, INT64_MIN, INT64_MAX, 1ll << 32 };
        Int q = (Int(1) << (30 + g.draw(100))) + Int((int64_t) g.range(-2, 2)), d = ds[g.draw(10)];
        if (g.coin()) q = -q;
        e = pOp(K_DIV, bigConst(g, q * d), bigConst(g, d));
    }
    XV x = evalNum(e, b);
    MPred o;
    if (x.st != XV::VALUE || abs(numerator(x.v)) > Int(1) << 300 || denominator(x.v) > Int(1) << 300) o = genConst(g, c);
    else {
        Int n = numerator(x.v), d = denominator(x.v), q = n / d;
        double f = (double) x.v;
        if (f - f != 0) f = 0;
        switch (g.draw(5)) {
        case 0: o = pF(f); break;
        case 1: o = pF(nextafter(f, g.coin() ? 1e308 : -1e308)); break;
        case 2: o = d == 1 ? bigConst(g, q) : pOp(K_DIV, bigConst(g, n), bigConst(g, d)); break;
        default: o = bigConst(g, q + Int((int64_t) g.range(-1, 1)));
        }
    }
    int op = K_GT + g.draw(5);
    return g.coin() ? pOp(op, e, o) : pOp(op, o, e);
}
static void predicates(Gen & g) {
    srand(g.draw(1000));
    MTrace t;
    t.names.push_back("a"); t.names.push_back("b"); t.names.push_back("ty");
    static const MType ys[] = { { 2, M_UNSIGNED, 8 }, { 2, M_SIGNED, 8 }, { 2, M_FLOAT, 8 }, { 2, M_POINTER, 8 }, { 2, M_UNSIGNED, 4 },
                                { 2, M_SIGNED, 4 }, { 2, M_FLOAT, 4 }, { 2, M_SIGNED, 1 }, { 2, M_UNSIGNED, 1 }, { 2, M_SIGNED, 2 },
                                { 2, M_UNSIGNED, 2 }, { 2, M_POINTER, 4 }, { 2, M_BLOB, 3 }, { 2, M_BLOB, 0 }, { 2, M_BLOB, 12 }, { 1, M_BLOB, 12 } };
    for (auto & y : ys) t.types.push_back(y);
    Pools P;
    genPools(g, P, true);
    size_t np = 1 + g.draw(2);
    std::vector<std::pair<uint64_t, uint64_t> > seen;
    for (size_t i = 0; i < np; i++) {
        MPoint p;
        p.stmt = i + 1;
        size_t ns = g.draw(3);
        for (size_t k = 0; k < ns; k++) { p.sizes.push_back(genAlloc(g, P)); seen.push_back(p.sizes.back()); }
        size_t nv = 1 + g.draw(5);
        for (size_t k = 0; k < nv; k++) p.vars.push_back(genVar(g, t, P, seen));
        t.points.push_back(p);
    }
    nearCopies(g, t, g.draw(4));
    finishOrder(g, t);
    if (g.rendering) g.out << showTrace(t);
    Db db;
    addModel(db.p, t, false);
    unsigned n = 1 + g.draw(10);
    std::vector<uint32_t> all;
    for (uint32_t i = 0; i < t.types.size(); i++) all.push_back(i);
    for (unsigned i = 0; i < n; i++) {
        MQuery q;
        size_t nf = 1 + g.draw(2);
        for (size_t k = 0; k < nf; k++) q.free.push_back(all);
        PredCtx c = predCtx(t, nf);
        switch (g.draw(6)) {
        case 5: q.hard = nearTie(g, t, c, nf); g.label("near-tie"); break;
        case 0: { // quotient close to one
            MPred d = pOp(K_DIV, g.coin() ? pOp(K_VALUE, pRef(g.draw(nf))) : genConst(g, c), genConst(g, c));
            static const int one = 1;
            MPred o1 = g.draw(3) == 0 ? pF(one) : g.coin() ? pU(one) : pS(one);
            q.hard = pOp(K_GT + g.draw(5), d, o1);
        } break;
        case 1: { // sums that would wrap
            MPred a = pOp(K_VALUE, pRef(g.draw(nf)));
            MPred b = genConst(g, c);
            MPred s = pOp(K_ADD + g.draw(3), a, b);
            q.hard = pOp(K_GT + g.draw(5), s, g.coin() ? a : genConst(g, c));
        } break;
        default: q.hard = genBool(g, c, 1 + g.draw(4));
        }
        if (g.rendering) g.out << "\nquery " << showQuery(q);
        bool d;
        Expected e = ask(g, db.p, 0, t, q, g.chance(1, 4), &d);
        size_t must = 0, tot = 0;
        for (auto & pr : e.at) { must += pr.must.size(); tot += productSize(t.points[pr.point], q.free); }
        if (d && must > 0 && must < tot) { g.nontrivial(); g.label("splits-bindings"); }
        std::function<void(const MPred &)> lab = [&](const MPred & p) { g.label(pbt::fmt("kind-%d", p.kind)); for (auto & k : p.kids) lab(k); };
        lab(q.hard);
    }
}

// ------------------------------------------------------------------ C08
static void soft(Gen & g) {
    srand(g.draw(1000));
    MTrace t = queryTrace(g);
    if (g.rendering) g.out << showTrace(t);
    Db db;
    addModel(db.p, t, false);
    unsigned n = 1 + g.draw(5);
    for (unsigned i = 0; i < n; i++) {
        MQuery q;
        genFree(g, t, q, 3, 600);
        if (q.free.empty()) continue;
        PredCtx c = predCtx(t, q.free.size());
        if (g.chance(1, 2)) q.hard = genBool(g, c, 2);
        size_t ns = 1 + g.draw(6);
        for (size_t k = 0; k < ns; k++) {
            if (k && g.chance(1, 4)) { q.soft.push_back(q.soft[g.draw(k)]); if (g.coin()) nudge(g, q.soft.back(), q.free.size()); }
            else q.soft.push_back(genBool(g, c, 2));
        }
        size_t cost = 0;
        for (auto & p : t.points) cost += productSize(p, q.free);
        if (cost < 60 && g.chance(1, 10)) {      // more predicates than fit into a byte or a word
            static const size_t many[] = { 33, 65, 130, 257, 300 };
            size_t n = many[g.draw(5)];
            uint64_t style = g.draw(3);
            while (q.soft.size() < n) {
                MPred c = q.soft[style == 0 ? 0 : g.draw(ns)];
                q.soft.push_back(c);
            }
            if (g.coin()) std::reverse(q.soft.begin(), q.soft.end());
            g.label("many-soft-predicates");
        }
        if (g.chance(1, 5)) genFilter(g, t, q);
        if (g.chance(1, 6)) q.seed = 1 + g.draw(1000);
        if (g.chance(1, 6)) q.keep = 0;
        if (g.rendering) g.out << "\nquery " << showQuery(q);
        bool d;
        Expected e = ask(g, db.p, 0, t, q, g.chance(1, 3), &d);
        MQuery plain = q;
        plain.soft.clear();
        Expected pe = expect(t, plain);
        for (size_t k = 0; k < e.at.size(); k++) {
            g.label(e.at[k].must.size() < pe.at[k].must.size(), "soft-predicates-removed-results");
            g.label(e.at[k].must.size() > 1 && e.at[k].must.size() < pe.at[k].must.size(), "tie-among-best");
            if (d && e.at[k].must.size() < pe.at[k].must.size()) g.nontrivial();
        }
    }
}

// ------------------------------------------------------------------ C09
static void history(Gen & g) {
    srand(g.draw(1000));
    std::vector<MTrace> ts;
    size_t nt = 1 + g.draw(3);
    for (size_t i = 0; i < nt; i++) {
        if (i && g.chance(2, 3)) {   // nearly the same trace
            MTrace t = ts[g.draw(ts.size())];
            if (!t.types.empty() && g.chance(1, 3)) {
                // another meaning for the same type index
                MType & y = t.types[g.draw(t.types.size())];
                uint32_t idx = &y - &t.types[0];
                if (y.fmt != M_BLOB) {
                    y.fmt = y.fmt == M_UNSIGNED ? M_SIGNED : y.fmt == M_SIGNED ? M_UNSIGNED : y.fmt == M_POINTER ? M_UNSIGNED : y.size == 8 ? M_POINTER : M_UNSIGNED;
                    for (auto & p : t.points) for (auto & v : p.vars)
                        if (v.type == idx) { v.fmt = y.fmt; v.raw = canonInt(v.raw, v.fmt, v.size); }
                }
            }
            for (auto & p : t.points) {
                for (auto & v : p.vars) if (v.fmt == M_BLOB && v.size && g.chance(1, 4)) v.blob[g.draw(v.size)] ^= 1 << g.draw(8);
                for (auto & s : p.sizes) if (s.second > 1 && s.second < 1u << 20 && g.chance(1, 3)) s.second += 8;
                if (g.chance(1, 4)) p.stmt = g.draw(8);
            }
            confuse(g, t);
            annotate(t);
            ts.push_back(t);
        } else {
            ts.push_back(queryTrace(g, 5, 5));
        }
        if (g.rendering) g.out << (i ? "\n" : "") << "trace " << i << ": " << showTrace(ts.back());
    }
    // a few queries asked over and over
    struct Asked { size_t trace; MQuery q; Expected e; bool have; Results first; };
    std::vector<Asked> qs;
    size_t nq = 2 + g.draw(6);
    for (size_t i = 0; i < nq; i++) {
        Asked a;
        a.have = false;
        a.trace = g.draw(nt);
        const MTrace & t = ts[a.trace];
        if (i && g.chance(2, 3)) {
            const Asked & b = qs[g.draw(qs.size())];
            a.q = b.q;
            if (g.chance(2, 3)) a.trace = b.trace;
            const MTrace & t = ts[a.trace];
            size_t tot = 0;
            for (auto & p : t.points) tot += productSize(p, a.q.free);
            if (tot > 600) a.q = genQuery(g, t, 3, 300);
            else switch (g.draw(5)) {
            case 0: break;
            case 1: case 2: if (a.q.hard.kind != K_NULL) nudge(g, a.q.hard, a.q.free.size()); break;
            case 3: if (a.q.free.size() > 1) std::reverse(a.q.free.begin(), a.q.free.end()); break;
            default: genFilter(g, t, a.q); if (g.coin()) a.q.stmt = b.q.stmt; else if (g.coin()) { a.q.mask = b.q.mask; a.q.stmt &= a.q.mask; }
            }
        } else {
            a.q = genQuery(g, t, 3, 300);
            if (g.chance(1, 3)) genFilter(g, t, a.q);
            if (!a.q.free.empty() && g.chance(1, 4)) a.q.soft.push_back(genBool(g, predCtx(t, a.q.free.size()), 1));
            if (g.chance(1, 5)) a.q.keep = 0;
            if (g.chance(1, 5)) a.q.seed = 1 + g.draw(50);
        }
        a.e = expect(ts[a.trace], a.q);
        qs.push_back(a);
        if (g.rendering) g.out << "\nq" << i << " on trace " << a.trace << ": " << showQuery(a.q);
    }
    // databases: each slot holds a list of model indices
    struct Slot { void *db; std::vector<size_t> have; };
    std::vector<Slot> dbs(2);
    struct Free { std::vector<Slot> & d; ~Free() { for (auto & s : d) if (s.db) free_db(s.db); } } freer = { dbs };
    for (auto & s : dbs) s.db = create_db();
    for (auto & s : dbs) if (g.coin()) { size_t k = g.draw(nt); addModel(s.db, ts[k], false); s.have.push_back(k); }
    size_t ops = 4 + g.count(20, 60);
    size_t asked = 0, repeated = 0, churn = 0;
    for (size_t i = 0; i < ops; i++) {
        g.tick();
        Slot & s = dbs[g.draw(dbs.size())];
        uint64_t op = g.draw(12);
        if (!s.have.empty() && g.chance(1, 40)) {
            // many other queries on one trace: filters, or constants
            size_t j = g.draw(s.have.size()), n = 40 + g.draw(160);
            const MTrace & t = ts[s.have[j]];
            bool filters = g.coin();
            uint64_t mask = g.interesting(), base = g.interesting();
            size_t tot = 0;
            std::vector<uint32_t> all;
            for (uint32_t y = 0; y < t.types.size() && y < 300; y++) all.push_back(y);
            for (auto & p : t.points) tot += p.vars.size();
            if (tot > 60) filters = true;
            if (g.rendering) g.out << "\n  " << n << (filters ? " filters" : " constants") << " on db " << (&s - &dbs[0]) << "[" << j << "] from " << (filters ? mask : base);
            for (size_t k = 0; k < n; k++) {
                MQuery q;
                if (filters) {
                    q.mask = k % 3 ? mask + k : pbt::mix(mask + k);
                    if (!t.points.empty()) q.stmt = t.points[k % t.points.size()].stmt & q.mask;
                } else {
                    q.free.push_back(all);
                    q.hard = pOp(K_GT + (int) (k % 5), pOp(K_VALUE, pRef(0)), pU(base + (k % 2 ? k : -k)));
                }
                Results r = runC(s.db, j, q);
                bool d;
                std::string e = checkResults(t, q, r, &d, expect(t, q));
                PBT_CHECK(e.empty(), "op %zu, query %zu of a series (%s): %s", i, k, showQuery(q).c_str(), e.c_str());
                g.evals();
            }
            g.label("long-series");
        } else if (op < 2) {
            size_t k = g.draw(nt);
            if (s.have.size() < 5) { addModel(s.db, ts[k], op == 1); s.have.push_back(k); }
            if (g.rendering) g.out << "\n  add trace " << k << " to db " << (&s - &dbs[0]);
        } else if (op == 2) {
            free_db(s.db);
            s.db = create_db();
            s.have.clear();
            churn++;
            if (g.rendering) g.out << "\n  free db " << (&s - &dbs[0]);
        } else if (op == 3) {
            char *text = serialize_trace_db(s.db);
            uint64_t mode = g.draw(3);
            if (mode == 2) free_db(s.db);
            void *n = deserialize_trace_db(text);
            free(text);
            if (mode == 2) { s.db = n; churn++; }
            else if (mode == 1) { free_db(s.db); s.db = n; churn++; } else free_db(n);
            if (g.rendering) g.out << "\n  serialize and deserialize db " << (&s - &dbs[0]);
        } else if (op == 4) {
            std::string bytes = encode(ts[g.draw(nt)]);
            bytes += "\x02\xff\xff\xff\xff";
            ScratchFile f(bytes);
            PBT_CHECK(!add_trace(s.db, f.path.c_str(), 0, 0), "a damaged trace was added");
            if (g.rendering) g.out << "\n  failed add";
        } else if (!s.have.empty()) {
            // ask a query on some trace of this database
            std::vector<std::pair<size_t, size_t> > c;   // (query, index)
            for (size_t k = 0; k < qs.size(); k++)
                for (size_t j = 0; j < s.have.size(); j++) if (s.have[j] == qs[k].trace) c.push_back(std::make_pair(k, j));
            if (c.empty()) continue;
            std::pair<size_t, size_t> x = c[g.draw(c.size())];
            Asked & a = qs[x.first];
            if (g.rendering) g.out << "\n  ask q" << x.first << " of db " << (&s - &dbs[0]) << "[" << x.second << "]";
            g.at("op %zu: query %zu", i, x.first);
            Results r = runC(s.db, x.second, a.q);
            g.evals();
            bool d;
            std::string e = checkResults(ts[a.trace], a.q, r, &d, a.e);
            PBT_CHECK(e.empty(), "op %zu, query %zu (%s) asked %s: %s", i, x.first, showQuery(a.q).c_str(),
                      a.have ? "again" : "for the first time", e.c_str());
            asked++;
            if (a.have) {
                PBT_CHECK(same(a.first, r), "op %zu, query %zu (%s) gave other results (%zu) than before (%zu)", i, x.first, showQuery(a.q).c_str(), r.size(), a.first.size());
                repeated++;
            } else { a.first = r; a.have = true; }
        }
    }
    g.label(repeated > 0, "same-query-again");
    g.label(repeated > 0 && churn > 0, "same-query-after-free");
    g.label(asked > 6, "asked>6");
    if (asked > 2) g.nontrivial();
}

// ------------------------------------------------------------------ C10
static void filter(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o = queryOpts(g);
    o.point_den = 10;
    o.max_points = 30;
    o.max_vars = 3;
    bool big = g.chance(1, 50);
    if (big) { o.bulk = 1; o.dims = 3; }
    MTrace t = big ? genTrace(g, o) : queryTrace(g, 20, 3);
    if (g.coin()) for (auto & p : t.points) if (g.coin()) p.stmt ^= 1ull << g.draw(64);
    for (auto & p : t.points) canonicalOrder(p);
    annotate(t);
    if (g.rendering) g.out << showTrace(t);
    Db db;
    addModel(db.p, t, false);
    MQuery base = genQuery(g, t, 2, 500);
    unsigned n = 2 + g.draw(8);
    for (unsigned i = 0; i < n; i++) {
        MQuery q = base;
        if (g.chance(1, 4)) { q.free.clear(); q.hard = MPred(); }
        if (i && g.chance(1, 8)) { q.mask = q.stmt = 0; } else genFilter(g, t, q);
        if (g.chance(1, 3)) base.mask = q.mask, base.stmt = q.stmt;
        if (g.chance(1, 4)) { q.mask = base.mask; }
        if (g.rendering) g.out << "\nquery " << showQuery(q);
        Expected e = ask(g, db.p, 0, t, q, g.chance(1, 4));
        g.label(e.selected.empty(), "none-selected");
        g.label(e.selected.size() == t.points.size(), "all-selected");
        if (!e.selected.empty() && e.selected.size() < t.points.size()) { g.nontrivial(); g.label("some-selected"); }
        if (q.mask == 0 && q.stmt == 0) PBT_CHECK(e.selected.size() == t.points.size(), "model");
        if (g.chance(1, 2)) {
            q.seed = g.coin() ? 1 + g.draw(100) : (uint32_t) g.interesting();
            if (!q.seed) q.seed = 1;
            ask(g, db.p, 0, t, q, true);
            g.label("with-seed");
        }
    }
}
// Which selected point a seed picks.
static void pickProp(Gen & g) {
    srand(g.draw(1000));
    MTrace t;
    t.names.push_back("n");
    MType y4 = { 0, M_UNSIGNED, 4 }, y8 = { 0, M_SIGNED, 8 };
    t.types.push_back(y4); t.types.push_back(y8);
    size_t np = 1 + g.draw(8);
    static const size_t many[] = { 40, 300, 3000, 70000 };
    bool large = g.chance(1, 25), vars = !large && g.coin();
    if (large) np = many[g.draw(g.chance(1, 3) ? 4 : 3)];
    uint64_t base = g.interesting() & ~0xffull;
    if (large) base = g.draw(1000) << 32;
    for (size_t i = 0; i < np; i++) {
        MPoint p;
        p.stmt = base + (i << 1) + (large ? (i % 7 == 3) : g.chance(1, 3) ? 1 : 0);
        size_t nv = vars ? g.draw(3) : 0;
        for (size_t k = 0; k < nv; k++) {
            MVar v;
            v.type = g.draw(2); v.name = 0; v.fmt = t.types[v.type].fmt; v.size = t.types[v.type].size;
            v.raw = g.draw(4);
            p.vars.push_back(v);
        }
        canonicalOrder(p);
        t.points.push_back(p);
    }
    annotate(t);
    MQuery q;
    if (vars) {
        size_t nf = 1 + g.draw(2);
        for (size_t k = 0; k < nf; k++) {
            std::vector<uint32_t> f;
            uint64_t w = g.draw(4);
            if (w != 1) f.push_back(0);
            if (w != 2) f.push_back(1);
            q.free.push_back(f);
        }
        if (g.coin()) q.hard = pOp(K_GT + g.draw(5), pOp(K_VALUE, pRef(g.draw(nf))), pU(g.draw(4)));
        if (g.chance(1, 4)) q.soft.push_back(pOp(K_LT, pOp(K_VALUE, pRef(0)), pU(g.draw(4))));
        g.label("with-variables");
    }
    q.keep = vars ? 1 : g.draw(2);
    if (g.coin()) { q.mask = 1; q.stmt = g.draw(2); }
    std::set<uint64_t> sel, hit;
    std::map<uint64_t, size_t> at;
    std::map<uint64_t, PointResult> full;
    bool empty = false, hit_empty = false;
    for (size_t i = 0; i < np; i++) {
        const MPoint & p = t.points[i];
        if ((p.stmt & q.mask) != q.stmt) continue;
        if (vars) {
            PointResult pr = bindAt(t, i, q);
            if (pr.must.empty()) { empty = true; continue; }
            full[p.stmt] = pr;
        }
        sel.insert(p.stmt);
    }
    Db db, db2;
    addModel(db.p, t, false);
    if (g.coin()) addModel(db2.p, MTrace(t), false);
    addModel(db2.p, t, true);
    uint32_t from = g.coin() ? 1 + g.draw(1000) : (uint32_t) g.interesting();
    if (g.rendering) { if (large) g.out << np << " points"; else g.out << showTrace(t); g.out << "\n" << showQuery(q) << " seeds from " << from; }
    size_t nseeds = large ? 300 : 200;
    for (size_t i = 0; i < nseeds; i++) {
        uint32_t s = i < nseeds / 2 ? from + (uint32_t) i : (uint32_t) pbt::mix(from + i);
        if (!s) continue;
        q.seed = s;
        Results r = runC(db.p, 0, q);
        g.evals();
        if (r.empty()) {
            PBT_CHECK(sel.empty() || empty, "seed %u: no results, although every selected point has some", s);
            hit_empty = true;
        } else {
            uint64_t st;
            memcpy(&st, r[0].key.data(), 8);
            PBT_CHECK(sel.count(st), "seed %u picked statement 0x%llx, which is not selected or has no results", s, (unsigned long long) st);
            if (vars) {
                std::string e = cmpGroup(t, full[st], r, 0, r.size(), true);
                PBT_CHECK(e.empty(), "seed %u: %s", s, e.c_str());
            } else PBT_CHECK(r.size() == 1, "seed %u: %zu results, expected one point's", s, r.size());
            hit.insert(st);
        }
        if (i % 7 == 0) {
            Results r2 = runC(db2.p, n_traces(db2.p) - 1, q);
            if (i % 3 == 0) {                // another query in between
                MQuery o;
                o.mask = pbt::mix(i);
                o.stmt = base & o.mask;
                if (i % 2) o.seed = s;
                runC(db.p, 0, o);
            }
            Results r3 = runC(db.p, 0, q);
            PBT_CHECK(same(r, r2) && same(r, r3), "seed %u picks different points on the same trace", s);
        }
    }
    if (large) {                     // too many to reach them all: every tenth of them is reached
        std::vector<uint64_t> v(sel.begin(), sel.end());
        std::vector<bool> tenth(10);
        for (uint64_t s : hit) tenth[(std::lower_bound(v.begin(), v.end(), s) - v.begin()) * 10 / v.size()] = true;
        for (int k = 0; k < 10 && v.size() >= 20; k++)
            PBT_CHECK(tenth[k], "no point of part %d of 10 of the %zu selected ones was picked by %zu seeds", k, v.size(), nseeds);
    } else
    for (uint64_t s : sel) PBT_CHECK(hit.count(s), "statement 0x%llx is selected but never picked by %zu seeds", (unsigned long long) s, nseeds);
    PBT_CHECK(!empty || hit_empty, "a selected point without results is never picked by %zu seeds", nseeds);
    g.label(large ? std::string("selected-many") : pbt::fmt("selected-%zu", sel.size()));
    if (sel.size() > 1) g.nontrivial();
}

// ------------------------------------------------------------------ C11
// Points whose bindings are thousands of distinct ones, repeated by the next point.
static MTrace wideTrace(Gen & g) {
    MTrace t;
    size_t nv = 12 + g.draw(g.chance(1, 3) ? 90 : 50), np = 2 + g.draw(2);
    for (size_t i = 0; i < nv; i++) t.names.push_back(pbt::fmt("w%zu", i));
    MType a = { 0, M_UNSIGNED, 4 }, b = { 1, M_SIGNED, 8 };
    t.types.push_back(a); t.types.push_back(b);
    for (size_t i = 0; i < np; i++) {
        MPoint p;
        p.stmt = 5;
        for (size_t k = 0; k < nv; k++) {
            MVar v;
            v.type = k & 1; v.name = k; v.fmt = t.types[v.type].fmt; v.size = t.types[v.type].size;
            v.raw = i;
            p.vars.push_back(v);
        }
        canonicalOrder(p);
        t.points.push_back(p);
    }
    annotate(t);
    return t;
}
static void dedup(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o = queryOpts(g);
    o.point_den = 8;
    o.max_points = 16;
    o.max_vars = 5;
    bool crowded = g.chance(1, 100);
    MTrace t = crowded ? wideTrace(g) : g.coin() ? queryTrace(g, 10, 5) : genTrace(g, o);
    // few statement ids and names, so that bindings repeat
    uint64_t st[3] = { g.interesting(), g.interesting(), g.draw(4) };
    if (!crowded) for (auto & p : t.points) {
        p.stmt = st[g.draw(3)];
        for (auto & v : p.vars) if (g.chance(2, 3)) v.name %= 2;
    }
    if (!crowded && t.points.size() > 1 && g.coin()) {
        size_t i = g.draw(t.points.size()), j = g.draw(t.points.size());
        t.points[i] = t.points[j];
        for (auto & v : t.points[i].vars) if (v.fmt == M_SIGNED || v.fmt == M_UNSIGNED) v.raw = canonInt(v.raw + g.draw(2), v.fmt, v.size);
        if (g.coin()) t.points[i].stmt = st[g.draw(3)];
        if (g.coin() && t.points[i].vars.size() > 1) std::swap(t.points[i].vars[0].name, t.points[i].vars[1].name);
    }
    for (auto & p : t.points) canonicalOrder(p);
    annotate(t);
    if (g.rendering) g.out << showTrace(t);
    Db db;
    addModel(db.p, t, false);
    unsigned n = crowded ? 1 : 1 + g.draw(4);
    for (unsigned i = 0; i < n; i++) {
        MQuery q = genQuery(g, t, 3, 800);
        if (crowded) {
            std::vector<uint32_t> all;
            for (uint32_t k = 0; k < t.types.size(); k++) all.push_back(k);
            q = MQuery();
            q.free.assign(2, all);
            g.label("many-distinct-bindings");
        }
        if (g.chance(1, 2)) q.hard = MPred();
        if (g.chance(1, 4)) genFilter(g, t, q);
        if (!q.free.empty() && g.chance(1, 6)) q.soft.push_back(genBool(g, predCtx(t, q.free.size()), 1));
        if (g.chance(1, 8)) q.seed = 1 + g.draw(100);
        if (g.rendering) g.out << "\nquery " << showQuery(q);
        q.keep = 0;
        bool d;
        Expected e = ask(g, db.p, 0, t, q, false, &d);
        q.keep = 1 + g.draw(255);
        ask(g, db.p, 0, t, q, false);
        std::set<std::string> keys;
        size_t tot = 0;
        for (auto & pr : e.at) for (auto & b : pr.must) { keys.insert(dupKey(t, pr.point, b)); tot++; }
        g.label(keys.size() < tot, "has-duplicates");
        if (d && keys.size() < tot && keys.size() > 1) g.nontrivial();
    }
}

// ------------------------------------------------------------------ C21
struct Parser {
    const std::string & s;
    size_t p;
    Parser(const std::string & x) : s(x), p(0) {}
    void ws() { while (p < s.size() && isspace((unsigned char) s[p])) p++; }
    std::string tok() {
        ws();
        size_t b = p;
        if (p < s.size() && (s[p] == '(' || s[p] == ')')) { p++; return s.substr(b, 1); }
        while (p < s.size() && !isspace((unsigned char) s[p]) && s[p] != '(' && s[p] != ')') p++;
        return s.substr(b, p - b);
    }
};
static void parseAgainst(Parser & ps, const MPred & want) {
    static const char *nm[] = { "", "", "v/size", "v/value", "distinct", "", "", "", "and", "or", "not", ">", ">=", "<", "<=", "=", "+", "-", "*", "/" };
    std::string t = ps.tok();
    std::string exp;
    switch (want.kind) {
    case K_REF:
        exp = pbt::fmt("<v%llu>", (unsigned long long) want.var);
        PBT_CHECK(t == exp, "printed %s for variable reference %s", t.c_str(), exp.c_str());
        return;
    case K_SIGNED:
        exp = pbt::fmt("%lld", (long long) want.s);
        PBT_CHECK(t == exp, "printed %s for constant %s", t.c_str(), exp.c_str());
        return;
    case K_UNSIGNED:
        exp = pbt::fmt("%llu", (unsigned long long) want.u);
        PBT_CHECK(t == exp, "printed %s for constant %s", t.c_str(), exp.c_str());
        return;
    case K_FLOAT: {
        char *end;
        double got = strtod(t.c_str(), &end), w = want.d;
        PBT_CHECK(!t.empty() && *end == 0, "printed %s for floating-point constant %.17g", t.c_str(), w);
        bool ok = w != w ? got != got : got == w || fabs(got - w) <= 2e-5 * fabs(w) || (w - w != 0 && got == w);
        if (fabs(w) > 1.797e308 || fabs(w) < 1e-300) ok = true;
        PBT_CHECK(ok, "printed %s for floating-point constant %.17g", t.c_str(), w);
        return;
    }
    }
    PBT_CHECK(t == "(", "printed %s where an expression (%s ...) starts", t.c_str(), nm[want.kind]);
    t = ps.tok();
    PBT_CHECK(t == nm[want.kind], "printed operator %s, expected %s", t.c_str(), nm[want.kind]);
    for (auto & k : want.kids) parseAgainst(ps, k);
    t = ps.tok();
    PBT_CHECK(t == ")", "printed %s where (%s ...) ends", t.c_str(), nm[want.kind]);
}
static void noEmptyOps(MPred & p) {
    if ((p.kind == K_AND || p.kind == K_OR) && p.kids.empty()) { p = pOp(K_EQ, pU(1), pU(1)); return; }
    for (auto & k : p.kids) noEmptyOps(k);
}
static void print(Gen & g) {
    MTrace t;
    PredCtx c;
    c.t = &t;
    c.n = 1 + g.draw(12);
    static MVar vars[4];
    vars[0].fmt = M_UNSIGNED; vars[0].size = 8; vars[0].raw = g.interesting();
    vars[1].fmt = M_SIGNED; vars[1].size = 8; vars[1].raw = g.interesting();
    vars[2].fmt = M_FLOAT; vars[2].size = 8; vars[2].raw = genFloatBits(g, 8);
    for (int i = 0; i < 3; i++) c.pool.push_back(&vars[i]);
    MPred p = g.chance(1, 10) ? genNum(g, c, 3) : genBool(g, c, 1 + g.draw(6));
    if (g.chance(1, 20)) p = pRef(g.interesting());
    noEmptyOps(p);
    if (g.rendering) g.out << showPred(p);
    if (predSize(p) > 4) g.nontrivial();
    std::function<void(const MPred &)> lab = [&](const MPred & q) { g.label(pbt::fmt("kind-%d", q.kind)); for (auto & k : q.kids) lab(k); };
    lab(p);
    Predicate x = toCpp(p);
    g.at("print");
    std::ostringstream os;
    os << x;
    std::string s = os.str();
    if (g.rendering) g.out << "\nprinted: " << s;
    Parser ps(s);
    parseAgainst(ps, p);
    ps.ws();
    PBT_CHECK(ps.p == s.size(), "text after the predicate: %s", s.substr(ps.p).c_str());
    std::ostringstream os2;
    os2 << "x " << x << x << " y";
    PBT_CHECK(os2.str() == "x " + s + s + " y", "printing is not repeatable");
    g.evals();
}

static pbt::Register q1("query", query), q2("predicates", predicates), q3("soft", soft), q4("history", history, 25),
    q5("filter", filter), q6("pick", pickProp), q7("dedup", dedup), q8("print", print, 100);

int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
