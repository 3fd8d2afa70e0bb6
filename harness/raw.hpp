// Points given to add_trace_points, and the trace they must become.
#pragma once
#include "model.hpp"

using pbt::Gen;

// ---- in-memory points --------------------------------------------------------
// C arrays as a client of add_trace_points builds them, each in an allocation
// of its own so that reading past its end is noticed.
struct CPoints {
    std::vector<c_trace_point_struct> pts;
    c_trace_point_struct *arr;
    std::vector<char *> names;
    CPoints() : arr(NULL) {}
    ~CPoints() { clear(); }
    void clear() {
        for (auto & p : pts) {
            if (p.vars) memset(p.vars, 0x5a, p.n_vars * sizeof *p.vars);
            if (p.aux) memset(p.aux, 0x5a, p.n_aux * sizeof *p.aux);
            free(p.vars); free(p.aux);
        }
        pts.clear();
        free(arr);
        arr = NULL;
        for (auto *n : names) { memset(n, 'Z', strlen(n)); free(n); }
        names.clear();
    }
};
struct RawVar { uint32_t name, tname; uint64_t value; bool hasbs; uint64_t bs; };
struct RawPoint { uint64_t stmt; std::vector<RawVar> vars; std::vector<uint64_t> aux; };
struct RawTrace { std::vector<std::string> names; std::vector<RawPoint> points; };

static RawTrace genRaw(Gen & g, size_t max_points, bool junk, bool huge = false) {
    RawTrace r;
    size_t nn = g.chance(15, 16) ? 1 + g.count(4, 10) : 0;
    bool weird = g.chance(1, 4);
    for (size_t i = 0; i < nn; i++) r.names.push_back(genName(g, weird));
    // which type names occur, and how often negative values do
    std::vector<uint32_t> tn;
    size_t nt = nn ? 1 + g.draw(4) : 0;
    for (size_t i = 0; i < nt; i++) tn.push_back(g.draw(nn));
    std::vector<uint64_t> vals;
    for (int i = 0; i < 4; i++) vals.push_back(g.interesting());
    uint64_t signs = g.draw(3);
    size_t np = g.count(5, max_points);
    for (size_t i = 0; i < np; i++) {
        RawPoint p;
        p.stmt = g.coin() ? g.draw(5) : g.interesting();
        size_t nv = nn ? g.count(4, 12) : 0;
        for (size_t k = 0; k < nv; k++) {
            RawVar v;
            v.name = g.draw(nn);
            v.tname = tn[g.draw(nt)];
            v.value = g.chance(2, 3) ? vals[g.draw(4)] : g.interesting();
            if (signs == 0) v.value &= INT64_MAX;
            else if (signs == 1 && v.tname != tn[0]) v.value &= INT64_MAX;
            v.hasbs = g.chance(1, 3);
            v.bs = v.hasbs ? (g.coin() ? g.draw(100) : g.interesting()) : junk ? g.interesting() : 0;
            p.vars.push_back(v);
        }
        size_t na = g.chance(1, 2) ? g.count(4, 12) : 0;
        for (size_t k = 0; k < na; k++) p.aux.push_back(g.interesting());
        r.points.push_back(p);
    }
    if (nn && g.chance(1, 60)) {         // many of something
        unsigned dim = g.draw(5);
        size_t n = manyOf(g, huge && g.chance(1, 6) ? 70000 : 3000), old = r.names.size();
        if (dim == 0) n = std::min<size_t>(n, 1500);
        size_t most = dim == 2 && huge && g.coin() ? n : 3000;
        RawPoint p;
        p.stmt = g.draw(100);
        if (dim <= 1) while (r.names.size() < n) r.names.push_back(pbt::fmt("t%zu", r.names.size()));
        for (size_t k = 0; k < n; k++) {
            RawVar v;
            v.name = k % r.names.size();
            v.tname = dim == 0 ? (k * 7 + 3) % n : tn[k % nt];       // 0: many types
            v.value = k % 5 == 3 ? -k : k;
            v.hasbs = k % 3 == 0; v.bs = v.hasbs ? k : 0;
            if (dim <= 2 && (dim == 0 || k < most)) p.vars.push_back(v);
            if (dim == 3) p.aux.push_back(k ^ p.stmt);
        }
        for (auto & v : p.vars) if (v.tname >= r.names.size()) v.tname = old - 1;
        if (dim == 4) {
            if (!r.points.empty()) p = r.points.back();
            if (n > 3000) { if (p.vars.size() > 1) p.vars.resize(1); p.aux.clear(); }
            for (size_t k = 0; k < std::min<size_t>(n, 66000); k++) { p.stmt += k % 3; r.points.push_back(p); }
        }
        r.points.push_back(p);
        g.label(pbt::fmt("in-memory-many-%u", dim));
    }
    if (g.chance(1, 5)) {                // a single negative value of all, often a late one
        std::vector<RawVar *> vs;
        for (auto & p : r.points) for (auto & v : p.vars) { v.value &= INT64_MAX; vs.push_back(&v); }
        if (!vs.empty()) {
            size_t at = g.coin() ? vs.size() - 1 - g.draw(std::min<size_t>(vs.size(), 5)) : g.draw(vs.size());
            vs[at]->value = g.coin() ? -(1 + g.draw(1000)) : vs[at]->value | 1ull << 63;
        }
        g.label("one-negative-value");
    }
    return r;
}
static void toC(Gen & g, const RawTrace & r, CPoints & c) {
    for (auto & p : r.points) {
        c_trace_point_struct s;
        memset(&s, 0xa5, sizeof s);
        s.statement = p.stmt;
        s.n_vars = p.vars.size();
        s.n_aux = p.aux.size();
        s.vars = p.vars.empty() ? NULL : (c_trace_var_info_struct *) malloc(p.vars.size() * sizeof *s.vars);
        s.aux = p.aux.empty() ? NULL : (uint64_t *) malloc(p.aux.size() * sizeof(uint64_t));
        for (size_t k = 0; k < p.aux.size(); k++) s.aux[k] = p.aux[k];
        for (size_t k = 0; k < p.vars.size(); k++) {
            c_trace_var_info_struct & v = s.vars[k];
            memset(&v, 0, sizeof v);
            v.value.u = p.vars[k].value;
            v.format = UNSIGNED;
            v.var_name_index = p.vars[k].name;
            v.type_name_index = p.vars[k].tname;
            v.size = 8;
            v.buffer_size = p.vars[k].bs;
            v.has_buffer_size = p.vars[k].hasbs;
        }
        c.pts.push_back(s);
    }
    if (!c.pts.empty()) {
        c.arr = (c_trace_point_struct *) malloc(c.pts.size() * sizeof *c.arr);
        memcpy(c.arr, c.pts.data(), c.pts.size() * sizeof *c.arr);
    }
    for (auto & n : r.names) c.names.push_back(strdup(n.c_str()));
}
// What the trace must be; the order of the types is the library's choice, so
// it is taken from the trace after checking that it is the right set.
static MTrace rawModel(const RawTrace & r, const Trace & tr) {
    MTrace t;
    t.names = r.names;
    std::map<uint32_t, bool> neg;
    for (auto & p : r.points) for (auto & v : p.vars) { bool & n = neg[v.tname]; n = n || (int64_t) v.value < 0; }
    const TypeDescriptions & ty = tr.getTypes();
    PBT_CHECK(ty.size() == neg.size(), "%zu types, expected %zu", ty.size(), neg.size());
    std::map<uint32_t, uint32_t> at;
    for (size_t i = 0; i < ty.size(); i++) {
        MType y = { ty[i].getNameIndex(), (uint32_t) ty[i].getTypeFormat(), ty[i].getSize() };
        PBT_CHECK(neg.count(y.name), "type %zu has name index %u, which no variable uses", i, y.name);
        PBT_CHECK(!at.count(y.name), "type name %u occurs twice", y.name);
        PBT_CHECK(y.fmt == (neg[y.name] ? M_SIGNED : M_UNSIGNED), "type with name index %u has format %u although %s of its values is negative", y.name, y.fmt, neg[y.name] ? "one" : "none");
        PBT_CHECK(y.size == 8, "type with name index %u has size %u", y.name, y.size);
        at[y.name] = i;
        t.types.push_back(y);
    }
    for (auto & p : r.points) {
        MPoint m;
        m.stmt = p.stmt;
        m.aux = p.aux;
        for (auto & v : p.vars) {
            MVar x;
            x.name = v.name; x.type = at[v.tname]; x.fmt = t.types[x.type].fmt; x.size = 8; x.raw = v.value;
            x.hasbs = v.hasbs; x.bs = v.hasbs ? v.bs : 0;
            m.vars.push_back(x);
        }
        canonicalOrder(m);
        t.points.push_back(m);
    }
    return t;
}
static std::string showRaw(const RawTrace & r) {
    std::string s = pbt::fmt("in-memory points, names(%zu)[", r.names.size());
    for (auto & n : r.names) s += showStr(n) + " ";
    s += "]";
    for (size_t i = 0; i < r.points.size() && i < 10; i++) {
        s += pbt::fmt("\n  #%zu { stmt=0x%llx", i, (unsigned long long) r.points[i].stmt);
        for (auto & v : r.points[i].vars)
            s += pbt::fmt(" n%u:type n%u=0x%llx%s", v.name, v.tname, (unsigned long long) v.value, v.hasbs ? pbt::fmt("[buf %llu]", (unsigned long long) v.bs).c_str() : "");
        for (auto a : r.points[i].aux) s += pbt::fmt(" aux=0x%llx", (unsigned long long) a);
        s += " }";
    }
    return s;
}
// Adds to the database and returns the model of the new trace.
static MTrace addRaw(Gen & g, void *db, const RawTrace & r) {
    CPoints c;
    toC(g, r, c);
    uint32_t before = n_traces(db);
    g.at("add_trace_points");
    PBT_CHECK(add_trace_points(db, c.arr, c.pts.size(), c.names.data(), c.names.size()), "add_trace_points reported failure");
    // the arrays must not have been changed, and are not needed any more
    for (size_t i = 0; i < c.pts.size(); i++)
        PBT_CHECK(memcmp(&c.arr[i], &c.pts[i], sizeof c.pts[i]) == 0 || (c.arr[i].statement == c.pts[i].statement && c.arr[i].vars == c.pts[i].vars && c.arr[i].aux == c.pts[i].aux &&
                  c.arr[i].n_vars == c.pts[i].n_vars && c.arr[i].n_aux == c.pts[i].n_aux), "add_trace_points changed its input");
    c.clear();
    PBT_CHECK(n_traces(db) == before + 1, "add_trace_points made %u traces of %u", n_traces(db), before);
    return rawModel(r, *(const Trace *) get_trace(db, before));
}
