// query.hpp -- an independent model of queries: predicates with an exact
// three-valued evaluator, brute-force bindings, soft predicates, filters,
// deduplication; and the comparison with the library's results.
#ifndef QUERY_HPP
#define QUERY_HPP

#include <cmath>
#include <tuple>
#include <boost/multiprecision/cpp_int.hpp>
#include "model.hpp"

// Numbers of the C interface, as in the Lisp client's enum.
enum { K_NULL = 0, K_REF = 1, K_SIZE = 2, K_VALUE = 3, K_DISTINCT = 4, K_SIGNED = 5, K_UNSIGNED = 6, K_FLOAT = 7,
       K_AND = 8, K_OR = 9, K_NOT = 10, K_GT = 11, K_GE = 12, K_LT = 13, K_LE = 14, K_EQ = 15,
       K_ADD = 16, K_SUB = 17, K_MUL = 18, K_DIV = 19 };

struct MPred {
    int kind;
    uint64_t var, u;
    int64_t s;
    double d;
    std::vector<MPred> kids;
    MPred() : kind(K_NULL), var(0), u(0), s(0), d(0) {}
    explicit MPred(int k) : kind(k), var(0), u(0), s(0), d(0) {}
    bool same(const MPred & o) const {
        if (kind != o.kind) return false;
        if (kind == K_REF && var != o.var) return false;
        if (kind == K_SIGNED && s != o.s) return false;
        if (kind == K_UNSIGNED && u != o.u) return false;
        if (kind == K_FLOAT && memcmp(&d, &o.d, sizeof d) != 0) return false;
        if (kids.size() != o.kids.size()) return false;
        for (size_t i = 0; i < kids.size(); i++) if (!kids[i].same(o.kids[i])) return false;
        return true;
    }
};
inline MPred pRef(uint64_t v) { MPred p(K_REF); p.var = v; return p; }
inline MPred pU(uint64_t v) { MPred p(K_UNSIGNED); p.u = v; return p; }
inline MPred pS(int64_t v) { MPred p(K_SIGNED); p.s = v; return p; }
inline MPred pF(double v) { MPred p(K_FLOAT); p.d = v; return p; }
inline MPred pOp(int k, const MPred & a) { MPred p(k); p.kids.push_back(a); return p; }
inline MPred pOp(int k, const MPred & a, const MPred & b) { MPred p(k); p.kids.push_back(a); p.kids.push_back(b); return p; }
inline size_t predSize(const MPred & p) { size_t n = 1; for (auto & k : p.kids) n += predSize(k); return n; }

inline std::string showPred(const MPred & p) {
    static const char *nm[] = { "null", "ref", "v/size", "v/value", "distinct", "s", "u", "f", "and", "or", "not",
                                ">", ">=", "<", "<=", "=", "+", "-", "*", "/" };
    switch (p.kind) {
    case K_REF: return pbt::fmt("<v%llu>", (unsigned long long) p.var);
    case K_SIGNED: return pbt::fmt("s:%lld", (long long) p.s);
    case K_UNSIGNED: return pbt::fmt("u:%llu", (unsigned long long) p.u);
    case K_FLOAT: return pbt::fmt("f:%.17g", p.d);
    }
    std::string s = "(" + std::string(nm[p.kind]);
    for (auto & k : p.kids) s += " " + showPred(k);
    return s + ")";
}

// ---- exact evaluation ------------------------------------------------------------
typedef boost::multiprecision::cpp_rational Rat;
typedef boost::multiprecision::cpp_int Int;
enum Truth { NO = 0, YES = 1, MAYBE = 2 };

struct XV {
    enum State { UNDEF, VAGUE, VALUE } st;
    Rat v, err;
    bool leaf, isf;          // a recorded value or constant itself; floating-point arithmetic
    int inf;                 // sign of an infinite leaf
    XV() : st(UNDEF), leaf(false), isf(false), inf(0) {}
};
inline Rat ratOfDouble(double d) {
    int e;
    double m = frexp(d, &e);
    Int n((int64_t) ldexp(m, 53));
    e -= 53;
    if (e >= 0) return Rat(n << e);
    return Rat(n, Int(1) << -e);
}
inline bool nice(const Rat & v) {   // few decimal digits: exact in any 50-digit decimal arithmetic
    static const Int lim = Int(1) << 64;
    Int den = denominator(v);
    if (den == 1) return abs(numerator(v)) < lim;
    if (den > (1 << 20) || ((Int(1) << 20) % den) != 0) return false;
    return abs(numerator(v)) < (Int(1) << 44);
}
inline const Rat & eps45() { static const Rat r(Int(1), boost::multiprecision::pow(Int(10), 45)); return r; }
inline const Rat & eps40() { static const Rat r(Int(1), boost::multiprecision::pow(Int(10), 40)); return r; }
inline XV xvFloatNew(double d) {
    XV x;
    x.leaf = x.isf = true;
    if (d != d || d - d != 0) { x.st = XV::VAGUE; x.inf = d != d ? 0 : d > 0 ? 1 : -1; return x; }
    x.st = XV::VALUE;
    x.v = ratOfDouble(d);
    if (!nice(x.v)) x.err = abs(x.v) * eps45();
    return x;
}
inline const XV & xvFloat(double d) {
    static std::map<uint64_t, XV> memo;
    uint64_t k;
    memcpy(&k, &d, 8);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    if (memo.size() > 2000) memo.clear();
    return memo[k] = xvFloatNew(d);
}
inline XV xvInt(const Int & i) { XV x; x.st = XV::VALUE; x.v = Rat(i); x.leaf = true; return x; }

inline XV evalNum(const MPred & p, const std::vector<const MVar *> & b) {
    switch (p.kind) {
    case K_SIZE: { const MVar & v = *b[p.kids[0].var]; return v.hasbs ? xvInt(Int(v.bs)) : XV(); }
    case K_VALUE: {
        const MVar & v = *b[p.kids[0].var];
        switch (v.fmt) {
        case M_UNSIGNED: case M_POINTER: return xvInt(Int(v.raw));
        case M_SIGNED: return xvInt(Int((int64_t) v.raw));
        case M_FLOAT:
            if (v.size == 4) { float f; uint32_t w = v.raw; memcpy(&f, &w, 4); return xvFloat(f); }
            else { double d; memcpy(&d, &v.raw, 8); return xvFloat(d); }
        default: return XV();
        }
    }
    case K_UNSIGNED: return xvInt(Int(p.u));
    case K_SIGNED: return xvInt(Int(p.s));
    case K_FLOAT: return xvFloat(p.d);
    }
    XV a = evalNum(p.kids[0], b), c = evalNum(p.kids[1], b), r;
    if (a.st == XV::UNDEF || c.st == XV::UNDEF) return r;
    r.isf = a.isf || c.isf || p.kind == K_DIV;
    if (p.kind == K_DIV && c.st == XV::VALUE && c.v == 0 && c.err == 0) return r;
    if (a.st == XV::VAGUE || c.st == XV::VAGUE) { r.st = XV::VAGUE; return r; }
    r.st = XV::VALUE;
    switch (p.kind) {
    case K_ADD: r.v = a.v + c.v; r.err = a.err + c.err; break;
    case K_SUB: r.v = a.v - c.v; r.err = a.err + c.err; break;
    case K_MUL: r.v = a.v * c.v; r.err = abs(a.v) * c.err + abs(c.v) * a.err + a.err * c.err; break;
    case K_DIV: {
        if (abs(c.v) <= c.err) { r.st = XV::VAGUE; return r; }
        r.v = a.v / c.v;
        if (a.v == 0 && a.err == 0) break;
        r.err = (a.err + abs(r.v) * c.err) / (abs(c.v) - c.err) + abs(r.v) * eps40();
        return r;
    }
    default: abort();
    }
    if (r.isf && !(r.err == 0 && nice(r.v) && nice(a.v) && nice(c.v)))
        r.err += (abs(r.v) + abs(a.v) + abs(c.v)) * eps45();
    return r;
}
inline Truth cmpXV(const XV & a, const XV & b, int kind) {
    if (a.st == XV::UNDEF || b.st == XV::UNDEF) return NO;
    if (a.st == XV::VAGUE || b.st == XV::VAGUE) {
        // an infinite value itself is beyond every number
        if (!a.leaf || !b.leaf || (a.st == XV::VAGUE && !a.inf) || (b.st == XV::VAGUE && !b.inf)) return MAYBE;
        int s = a.inf - b.inf;
        return (kind == K_GT ? s > 0 : kind == K_GE ? s >= 0 : kind == K_LT ? s < 0 : kind == K_LE ? s <= 0 : s == 0) ? YES : NO;
    }
    Rat diff = a.v - b.v;
    int sg = diff == 0 ? 0 : diff < 0 ? -1 : 1;
    bool exact = (a.err == 0 && b.err == 0) || (a.leaf && b.leaf);
    if (!exact && abs(diff) <= a.err + b.err) return MAYBE;
    switch (kind) {
    case K_GT: return sg > 0 ? YES : NO;
    case K_GE: return sg >= 0 ? YES : NO;
    case K_LT: return sg < 0 ? YES : NO;
    case K_LE: return sg <= 0 ? YES : NO;
    default: return sg == 0 ? YES : NO;
    }
}
// An integer that needs no arithmetic: 1; undefined: 0; anything else: -1.
inline int leafInt(const MPred & p, const std::vector<const MVar *> & b, __int128 *r) {
    switch (p.kind) {
    case K_SIZE: { const MVar & v = *b[p.kids[0].var]; *r = v.bs; return v.hasbs ? 1 : 0; }
    case K_VALUE: {
        const MVar & v = *b[p.kids[0].var];
        if (v.fmt == M_UNSIGNED || v.fmt == M_POINTER) { *r = v.raw; return 1; }
        if (v.fmt == M_SIGNED) { *r = (int64_t) v.raw; return 1; }
        return v.fmt == M_FLOAT ? -1 : 0;
    }
    case K_UNSIGNED: *r = p.u; return 1;
    case K_SIGNED: *r = p.s; return 1;
    }
    return -1;
}
inline Truth evalPred(const MPred & p, const std::vector<const MVar *> & b) {
    switch (p.kind) {
    case K_NULL: return YES;
    case K_AND: case K_OR: {
        Truth stop = p.kind == K_AND ? NO : YES, r = p.kind == K_AND ? YES : NO;
        for (auto & k : p.kids) {
            if (k.kind == K_NULL) continue;
            Truth t = evalPred(k, b);
            if (t == stop) return stop;
            if (t == MAYBE) r = MAYBE;
        }
        return r;
    }
    case K_NOT: { Truth t = evalPred(p.kids[0], b); return t == MAYBE ? MAYBE : t == YES ? NO : YES; }
    case K_DISTINCT: return *b[p.kids[0].var] == *b[p.kids[1].var] ? NO : YES;
    default: {
        __int128 x, y;
        int u = leafInt(p.kids[0], b, &x), w = leafInt(p.kids[1], b, &y);
        if (u == 0 || w == 0) return NO;
        if (u == 1 && w == 1) {
            bool r = p.kind == K_GT ? x > y : p.kind == K_GE ? x >= y : p.kind == K_LT ? x < y : p.kind == K_LE ? x <= y : x == y;
            return r ? YES : NO;
        }
        return cmpXV(evalNum(p.kids[0], b), evalNum(p.kids[1], b), p.kind);
    }
    }
}

// ---- queries -------------------------------------------------------------------------
struct MQuery {
    std::vector<std::vector<uint32_t> > free;
    MPred hard;
    std::vector<MPred> soft;
    uint32_t seed;
    uint8_t keep;
    uint64_t mask, stmt;
    MQuery() : seed(0), keep(1), mask(0), stmt(0) {}
};
inline std::string showQuery(const MQuery & q) {
    std::string s = "free[";
    for (auto & f : q.free) {
        s += "{";
        for (size_t i = 0; i < f.size() && i < 8; i++) s += pbt::fmt("%s%u", i ? "," : "", f[i]);
        s += f.size() > 8 ? ",...}" : "}";
    }
    s += "] hard " + showPred(q.hard);
    for (auto & p : q.soft) s += " soft " + showPred(p);
    return s + pbt::fmt(" seed %u keep %u mask 0x%llx stmt 0x%llx", q.seed, q.keep, (unsigned long long) q.mask, (unsigned long long) q.stmt);
}

typedef std::vector<const MVar *> Binding;
struct PointResult {                 // results of one point
    size_t point;
    std::vector<Binding> must, may;
};

inline size_t productSize(const MPoint & p, const std::vector<std::vector<uint32_t> > & free) {
    size_t n = 1;
    for (auto & f : free) {
        size_t k = 0;
        for (auto & v : p.vars) if (std::find(f.begin(), f.end(), v.type) != f.end()) k++;
        n *= k;
        if (n > (1u << 24)) return n;
    }
    return n;
}

// Results of a point without soft predicates / with them.
inline PointResult bindAt(const MTrace & t, size_t i, const MQuery & q) {
    PointResult r;
    r.point = i;
    const MPoint & p = t.points[i];
    if (q.free.empty()) { r.must.push_back(Binding()); return r; }
    std::vector<std::vector<const MVar *> > cand;
    for (auto & f : q.free) {
        std::set<uint32_t> ok(f.begin(), f.end());
        cand.push_back(std::vector<const MVar *>());
        for (auto & v : p.vars) if (ok.count(v.type)) cand.back().push_back(&v);
        if (cand.back().empty()) return r;
    }
    std::vector<size_t> at(cand.size(), 0);
    while (1) {
        Binding b;
        for (size_t k = 0; k < cand.size(); k++) b.push_back(cand[k][at[k]]);
        Truth h = evalPred(q.hard, b);
        if (h == YES) r.must.push_back(b);
        else if (h == MAYBE) r.may.push_back(b);
        size_t k = 0;
        while (k < cand.size() && ++at[k] == cand[k].size()) at[k++] = 0;
        if (k == cand.size()) break;
    }
    if (!q.soft.empty()) {
        bool vague = !r.may.empty();
        std::vector<unsigned> score;
        unsigned best = 0;
        for (auto & b : r.must) {
            unsigned n = 0;
            for (auto & s : q.soft) {
                Truth x = evalPred(s, b);
                if (x == MAYBE) vague = true;
                n += x == YES;
            }
            score.push_back(n);
            best = std::max(best, n);
        }
        if (vague) { // give up on the exact set
            r.may.insert(r.may.end(), r.must.begin(), r.must.end());
            r.must.clear();
        } else {
            std::vector<Binding> keep;
            for (size_t k = 0; k < r.must.size(); k++) if (score[k] == best) keep.push_back(r.must[k]);
            r.must.swap(keep);
        }
    }
    return r;
}
struct Expected {
    std::vector<size_t> selected;
    std::vector<PointResult> at;      // one per selected point
    bool exact;
};
inline Expected expect(const MTrace & t, const MQuery & q) {
    Expected e;
    e.exact = true;
    for (size_t i = 0; i < t.points.size(); i++)
        if ((t.points[i].stmt & q.mask) == q.stmt) {
            e.selected.push_back(i);
            e.at.push_back(bindAt(t, i, q));
            if (!e.at.back().may.empty()) e.exact = false;
        }
    return e;
}

// ---- keys of results ---------------------------------------------------------------------
inline void key(std::string & o, uint32_t name, uint32_t tname, uint32_t fmt, uint32_t size, uint64_t raw, const std::string & blob, bool hasbs, uint64_t bs) {
    le(o, name, 4); le(o, tname, 4); le(o, fmt, 4); le(o, size, 4); le(o, raw, 8); le(o, blob.size(), 4); o += blob; le(o, hasbs, 1); le(o, hasbs ? bs : 0, 8);
}
inline std::string keyOf(const MTrace & t, size_t point, const Binding & b) {
    std::string o;
    le(o, t.points[point].stmt, 8);
    for (auto *v : b) key(o, v->name, t.types[v->type].name, v->fmt, v->size, v->fmt == M_BLOB ? 0 : v->raw, v->blob, v->hasbs, v->bs);
    return o;
}
inline std::string keyOf(const c_trace_point_struct & c) {
    std::string o;
    le(o, c.statement, 8);
    for (uint32_t i = 0; i < c.n_vars; i++) {
        const c_trace_var_info_struct & v = c.vars[i];
        bool blob = (uint32_t) v.format == M_BLOB;
        uint64_t raw = v.value.u;
        if ((uint32_t) v.format == M_FLOAT && v.size == 4) raw &= 0xffffffffu;
        key(o, v.var_name_index, v.type_name_index, v.format, v.size, blob ? 0 : raw,
            blob && v.size ? std::string((const char *) v.value.ptr, v.size) : std::string(), v.has_buffer_size != 0, v.buffer_size);
    }
    return o;
}
inline std::string keyOf(const Trace & tr, const TracePoint & p) {
    std::string o;
    le(o, p.getStatement(), 8);
    for (auto & fv : p.getVars()) {
        const TraceVarInfo & v = fv.get();
        bool blob = (uint32_t) v.getTypeFormat() == M_BLOB;
        uint64_t raw = v.getValue().u;
        if ((uint32_t) v.getTypeFormat() == M_FLOAT && v.getSize() == 4) raw &= 0xffffffffu;
        key(o, v.getNameIndex(), tr.getTypes()[v.getTypeIndex()].getNameIndex(), v.getTypeFormat(), v.getSize(), blob ? 0 : raw,
            blob && v.getSize() ? std::string((const char *) v.getValue().ptr, v.getSize()) : std::string(), v.hasBufferSize() != 0, v.getBufferSize());
    }
    return o;
}
// what duplicates have in common
inline std::string dupKey(const MTrace & t, size_t point, const Binding & b) {
    std::string o;
    le(o, t.points[point].stmt, 8);
    for (auto *v : b) { le(o, v->name, 4); le(o, v->type, 4); }
    return o;
}

struct Result {                     // one result of the library
    std::string key;
    std::vector<uint64_t> aux;
    size_t n_vars;
};
typedef std::vector<Result> Results;

// ---- conversion to the C interface (allocated like the Lisp client does) -----------------------
inline void fillC(c_predicate *c, const MPred & p) {
    memset(c, 0, sizeof *c);
    c->kind = (predicate_kind) p.kind;
    switch (p.kind) {
    case K_REF: c->var_index = p.var; return;
    case K_UNSIGNED: c->unsigned_value = p.u; return;
    case K_SIGNED: c->signed_value = p.s; return;
    case K_FLOAT: c->float_value = p.d; return;
    }
    c->n_children = p.kids.size();
    c->children = p.kids.empty() ? NULL : (c_predicate *) malloc(p.kids.size() * sizeof(c_predicate));
    for (size_t i = 0; i < p.kids.size(); i++) fillC(c->children + i, p.kids[i]);
}
inline c_predicate *toC(const MPred & p) {
    c_predicate *c = (c_predicate *) malloc(sizeof *c);
    fillC(c, p);
    return c;
}
inline Predicate toCpp(const MPred & p) {
    Predicates kids;
    for (auto & k : p.kids) kids.push_back(toCpp(k));
    predicate_data d;
    d.n_children = 0;
    switch (p.kind) {
    case K_REF: d.var_index = p.var; break;
    case K_UNSIGNED: d.unsigned_value = p.u; break;
    case K_SIGNED: d.signed_value = p.s; break;
    case K_FLOAT: d.float_value = p.d; break;
    default: d.n_children = p.kids.size();
    }
    return Predicate((predicate_kind) p.kind, d, kids);
}

struct CQuery {                     // a query in C form, freed with the object
    std::vector<c_free_variable> fv;
    c_predicate *hard;
    std::vector<c_predicate *> soft;
    CQuery(const MQuery & q) {
        for (auto & f : q.free) {
            c_free_variable v;
            v.n_allowed_types = f.size();
            v.allowed_types = (uint32_t *) malloc(f.size() * sizeof(uint32_t));
            std::copy(f.begin(), f.end(), v.allowed_types);
            fv.push_back(v);
        }
        hard = q.hard.kind == K_NULL ? NULL : toC(q.hard);
        for (auto & p : q.soft) soft.push_back(toC(p));
    }
    ~CQuery() {
        for (auto & v : fv) free(v.allowed_types);
        free_c_predicate(hard);
        for (auto *p : soft) free_c_predicate(p);
    }
private:
    CQuery(const CQuery &);
};

inline Results runC(const void *db, uint64_t index, const MQuery & q) {
    CQuery c(q);
    c_trace_point_struct *res = NULL;
    uint64_t n = 0;
    query_trace(db, index, c.fv.data(), c.fv.size(), c.hard, (const c_predicate **) c.soft.data(), c.soft.size(),
                q.seed, q.keep, q.mask, q.stmt, &res, &n);
    Results r;
    for (uint64_t i = 0; i < n; i++) {
        Result x;
        x.key = keyOf(res[i]);
        x.aux.assign(res[i].aux, res[i].aux + res[i].n_aux);
        x.n_vars = res[i].n_vars;
        r.push_back(x);
    }
    free_trace_points(res, n);
    return r;
}
// The C++ interface has no deduplication: only for q.keep.
inline Results runCpp(const Trace & tr, const MQuery & q) {
    FreeVariables fv;
    for (auto & f : q.free) fv.push_back(FreeVariable(f));
    Predicates soft;
    for (auto & p : q.soft) soft.push_back(toCpp(p));
    TracePoints ps = tr.query(fv, toCpp(q.hard), soft, q.seed, q.mask, q.stmt);
    Results r;
    for (auto & p : ps) {
        Result x;
        x.key = keyOf(tr, p);
        x.aux = p.getAux();
        x.n_vars = p.getVars().size();
        r.push_back(x);
    }
    return r;
}

inline std::string showKeyDiff(const MTrace & t, const std::vector<std::string> & want, const std::vector<std::string> & got) {
    std::multiset<std::string> a(want.begin(), want.end()), b(got.begin(), got.end());
    std::vector<std::string> miss, extra;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(miss));
    std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
    return pbt::fmt("%zu missing, %zu unexpected (%zu expected, %zu got)", miss.size(), extra.size(), want.size(), got.size());
}

inline bool auxOk(const Result & r, const MPoint & p, bool has_vars) {
    return r.aux == p.aux || (!has_vars && r.aux.empty());
}

// Compare one point's share of the results [lo, hi) with what is expected there.
inline std::string cmpGroup(const MTrace & t, const PointResult & e, const Results & r, size_t lo, size_t hi, bool has_vars) {
    std::vector<std::string> want, got;
    for (auto & b : e.must) want.push_back(keyOf(t, e.point, b));
    for (size_t i = lo; i < hi; i++) {
        got.push_back(r[i].key);
        if (!auxOk(r[i], t.points[e.point], has_vars)) return "auxiliary values of a result differ from its point's";
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (want != got) return pbt::fmt("point %zu: ", e.point) + showKeyDiff(t, want, got);
    return "";
}

// Empty if the results are right. *decided is cleared when the model could not
// decide everything (values equal to within the rounding the statement allows).
inline std::string checkResults(const MTrace & t, const MQuery & q, const Results & r, bool *decided, const Expected & e) {
    bool hv = !q.free.empty();
    *decided = true;
    for (auto & x : r) if (x.n_vars != q.free.size()) return pbt::fmt("a result binds %zu variables, expected %zu", x.n_vars, q.free.size());
    if (q.seed) {
        // the results of one selected point
        if (e.selected.empty()) return r.empty() ? "" : "results although no point is selected";
        if (!e.exact) { *decided = false; return ""; }
        std::string first;
        for (auto & pr : e.at) {
            std::string s;
            if (q.keep) s = cmpGroup(t, pr, r, 0, r.size(), hv);
            else {
                Expected one;
                one.exact = true;
                one.at.push_back(pr);
                one.selected.push_back(pr.point);
                MQuery q2 = q;
                q2.seed = 0;
                bool d;
                s = checkResults(t, q2, r, &d, one);
            }
            if (s.empty()) return "";
            if (first.empty()) first = s;
        }
        return "results are not those of one selected point (against the first: " + first + ")";
    }
    if (!e.exact) {
        *decided = false;
        if (!q.keep) return "";
        // must is contained in the results, the results in must and may
        std::multiset<std::string> must, all, got;
        for (auto & pr : e.at) {
            for (auto & b : pr.must) { std::string k = keyOf(t, pr.point, b); must.insert(k); all.insert(k); }
            for (auto & b : pr.may) all.insert(keyOf(t, pr.point, b));
        }
        for (auto & x : r) got.insert(x.key);
        if (!std::includes(got.begin(), got.end(), must.begin(), must.end())) return "a binding that satisfies the query is missing";
        if (!std::includes(all.begin(), all.end(), got.begin(), got.end())) return "a binding that does not satisfy the query is returned";
        return "";
    }
    if (q.keep) {
        size_t total = 0;
        for (auto & pr : e.at) total += pr.must.size();
        if (total != r.size()) return pbt::fmt("%zu results, expected %zu", r.size(), total);
        size_t pos = 0;
        for (auto & pr : e.at) {
            std::string s = cmpGroup(t, pr, r, pos, pos + pr.must.size(), hv);
            if (!s.empty()) return s;
            pos += pr.must.size();
        }
        return "";
    }
    std::set<std::string> seen;
    size_t pos = 0;
    for (auto & pr : e.at) {
        std::map<std::string, std::set<std::string> > fresh;   // dup key -> acceptable results
        for (auto & b : pr.must) {
            std::string k = dupKey(t, pr.point, b);
            if (!seen.count(k)) fresh[k].insert(keyOf(t, pr.point, b));
        }
        // assign results: a perfect matching with the new dup keys
        std::vector<const std::set<std::string> *> sets;
        std::map<std::string, std::vector<int> > who;
        for (auto & f : fresh) {
            for (auto & k : f.second) who[k].push_back(sets.size());
            sets.push_back(&f.second);
        }
        std::vector<int> owner(sets.size(), -1);
        for (size_t n = 0; n < sets.size(); n++) {
            if (pos + n >= r.size()) return pbt::fmt("%zu results, expected more (point %zu)", r.size(), pr.point);
            if (!auxOk(r[pos + n], t.points[pr.point], hv)) return "auxiliary values of a result differ from its point's";
            std::vector<char> tried(sets.size(), 0);
            std::function<bool(int)> place = [&](int i) -> bool {
                auto it = who.find(r[pos + i].key);
                if (it == who.end()) return false;
                for (int f : it->second) {
                    if (tried[f]) continue;
                    tried[f] = 1;
                    if (owner[f] < 0 || place(owner[f])) { owner[f] = i; return true; }
                }
                return false;
            };
            if (!place(n)) return pbt::fmt("result %zu is not a new binding of point %zu", pos + n, pr.point);
        }
        pos += sets.size();
        for (auto & f : fresh) seen.insert(f.first);
    }
    if (pos != r.size()) return pbt::fmt("%zu results, expected %zu distinct ones", r.size(), pos);
    return "";
}

// ---- generators ------------------------------------------------------------------------------
struct PredCtx {
    const MTrace *t;
    size_t n;                    // free variables
    std::vector<const MVar *> pool;   // recorded variables to take constants from
};
inline PredCtx predCtx(const MTrace & t, size_t n) {
    PredCtx c;
    c.t = &t;
    c.n = n;
    for (auto & p : t.points) for (auto & v : p.vars) if (c.pool.size() < 64) c.pool.push_back(&v);
    return c;
}
inline MPred genConst(pbt::Gen & g, const PredCtx & c) {
    if (!c.pool.empty() && g.chance(3, 5)) {
        const MVar & v = *c.pool[g.draw(c.pool.size())];
        int64_t off = g.coin() ? 0 : g.range(-2, 2);
        if (v.fmt == M_FLOAT) {
            double d;
            if (v.size == 4) { float f; uint32_t w = v.raw; memcpy(&f, &w, 4); d = f; }
            else memcpy(&d, &v.raw, 8);
            switch (g.draw(6)) {
            case 0: return pF(nextafter(d, 1e308));
            case 1: return pF(-d);
            case 2: if (d == d && d > -9e18 && d < 9e18) return pS((int64_t) d); return pF(d);
            default: return pF(d);
            }
        }
        if (v.hasbs && g.coin()) return pU(v.bs + off);
        if (v.fmt != M_BLOB)
            switch (g.draw(5)) {
            case 0: case 1: return v.fmt == M_SIGNED ? pS((int64_t) v.raw + off) : pU(v.raw + off);
            case 2: return v.fmt == M_SIGNED ? pU(v.raw + off) : pS((int64_t) v.raw + off);
            case 3: return pF(v.fmt == M_SIGNED ? (double) (int64_t) v.raw : (double) v.raw);
            default: { double d; uint64_t w = v.raw; memcpy(&d, &w, 8); return pF(d); }   // same bits
            }
    }
    switch (g.draw(4)) {
    case 0: return pU(g.draw(8));
    case 1: return pS((int64_t) g.interesting());
    case 2: return pU(g.interesting());
    default: { uint64_t b = genFloatBits(g, 8); double d; memcpy(&d, &b, 8); return pF(d); }
    }
}
inline MPred genNum(pbt::Gen & g, const PredCtx & c, int depth) {
    uint64_t k = g.draw(depth <= 0 ? 5 : 8);
    if (k < 3) return pOp(K_VALUE, pRef(g.draw(c.n)));
    if (k == 3) return pOp(K_SIZE, pRef(g.draw(c.n)));
    if (k == 4) return genConst(g, c);
    static const int ops[] = { K_ADD, K_SUB, K_MUL, K_DIV };
    int op = ops[g.draw(4)];
    MPred a = genNum(g, c, depth - 1);
    MPred b = genNum(g, c, depth - 1);
    return pOp(op, a, b);
}
// Long products of big numbers, multiplied in two orders, and a small difference.
inline MPred genProducts(pbt::Gen & g, const PredCtx & c) {
    std::vector<MPred> f;
    for (size_t n = 2 + g.draw(6); n--; )
        switch (g.draw(5)) {
        case 0: f.push_back(pU(UINT64_MAX - g.draw(3))); break;
        case 1: f.push_back(pS(INT64_MIN + (int64_t) g.draw(3))); break;
        case 2: f.push_back(pOp(K_VALUE, pRef(g.draw(c.n)))); break;
        case 3: f.push_back(g.coin() ? pU(g.interesting()) : pS((int64_t) g.interesting())); break;
        default: f.push_back(pU(((uint64_t) 1 << 63) + g.draw(1000000007)));
        }
    MPred e[2];
    for (int i = 0; i < 2; i++) {
        std::vector<MPred> w = f;
        while (w.size() > 1) {
            size_t a = i ? g.draw(w.size()) : 0;
            MPred x = w[a];
            w.erase(w.begin() + a);
            size_t b = i ? g.draw(w.size()) : 0;
            w[b] = g.coin() ? pOp(K_MUL, x, w[b]) : pOp(K_MUL, w[b], x);
        }
        e[i] = w[0];
    }
    int64_t d = (int64_t) g.draw(3) - 1;
    int op = K_GT + g.draw(5);
    switch (g.draw(3)) {
    case 0: return pOp(op, pOp(K_SUB, e[0], e[1]), pS(d));
    case 1: return pOp(op, e[0], pOp(g.coin() ? K_ADD : K_SUB, e[1], pS(d)));
    default: return pOp(op, pOp(K_ADD, pS(d), e[0]), e[1]);
    }
}
inline MPred genBool(pbt::Gen & g, const PredCtx & c, int depth) {
    if (c.n && g.chance(1, 40)) return genProducts(g, c);
    if (depth > 1 && g.chance(1, 60)) {                          // very wide or very deep
        bool deep = g.coin();
        size_t n = 5 + g.draw(60);
        if (g.chance(1, 8)) n = 255 + g.draw(50);
        MPred p(g.coin() ? K_AND : K_OR);
        std::vector<MPred> few;
        for (size_t i = 0; i < 4; i++) few.push_back(genBool(g, c, 0));
        if (!deep) for (size_t i = 0; i < n; i++) p.kids.push_back(few[i == n - 1 ? 3 : g.draw(3)]);
        else {
            p = few[0];
            for (size_t i = 0; i < n; i++) {
                if (g.chance(2, 3)) p = pOp(K_NOT, p);
                else p = pOp(g.coin() ? K_AND : K_OR, g.pick(few), p);
            }
        }
        return p;
    }
    uint64_t k = g.draw(depth <= 0 ? 6 : 10);
    if (k < 5) {
        int op = K_GT + g.draw(5);
        MPred a = genNum(g, c, depth > 2 ? 2 : depth);
        MPred b = g.coin() ? genConst(g, c) : genNum(g, c, depth > 2 ? 2 : depth);
        return g.coin() ? pOp(op, a, b) : pOp(op, b, a);
    }
    if (k == 5) { uint64_t a = g.draw(c.n); uint64_t b = g.draw(c.n); return pOp(K_DISTINCT, pRef(a), pRef(b)); }
    if (k < 8) {
        MPred p(k == 6 ? K_AND : K_OR);
        size_t n = g.count(4, 5);
        for (size_t i = 0; i < n; i++) p.kids.push_back(genBool(g, c, depth - 1));
        return p;
    }
    return pOp(K_NOT, genBool(g, c, depth - 1));
}
// A predicate that differs a little (or not at all) from p.
inline void nudge(pbt::Gen & g, MPred & p, size_t n) {
    if (!p.kids.empty() && g.chance(2, 3)) {
        if (p.kids.size() == 2 && g.chance(1, 4)) { std::swap(p.kids[0], p.kids[1]); return; }
        if ((p.kind == K_AND || p.kind == K_OR) && g.chance(1, 5)) {
            size_t k = g.draw(p.kids.size());
            if (g.coin() && p.kids.size() > 1) p.kids.erase(p.kids.begin() + k);
            else { MPred c = p.kids[k]; p.kids.insert(p.kids.begin() + g.draw(p.kids.size() + 1), c); }
            return;
        }
        nudge(g, p.kids[g.draw(p.kids.size())], n);
        return;
    }
    if ((p.kind == K_SIGNED || p.kind == K_UNSIGNED) && g.chance(1, 2)) {   // one bit of a constant
        uint64_t bit = 1ull << (g.chance(1, 3) ? 63 : g.chance(1, 4) ? 31 + g.draw(3) : g.draw(64));
        if (p.kind == K_SIGNED) p.s = (int64_t) ((uint64_t) p.s ^ bit); else p.u ^= bit;
        return;
    }
    if (p.kind == K_FLOAT && g.chance(1, 3)) { p.d = -p.d; return; }
    switch (p.kind) {
    case K_REF: if (n) p.var = g.draw(n); break;
    case K_SIGNED: if (g.coin()) p.s = p.s == INT64_MAX ? p.s : p.s + 1; else { p.kind = K_UNSIGNED; p.u = (uint64_t) p.s; } break;
    case K_UNSIGNED: switch (g.draw(3)) { case 0: p.u += 1; break; case 1: p.kind = K_SIGNED; p.s = (int64_t) p.u; break;
                     default: p.kind = K_FLOAT; memcpy(&p.d, &p.u, 8); } break;
    case K_FLOAT: if (g.coin()) p.d = nextafter(p.d, 1e308); else { p.kind = K_UNSIGNED; memcpy(&p.u, &p.d, 8); } break;
    case K_GT: case K_GE: case K_LT: case K_LE: case K_EQ: p.kind = K_GT + g.draw(5); break;
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: p.kind = K_ADD + g.draw(4); break;
    case K_AND: p.kind = K_OR; break;
    case K_OR: p.kind = K_AND; break;
    case K_SIZE: p.kind = K_VALUE; break;
    case K_VALUE: p.kind = K_SIZE; break;
    case K_NOT: if (!p.kids.empty()) { MPred k = p.kids[0]; p = k; } break;
    default: break;
    }
}
inline std::vector<uint32_t> genAllowed(pbt::Gen & g, const MTrace & t) {
    std::vector<uint32_t> f;
    uint64_t k = g.draw(8);
    if (!t.points.empty() && g.chance(1, 6)) {   // types that are not those of the variables, but almost
        for (size_t n = 1 + g.draw(3); n--; ) {
            const MPoint & p = t.points[g.draw(t.points.size())];
            if (p.vars.empty()) continue;
            uint32_t y = p.vars[g.draw(p.vars.size())].type;
            switch (g.draw(4)) {
            case 0: f.push_back(y ^ (1u << g.draw(32))); break;
            case 1: f.push_back(y + (1u << g.draw(20))); break;
            case 2: if (t.types.size() < 4000) for (uint32_t i = 0; i < t.types.size(); i++) if (i != y) f.push_back(i); break;
            default: f.push_back(y);
            }
        }
        return f;
    }
    if (k < 5) { for (uint32_t i = 0; i < t.types.size() && i < 4000; i++) f.push_back(i); }
    else if (k == 5) { if (!t.types.empty()) f.push_back(g.draw(t.types.size())); }
    else if (k < 7) { size_t n = g.count(4, 8); for (size_t i = 0; i < n; i++) f.push_back(g.draw(t.types.size() + 1)); }
    else { size_t n = g.count(3, 4); for (size_t i = 0; i < n; i++) f.push_back(g.chance(1, 6) ? (uint32_t) g.interesting() : (uint32_t) g.draw(t.types.size() + 2)); }
    return f;
}
inline void genFree(pbt::Gen & g, const MTrace & t, MQuery & q, size_t max_free, size_t budget) {
    static const unsigned w[] = { 1, 1, 1, 2, 2, 2, 0, 3, 3, 4 };
    size_t n = std::min<size_t>(w[g.draw(10)], max_free);
    if (max_free > 2 && g.chance(1, 15)) n = 4 + g.draw(9);      // more, as far as the budget allows
    for (size_t i = 0; i < n; i++) {
        if (i && g.chance(1, 3)) q.free.push_back(q.free[g.draw(i)]);
        else q.free.push_back(genAllowed(g, t));
    }
    while (1) {
        size_t tot = 0;
        for (auto & p : t.points) { tot += productSize(p, q.free); if (tot > budget) break; }
        if (tot <= budget || q.free.size() <= 1) break;
        q.free.pop_back();
    }
}
inline MQuery genQuery(pbt::Gen & g, const MTrace & t, size_t max_free, size_t budget) {
    MQuery q;
    genFree(g, t, q, max_free, budget);
    if (!q.free.empty() && g.chance(5, 6)) q.hard = genBool(g, predCtx(t, q.free.size()), 3);
    return q;
}
inline void genFilter(pbt::Gen & g, const MTrace & t, MQuery & q) {
    static const uint64_t masks[] = { UINT64_MAX, 1, 3, 0xff, 0xffffffffull, 0xffffffff00000000ull, 1ull << 63, 0x8000000000000001ull, 0 };
    q.mask = g.coin() ? masks[g.draw(9)] : g.interesting();
    if (!t.points.empty() && g.chance(4, 5)) q.stmt = t.points[g.draw(t.points.size())].stmt & q.mask;
    else q.stmt = g.interesting() & (g.coin() ? q.mask : UINT64_MAX);
}
#endif
