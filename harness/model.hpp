// model.hpp -- an independent model of traces: data, byte encoding, memory
// annotations, generators, and comparison with the library's C and C++ views.
#ifndef MODEL_HPP
#define MODEL_HPP

#include "pbt.hpp"
#include "trace.h"
#include "trace-db.h"

// Numbers of the wire format / C interface (as used by the instrumentation
// code and the Lisp client), deliberately not taken from the library's enums.
enum { M_UNSIGNED = 0, M_SIGNED = 1, M_FLOAT = 2, M_POINTER = 3, M_BLOB = 4 };
enum { T_END = 0, T_STMT = 1, T_VAR = 2, T_SIZE = 3, T_AUX = 4 };

struct MType { uint32_t name, fmt, size; };
struct MVar {
    uint32_t name, type, fmt, size;
    uint64_t raw;
    std::string blob;
    bool hasbs;
    uint64_t bs;
    MVar() : name(0), type(0), fmt(0), size(0), raw(0), hasbs(false), bs(0) {}
    bool operator==(const MVar & o) const {
        return name == o.name && type == o.type && fmt == o.fmt && size == o.size &&
               raw == o.raw && blob == o.blob && hasbs == o.hasbs && bs == o.bs;
    }
    bool operator<(const MVar & o) const {
        return std::tie(name, type, fmt, size, raw, blob, hasbs, bs) <
               std::tie(o.name, o.type, o.fmt, o.size, o.raw, o.blob, o.hasbs, o.bs);
    }
};
struct MPoint {
    uint64_t stmt;
    std::vector<std::pair<uint64_t, uint64_t> > sizes;
    std::vector<MVar> vars;
    std::vector<uint64_t> aux;
    std::vector<std::pair<uint8_t, uint32_t> > order;   // stream order
    MPoint() : stmt(0) {}
    bool operator==(const MPoint & o) const {
        return stmt == o.stmt && sizes == o.sizes && vars == o.vars && aux == o.aux;
    }
};
struct MTrace {
    std::vector<std::string> names;
    std::vector<MType> types;
    std::vector<MPoint> points;
    uint64_t first, step;             // the points' numbers: 0, 1, 2... unless built in memory
    MTrace() : first(0), step(1) {}
};

// ---- live allocations: greatest start at or below the address -------------
struct MMap {
    std::map<uint64_t, uint64_t> m;
    void record(uint64_t a, uint64_t s) {
        if (a == UINT64_MAX) return;
        if (s == 0) m.erase(a); else m[a] = s;
    }
    bool lookup(uint64_t a, uint64_t *rest) const {
        if (a == UINT64_MAX) return false;
        auto it = m.upper_bound(a);
        if (it == m.begin()) return false;
        --it;
        uint64_t end = it->first + it->second;
        if (a > end) return false;
        *rest = end - a;
        return true;
    }
};

inline void annotate(MTrace & t) {
    MMap map;
    for (auto & p : t.points)
        for (auto & e : p.order) {
            if (e.first == T_SIZE) map.record(p.sizes[e.second].first, p.sizes[e.second].second);
            else if (e.first == T_VAR) {
                MVar & v = p.vars[e.second];
                v.hasbs = false; v.bs = 0;
                if (v.fmt == M_POINTER) { uint64_t r; if (map.lookup(v.raw, &r)) { v.hasbs = true; v.bs = r; } }
            }
        }
}

inline void canonicalOrder(MPoint & p) {
    p.order.clear();
    p.order.push_back(std::make_pair((uint8_t) T_STMT, 0u));
    for (uint32_t i = 0; i < p.sizes.size(); i++) p.order.push_back(std::make_pair((uint8_t) T_SIZE, i));
    for (uint32_t i = 0; i < p.vars.size(); i++) p.order.push_back(std::make_pair((uint8_t) T_VAR, i));
    for (uint32_t i = 0; i < p.aux.size(); i++) p.order.push_back(std::make_pair((uint8_t) T_AUX, i));
}

// ---- independent encoder ---------------------------------------------------
inline void le(std::string & o, uint64_t v, unsigned n) {
    for (unsigned i = 0; i < n; i++) o += (char) (uint8_t) (v >> (8 * i));
}
inline void encVar(std::string & o, const MVar & v, const std::vector<MType> & types) {
    le(o, v.name, 4); le(o, v.type, 4);
    if (v.fmt == M_BLOB) {
        if (types[v.type].size == 0) le(o, v.size, 4);
        o += v.blob;
    } else le(o, v.raw, v.size);
}
struct Layout {                      // where things end in the encoding
    size_t header_end;
    std::vector<size_t> field_ends;  // end of every header field / whole entry
    std::vector<size_t> tag_pos;     // positions between entries
    std::vector<size_t> point_ends;
};
inline std::string encode(const MTrace & t, Layout *lay = NULL) {
    std::string o;
    uint64_t n = 0;
    for (auto & s : t.names) n += s.size() + 1;
    le(o, n, 8);
    for (auto & s : t.names) { o += s; o += '\0'; }
    le(o, t.types.size(), 4);
    for (auto & y : t.types) { le(o, y.name, 4); le(o, y.fmt, 4); le(o, y.size, 4); }
    if (lay) lay->header_end = o.size();
    for (auto & p : t.points) {
        for (auto & e : p.order) {
            if (lay) lay->tag_pos.push_back(o.size());
            o += (char) e.first;
            switch (e.first) {
            case T_STMT: le(o, p.stmt, 8); break;
            case T_SIZE: le(o, p.sizes[e.second].first, 8); le(o, p.sizes[e.second].second, 8); break;
            case T_VAR: encVar(o, p.vars[e.second], t.types); break;
            case T_AUX: le(o, p.aux[e.second], 8); break;
            }
        }
        if (lay) lay->tag_pos.push_back(o.size());
        o += (char) T_END;
        if (lay) lay->point_ends.push_back(o.size());
    }
    return o;
}

// ---- rendering ---------------------------------------------------------------
inline std::string showStr(const std::string & s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < 40; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c;
        else o += pbt::fmt("\\x%02x", c);
    }
    if (s.size() > 40) o += pbt::fmt("...(%zu)", s.size());
    return o + "\"";
}
inline std::string showVar(const MVar & v) {
    static const char *f[] = { "U", "S", "F", "P", "B" };
    std::string s = pbt::fmt("n%u:t%u:%s%u=", v.name, v.type, v.fmt < 5 ? f[v.fmt] : "?", v.size);
    s += v.fmt == M_BLOB ? showStr(v.blob) : pbt::fmt("0x%llx", (unsigned long long) v.raw);
    if (v.hasbs) s += pbt::fmt("[buf %llu]", (unsigned long long) v.bs);
    return s;
}
inline std::string showPoint(const MPoint & p) {
    std::string s = "{";
    size_t n = 0;
    for (auto & e : p.order) {
        if (++n > 24) { s += pbt::fmt(" ...(%zu entries)", p.order.size()); break; }
        switch (e.first) {
        case T_STMT: s += pbt::fmt(" stmt=0x%llx", (unsigned long long) p.stmt); break;
        case T_SIZE: s += pbt::fmt(" alloc(0x%llx,%llu)", (unsigned long long) p.sizes[e.second].first,
                                   (unsigned long long) p.sizes[e.second].second); break;
        case T_VAR: s += " " + showVar(p.vars[e.second]); break;
        case T_AUX: s += pbt::fmt(" aux=0x%llx", (unsigned long long) p.aux[e.second]); break;
        }
    }
    return s + " }";
}
inline std::string showTrace(const MTrace & t) {
    static const char *f[] = { "U", "S", "F", "P", "B" };
    std::string s = pbt::fmt("names(%zu)[", t.names.size());
    for (size_t i = 0; i < t.names.size() && i < 12; i++) s += (i ? " " : "") + showStr(t.names[i]);
    s += pbt::fmt("] types(%zu)[", t.types.size());
    for (size_t i = 0; i < t.types.size() && i < 12; i++)
        s += pbt::fmt("%s(n%u %s %u)", i ? " " : "", t.types[i].name,
                      t.types[i].fmt < 5 ? f[t.types[i].fmt] : "?", t.types[i].size);
    s += pbt::fmt("] points(%zu)", t.points.size());
    for (size_t i = 0; i < t.points.size() && i < 12; i++) s += "\n  #" + std::to_string(i) + " " + showPoint(t.points[i]);
    return s;
}

// ---- comparison with the library -------------------------------------------
inline uint64_t valueMask(uint32_t size) { return size >= 8 ? UINT64_MAX : (1ull << (8 * size)) - 1; }

// Empty string if the C variable is the model's.
inline std::string cmpCVar(const c_trace_var_info_struct & c, const MVar & v, const std::vector<MType> & types) {
    if (c.var_name_index != v.name) return pbt::fmt("name index %u, expected %u", c.var_name_index, v.name);
    if (c.type_name_index != types[v.type].name) return pbt::fmt("type name index %u, expected %u", c.type_name_index, types[v.type].name);
    if ((uint32_t) c.format != v.fmt) return pbt::fmt("format %u, expected %u", (unsigned) c.format, v.fmt);
    if (c.size != v.size) return pbt::fmt("size %u, expected %u", c.size, v.size);
    if ((c.has_buffer_size != 0) != v.hasbs) return pbt::fmt("has_buffer_size %u, expected %d", c.has_buffer_size, v.hasbs);
    if (v.hasbs && c.buffer_size != v.bs)
        return pbt::fmt("buffer size %llu, expected %llu", (unsigned long long) c.buffer_size, (unsigned long long) v.bs);
    if (v.fmt == M_BLOB) {
        if (v.size && memcmp(c.value.ptr, v.blob.data(), v.size) != 0)
            return "blob bytes " + showStr(std::string((const char *) c.value.ptr, v.size)) + ", expected " + showStr(v.blob);
    } else {
        uint64_t got = c.value.u, want = v.raw;
        if (v.fmt == M_FLOAT && v.size == 4) { got &= 0xffffffffu; want &= 0xffffffffu; }
        if (got != want)
            return pbt::fmt("value 0x%llx, expected 0x%llx", (unsigned long long) got, (unsigned long long) want);
    }
    return "";
}
inline std::string cmpCPoint(const c_trace_point_struct & c, const MPoint & p, const std::vector<MType> & types) {
    if (c.statement != p.stmt)
        return pbt::fmt("statement 0x%llx, expected 0x%llx", (unsigned long long) c.statement, (unsigned long long) p.stmt);
    if (c.n_vars != p.vars.size()) return pbt::fmt("%u variables, expected %zu", c.n_vars, p.vars.size());
    if (c.n_aux != p.aux.size()) return pbt::fmt("%u aux values, expected %zu", c.n_aux, p.aux.size());
    for (uint32_t i = 0; i < c.n_vars; i++) {
        std::string s = cmpCVar(c.vars[i], p.vars[i], types);
        if (!s.empty()) return pbt::fmt("variable %u: ", i) + s;
    }
    for (uint32_t i = 0; i < c.n_aux; i++)
        if (c.aux[i] != p.aux[i])
            return pbt::fmt("aux %u: 0x%llx, expected 0x%llx", i, (unsigned long long) c.aux[i], (unsigned long long) p.aux[i]);
    return "";
}
// The trace seen through the C interface against the first n points of the model.
inline std::string cmpCTrace(const void *tr, const MTrace & t, size_t n) {
    if (trace_size(tr) != n) return pbt::fmt("%llu points, expected %zu", (unsigned long long) trace_size(tr), n);
    if (n_names(tr) != t.names.size()) return pbt::fmt("%u names, expected %zu", n_names(tr), t.names.size());
    if (n_types(tr) != t.types.size()) return pbt::fmt("%u types, expected %zu", n_types(tr), t.types.size());
    std::string err;
    const char **nm = get_names(tr);
    for (size_t i = 0; i < t.names.size() && err.empty(); i++)
        if (t.names[i] != nm[i]) err = pbt::fmt("name %zu: ", i) + showStr(nm[i]) + ", expected " + showStr(t.names[i]);
    free(nm);
    if (!err.empty()) return err;
    const char **ty = get_types(tr);
    for (size_t i = 0; i < t.types.size() && err.empty(); i++)
        if (t.names[t.types[i].name] != ty[i])
            err = pbt::fmt("type name %zu: ", i) + showStr(ty[i]) + ", expected " + showStr(t.names[t.types[i].name]);
    free(ty);
    if (!err.empty()) return err;
    c_trace_point_struct *ps = get_points(tr);
    for (size_t i = 0; i < n && err.empty(); i++) {
        err = cmpCPoint(ps[i], t.points[i], t.types);
        if (!err.empty()) err = pbt::fmt("point %zu: ", i) + err;
    }
    free_trace_points(ps, n);
    return err;
}
inline std::string cmpVar(const TraceVarInfo & x, const MVar & v) {
    if (x.getNameIndex() != v.name) return pbt::fmt("name index %u, expected %u", x.getNameIndex(), v.name);
    if (x.getTypeIndex() != v.type) return pbt::fmt("type index %u, expected %u", x.getTypeIndex(), v.type);
    if ((uint32_t) x.getTypeFormat() != v.fmt) return pbt::fmt("format %u, expected %u", (unsigned) x.getTypeFormat(), v.fmt);
    if (x.getSize() != v.size) return pbt::fmt("size %u, expected %u", x.getSize(), v.size);
    if ((x.hasBufferSize() != 0) != v.hasbs) return pbt::fmt("has buffer size %u, expected %d", x.hasBufferSize(), v.hasbs);
    if (v.hasbs && x.getBufferSize() != v.bs)
        return pbt::fmt("buffer size %llu, expected %llu", (unsigned long long) x.getBufferSize(), (unsigned long long) v.bs);
    if (v.fmt == M_BLOB) {
        if (v.size && memcmp(x.getValue().ptr, v.blob.data(), v.size) != 0)
            return "blob bytes " + showStr(std::string((const char *) x.getValue().ptr, v.size)) + ", expected " + showStr(v.blob);
    } else {
        uint64_t got = x.getValue().u, want = v.raw;
        if (v.fmt == M_FLOAT && v.size == 4) { got &= 0xffffffffu; want &= 0xffffffffu; }
        if (got != want) return pbt::fmt("value 0x%llx, expected 0x%llx", (unsigned long long) got, (unsigned long long) want);
    }
    return "";
}
inline std::string cmpPoint(const TracePoint & x, const MPoint & p) {
    if (x.getStatement() != p.stmt)
        return pbt::fmt("statement 0x%llx, expected 0x%llx", (unsigned long long) x.getStatement(), (unsigned long long) p.stmt);
    const TraceBufferSizes & bs = x.getBufferSizes();
    if (bs.size() != p.sizes.size()) return pbt::fmt("%zu buffer sizes, expected %zu", bs.size(), p.sizes.size());
    for (size_t i = 0; i < bs.size(); i++)
        if (bs[i].getAddress() != p.sizes[i].first || bs[i].getSize() != p.sizes[i].second)
            return pbt::fmt("buffer size %zu: (0x%llx,%llu), expected (0x%llx,%llu)", i,
                            (unsigned long long) bs[i].getAddress(), (unsigned long long) bs[i].getSize(),
                            (unsigned long long) p.sizes[i].first, (unsigned long long) p.sizes[i].second);
    if (x.getAux() != p.aux) return "aux values differ";
    if (x.getVars().size() != p.vars.size()) return pbt::fmt("%zu variables, expected %zu", x.getVars().size(), p.vars.size());
    for (size_t i = 0; i < p.vars.size(); i++) {
        std::string s = cmpVar(x.getVars()[i].get(), p.vars[i]);
        if (!s.empty()) return pbt::fmt("variable %zu: ", i) + s;
    }
    return "";
}
inline std::string cmpTrace(const Trace & x, const MTrace & t, size_t n, bool counters = true) {
    if (x.getNames() != t.names) return pbt::fmt("names differ (%zu, expected %zu)", x.getNames().size(), t.names.size());
    if (x.getTypes().size() != t.types.size()) return pbt::fmt("%zu types, expected %zu", x.getTypes().size(), t.types.size());
    for (size_t i = 0; i < t.types.size(); i++) {
        const TypeDescription & d = x.getTypes()[i];
        if (d.getNameIndex() != t.types[i].name || (uint32_t) d.getTypeFormat() != t.types[i].fmt || d.getSize() != t.types[i].size)
            return pbt::fmt("type %zu is (%u,%u,%u), expected (%u,%u,%u)", i, d.getNameIndex(), (unsigned) d.getTypeFormat(), d.getSize(),
                            t.types[i].name, t.types[i].fmt, t.types[i].size);
    }
    const TracePoints & ps = x.getPoints();
    if (ps.size() != n) return pbt::fmt("%zu points, expected %zu", ps.size(), n);
    for (size_t i = 0; i < n; i++) {
        std::string s = cmpPoint(ps[i], t.points[i]);
        if (!s.empty()) return pbt::fmt("point %zu: ", i) + s;
        if (counters && ps[i].getCounter() != t.first + t.step * i)
            return pbt::fmt("point %zu has number %llu", i, (unsigned long long) ps[i].getCounter());
    }
    return "";
}

// ---- building library objects from the model ---------------------------------
inline VarValue toValue(const MVar & v) {
    VarValue x;
    x.u = 0;
    if (v.fmt == M_BLOB) x.ptr = (void *) v.blob.data();   // stays with the model
    else x.u = v.raw;
    return x;
}
inline TraceVarInfo toVar(const MVar & v) {
    return TraceVarInfo(toValue(v), v.name, v.type, (type_format) v.fmt, v.size, v.bs, v.hasbs);
}
inline TracePoint toPoint(const MPoint & p, uint64_t counter) {
    TraceBufferSizes bs;
    for (auto & s : p.sizes) bs.push_back(TraceBufferSize(s.first, s.second));
    FlyweightTraceVarInfos vs;
    for (auto & v : p.vars)
        vs.push_back(FlyweightTraceVarInfo(toValue(v), v.name, v.type, (type_format) v.fmt, v.size, v.bs, v.hasbs));
    return TracePoint(counter, p.stmt, bs, vs, p.aux);
}
inline TypeDescriptions toTypes(const std::vector<MType> & ts) {
    TypeDescriptions r;
    for (auto & t : ts) r.push_back(TypeDescription(t.name, (type_format) t.fmt, t.size));
    return r;
}
inline Trace toTrace(const MTrace & t) {
    TracePoints ps;
    for (size_t i = 0; i < t.points.size(); i++) ps.push_back(toPoint(t.points[i], t.first + t.step * i));
    return Trace(t.names, toTypes(t.types), ps);
}

// ---- generators ----------------------------------------------------------------
struct TraceOpts {
    bool canonical;       // writer's entry order, always a statement id
    unsigned bulk;        // one case in `bulk` has a very long dimension; 0: never
    unsigned point_den, var_den;
    size_t max_points, max_vars;
    bool blobs, weird_names;
    int dims;             // bulk dimensions allowed
    int dim;              // the bulk dimension, or -1
    bool huge;            // more than 65536 points now and then
    TraceOpts() : canonical(false), bulk(40), point_den(5), var_den(4), max_points(40), max_vars(24),
                  blobs(true), weird_names(true), dims(7), dim(-1), huge(false) {}
};

struct Pools {
    std::vector<uint64_t> ints, floats4, floats8, addrs, stmts;
    std::vector<std::string> blobs;
};

inline uint64_t genFloatBits(pbt::Gen & g, unsigned size) {
    static const double sp[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, 3.25, 0.1, 1e10, -1e-10, 1e300, -1e300,
                                 4294967296.0, 9007199254740993.0, 18446744073709551616.0, 1e38, 1e-40, 255.0, 3.14159 };
    uint64_t k = g.draw(6);
    if (size == 4) {
        float f;
        uint32_t b;
        if (k < 3) { f = (float) sp[g.draw(sizeof sp / sizeof *sp)]; memcpy(&b, &f, 4); return b; }
        if (k == 3) { f = (float) g.range(-1000, 1000) / 8; memcpy(&b, &f, 4); return b; }
        if (k == 4) { static const uint32_t x[] = { 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7fa00001u, 1u, 0x007fffffu, 0x7f7fffffu }; return x[g.draw(7)]; }
        return g.draw(1ull << 32);
    }
    double d;
    uint64_t b;
    if (k < 3) { d = sp[g.draw(sizeof sp / sizeof *sp)]; memcpy(&b, &d, 8); return b; }
    if (k == 3) { d = (double) g.range(-1000000, 1000000) / 1024; memcpy(&b, &d, 8); return b; }
    if (k == 4) { static const uint64_t x[] = { 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff4000000000001ull, 1ull, 0x000fffffffffffffull, 0x7fefffffffffffffull }; return x[g.draw(7)]; }
    return g.draw(0);
}

inline std::string genBlob(pbt::Gen & g, size_t len) {
    std::string s;
    uint64_t mode = g.draw(4);
    if (len > 64 || mode == 0) {           // few draws for long ones
        uint64_t a = g.draw(256), b = g.draw(256), x = g.draw(4) * 0x9e3779b97f4a7c15ull;
        s.reserve(len);
        for (size_t i = 0; i < len; i++) {          // arithmetic, or without a short period
            s += (char) (uint8_t) (a + i * b + (x >> 56));
            if (x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
        }
    } else
        for (size_t i = 0; i < len; i++) s += (char) (uint8_t) (mode == 1 ? g.draw(2) : g.draw(256));
    return s;
}

inline std::string genName(pbt::Gen & g, bool weird) {
    static const char *common[] = { "x", "y", "int", "ptr", "char*", "z", "buf", "unsigned int", "n", "*void" };
    uint64_t k = g.draw(weird ? 12 : 8);
    if (k < 7) return common[g.draw(10)];
    if (k < 8) { std::string s; do s += (char) ('a' + g.draw(26)); while (g.more(4)); return s; }
    if (k == 8) return "";
    if (k == 9) { std::string s; size_t n = g.count(6, 30); for (size_t i = 0; i < n; i++) s += (char) (uint8_t) (1 + g.draw(255)); return s; }
    if (k == 10) return std::string(1 + g.draw(200), (char) ('A' + g.draw(26)));
    static const size_t big[] = { 255, 256, 1023, 1024, 4095, 4096, 4097, 9000, 66000 };
    return std::string(big[g.draw(g.chance(1, 4) ? 9 : 8)], (char) ('a' + g.draw(26)));
}

inline void genPools(pbt::Gen & g, Pools & P, bool blobs) {
    size_t n = 2 + g.draw(5);
    for (size_t i = 0; i < n; i++) P.ints.push_back(g.interesting());
    for (size_t i = 0; i < 3; i++) { P.floats4.push_back(genFloatBits(g, 4)); P.floats8.push_back(genFloatBits(g, 8)); }
    n = 1 + g.draw(4);
    for (size_t i = 0; i < n; i++) {
        uint64_t a;
        switch (g.draw(5)) {
        case 0: a = 0x1000 + 16 * g.draw(8); break;
        case 1: a = 0x7fff00000000ull + 8 * g.draw(64); break;
        case 2: a = g.interesting(); break;
        case 3: a = g.draw(8); break;
        default: a = (uint64_t) 0 - 4096 + g.draw(4096); break;
        }
        P.addrs.push_back(a);
    }
    n = 1 + g.draw(4);
    for (size_t i = 0; i < n; i++) P.stmts.push_back(g.coin() ? g.draw(6) : g.interesting());
    if (blobs) {
        n = 1 + g.draw(4);
        for (size_t i = 0; i < n; i++) P.blobs.push_back(genBlob(g, g.chance(1, 16) ? 20 + g.draw(300) : g.draw(12)));
    }
}

inline uint64_t canonInt(uint64_t raw, uint32_t fmt, uint32_t size) {
    if (size >= 8) return raw;
    raw &= valueMask(size);
    if (fmt == M_SIGNED && (raw >> (8 * size - 1))) raw |= ~valueMask(size);
    return raw;
}

inline std::pair<uint64_t, uint64_t> genAlloc(pbt::Gen & g, const Pools & P) {
    uint64_t a = g.pick(P.addrs);
    switch (g.draw(4)) { case 0: break; case 1: a += g.draw(4); break; case 2: a += 8 * g.draw(16); break; default: a -= g.draw(20); }
    uint64_t s;
    switch (g.draw(6)) {
    case 0: s = 0; break;
    case 1: s = 1 + g.draw(8); break;
    case 2: s = 1 + g.draw(64); break;
    case 3: s = 8 * (1 + g.draw(32)); break;
    case 4: s = 1 + g.draw(1u << 20); break;
    default: s = g.interesting(); break;
    }
    // allocations end below 2^64
    if (a + s < a) s = UINT64_MAX - a;
    if (s == UINT64_MAX) s--;              // would be reported as "none"
    if (a == UINT64_MAX) s = g.draw(2) ? 1 : 0;
    return std::make_pair(a, s);
}

inline uint64_t genPointer(pbt::Gen & g, const Pools & P, const std::vector<std::pair<uint64_t, uint64_t> > & seen) {
    if (!seen.empty() && g.chance(3, 4)) {
        const std::pair<uint64_t, uint64_t> & b = seen[seen.size() - 1 - g.draw(std::min<size_t>(seen.size(), 8))];
        switch (g.draw(5)) {
        case 0: return b.first;
        case 1: return b.first + b.second;
        case 2: return b.first + b.second + (uint64_t) g.range(-1, 1);
        case 3: return b.first - 1 + g.draw(3);
        default: return b.second ? b.first + g.draw(b.second) : b.first;
        }
    }
    switch (g.draw(3)) { case 0: return g.pick(P.addrs); case 1: return g.pick(P.addrs) + g.draw(64); default: return g.interesting(); }
}

// A large number, often next to a power of two.
inline size_t manyOf(pbt::Gen & g, size_t max) {
    static const size_t round[] = { 300, 1000, 5000, 70000 };
    static const size_t edge[] = { 256, 512, 1024, 4096, 8192, 16384, 32768, 65536 };
    size_t n;
    if (g.coin()) n = round[g.draw(4)];
    else { n = edge[g.draw(8)]; switch (g.draw(5)) { case 0: n -= 1; break; case 1: n += 1; break; case 2: n += n / 2; break; default: break; } }
    while (n > max) n /= 2;
    return n;
}

// An index below n; of many, often one of the last or one past a round number.
inline uint32_t drawOf(pbt::Gen & g, size_t n) {
    if (n > 200 && g.coin()) {
        if (g.coin()) return n - 1 - g.draw(std::min<size_t>(n, 40));
        size_t k = (size_t) 1 << (6 + g.draw(11));
        if (k < n) return k + g.draw(std::min<size_t>(n - k, 20));
    }
    return g.draw(n);
}

inline MVar genVar(pbt::Gen & g, const MTrace & t, const Pools & P,
                   const std::vector<std::pair<uint64_t, uint64_t> > & seen) {
    MVar v;
    v.type = drawOf(g, t.types.size());
    v.name = drawOf(g, t.names.size());
    const MType & y = t.types[v.type];
    v.fmt = y.fmt;
    v.size = y.size;
    bool pool = g.chance(3, 4);
    switch (y.fmt) {
    case M_UNSIGNED: case M_SIGNED:
        v.raw = canonInt(pool ? g.pick(P.ints) : g.interesting(), y.fmt, y.size);
        break;
    case M_FLOAT:
        v.raw = pool ? g.pick(y.size == 4 ? P.floats4 : P.floats8) : genFloatBits(g, y.size);
        break;
    case M_POINTER:
        v.raw = canonInt(genPointer(g, P, seen), M_POINTER, y.size);
        break;
    default:
        if (y.size == 0) {
            v.blob = pool && !P.blobs.empty() ? g.pick(P.blobs) : genBlob(g, g.chance(1, 60) ? manyOf(g, 9000) : g.count(6, 40));
            v.size = v.blob.size();
        } else {
            std::string b = pool && !P.blobs.empty() ? g.pick(P.blobs) : genBlob(g, std::min<size_t>(y.size, 64));
            b.resize(y.size, '\x7f');
            v.blob = b;
        }
    }
    return v;
}

inline MType genType(pbt::Gen & g, size_t n_names, const TraceOpts & o) {
    static const uint32_t isz[] = { 4, 8, 1, 2 };
    MType y;
    y.name = g.draw(n_names);
    y.fmt = g.draw(o.blobs ? 5 : 4);
    switch (y.fmt) {
    case M_FLOAT: y.size = g.coin() ? 4 : 8; break;
    case M_POINTER: y.size = g.chance(1, 4) ? 4 : 8; break;
    case M_BLOB: y.size = g.coin() ? 0 : 1 + g.draw(20); break;
    default: y.size = isz[g.draw(4)];
    }
    return y;
}

// Interleave the kinds of entries, each list keeping its order.
inline void mixOrder(pbt::Gen & g, MPoint & p) {
    std::vector<std::vector<std::pair<uint8_t, uint32_t> > > q(5);
    for (auto & e : p.order) q[e.first].push_back(e);
    std::vector<size_t> pos(5, 0);
    std::vector<std::pair<uint8_t, uint32_t> > r;
    while (r.size() < p.order.size()) {
        std::vector<int> open;
        for (int k = 1; k < 5; k++) if (pos[k] < q[k].size()) open.push_back(k);
        int k = open[g.draw(open.size())];
        r.push_back(q[k][pos[k]++]);
    }
    p.order = r;
}

// Lengthens the dictionary so that some place in the file (its end, the end of
// the header or of a point, an entry) falls on or next to a block boundary.
inline void alignTrace(pbt::Gen & g, MTrace & t, size_t max_block = 65536) {
    Layout lay;
    std::string bytes = encode(t, &lay);
    size_t pos = bytes.size();
    switch (g.draw(5)) {
    case 0: case 1: break;
    case 2: pos = lay.header_end; break;
    case 3: if (!lay.tag_pos.empty()) pos = lay.tag_pos[g.draw(lay.tag_pos.size())] + g.draw(6); break;
    default: if (!lay.point_ends.empty()) pos = lay.point_ends[g.draw(lay.point_ends.size())];
    }
    static const size_t blocks[] = { 4096, 512, 1024, 8192, 65536, 128 };
    size_t m;
    do m = blocks[g.draw(6)]; while (m > max_block);
    size_t delta = 0;
    switch (g.draw(4)) { case 0: case 1: break; case 2: delta = 1; break; default: delta = m - 1; }
    size_t add = (delta + m - pos % m) % m;
    if (add == 0) add = m;
    t.names.push_back(std::string(add - 1, 'p'));
    g.label("block-aligned");
}

inline MTrace genTrace(pbt::Gen & g, const TraceOpts & o, Pools *pools_out = NULL) {
    MTrace t;
    Pools P;
    int bulk = -1;
    if (o.bulk && g.chance(1, o.bulk)) bulk = o.dim >= 0 ? o.dim : (int) g.draw(o.dims);
    size_t nn = g.chance(15, 16) ? 1 + g.count(5, 20) : 0;
    for (size_t i = 0; i < nn; i++) t.names.push_back(genName(g, o.weird_names));
    if (bulk == 0) {
        size_t n = manyOf(g, 70000);
        for (size_t i = t.names.size(); i < n; i++) t.names.push_back(pbt::fmt("n%zu", i % 40000));
    }
    if (!t.names.empty()) {
        size_t nt = g.chance(15, 16) ? 1 + g.count(5, 14) : 0;
        for (size_t i = 0; i < nt; i++) t.types.push_back(genType(g, t.names.size(), o));
        if (bulk == 1) {
            size_t n = manyOf(g, 70000);
            uint32_t a = g.draw(4);
            for (size_t i = t.types.size(); i < n; i++) {
                static const uint32_t isz[] = { 4, 8, 1, 2 };
                uint64_t h = pbt::mix(i * 4 + a);       // no period a lost bit of an index could hide behind
                MType y = { (uint32_t) (h % t.names.size()), (uint32_t) ((h >> 32) % 2), isz[(h >> 40) % 4] };
                t.types.push_back(y);
            }
        }
        if (bulk == 6 && o.blobs) {
            MType y = { 0, M_BLOB, 0 };
            if (g.coin()) y.size = g.coin() ? 65536 + g.draw(5000) : manyOf(g, 70000);
            if (y.size && o.huge && g.chance(1, 6)) y.size = (1u << (18 + g.draw(4))) + g.draw(3);
            t.types.push_back(y);
        }
    }
    genPools(g, P, o.blobs);
    std::vector<std::pair<uint64_t, uint64_t> > seen;
    size_t np = g.count(o.point_den, o.max_points);
    if (bulk >= 2 && np == 0) np = 1;
    for (size_t i = 0; i < np; i++) {
        MPoint p;
        bool stmt = o.canonical || !g.chance(1, 12);
        if (stmt) p.stmt = g.chance(3, 4) ? g.pick(P.stmts) : g.interesting();
        size_t nsz = g.chance(1, 3) ? g.count(3, 12) : 0;
        for (size_t k = 0; k < nsz; k++) { p.sizes.push_back(genAlloc(g, P)); seen.push_back(p.sizes.back()); }
        if (!t.types.empty()) {
            size_t nv = g.count(o.var_den, o.max_vars);
            for (size_t k = 0; k < nv; k++) p.vars.push_back(genVar(g, t, P, seen));
        }
        size_t na = g.chance(1, 3) ? g.count(3, 10) : 0;
        for (size_t k = 0; k < na; k++) p.aux.push_back(g.interesting());
        if (i == 0 && bulk >= 3) {
            size_t n = manyOf(g, bulk == 3 ? 5000 : 70000);
            if (bulk == 3 && !p.vars.empty()) {
                MVar v = p.vars[0];
                for (size_t k = 0; k < n; k++) {
                    if (v.fmt == M_UNSIGNED || v.fmt == M_SIGNED) v.raw = canonInt(k % 700, v.fmt, v.size);
                    p.vars.push_back(v);
                }
            } else if (bulk == 4) {
                uint64_t a = g.draw(0), b = g.draw(0);
                for (size_t k = 0; k < n; k++) p.aux.push_back(a + k * b);
            } else if (bulk == 5) {
                if (n > 5000) n = 5000;
                uint64_t a = 0x10000 + g.draw(1000), b = 16 + g.draw(64), c = 1 + g.draw(16);
                bool down = g.coin();
                uint64_t frees = g.draw(4);      // none, or of blocks recorded earlier
                for (size_t k = 0; k < n; k++) {
                    uint64_t j = down ? n - k : k;
                    p.sizes.push_back(std::make_pair(a + j * b, k % 7 == 3 ? 0 : c + k % 11));
                    if (k % 64 == 0) seen.push_back(p.sizes.back());
                    if (frees && k && pbt::mix(k + b) % 4 < frees) p.sizes.push_back(std::make_pair(p.sizes[pbt::mix(k * b) % p.sizes.size()].first, 0));
                }
            } else if (bulk == 6 && !t.types.empty() && t.types.back().fmt == M_BLOB) {
                MVar v;
                v.type = t.types.size() - 1; v.fmt = M_BLOB;
                if (o.huge && g.chance(1, 6)) n = ((size_t) 1 << (18 + g.draw(4))) + g.draw(3);
                v.blob = genBlob(g, t.types.back().size ? t.types.back().size : n);
                v.size = v.blob.size();
                p.vars.push_back(v);
                v.blob[v.blob.size() - 1] ^= 1;
                p.vars.push_back(v);
            }
        }
        canonicalOrder(p);
        if (!o.canonical) {
            if (!stmt) p.order.erase(p.order.begin());
            if (p.order.size() > 1 && p.order.size() < 200 && g.coin()) mixOrder(g, p);
        }
        t.points.push_back(p);
    }
    if (bulk == 2) {
        size_t n = manyOf(g, o.huge && g.chance(1, 3) ? 70000 : 5000), base = t.points.size();
        for (size_t i = 0; i < n; i++) {
            MPoint p = t.points[i % base];
            if (n > 5000) { if (p.vars.size() > 1) p.vars.resize(1); p.sizes.clear(); p.aux.clear(); canonicalOrder(p); }
            p.stmt += i / 3;
            bool has = false;
            for (auto & e : p.order) has |= e.first == T_STMT;
            if (!has) p.stmt = 0;
            t.points.push_back(p);
        }
    }
    annotate(t);
    g.label(bulk >= 0, pbt::fmt("bulk-dim-%d", bulk));
    if (pools_out) *pools_out = P;
    return t;
}

inline void labelTrace(pbt::Gen & g, const MTrace & t) {
    static const char *f[] = { "unsigned", "signed", "float", "pointer", "blob" };
    bool inter = false, shared = false;
    std::set<MVar> vs;
    for (auto & p : t.points) {
        for (auto & v : p.vars) {
            if (v.fmt == M_BLOB) g.label(t.types[v.type].size ? "var:blob-fixed" : "var:blob-variable");
            else g.label(pbt::fmt("var:%s%u", f[v.fmt], v.size));
            g.label(v.hasbs, "pointer-with-buffer");
            if (vs.size() < 400 && !vs.insert(v).second) shared = true;
        }
        int lastk = 0;
        for (auto & e : p.order) { int k = e.first == T_STMT ? 1 : e.first == T_SIZE ? 2 : e.first == T_VAR ? 3 : 4; if (k < lastk) inter = true; lastk = k; }
        g.label(p.order.empty() || p.order[0].first != T_STMT, "no-or-late-statement-id");
        g.label(!p.aux.empty(), "aux");
        g.label(!p.sizes.empty(), "buffer-sizes");
    }
    g.label(inter, "interleaved-entries");
    g.label(shared, "equal-variables");
    g.label(t.points.size() > 1, "points>1");
    g.label(t.points.size() > 200, "points>200");
    g.label(t.names.empty(), "no-names");
}

// ---- scratch files ---------------------------------------------------------------
inline std::string scratchPath(const char *tag) {
    const char *d = getenv("PBT_SCRATCH");
    static unsigned n = 0;
    return std::string(d ? d : "/tmp") + pbt::fmt("/%s-%d-%u", tag, (int) getpid(), n++ % 16);
}
struct ScratchFile {
    std::string path;
    ScratchFile(const std::string & bytes, const char *tag = "t") : path(scratchPath(tag)) {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd < 0) { perror(path.c_str()); _exit(77); }
        size_t off = 0;
        while (off < bytes.size()) {
            ssize_t k = write(fd, bytes.data() + off, bytes.size() - off);
            if (k <= 0) { perror("write"); _exit(77); }
            off += k;
        }
        close(fd);
    }
    ~ScratchFile() { unlink(path.c_str()); }
};

#endif
