// Trace format properties: C01 write/read round trip, C02 decoding, C03 memory
// map, C04 malformed bytes, C05 truncation and limits.
#include "model.hpp"
#include "bignew.hpp"

// The library's random numbers: those of the C library are good enough, but a
// skip list is deep only after billions of them.
static uint64_t randState = 1;
static unsigned randSmall = 0, randLeft = 0;     // of 256, how many come out small; for how many calls
extern "C" int rand(void) noexcept {
    uint64_t r = pbt::mix(randState += 0x9e3779b97f4a7c15ull);
    int v = (int) (r >> 33);
    return randLeft && randLeft-- && (r & 255) < randSmall ? v & 0xffff : v;
}
extern "C" void srand(unsigned s) noexcept { randState = s; }
static void randomness(pbt::Gen & g) {
    static const unsigned small[] = { 0, 128, 224, 250, 256 }, left[] = { 0, 0, 0, 200, 2000 };
    srand(g.draw(100000));
    randSmall = small[g.draw(5)];
    randLeft = left[g.draw(5)];
}
using pbt::Gen;

static std::string written(const Trace & t) {
    std::ostringstream os;
    os << t;
    return os.str();
}

// ------------------------------------------------------------------ C01
static void roundtrip(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o;
    o.huge = true;
    o.canonical = g.chance(2, 3);
    MTrace t = genTrace(g, o);
    if (g.rendering) g.out << showTrace(t);
    labelTrace(g, t);
    size_t nv = 0;
    for (auto & p : t.points) nv += p.vars.size();
    if (!t.points.empty() && nv) g.nontrivial();

    MTrace want = t;
    for (auto & p : want.points) canonicalOrder(p);
    std::string bytes;
    if (o.canonical) {
        g.at("build and write");
        Trace a(toTrace(t));
        bytes = written(a);
        g.at("read back");
        std::istringstream is(bytes);
        Trace b(is);
        std::string e = cmpTrace(b, t, t.points.size());
        PBT_CHECK(e.empty(), "read back after writing: %s", e.c_str());
        PBT_CHECK(b == a, "read-back trace does not compare equal to the written one");
        std::string again = written(b);
        PBT_CHECK(again == bytes, "second write differs (%zu bytes, first %zu)", again.size(), bytes.size());
    } else {
        // a trace that came from a stream in any entry order
        std::istringstream is0(encode(t));
        g.at("read stream");
        Trace a(is0);
        bytes = written(a);
        annotate(want);
        g.at("read back");
        std::istringstream is(bytes);
        Trace b(is);
        std::string e = cmpTrace(b, want, want.points.size());
        PBT_CHECK(e.empty(), "read, written and read again: %s", e.c_str());
        std::string again = written(b);
        PBT_CHECK(again == bytes, "second write differs (%zu bytes, first %zu)", again.size(), bytes.size());
    }
    std::string model = encode(want);
    PBT_CHECK(model == bytes, "written bytes differ from the format (%zu bytes, expected %zu)", bytes.size(), model.size());
    g.evals(2);
    if (g.chance(1, 3)) {
        g.at("read_trace of written file");
        ScratchFile f(bytes);
        void *tr = read_trace(f.path.c_str(), 0, 0);
        PBT_CHECK(tr, "read_trace failed on a written trace");
        std::string e = cmpCTrace(tr, want, want.points.size());
        free_trace(tr);
        PBT_CHECK(e.empty(), "read_trace of written trace: %s", e.c_str());
        g.evals();
    }
}

// Components on their own: variables, buffer sizes, types.
static void components(Gen & g) {
    TraceOpts o;
    o.bulk = 0;
    MTrace t = genTrace(g, o);
    Names names(t.names);
    TypeDescriptions types(toTypes(t.types));
    if (g.rendering) g.out << showTrace(t);
    unsigned n = 0;
    for (auto & y : t.types) {
        std::ostringstream os;
        TypeDescription a(y.name, (type_format) y.fmt, y.size);
        os << a;
        std::istringstream is(os.str());
        TypeDescription b(is);
        PBT_CHECK(b == a && b.getNameIndex() == y.name && (uint32_t) b.getTypeFormat() == y.fmt && b.getSize() == y.size,
                  "type (%u,%u,%u) changed by a round trip", y.name, y.fmt, y.size);
        n++;
    }
    for (auto & p : t.points) {
        for (auto & s : p.sizes) {
            std::ostringstream os;
            TraceBufferSize a(s.first, s.second);
            os << a;
            std::istringstream is(os.str());
            TraceBufferSize b(is);
            PBT_CHECK(b == a && b.getAddress() == s.first && b.getSize() == s.second,
                      "buffer size (0x%llx,%llu) changed by a round trip", (unsigned long long) s.first, (unsigned long long) s.second);
            n++;
        }
        bool fixed = false;
        for (auto & v0 : p.vars) {
            if (v0.fmt == M_BLOB && t.types[v0.type].size) { fixed = true; continue; }
            MVar v = v0;
            v.hasbs = false; v.bs = 0;
            std::ostringstream os;
            TraceVarInfo a(toVar(v));
            os << a;
            std::istringstream is(os.str());
            TraceVarInfo b(is, names, types);
            std::string e = cmpVar(b, v);
            PBT_CHECK(e.empty() && b == a, "variable %s changed by a round trip: %s", showVar(v).c_str(), e.c_str());
            n++;
        }
        if (!fixed) {
            MPoint q = p;
            for (auto & v : q.vars) { v.hasbs = false; v.bs = 0; }
            MTrace one;
            canonicalOrder(q);
            one.points.push_back(q);
            annotate(one);
            std::ostringstream os;
            os << toPoint(one.points[0], 0);
            std::istringstream is(os.str());
            MemoryMap map;
            TracePoint b(is, names, types, map);
            std::string e = cmpPoint(b, one.points[0]);
            PBT_CHECK(e.empty(), "point changed by a round trip: %s", e.c_str());
            n++;
        }
    }
    if (n) g.nontrivial();
    g.evals(n);
}

// ------------------------------------------------------------------ C02
// A stream delivering its bytes in pieces, as a pipe would.
class ChunkBuf : public std::streambuf {
    const std::string & m_s;
    size_t m_pos, m_chunk;
protected:
    int_type underflow() {
        if (m_pos >= m_s.size()) return traits_type::eof();
        size_t n = std::min(m_chunk, m_s.size() - m_pos);
        char *b = const_cast<char *>(m_s.data()) + m_pos;
        setg(b, b, b + n);
        m_pos += n;
        return traits_type::to_int_type(*b);
    }
public:
    ChunkBuf(const std::string & s, size_t chunk) : m_s(s), m_pos(0), m_chunk(chunk) {}
};

static void decode(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o;
    o.bulk = 25;
    o.huge = true;
    MTrace t = genTrace(g, o);
    if (g.chance(1, 8)) alignTrace(g, t);
    if (g.rendering) g.out << showTrace(t);
    labelTrace(g, t);
    size_t nv = 0;
    for (auto & p : t.points) nv += p.order.size();
    if (!t.points.empty() && nv > 1) g.nontrivial();
    std::string bytes = encode(t);
    g.label(bytes.size() > 65536, "file>64K");
    g.at("read from stream");
    {
        ChunkBuf cb(bytes, g.coin() ? bytes.size() + 1 : 1 + g.draw(64));
        std::istream is(&cb);
        Trace tr(is);
        std::string e = cmpTrace(tr, t, t.points.size());
        PBT_CHECK(e.empty(), "stream of %zu bytes: %s", bytes.size(), e.c_str());
    }
    g.evals();
    if (g.coin()) {
        g.at("read_trace");
        ScratchFile f(bytes);
        void *tr = read_trace(f.path.c_str(), g.draw(3), 0);
        PBT_CHECK(tr, "read_trace failed on a well-formed trace");
        std::string e = cmpCTrace(tr, t, t.points.size());
        if (e.empty()) e = cmpTrace(*(const Trace *) tr, t, t.points.size());
        free_trace(tr);
        PBT_CHECK(e.empty(), "file of %zu bytes: %s", bytes.size(), e.c_str());
        g.evals();
    }
    if (g.chance(1, 8)) {
        // two live traces with overlapping contents must not disturb each other
        MTrace t2 = genTrace(g, o);
        std::istringstream i1(bytes), i2(encode(t2));
        Trace a(i1);
        Trace b(i2);
        std::string e = cmpTrace(a, t, t.points.size());
        if (e.empty()) e = cmpTrace(b, t2, t2.points.size());
        PBT_CHECK(e.empty(), "two traces alive: %s", e.c_str());
        g.evals(2);
    }
}

// ------------------------------------------------------------------ C03
static void checkMap(Gen & g, const MemoryMap & m, const MMap & ref, uint64_t a, size_t step) {
    uint64_t rest = 0, got = m.computeBufferSize(a);
    bool has = ref.lookup(a, &rest);
    uint64_t want = has ? rest : UINT64_MAX;
    PBT_CHECK(got == want, "after %zu records: address 0x%llx has %s%llu, expected %s%llu", step, (unsigned long long) a,
              got == UINT64_MAX ? "none/" : "", (unsigned long long) got, want == UINT64_MAX ? "none/" : "", (unsigned long long) want);
    g.evals();
}
// Thousands of blocks; few draws.
static void bigMap(Gen & g) {
    MemoryMap m;
    MMap ref;
    size_t n = manyOf(g, 9000) + g.draw(3000), probes = 0;
    uint64_t x = 1 + g.draw(1000), pitch = 1 + g.draw(40), keep = g.draw(4), order = g.draw(4);
    auto rnd = [&x](uint64_t k) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (x >> 11) % k; };
    if (g.rendering) g.out << "big map, " << n << " records";
    for (size_t i = 0; i < n; i++) {
        uint64_t k = order == 0 ? i : order == 1 ? n - i : rnd(2 * n), a = 4096 + pitch * k, s = 1 + rnd(2 * pitch);
        if (keep && rnd(8) < keep && i) { a = 4096 + pitch * rnd(order < 2 ? i : 2 * n); if (rnd(3)) s = 0; }
        m.updateMemoryMap(TraceBufferSize(a, s));
        ref.record(a, s);
        checkMap(g, m, ref, a, i + 1);
        checkMap(g, m, ref, a + s, i + 1);
        if (rnd(4) == 0) { checkMap(g, m, ref, 4096 + rnd(2 * n * pitch), i + 1); probes++; }
        if (i % 512 == 0) g.tick();
    }
    for (auto & e : ref.m) {
        checkMap(g, m, ref, e.first, n);
        checkMap(g, m, ref, e.first - 1, n);
        checkMap(g, m, ref, e.first + e.second, n);
    }
    g.nontrivial();
    g.label("big-map"); g.label(ref.m.size() > 2000, "live>2000"); g.label(ref.m.size() > 8192, "live>8192");
}
static void memoryMap(Gen & g) {
    randomness(g);
    if (g.chance(1, 60)) return bigMap(g);
    MemoryMap m;
    MMap ref;
    unsigned mode = g.draw(4);
    uint64_t grid = 1 + g.draw(mode == 0 ? 6 : mode == 1 ? 40 : 400);
    uint64_t pitch = 1 + g.draw(32), base = g.chance(1, 4) ? 0 : g.chance(1, 3) ? (uint64_t) 0 - grid * pitch - 1 : 0x10000 * g.draw(100);
    bool wild = g.chance(1, 6);
    size_t steps = mode < 2 ? g.count(30, 200) : 200 + g.draw(1200);
    size_t frees = 0, reallocs = 0;
    for (size_t i = 0; i < steps; i++) {
        uint64_t a, s;
        a = base + pitch * g.draw(grid);
        if (wild && g.chance(1, 6)) a = g.interesting();
        uint64_t k = g.draw(8);
        if (k < 3) s = 0;
        else if (k < 6) s = 1 + g.draw(pitch * 2);
        else if (k < 7) s = pitch;
        else s = 1 + g.draw(pitch * grid + 1);
        if (a + s < a) s = UINT64_MAX - a;
        if (s == UINT64_MAX) s--;
        if (ref.m.count(a)) { if (s == 0) frees++; else reallocs++; }
        m.updateMemoryMap(TraceBufferSize(a, s));
        ref.record(a, s);
        if (g.rendering && i < 60) g.out << pbt::fmt("record(0x%llx,%llu) ", (unsigned long long) a, (unsigned long long) s);
        // look up around the record and somewhere else
        uint64_t q[] = { a, a + s, a + s + 1, a - 1, base + g.draw(pitch * grid + pitch) };
        for (uint64_t x : q) checkMap(g, m, ref, x, i + 1);
        if (g.chance(1, 400)) { m.clear(); ref.m.clear(); }
        if (i % 64 == 0) g.tick();
    }
    // every live allocation and its borders
    for (auto & e : ref.m) {
        checkMap(g, m, ref, e.first, steps);
        checkMap(g, m, ref, e.first - 1, steps);
        checkMap(g, m, ref, e.first + e.second, steps);
        checkMap(g, m, ref, e.first + e.second / 2, steps);
    }
    if (grid < 64) for (uint64_t k = 0; k < grid; k++) checkMap(g, m, ref, base + k * pitch, steps);
    if (frees && reallocs) g.nontrivial();
    g.label(frees > 0, "frees"); g.label(reallocs > 0, "reallocs"); g.label(ref.m.size() > 50, "live>50");
    g.label(steps > 200, "steps>200");
}
// Histories inside traces: what the reader reports on pointers.
static void pointerStream(Gen & g) {
    randomness(g);
    MTrace t;
    Pools P;
    t.names.push_back("p"); t.names.push_back("void*"); t.names.push_back("q");
    MType y8 = { 1, M_POINTER, 8 }, y4 = { 1, M_POINTER, 4 }, yi = { 0, M_UNSIGNED, 8 };
    t.types.push_back(y8); t.types.push_back(y4); t.types.push_back(yi);
    genPools(g, P, false);
    std::vector<std::pair<uint64_t, uint64_t> > seen;
    size_t np = 1 + g.count(20, 60);
    size_t withbs = 0, without = 0, frees = 0;
    if (g.chance(1, 60)) {                       // a series of blocks first
        size_t n = manyOf(g, 9000);
        uint64_t a = 0x10000 + g.draw(1000), b = 16 + g.draw(64), c = 1 + g.draw(80);
        bool down = g.coin();
        MPoint p;
        for (size_t k = 0; k < n; k++) {
            p.sizes.push_back(std::make_pair(a + (down ? n - k : k) * b, c + k % 11));
            if (k % 16 == 0) seen.push_back(p.sizes.back());
        }
        canonicalOrder(p);
        t.points.push_back(p);
        np += 40;
        g.label("series");
    }
    size_t gap = g.chance(1, 60) ? g.draw(std::min<size_t>(np, 12)) : np;    // many points that leave the blocks alone
    for (size_t i = 0; i < np; i++) {
        if (i == gap) {
            size_t n = manyOf(g, g.chance(1, 4) ? 70000 : 9000);
            bool vars = g.coin() && n < 10000;
            MPoint q;
            q.order.push_back(std::make_pair((uint8_t) T_STMT, 0u));
            if (vars) {
                MVar v;
                v.fmt = M_UNSIGNED; v.size = 8; v.type = 2;
                q.vars.push_back(v);
                q.order.push_back(std::make_pair((uint8_t) T_VAR, 0u));
            }
            for (size_t k = 0; k < n; k++) { q.stmt = k; t.points.push_back(q); }
            g.label("gap");
        }
        MPoint p;
        if (g.chance(2, 3)) {                    // else no statement id, and sometimes nothing at all
            p.stmt = g.chance(1, 4) ? 0 : i;
            p.order.push_back(std::make_pair((uint8_t) T_STMT, 0u));
        }
        size_t n = g.count(6, 16);
        for (size_t k = 0; k < n; k++) {
            if (g.draw(5) < 2) {
                std::pair<uint64_t, uint64_t> a = genAlloc(g, P);
                if (!seen.empty() && g.chance(1, 2)) {
                    a.first = g.pick(seen).first;
                    if (g.coin()) a.second = 0;
                    if (a.first + a.second < a.first) a.second = 1;
                    if (a.first == UINT64_MAX) a.second = 0;
                }
                if (a.second == 0) frees++;
                p.order.push_back(std::make_pair((uint8_t) T_SIZE, (uint32_t) p.sizes.size()));
                p.sizes.push_back(a);
                seen.push_back(a);
            } else {
                MVar v;
                v.type = g.chance(1, 5) ? 1 + g.draw(2) : 0;
                v.name = g.draw(3);
                v.fmt = t.types[v.type].fmt; v.size = t.types[v.type].size;
                v.raw = canonInt(genPointer(g, P, seen), M_POINTER, v.size);
                p.order.push_back(std::make_pair((uint8_t) T_VAR, (uint32_t) p.vars.size()));
                p.vars.push_back(v);
            }
        }
        t.points.push_back(p);
    }
    annotate(t);
    for (auto & p : t.points) for (auto & v : p.vars) { if (v.hasbs) withbs++; else without++; }
    if (g.rendering) g.out << showTrace(t);
    if (withbs && without) g.nontrivial();
    g.label(withbs > 0, "with-buffer"); g.label(without > 0, "without-buffer"); g.label(frees > 0, "frees");
    g.evals(withbs + without);
    if (g.chance(1, 3)) {
        ScratchFile f(encode(t));
        void *db = create_db();
        PBT_CHECK(add_trace(db, f.path.c_str(), 0, 0), "add_trace failed");
        std::string e = cmpCTrace(get_trace(db, 0), t, t.points.size());
        free_db(db);
        PBT_CHECK(e.empty(), "trace in database: %s", e.c_str());
    } else {
        std::istringstream is(encode(t));
        Trace tr(is);
        std::string e = cmpTrace(tr, t, t.points.size());
        PBT_CHECK(e.empty(), "%s", e.c_str());
    }
}

// ------------------------------------------------------------------ C04
enum Verdict { ACCEPT, REJECT, EITHER };
struct Decoded {
    Verdict v;
    MTrace t;
    bool contents;              // contents are defined when accepted
    bool skip_bs;               // buffer annotations not defined
    std::set<size_t> skip_stmt; // points with several statement ids
    std::string why;
};
struct Cur {
    const std::string & s;
    size_t p;
    bool get(unsigned n, uint64_t *v) {
        if (s.size() - p < n) return false;
        *v = 0;
        for (unsigned i = 0; i < n; i++) *v |= (uint64_t) (uint8_t) s[p + i] << (8 * i);
        p += n;
        return true;
    }
};
static Decoded reject(Decoded & d, const char *why) { d.v = REJECT; d.why = why; return d; }
static Decoded refDecode(const std::string & s) {
    Decoded d;
    d.v = ACCEPT; d.contents = true; d.skip_bs = false;
    Cur c = { s, 0 };
    uint64_t n, v;
    if (!c.get(8, &n)) return reject(d, "cut in name dictionary length");
    if (n > s.size() - c.p) return reject(d, "cut in name dictionary");
    if (n > 0) {
        std::string dict = s.substr(c.p, n);
        c.p += n;
        if (dict[n - 1] != 0) { d.v = EITHER; d.contents = false; d.why = "unterminated name"; }
        size_t i = 0;
        while (i < n) { std::string nm(dict.c_str() + i); d.t.names.push_back(nm); i += nm.size() + 1; }
    }
    if (!c.get(4, &n)) return reject(d, "cut in type count");
    for (uint64_t i = 0; i < n; i++) {
        uint64_t a, b, z;
        if (!c.get(4, &a) || !c.get(4, &b) || !c.get(4, &z)) return reject(d, "cut in type dictionary");
        if (b > 4) return reject(d, "unknown type format");
        if (a >= d.t.names.size()) return reject(d, "type name index out of range");
        MType y = { (uint32_t) a, (uint32_t) b, (uint32_t) z };
        d.t.types.push_back(y);
    }
    MMap map;
    while (c.p < s.size()) {
        MPoint p;
        bool stmt = false;
        while (true) {
            if (c.p == s.size()) { if (d.v == ACCEPT) { d.v = EITHER; d.why = "cut between entries"; } return d; }
            uint8_t tag = s[c.p++];
            if (tag == T_END) break;
            if (tag == T_STMT) {
                if (!c.get(8, &p.stmt)) return reject(d, "cut in statement id");
                if (stmt) d.skip_stmt.insert(d.t.points.size());
                stmt = true;
                p.order.push_back(std::make_pair(tag, 0u));
            } else if (tag == T_SIZE) {
                uint64_t a, z;
                if (!c.get(8, &a) || !c.get(8, &z)) return reject(d, "cut in buffer size");
                if (a != UINT64_MAX && (a + z < a || z == UINT64_MAX)) d.skip_bs = true;
                map.record(a, z);
                p.order.push_back(std::make_pair(tag, (uint32_t) p.sizes.size()));
                p.sizes.push_back(std::make_pair(a, z));
            } else if (tag == T_VAR) {
                uint64_t a, b;
                if (!c.get(4, &a) || !c.get(4, &b)) return reject(d, "cut in variable");
                if (b >= d.t.types.size()) return reject(d, "type index out of range");
                if (a >= d.t.names.size()) return reject(d, "name index out of range");
                MVar x;
                x.name = a; x.type = b; x.fmt = d.t.types[b].fmt; x.size = d.t.types[b].size;
                if (x.fmt == M_BLOB) {
                    if (x.size == 0) { if (!c.get(4, &v)) return reject(d, "cut in blob size"); x.size = v; }
                    if (s.size() - c.p < x.size) return reject(d, "cut in blob");
                    x.blob = s.substr(c.p, x.size);
                    c.p += x.size;
                } else {
                    bool ok = x.fmt == M_FLOAT ? x.size == 4 || x.size == 8
                                               : x.size == 1 || x.size == 2 || x.size == 4 || x.size == 8;
                    if (!ok) return reject(d, "unsupported value size");
                    if (x.fmt == M_POINTER && x.size < 4 && d.v == ACCEPT) { d.v = EITHER; d.why = "tiny pointer"; }
                    if (!c.get(x.size, &v)) return reject(d, "cut in value");
                    x.raw = canonInt(v, x.fmt, x.size);
                    if (x.fmt == M_POINTER) { uint64_t r; if (map.lookup(x.raw, &r)) { x.hasbs = true; x.bs = r; } }
                }
                p.order.push_back(std::make_pair(tag, (uint32_t) p.vars.size()));
                p.vars.push_back(x);
            } else if (tag == T_AUX) {
                if (!c.get(8, &v)) return reject(d, "cut in auxiliary value");
                p.order.push_back(std::make_pair(tag, (uint32_t) p.aux.size()));
                p.aux.push_back(v);
            } else return reject(d, "unknown entry tag");
        }
        d.t.points.push_back(p);
    }
    return d;
}
static std::string hexdump(const std::string & s) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < 400; i++) o += pbt::fmt("%02x%s", (uint8_t) s[i], i % 4 == 3 ? " " : "");
    if (s.size() > 400) o += pbt::fmt("...(%zu bytes)", s.size());
    return o;
}

// Check one byte string against the reference decoder.
static void checkBytes(Gen & g, const std::string & bytes, bool api) {
    Decoded d = refDecode(bytes);
    g.label(d.v == ACCEPT ? "verdict:accept" : d.v == REJECT ? "reject:" + d.why : "either:" + d.why);
    bool got = false;
    g.at("Trace(istream) on %zu bytes", bytes.size());
    std::string rewritten;
    {
        std::istringstream is(bytes);
        try {
            Trace tr(is);
            got = true;
            PBT_CHECK(d.v != REJECT, "accepted although it must be rejected: %s", d.why.c_str());
            // look at everything, whatever the contents
            for (auto & p : tr.getPoints())
                for (auto & v : p.getVars())
                    if (v.get().getTypeFormat() == BLOB && v.get().getSize()) {
                        volatile char c = ((char *) v.get().getValue().ptr)[v.get().getSize() - 1];
                        (void) c;
                    }
            std::string tmp = written(tr);
            if (d.contents) {
                MTrace t = d.t;
                for (size_t i = 0; i < t.points.size() && i < tr.getPoints().size(); i++) {
                    const TracePoint & p = tr.getPoints()[i];
                    if (d.skip_stmt.count(i)) t.points[i].stmt = p.getStatement();
                    if (d.skip_bs)
                        for (size_t k = 0; k < t.points[i].vars.size() && k < p.getVars().size(); k++) {
                            t.points[i].vars[k].hasbs = p.getVars()[k].get().hasBufferSize();
                            t.points[i].vars[k].bs = p.getVars()[k].get().getBufferSize();
                        }
                }
                std::string e = cmpTrace(tr, t, t.points.size());
                PBT_CHECK(e.empty(), "misread: %s", e.c_str());
            }
        } catch (const std::exception & ex) {
            PBT_CHECK(d.v != ACCEPT, "well-formed trace rejected: %s", ex.what());
            PBT_CHECK(!got, "exception after reading: %s", ex.what());
        }
    }
    g.evals();
    if (api) {
        ScratchFile f(bytes);
        g.at("read_trace on %zu bytes", bytes.size());
        void *tr = read_trace(f.path.c_str(), 0, 0);
        PBT_CHECK((tr != NULL) == got, "read_trace %s but the stream reader %s", tr ? "succeeded" : "failed", got ? "succeeded" : "failed");
        if (tr) {
            c_trace_point_struct *ps = get_points(tr);
            const char **nm = get_names(tr), **ty = get_types(tr);
            volatile size_t sum = 0;
            for (uint32_t i = 0; i < n_names(tr); i++) sum += strlen(nm[i]);
            for (uint32_t i = 0; i < n_types(tr); i++) sum += strlen(ty[i]);
            free(nm); free(ty);
            free_trace_points(ps, trace_size(tr));
            free_trace(tr);
        }
        g.at("add_trace on %zu bytes", bytes.size());
        MTrace small;
        small.names.push_back("a");
        MType y = { 0, M_SIGNED, 4 };
        small.types.push_back(y);
        MPoint p;
        p.stmt = 7;
        MVar v;
        v.fmt = M_SIGNED; v.size = 4; v.raw = (uint64_t) (int64_t) -5;
        p.vars.push_back(v);
        canonicalOrder(p);
        small.points.push_back(p);
        ScratchFile ok(encode(small), "ok");
        void *db = create_db();
        size_t before = 1 + (g.chance(1, 2) ? g.draw(7) : 0);
        for (size_t i = 0; i < before; i++) PBT_CHECK(add_trace(db, ok.path.c_str(), 0, 0), "add_trace of a good trace failed");
        int r = add_trace(db, f.path.c_str(), 0, 0);
        PBT_CHECK((r != 0) == got, "add_trace returned %d but the stream reader %s", r, got ? "succeeded" : "failed");
        PBT_CHECK(n_traces(db) == before + (got ? 1 : 0), "%u traces in the database after a %s add", n_traces(db), got ? "successful" : "failed");
        for (size_t i = 0; i < before; i++) {
            std::string e = cmpCTrace(get_trace(db, i), small, 1);
            PBT_CHECK(e.empty(), "earlier trace changed by a later add: %s", e.c_str());
        }
        free_db(db);
        g.evals(2);
    }
    if (d.v == REJECT || d.v == EITHER) g.nontrivial();
}

static void put(std::string & s, size_t pos, uint64_t v, unsigned n) {
    for (unsigned i = 0; i < n && pos + i < s.size(); i++) s[pos + i] = (char) (uint8_t) (v >> (8 * i));
}

static void malformed(Gen & g) {
    srand(g.draw(1000));
    std::string bytes;
    TraceOpts o;
    o.bulk = 0;
    o.max_points = 8;
    unsigned mode = g.draw(12);
    if (mode == 0) {
        size_t n = g.count(40, 300);
        for (size_t i = 0; i < n; i++) bytes += (char) (uint8_t) g.draw(256);
    } else if (mode == 1) {
        // random small numbers after a plausible header
        MTrace t = genTrace(g, o);
        t.points.clear();
        bytes = encode(t);
        size_t n = g.count(60, 300);
        for (size_t i = 0; i < n; i++) bytes += (char) (uint8_t) (g.chance(1, 8) ? g.draw(256) : g.draw(6));
    } else if (mode <= 4) {
        // model-level damage: bad indices, formats, sizes, tags
        MTrace t = genTrace(g, o);
        Layout lay;
        bytes = encode(t, &lay);
        unsigned k = 1 + g.draw(2);
        for (unsigned j = 0; j < k; j++) {
            switch (g.draw(7)) {
            case 0: if (!t.types.empty()) { // a type's field
                size_t i = g.draw(t.types.size()), at = lay.header_end - 12 * (t.types.size() - i), f = g.draw(3);
                uint64_t v;
                if (f == 0) v = g.coin() ? t.names.size() + g.draw(3) - 1 : g.interesting();
                else if (f == 1) v = g.coin() ? g.draw(9) : g.interesting();
                else v = g.draw(4) ? g.draw(20) : g.interesting();
                put(bytes, at + 4 * f, v, 4);
            } break;
            case 1: if (!lay.tag_pos.empty()) put(bytes, g.pick(lay.tag_pos), g.coin() ? g.draw(8) : g.draw(256), 1); break;
            case 2: case 3: { // a variable's indices or value
                std::vector<size_t> at;
                for (size_t x : lay.tag_pos) if (x < bytes.size() && bytes[x] == T_VAR) at.push_back(x);
                if (at.empty()) break;
                size_t x = g.pick(at), f = g.draw(3);
                uint64_t v = f == 0 ? (g.coin() ? t.names.size() + g.draw(3) - 1 : g.interesting())
                           : f == 1 ? (g.coin() ? t.types.size() + g.draw(3) - 1 : g.interesting()) : g.interesting();
                put(bytes, x + 1 + 4 * f, v, 4);
            } break;
            case 4: put(bytes, 0, g.coin() ? bytes.size() + g.draw(5) - 12 : g.interesting(), 8); break;
            case 5: put(bytes, lay.header_end - 12 * t.types.size() - 4, g.coin() ? t.types.size() + g.draw(3) - 1 : g.interesting(), 4); break;
            default: bytes.resize(bytes.size() - std::min<size_t>(bytes.size(), g.draw(20))); break;
            }
        }
    } else if (mode <= 7) {
        // byte-level damage of a well-formed trace
        bytes = encode(genTrace(g, o));
        unsigned k = 1 + g.count(3, 8);
        for (unsigned j = 0; j < k && !bytes.empty(); j++) {
            size_t pos = g.draw(bytes.size());
            switch (g.draw(6)) {
            case 0: bytes[pos] ^= (char) (1u << g.draw(8)); break;
            case 1: bytes[pos] = (char) (uint8_t) g.draw(256); break;
            case 2: put(bytes, pos, g.interesting(), 4); break;
            case 3: put(bytes, pos, g.interesting(), 8); break;
            case 4: bytes.insert(pos, 1 + g.draw(9), (char) (uint8_t) g.draw(256)); break;
            default: bytes.erase(pos, 1 + g.draw(9)); break;
            }
        }
    } else if (mode == 8) {
        // two traces spliced
        std::string a = encode(genTrace(g, o)), b = encode(genTrace(g, o));
        bytes = a.substr(0, g.draw(a.size() + 1)) + b.substr(g.draw(b.size() + 1));
    } else if (mode >= 10) {
        // one unsupported thing, with everything around it as a lenient reader would expect
        MTrace t = genTrace(g, o);
        unsigned what = g.draw(4);
        Layout lay;
        if (what < 2) {
            // a type of an unsupported size or format, values of exactly that size
            if (t.names.empty()) t.names.push_back("x");
            if (t.points.empty()) { MPoint p; p.order.push_back(std::make_pair((uint8_t) T_STMT, 0u)); t.points.push_back(p); }
            MType y = { (uint32_t) g.draw(t.names.size()), (uint32_t) g.draw(5), 0 };
            if (what == 1) y.fmt = g.coin() ? 5 + g.draw(3) : g.coin() ? (uint32_t) g.interesting() : y.fmt | 1u << (8 * (1 + g.draw(3)));
            static const unsigned sizes[] = { 0, 3, 5, 6, 7, 9, 10, 12, 16, 1, 2, 4, 8 };
            y.size = what == 1 ? sizes[g.draw(13)] : sizes[g.draw(11)];
            t.types.push_back(y);
            bool use = what == 0 || g.coin();
            bytes = encode(t, &lay);
            if (use) {
                std::string v(1, (char) T_VAR);
                le(v, g.draw(t.names.size()), 4);
                le(v, t.types.size() - 1, 4);
                uint64_t k = g.draw(3);
                for (unsigned i = 0; i < y.size; i++) v += (char) (uint8_t) (k == 0 ? 0 : k == 1 ? 255 : g.draw(256));
                bytes.insert(g.pick(lay.tag_pos), v);
            }
        } else if (what == 2) {
            // an unknown tag, with a payload of the size of a known entry (or none)
            bytes = encode(t, &lay);
            static const unsigned pay[] = { 0, 8, 16, 4, 1, 12 };
            static const uint8_t odd[] = { 0x80, 0xff, 0x7f, 0xfe, 0x81, 0x85 };
            uint8_t tag = g.chance(1, 3) ? 5 + g.draw(3) : g.coin() ? 5 + g.draw(251) : g.coin() ? odd[g.draw(6)] : g.draw(5) | 1u << (3 + g.draw(5));
            if (!lay.tag_pos.empty()) bytes.insert(g.pick(lay.tag_pos), std::string(1, (char) tag) + std::string(pay[g.draw(6)], g.coin() ? '\0' : '\1'));
        } else {
            // an index just out of range, or far out of range in the high bytes only
            bytes = encode(t, &lay);
            std::vector<size_t> at;
            for (size_t i = 0; i < t.types.size(); i++) at.push_back(lay.header_end - 12 * (t.types.size() - i));
            size_t nt = at.size();
            for (size_t x : lay.tag_pos) if (bytes[x] == T_VAR) { at.push_back(x + 1); at.push_back(x + 5); }
            if (!at.empty()) {
                size_t i = g.draw(at.size());
                uint64_t n = i >= nt && (i - nt) % 2 ? t.types.size() : t.names.size(), old = 0;
                memcpy(&old, &bytes[at[i]], 4);
                put(bytes, at[i], g.coin() ? n + g.draw(2) : old | 1ull << (8 + g.draw(24)), 4);
            }
        }
        g.nontrivial();
    } else {
        // allocation records at the extremes of the address space
        MTrace t;
        t.names.push_back("p");
        MType y = { 0, M_POINTER, 8 };
        t.types.push_back(y);
        size_t np = 1 + g.count(4, 10);
        static const uint64_t ext[] = { UINT64_MAX, 0, UINT64_MAX - 1, 1, 1ull << 63 };
        for (size_t i = 0; i < np; i++) {
            MPoint p;
            p.order.push_back(std::make_pair((uint8_t) T_STMT, 0u));
            size_t n = g.count(6, 20);
            for (size_t k = 0; k < n; k++)
                if (g.coin()) {
                    p.order.push_back(std::make_pair((uint8_t) T_SIZE, (uint32_t) p.sizes.size()));
                    p.sizes.push_back(std::make_pair(ext[g.draw(5)], g.coin() ? 0 : ext[g.draw(5)]));
                } else {
                    MVar v;
                    v.fmt = M_POINTER; v.size = 8; v.raw = ext[g.draw(5)];
                    p.order.push_back(std::make_pair((uint8_t) T_VAR, (uint32_t) p.vars.size()));
                    p.vars.push_back(v);
                }
            t.points.push_back(p);
        }
        bytes = encode(t);
        g.nontrivial();
    }
    if (g.rendering) g.out << "mode " << mode << ", " << bytes.size() << " bytes: " << hexdump(bytes);
    g.label(pbt::fmt("mode-%u", mode));
    checkBytes(g, bytes, g.chance(1, 3));
}

// ------------------------------------------------------------------ C05
static void truncation(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o;
    o.bulk = 60;
    o.max_points = 10;
    o.max_vars = 8;
    MTrace t = genTrace(g, o);
    if (g.chance(1, 25)) alignTrace(g, t, 4096);
    Layout lay;
    std::string bytes = encode(t, &lay);
    if (g.rendering) g.out << showTrace(t) << "\n" << bytes.size() << " bytes";
    labelTrace(g, t);
    if (t.points.size() > 1) g.nontrivial();
    std::set<size_t> cuts;
    if (bytes.size() <= 220) for (size_t i = 0; i <= bytes.size(); i++) cuts.insert(i);
    else {
        size_t step = bytes.size() / 60 + 1, off = g.draw(step);
        for (size_t i = off; i < bytes.size(); i += step) cuts.insert(i);
        for (size_t i = 0; i < 60; i++) {
            size_t base = i % 3 == 0 ? lay.header_end : i % 3 == 1 && !lay.point_ends.empty() ? g.pick(lay.point_ends)
                        : !lay.tag_pos.empty() ? g.pick(lay.tag_pos) : 8;
            size_t c = base + g.draw(5) - 2;
            if (c <= bytes.size()) cuts.insert(c);
        }
        for (size_t i = 0; i < 40 && i < lay.header_end; i++) cuts.insert(lay.header_end - i);
        if (lay.header_end > 100000) { while (cuts.size() > 40) cuts.erase(cuts.begin()); }
    }
    std::set<size_t> ends(lay.point_ends.begin(), lay.point_ends.end()), tags(lay.tag_pos.begin(), lay.tag_pos.end());
    for (size_t c : cuts) {
        size_t complete = std::upper_bound(lay.point_ends.begin(), lay.point_ends.end(), c) - lay.point_ends.begin();
        bool must_fail, must_ok;
        if (c < lay.header_end) { must_fail = true; must_ok = false; }
        else if (c == lay.header_end || ends.count(c)) { must_fail = false; must_ok = true; }
        else if (tags.count(c)) { must_fail = must_ok = false; }
        else { must_fail = true; must_ok = false; }
        std::string cut = bytes.substr(0, c);
        g.at("read of %zu of %zu bytes", c, bytes.size());
        std::string e;
        bool ok = false;
        try {
            std::istringstream is(cut);
            Trace tr(is);
            ok = true;
            if (!must_fail) e = cmpTrace(tr, t, complete);
        } catch (const std::exception & ex) {}
        PBT_CHECK(!(ok && must_fail), "cut at byte %zu of %zu (header ends at %zu): accepted", c, bytes.size(), lay.header_end);
        PBT_CHECK(ok || !must_ok, "cut at byte %zu of %zu, between points: rejected", c, bytes.size());
        PBT_CHECK(e.empty(), "cut at byte %zu of %zu: %s", c, bytes.size(), e.c_str());
        g.evals();
        g.tick();
        if (c % 17 == 3) {
            ScratchFile f(cut);
            void *tr = read_trace(f.path.c_str(), 0, 0);
            PBT_CHECK((tr != NULL) == ok, "cut at byte %zu: read_trace %s, stream reader %s", c, tr ? "succeeds" : "fails", ok ? "succeeds" : "fails");
            if (tr) { e = cmpCTrace(tr, t, complete); free_trace(tr); }
            PBT_CHECK(e.empty(), "cut at byte %zu, read_trace: %s", c, e.c_str());
            void *db = create_db();
            int r = add_trace(db, f.path.c_str(), 0, 0);
            uint32_t n = n_traces(db);
            free_db(db);
            PBT_CHECK((r != 0) == ok && n == (ok ? 1u : 0u), "cut at byte %zu: add_trace returned %d with %u traces", c, r, n);
        }
    }
}
static void limits(Gen & g) {
    srand(g.draw(1000));
    TraceOpts o;
    o.bulk = 30;
    o.huge = true;
    o.point_den = 12;
    MTrace t = genTrace(g, o);
    if (g.chance(1, 12)) alignTrace(g, t, 8192);
    std::string bytes = encode(t);
    size_t n = t.points.size();
    if (g.rendering) g.out << showTrace(t);
    if (n > 1) g.nontrivial();
    ScratchFile f(bytes);
    std::vector<uint64_t> lim;
    for (uint64_t k = 0; k <= std::min<size_t>(n + 1, 12); k++) lim.push_back(k);
    lim.push_back(n ? n - 1 : 5); lim.push_back(n); lim.push_back(n + 1);
    lim.push_back(g.interesting()); lim.push_back(UINT64_MAX);
    lim.push_back((1ull << 32) + 1); lim.push_back(1ull << 32);
    lim.push_back(g.draw(n + 1) | 1ull << (8 + g.draw(56)));     // huge, with small low bits
    lim.push_back(g.draw(n + 1) | 1ull << 32);
    if (n > 200) {
        static const uint64_t big[] = { UINT64_MAX, 1ull << 63, 1ull << 32, (1ull << 32) + 1, INT64_MAX, 1ull << 16, 1 << 10 };
        lim.resize(5);
        lim.push_back(n - 1);
        lim.push_back(g.coin() ? big[g.draw(7)] : g.coin() ? g.draw(n) | 1ull << (16 + g.draw(48)) : g.interesting());
    }
    if (g.rendering) { g.out << "\nlimits:"; for (uint64_t l : lim) g.out << " " << l; }
    for (uint64_t l : lim) {
        size_t want = l == 0 ? n : std::min<uint64_t>(l, n);
        g.at("limit %llu of %zu points", (unsigned long long) l, n);
        std::istringstream is(bytes);
        Trace tr(is, l);
        std::string e = cmpTrace(tr, t, want);
        PBT_CHECK(e.empty(), "limit %llu of %zu points: %s", (unsigned long long) l, n, e.c_str());
        void *p = read_trace(f.path.c_str(), 0, l);
        PBT_CHECK(p, "read_trace with limit %llu failed", (unsigned long long) l);
        e = cmpCTrace(p, t, want);
        free_trace(p);
        PBT_CHECK(e.empty(), "read_trace limit %llu of %zu points: %s", (unsigned long long) l, n, e.c_str());
        void *db = create_db();
        PBT_CHECK(add_trace(db, f.path.c_str(), 0, l), "add_trace with limit %llu failed", (unsigned long long) l);
        e = cmpCTrace(get_trace(db, 0), t, want);
        free_db(db);
        PBT_CHECK(e.empty(), "add_trace limit %llu of %zu points: %s", (unsigned long long) l, n, e.c_str());
        g.evals(3);
        g.tick();
    }
}

static pbt::Register r1("roundtrip", roundtrip), r2("components", components), r3("decode", decode),
    r4("memory-map", memoryMap), r5("pointer-stream", pointerStream), r6("malformed", malformed, 60),
    r7("truncation", truncation, 25), r8("limits", limits, 25);

#ifdef FUZZ_TARGET
// Coverage-guided search with the same oracle; the input is the trace.
static pbt::Shm *fuzzShm() { static pbt::Shm *s = (pbt::Shm *) calloc(1, sizeof(pbt::Shm)); return s; }
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *dir = getenv("FUZZ_SEED_DIR");
    for (int i = 0; dir && i < 400; i++) {
        Gen g(fuzzShm(), NULL, 77 + i, false);
        TraceOpts o;
        o.bulk = 0; o.max_points = 5; o.max_vars = 5;
        std::ofstream(pbt::fmt("%s/seed%d", dir, i).c_str(), std::ios::binary) << encode(genTrace(g, o));
    }
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) {
    static const std::vector<uint64_t> none;
    static unsigned k = 0;
    Gen g(fuzzShm(), &none, 0, false);
    try { checkBytes(g, std::string((const char *) data, n), k++ % 64 == 0); }
    catch (pbt::Failure & f) { fprintf(stderr, "property failed: %s\n", f.msg.c_str()); __builtin_trap(); }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::harnessMain(argc, argv); }
#endif
