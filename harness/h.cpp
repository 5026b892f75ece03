// Concrete witness search for the properties (bounded; never counted as proof).
// Includes the real sources of /repo and drives them through their public
// interface, comparing with independent oracles.
//   h PROP SEED FROM STRIDE COUNT SECONDS PROGRESSFILE SCRATCH [-v]
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <chrono>
#include <boost/multiprecision/cpp_int.hpp>
#include "trace.cpp"
#include "trace-db.cpp"

typedef std::vector<uint8_t> Bytes;
using boost::multiprecision::cpp_rational;
typedef boost::multiprecision::cpp_int BigInt;

// ---------------------------------------------------------------- failures
struct Fail { std::string m; };
#define FAIL(x) do { std::ostringstream o_; o_ << x; throw Fail{o_.str()}; } while (0)
#define CHECK(c, x) do { if (!(c)) FAIL(x); } while (0)
static bool verbose;
#define SAY(x) do { if (verbose) std::cout << x << std::endl; } while (0)
static volatile uint64_t *progress;
static std::string scratch;
static uint64_t distinct_nontrivial;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    Rng(uint64_t a, uint64_t b, uint64_t c) { s = a * 0x9E3779B97F4A7C15ull ^ b * 0xBF58476D1CE4E5B9ull ^ (c + 1) * 0x94D049BB133111EBull; next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
    uint64_t value() {
        static const uint64_t e[] = {0, 1, 2, 3, 5, 7, 10, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000,
            0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
            0x8000000000000001ull, 0xffffffffffffff80ull, 0xffffffffffff8000ull, 0xffffffff80000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull};
        switch (below(4)) {
        case 0: return e[below(sizeof(e) / sizeof(e[0]))];
        case 1: return below(6);
        case 2: return next() >> below(64);
        default: return next();
        }
    }
};

// ---------------------------------------------------------------- model
struct MType { uint32_t name, fmt, size; };
struct MVar { uint32_t name, type; uint32_t fmt, size; uint64_t u; Bytes blob; uint64_t bs; uint8_t has; };
struct MEntry { int tag; uint64_t a, b; MVar v; };       // a,b: statement / address,size / aux
struct MPoint { uint64_t counter, statement; std::vector<std::pair<uint64_t,uint64_t> > sizes; std::vector<MVar> vars; std::vector<uint64_t> aux; std::vector<MEntry> entries; };
struct MTrace { std::vector<std::string> names; std::vector<MType> types; std::vector<MPoint> points; };

struct AllocOracle {                       // independent allocation history
    std::map<uint64_t, uint64_t> m;
    void update(uint64_t a, uint64_t s) { if (a == UINT64_MAX) return; if (s == 0) m.erase(a); else m[a] = s; }
    bool size(uint64_t a, uint64_t &out) const {
        if (a == UINT64_MAX) return false;
        auto it = m.upper_bound(a);
        if (it == m.begin()) return false;
        --it;
        uint64_t off = a - it->first;
        if (off > it->second) return false;
        out = it->second - off; return true;
    }
};

static void put(Bytes &b, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) b.push_back(i < 8 ? (uint8_t)(v >> (8 * i)) : 0); }
static void encodeHeader(Bytes &b, const MTrace &t) {
    Bytes n;
    for (auto &s : t.names) { n.insert(n.end(), s.begin(), s.end()); n.push_back(0); }
    put(b, n.size(), 8); b.insert(b.end(), n.begin(), n.end());
    put(b, t.types.size(), 4);
    for (auto &ty : t.types) { put(b, ty.name, 4); put(b, ty.fmt, 4); put(b, ty.size, 4); }
}
static void encodeEntry(Bytes &b, const MTrace &t, const MEntry &e) {
    put(b, e.tag, 1);
    if (e.tag == 1) put(b, e.a, 8);
    else if (e.tag == 2) {
        put(b, e.v.name, 4); put(b, e.v.type, 4);
        const MType &ty = t.types[e.v.type];
        if (ty.fmt == 4) { if (ty.size == 0) put(b, e.v.blob.size(), 4); b.insert(b.end(), e.v.blob.begin(), e.v.blob.end()); }
        else put(b, e.v.u, ty.size);
    } else if (e.tag == 3) { put(b, e.a, 8); put(b, e.b, 8); }
    else if (e.tag == 4) put(b, e.a, 8);
}
static Bytes encode(const MTrace &t) {
    Bytes b; encodeHeader(b, t);
    for (auto &p : t.points) { for (auto &e : p.entries) encodeEntry(b, t, e); put(b, 0, 1); }
    return b;
}
static uint64_t widen(uint64_t raw, uint32_t fmt, uint32_t size) {
    if (size < 8) raw &= (1ull << (8 * size)) - 1;
    if (fmt == 1 && size < 8 && size > 0 && (raw >> (8 * size - 1))) raw |= ~((1ull << (8 * size)) - 1);
    return raw;
}

// options of the trace generator
struct GenOpt { bool odd_sizes = false; bool fixed_blob = false; bool canonical = false; bool multi_stmt = true; unsigned maxpoints = 6, maxvars = 5; unsigned fewnames = 0; bool floats_nice = false; };
static double niceFloat(Rng &r) { int m = (int)r.below(41) - 20; static const double d[] = {1, 2, 4, 8, 0.5}; return m / d[r.below(5)]; }
static MTrace genTrace(Rng &r, const GenOpt &o) {
    MTrace t;
    unsigned nn = r.chance(5) ? 0 : 1 + r.below(o.fewnames ? o.fewnames : 6);
    for (unsigned i = 0; i < nn; i++) {
        std::string s; unsigned l = r.below(5); if (r.chance(2)) l = 200;
        for (unsigned k = 0; k < l; k++) s.push_back((char)(1 + r.below(255)));
        t.names.push_back(s);
    }
    unsigned nt = nn == 0 ? 0 : r.below(5) + (r.chance(85) ? 1 : 0);
    for (unsigned i = 0; i < nt; i++) {
        MType ty; ty.name = r.below(nn); ty.fmt = r.below(5);
        static const uint32_t w[] = {1, 2, 4, 8};
        if (ty.fmt == 4) ty.size = (o.fixed_blob && r.chance(40)) ? 1 + r.below(12) : 0;
        else if (ty.fmt == 2) ty.size = r.chance(50) ? 4 : 8;
        else ty.size = w[r.below(4)];
        if (o.odd_sizes && r.chance(15) && ty.fmt != 4 && ty.fmt != 1) ty.size = r.below(9);
        if (ty.fmt == 3 && !o.odd_sizes && r.chance(60)) ty.size = 8;
        t.types.push_back(ty);
    }
    AllocOracle ao;
    std::vector<uint64_t> pool;
    for (unsigned i = 0; i < 4; i++) pool.push_back(r.chance(50) ? 0x1000 + 16 * r.below(8) : r.value());
    unsigned np = r.below(o.maxpoints + 1);
    if (r.chance(3)) np = 40;
    std::vector<uint64_t> stm; for (unsigned i = 0; i < 3; i++) stm.push_back(r.value());
    for (unsigned i = 0; i < np; i++) {
        MPoint p; p.counter = i; p.statement = 0;
        std::vector<MEntry> es;
        unsigned ne = r.below(o.maxvars + 3);
        if (r.chance(2)) ne = 60;
        for (unsigned k = 0; k < ne; k++) {
            MEntry e; e.a = e.b = 0; e.v = MVar();
            int c = r.below(10);
            e.tag = c < 1 ? 1 : c < 6 ? 2 : c < 8 ? 3 : 4;
            if (e.tag == 1) { if (o.canonical) continue; e.a = stm[r.below(3)]; if (!o.multi_stmt) { bool have = false; for (auto &x : es) have |= x.tag == 1; if (have) continue; } }
            if (e.tag == 4) e.a = r.value();
            if (e.tag == 3) {
                e.a = pool[r.below(4)]; if (r.chance(5)) e.a = r.value();
                e.b = r.chance(25) ? 0 : r.chance(70) ? 1 + r.below(64) : r.value();
                if (e.b >= UINT64_MAX - e.a) e.b = UINT64_MAX - 1 - e.a; if (e.a == UINT64_MAX) e.b = 0;
                if (r.chance(3)) e.a = UINT64_MAX, e.b = r.below(2);
            }
            if (e.tag == 2) {
                if (nt == 0) continue;
                e.v.type = r.below(nt); e.v.name = r.below(nn);
                MType &ty = t.types[e.v.type]; e.v.fmt = ty.fmt; e.v.size = ty.size;
                if (ty.fmt == 4) { unsigned l = ty.size ? ty.size : r.below(9); if (ty.size == 0 && r.chance(2)) l = 5000; e.v.size = l; for (unsigned z = 0; z < l; z++) e.v.blob.push_back(r.chance(30) ? 0 : r.next()); }
                else {
                    uint64_t v = ty.fmt == 3 ? (r.chance(70) ? pool[r.below(4)] + r.below(70) : r.value()) : r.value();
                    if (o.floats_nice && ty.fmt == 2) { double d = niceFloat(r); if (ty.size == 4) { float f = d; uint32_t u; memcpy(&u, &f, 4); v = u; } else memcpy(&v, &d, 8); }
                    e.v.u = widen(v, ty.fmt, ty.size);
                }
            }
            es.push_back(e);
        }
        if (o.canonical || r.chance(70)) { MEntry e; e.tag = 1; e.a = stm[r.below(3)]; e.b = 0; e.v = MVar(); es.insert(es.begin(), e); }
        if (o.canonical) std::stable_sort(es.begin(), es.end(), [](const MEntry &x, const MEntry &y) { auto k = [](int t) { return t == 1 ? 0 : t == 3 ? 1 : t == 2 ? 2 : 3; }; return k(x.tag) < k(y.tag); });
        for (auto &e : es) {
            if (e.tag == 1) p.statement = e.a;
            else if (e.tag == 4) p.aux.push_back(e.a);
            else if (e.tag == 3) { ao.update(e.a, e.b); p.sizes.push_back({e.a, e.b}); }
            else {
                e.v.bs = 0; e.v.has = 0;
                if (e.v.fmt == 3) { uint64_t s; if (ao.size(e.v.u, s)) { e.v.bs = s; e.v.has = 1; } }
                p.vars.push_back(e.v);
            }
        }
        p.entries = es;
        t.points.push_back(p);
    }
    return t;
}
static std::string show(const Bytes &b) { std::string s; char x[4]; for (size_t i = 0; i < b.size() && i < 400; i++) { snprintf(x, 4, "%02x", b[i]); s += x; } return s; }
static std::string show(const MVar &v) { std::ostringstream o; o << "{name=" << v.name << " type=" << v.type << " fmt=" << v.fmt << " size=" << v.size; if (v.fmt == 4) o << " blob=" << show(v.blob); else o << " u=" << v.u; o << " bs=" << v.bs << "/" << (int)v.has << "}"; return o.str(); }
static std::string show(const MTrace &t) {
    std::ostringstream o; o << "names=" << t.names.size() << " types=[";
    for (auto &y : t.types) o << "(" << y.name << "," << y.fmt << "," << y.size << ")";
    o << "] points=[";
    for (auto &p : t.points) { o << "\n  #" << p.counter << " stmt=" << p.statement << " sizes="; for (auto &s : p.sizes) o << "(" << s.first << "," << s.second << ")"; o << " vars="; for (auto &v : p.vars) o << show(v); o << " aux="; for (auto a : p.aux) o << a << ","; }
    o << "]"; return o.str();
}

static VarValue mkValue(const MVar &v) {
    VarValue x; x.u = 0;
    if (v.fmt == 4) { x.ptr = malloc(v.blob.size()); if (!v.blob.empty()) memcpy(x.ptr, v.blob.data(), v.blob.size()); }
    else x.u = v.u;
    return x;
}
static FlyweightTraceVarInfo mkVar(const MVar &v) { return FlyweightTraceVarInfo(TraceVarInfo(mkValue(v), v.name, v.type, (type_format)v.fmt, v.size, v.bs, v.has)); }
static TracePoint mkPoint(const MPoint &p) {
    TraceBufferSizes bs; for (auto &s : p.sizes) bs.push_back(TraceBufferSize(s.first, s.second));
    FlyweightTraceVarInfos vs; for (auto &v : p.vars) vs.push_back(mkVar(v));
    return TracePoint(p.counter, p.statement, bs, vs, p.aux);
}
static TypeDescriptions mkTypes(const MTrace &t) { TypeDescriptions r; for (auto &y : t.types) r.push_back(TypeDescription(y.name, (type_format)y.fmt, y.size)); return r; }
static TracePoints mkPoints(const MTrace &t) { TracePoints r; for (auto &p : t.points) r.push_back(mkPoint(p)); return r; }
static Trace mkTrace(const MTrace &t) { return Trace(t.names, mkTypes(t), mkPoints(t)); }

static void cmpVar(const TraceVarInfo &v, const MVar &m, const std::string &w) {
    CHECK(v.getNameIndex() == m.name, w << " name index " << v.getNameIndex() << " expected " << m.name);
    CHECK(v.getTypeIndex() == m.type, w << " type index " << v.getTypeIndex() << " expected " << m.type);
    CHECK((uint32_t)v.getTypeFormat() == m.fmt, w << " format " << v.getTypeFormat() << " expected " << m.fmt);
    CHECK(v.getSize() == m.size, w << " size " << v.getSize() << " expected " << m.size);
    if (m.fmt == 4) CHECK(m.blob.empty() || memcmp(v.getValue().ptr, m.blob.data(), m.blob.size()) == 0, w << " blob content differs");
    else CHECK(v.getValue().u == m.u, w << " value " << v.getValue().u << " expected " << m.u << " (" << show(m) << ")");
    CHECK(v.hasBufferSize() == m.has, w << " has_buffer_size " << (int)v.hasBufferSize() << " expected " << (int)m.has << " " << show(m));
    CHECK(v.getBufferSize() == m.bs, w << " buffer size " << v.getBufferSize() << " expected " << m.bs << " " << show(m));
}
static void cmpPoint(const TracePoint &p, const MPoint &m, const std::string &w, bool counter = true) {
    if (counter) CHECK(p.getCounter() == m.counter, w << " counter " << p.getCounter() << " expected " << m.counter);
    CHECK(p.getStatement() == m.statement, w << " statement " << p.getStatement() << " expected " << m.statement);
    CHECK(p.getBufferSizes().size() == m.sizes.size(), w << " number of buffer sizes " << p.getBufferSizes().size() << " expected " << m.sizes.size());
    for (size_t i = 0; i < m.sizes.size(); i++) CHECK(p.getBufferSizes()[i].getAddress() == m.sizes[i].first && p.getBufferSizes()[i].getSize() == m.sizes[i].second, w << " buffer size " << i);
    CHECK(p.getVars().size() == m.vars.size(), w << " number of variables " << p.getVars().size() << " expected " << m.vars.size());
    for (size_t i = 0; i < m.vars.size(); i++) cmpVar(p.getVars()[i].get(), m.vars[i], w + " var " + std::to_string(i));
    CHECK(p.getAux() == m.aux, w << " auxiliary values differ");
}
static void cmpTrace(const Trace &t, const MTrace &m, const std::string &w, size_t npoints = SIZE_MAX) {
    CHECK(t.getNames() == m.names, w << ": names differ");
    CHECK(t.getTypes().size() == m.types.size(), w << ": number of types");
    for (size_t i = 0; i < m.types.size(); i++) CHECK(t.getTypes()[i].getNameIndex() == m.types[i].name && (uint32_t)t.getTypes()[i].getTypeFormat() == m.types[i].fmt && t.getTypes()[i].getSize() == m.types[i].size, w << ": type " << i << " differs");
    size_t n = std::min(npoints, m.points.size());
    CHECK(t.getPoints().size() == n, w << ": " << t.getPoints().size() << " points, expected " << n);
    for (size_t i = 0; i < n; i++) cmpPoint(t.getPoints()[i], m.points[i], w + ": point " + std::to_string(i));
}
static std::string str(const Bytes &b) { return std::string(b.begin(), b.end()); }
// exact-size heap buffer so that any over-read of the input is seen by ASan
struct ExactBuf : std::streambuf { char *p; ExactBuf(const Bytes &b) { p = (char *)malloc(b.size()); if (!b.empty()) memcpy(p, b.data(), b.size()); setg(p, p, p + b.size()); } ~ExactBuf() { free(p); } };

// ---------------------------------------------------------------- C01 / C03 reference decoder
struct Cur { const Bytes &b; size_t i; bool get(uint64_t &v, unsigned n) { if (b.size() - i < n) return false; v = 0; for (unsigned k = 0; k < n; k++) v |= (k < 8 ? (uint64_t)b[i + k] << (8 * k) : 0); i += n; return true; } };
// returns 1 accept, 0 reject, 2 unspecified
static int decode(const Bytes &b, uint64_t maxp, MTrace &t) {
    Cur c{b, 0}; uint64_t n, x, y, z;
    if (!c.get(n, 8)) return 0;
    if (b.size() - c.i < n) return 0;
    if (n && b[c.i + n - 1] != 0) return 0;
    for (size_t e = c.i + n; c.i < e;) { std::string s; while (b[c.i]) s.push_back(b[c.i++]); c.i++; t.names.push_back(s); }
    if (!c.get(n, 4)) return 0;
    bool dubious = false;
    std::vector<bool> bad(0);
    for (uint64_t k = 0; k < n; k++) {
        if (!c.get(x, 4) || !c.get(y, 4) || !c.get(z, 4)) return 0;
        if (y >= 5 || x >= t.names.size()) return 0;
        t.types.push_back(MType{(uint32_t)x, (uint32_t)y, (uint32_t)z});
        bool ib = (y == 1 && z != 1 && z != 2 && z != 4 && z != 8) || (y != 4 && y != 1 && z > 8);
        bad.push_back(ib); dubious |= ib;
    }
    AllocOracle ao;
    for (uint64_t k = 0; maxp == 0 || k < maxp; k++) {
        MPoint p; p.counter = k; p.statement = 0;
        for (;;) {
            if (!c.get(x, 1)) return dubious ? 2 : 1;      // point cut off cleanly: dropped
            if (x == 0) break;
            if (x > 4) return 0;
            if (x == 1) { if (!c.get(p.statement, 8)) return 0; }
            else if (x == 4) { if (!c.get(y, 8)) return 0; p.aux.push_back(y); }
            else if (x == 3) { if (!c.get(y, 8) || !c.get(z, 8)) return 0; ao.update(y, z); if (z >= UINT64_MAX - y && z) dubious = true; p.sizes.push_back({y, z}); }
            else {
                MVar v; v.bs = 0; v.has = 0; v.u = 0;
                if (!c.get(y, 4) || !c.get(z, 4)) return 0;
                if (y >= t.names.size() || z >= t.types.size()) return 0;
                v.name = y; v.type = z; v.fmt = t.types[z].fmt; v.size = t.types[z].size;
                if (bad[z]) return 0;
                if (v.fmt == 4) {
                    if (v.size == 0) { if (!c.get(y, 4)) return 0; v.size = y; }
                    if (b.size() - c.i < v.size) return 0;
                    v.blob.assign(b.begin() + c.i, b.begin() + c.i + v.size); c.i += v.size;
                } else {
                    if (!c.get(y, v.size)) return 0;
                    v.u = widen(y, v.fmt, v.size);
                    uint64_t s; if (v.fmt == 3 && ao.size(v.u, s)) { v.bs = s; v.has = 1; }
                }
                p.vars.push_back(v);
            }
        }
        t.points.push_back(p);
    }
    return dubious ? 2 : 1;
}
static void readAgainst(const Bytes &b, uint64_t maxp) {
    MTrace exp; int d = decode(b, maxp, exp);
    SAY("bytes=" << show(b) << " len=" << b.size() << " max=" << maxp << " expected=" << (d == 1 ? "accept" : d == 0 ? "reject" : "unspecified"));
    ExactBuf sb(b); std::istream is(&sb);
    bool ok = true; std::unique_ptr<Trace> t; std::string what;
    try { t.reset(new Trace(is, maxp)); } catch (std::exception &e) { ok = false; what = e.what(); }
    if (d == 2) return;
    CHECK(ok == (d == 1), "reader " << (ok ? "accepted" : "rejected") << " input that the format " << (d == 1 ? "allows" : "forbids") << " (" << what << ") bytes=" << show(b));
    if (ok) cmpTrace(*t, exp, "decoded");
}
static void caseC01(Rng &r) {
    GenOpt o; o.odd_sizes = true; o.fixed_blob = true;
    MTrace t = genTrace(r, o); Bytes b = encode(t);
    SAY(show(t));
    uint64_t mp = r.chance(40) ? 0 : r.chance(80) ? r.below(t.points.size() + 2) : r.value();
    MTrace want = t; bool cut = false;
    if (!t.points.empty() && r.chance(25)) {            // cut cleanly inside the last point
        b.clear(); MTrace h = t; encodeHeader(b, h);
        size_t last = r.below(t.points.size());
        for (size_t i = 0; i < last; i++) { for (auto &e : t.points[i].entries) encodeEntry(b, t, e); put(b, 0, 1); }
        size_t ne = r.below(t.points[last].entries.size() + 1);
        for (size_t k = 0; k < ne; k++) encodeEntry(b, t, t.points[last].entries[k]);
        want.points.resize(last); cut = true;
    }
    SAY("bytes=" << show(b) << " max_points=" << mp << " cut=" << cut);
    ExactBuf sb(b); std::istream is(&sb);
    std::unique_ptr<Trace> tr;
    try { tr.reset(new Trace(is, mp)); } catch (std::exception &e) { FAIL("valid trace rejected: " << e.what() << " bytes=" << show(b)); }
    cmpTrace(*tr, want, "decoded", mp ? mp : SIZE_MAX);
    if (r.chance(20)) {
        std::string fn = scratch + "/c01";
        { std::ofstream f(fn.c_str(), std::ios::binary); f << str(b); }
        void *p = read_trace(fn.c_str(), 1, mp);
        CHECK(p, "read_trace failed on a valid file");
        cmpTrace(*(Trace *)p, want, "read_trace", mp ? mp : SIZE_MAX); free_trace(p); unlink(fn.c_str());
    }
}
static void caseC03(Rng &r) {
    GenOpt o; o.odd_sizes = true; o.fixed_blob = true; o.maxpoints = 3;
    MTrace t = genTrace(r, o); Bytes b = encode(t);
    // structured corruption of the model first
    Bytes hdr; encodeHeader(hdr, t);
    switch (r.below(12)) {
    case 0: b.resize(r.below(b.size() + 1)); break;
    case 1: b.resize(r.below(std::min(b.size(), hdr.size()) + 1)); break;
    case 2: case 3: for (int k = 1 + r.below(3); k--;) if (!b.empty()) b[r.below(b.size())] = r.chance(50) ? r.below(8) : r.next(); break;
    case 4: if (!b.empty()) b.erase(b.begin() + r.below(b.size())); break;
    case 5: b.insert(b.begin() + r.below(b.size() + 1), (uint8_t)r.below(8)); break;
    case 6: if (!t.types.empty()) { size_t n = 12 * t.types.size(); size_t f = hdr.size() - n + 4 * r.below(3 * t.types.size()); uint64_t v = r.below(3) == 0 ? r.value() : r.below(20); if (f + 4 <= b.size()) for (int k = 0; k < 4; k++) b[f + k] = v >> (8 * k); } break;
    case 7: { uint64_t n = r.below(40); for (int k = 0; k < 8; k++) b[k] = n >> (8 * k); } break;
    case 8: if (hdr.size() > 12 && !t.names.empty()) { size_t nl = 0; for (auto &s : t.names) nl += s.size() + 1; b[8 + nl - 1] = 1 + r.below(255); } break;
    case 9: b.clear(); for (unsigned k = r.below(40); k--;) b.push_back(r.chance(60) ? 0 : r.below(9)); break;
    case 10: if (b.size() > hdr.size()) { size_t f = hdr.size() + r.below(b.size() - hdr.size()); b[f] = r.chance(70) ? r.below(8) : r.next(); } break;
    case 11: { b.resize(hdr.size()); put(b, r.chance(50) ? r.next() : 2, 1); put(b, r.below(t.names.size() + 2), 4); put(b, r.below(t.types.size() + 2), 4); put(b, r.value(), r.below(9)); if (r.chance(60)) put(b, 0, 1); } break;
    }
    // keep claimed sizes small enough to allocate
    auto rd = [&](size_t i, int n) { uint64_t v = 0; for (int k = 0; k < n && i + k < b.size(); k++) v |= (uint64_t)b[i + k] << (8 * k); return v; };
    if (b.size() >= 1) { uint64_t n = rd(0, 8); if (n > (1u << 20)) for (size_t k = 2; k < 8 && k < b.size(); k++) b[k] = 0; n = rd(0, 8); if (b.size() > 8 + n + 3) { if (b[8 + n + 2] > 15) b[8 + n + 2] &= 15; b[8 + n + 3] = 0; } }
    { uint64_t n = rd(0, 8); size_t q = 8 + n; uint64_t k = rd(q, 4); q += 4; for (uint64_t i = 0; i < k && q + 12 <= b.size(); i++, q += 12) if (rd(q + 4, 4) == 4 && !r.chance(1)) b[q + 10] = b[q + 11] = 0; }
    readAgainst(b, r.chance(70) ? 0 : r.below(4));
    if (r.chance(5)) {
        std::string fn = scratch + "/c03"; { std::ofstream f(fn.c_str(), std::ios::binary); f << str(b); }
        MTrace e; int d = decode(b, 0, e); void *p = read_trace(fn.c_str(), 1, 0); unlink(fn.c_str());
        if (d != 2) CHECK((p != NULL) == (d == 1 && b.size()), "read_trace " << (p ? "accepted" : "rejected") << " bytes=" << show(b));
        if (p) free_trace(p);
    }
}
static void caseC02(Rng &r) {
    GenOpt o; o.canonical = true; MTrace t = genTrace(r, o);
    SAY(show(t));
    Trace a = mkTrace(t); std::ostringstream os; os << a;
    std::string s = os.str(); Bytes b(s.begin(), s.end());
    SAY("written=" << show(b));
    ExactBuf sb(b); std::istream is(&sb); std::unique_ptr<Trace> back;
    try { back.reset(new Trace(is)); } catch (std::exception &e) { FAIL("own output rejected: " << e.what()); }
    cmpTrace(*back, t, "read back"); CHECK(*back == a, "read-back trace compares unequal");
    cmpTrace(a, t, "original");
}
// ---------------------------------------------------------------- C04
static void caseC04(Rng &r) {
    MemoryMap m; AllocOracle o; std::ostringstream log; srand(r.next());
    unsigned n = 1 + r.below(r.chance(10) ? 300 : 40);
    std::vector<uint64_t> pool; unsigned pn = 1 + r.below(12);
    for (unsigned i = 0; i < pn; i++) pool.push_back(r.chance(70) ? 100 + 8 * r.below(20) : r.chance(20) ? UINT64_MAX - r.below(40) : r.value());
    for (unsigned i = 0; i < n; i++) {
        if (r.chance(1)) { m.clear(); o.m.clear(); log << "clear;"; continue; }
        uint64_t a = r.chance(90) ? pool[r.below(pn)] : r.value(), s = r.chance(30) ? 0 : r.chance(80) ? 1 + r.below(30) : r.value();
        m.updateMemoryMap(TraceBufferSize(a, s)); o.update(a, s); log << a << ":" << s << ";";
        for (unsigned k = 0; k < 4; k++) {
            uint64_t q = r.chance(85) ? pool[r.below(pn)] + r.below(34) - 2 : r.value();
            if (k == 0) { q = a + s; } if (k == 1) q = a + s + 1; if (k == 2 && r.chance(30)) q = UINT64_MAX;
            uint64_t e = UINT64_MAX; if (!o.size(q, e)) e = UINT64_MAX;
            uint64_t g = m.computeBufferSize(q);
            CHECK(g == e, "after " << log.str() << " size at " << q << " is " << g << ", expected " << e);
        }
    }
    SAY(log.str());
}
// ---------------------------------------------------------------- predicates
struct MPred { int kind; uint64_t data; std::vector<MPred> ch; };
static Predicate mkPred(const MPred &p) {
    Predicates c; for (auto &x : p.ch) c.push_back(mkPred(x));
    predicate_data d; d.unsigned_value = p.data; if (!p.ch.empty()) d.n_children = p.ch.size();
    return Predicate((predicate_kind)p.kind, d, c);
}
static std::string show(const MPred &p) { std::ostringstream o; o << "(" << p.kind; if (p.ch.empty()) o << ":" << p.data; for (auto &c : p.ch) o << " " << show(c); o << ")"; return o.str(); }
struct MVal { bool valid; bool isf; cpp_rational v; };
struct Reject {};
static bool digitsOk(const cpp_rational &v) {            // representable in <= 45 decimal digits
    BigInt d = denominator(v), n = abs(numerator(v)); int k2 = 0, k5 = 0;
    while (d % 2 == 0) { d /= 2; k2++; } while (d % 5 == 0) { d /= 5; k5++; }
    if (d != 1) return false;
    for (int i = k2; i < k5; i++) n *= 2; for (int i = k5; i < k2; i++) n *= 5;
    return n.str().size() <= 44;
}
static double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static MVal evalNum(const MPred &p, const std::vector<MVar> &vs) {
    MVal r{true, false, 0};
    switch (p.kind) {
    case VAR_SIZE: { const MVar &v = vs.at(p.ch[0].data); r.valid = v.has; r.v = v.bs; return r; }
    case VAR_VALUE: {
        const MVar &v = vs.at(p.ch[0].data);
        if (v.fmt == 0 || v.fmt == 3) r.v = BigInt(v.u);
        else if (v.fmt == 1) r.v = BigInt((int64_t)v.u);
        else if (v.fmt == 2) { r.isf = true; double d; if (v.size == 4) { float f; uint32_t u = v.u; memcpy(&f, &u, 4); d = f; } else d = asD(v.u); if (!(d == d) || d > 1e15 || d < -1e15) throw Reject(); r.v = cpp_rational(d); if (!digitsOk(r.v)) throw Reject(); }
        else r.valid = false;
        return r; }
    case UNSIGNED_VALUE: r.v = BigInt(p.data); return r;
    case SIGNED_VALUE: r.v = BigInt((int64_t)p.data); return r;
    case FLOAT_VALUE: r.isf = true; r.v = cpp_rational(asD(p.data)); return r;
    }
    MVal a = evalNum(p.ch[0], vs), b = evalNum(p.ch[1], vs);
    if (!a.valid || !b.valid) { r.valid = false; return r; }
    r.isf = a.isf || b.isf;
    if (p.kind == ADD) r.v = a.v + b.v; else if (p.kind == SUBTRACT) r.v = a.v - b.v; else if (p.kind == MULTIPLY) r.v = a.v * b.v;
    else { if (b.v == 0) { r.valid = false; return r; } r.isf = true; if (!digitsOk(a.v) || !digitsOk(b.v) || !digitsOk(1 / b.v)) throw Reject(); r.v = a.v / b.v; }
    if (r.isf && (!digitsOk(r.v) || !digitsOk(a.v) || !digitsOk(b.v))) throw Reject();
    return r;
}
static bool sameVar(const MVar &a, const MVar &b) { return a.name == b.name && a.type == b.type && a.fmt == b.fmt && a.size == b.size && a.bs == b.bs && a.has == b.has && (a.fmt == 4 ? a.blob == b.blob : widen(a.u, 0, a.size == 1 || a.size == 2 || a.size == 4 ? a.size : 8) == widen(b.u, 0, b.size == 1 || b.size == 2 || b.size == 4 ? b.size : 8)); }
static bool evalBool(const MPred &p, const std::vector<MVar> &vs) {
    switch (p.kind) {
    case NULL_PREDICATE: return true;
    case AND: { bool x = true; for (auto &c : p.ch) x = evalBool(c, vs) && x; return x; }
    case OR: { bool x = false; for (auto &c : p.ch) x = evalBool(c, vs) || x; return x; }
    case NOT: return !evalBool(p.ch[0], vs);
    case DISTINCT_VARS: return !sameVar(vs.at(p.ch[0].data), vs.at(p.ch[1].data));
    }
    MVal a = evalNum(p.ch[0], vs), b = evalNum(p.ch[1], vs);
    if (!a.valid || !b.valid) return false;
    if ((a.isf || b.isf) && (!digitsOk(a.v) || !digitsOk(b.v))) throw Reject();
    switch (p.kind) {
    case GREATER_THAN: return a.v > b.v; case GREATER_THAN_OR_EQUAL: return a.v >= b.v;
    case LESS_THAN: return a.v < b.v; case LESS_THAN_OR_EQUAL: return a.v <= b.v;
    default: return a.v == b.v;
    }
}
static MPred leaf(int k, uint64_t d) { return MPred{k, d, {}}; }
static MPred genNum(Rng &r, unsigned nv, unsigned depth, const std::vector<uint64_t> &consts) {
    unsigned c = r.below(depth ? 10 : 6);
    if (nv && c < 3) return MPred{r.chance(75) ? VAR_VALUE : VAR_SIZE, 0, {leaf(VAR_REFERENCE, r.below(nv))}};
    if (c < 6) {
        uint64_t v = !consts.empty() && r.chance(50) ? consts[r.below(consts.size())] : r.chance(60) ? r.below(12) : r.value();
        if (r.chance(20)) { double d = niceFloat(r); uint64_t u; memcpy(&u, &d, 8); return leaf(FLOAT_VALUE, u); }
        return leaf(r.chance(50) ? UNSIGNED_VALUE : SIGNED_VALUE, v);
    }
    return MPred{(int)(ADD + r.below(4)), 0, {genNum(r, nv, depth - 1, consts), genNum(r, nv, depth - 1, consts)}};
}
static MPred genBool(Rng &r, unsigned nv, unsigned depth, const std::vector<uint64_t> &consts) {
    unsigned c = r.below(depth ? 12 : 6);
    if (c < 6) {
        if (nv > 0 && r.chance(12)) return MPred{DISTINCT_VARS, 0, {leaf(VAR_REFERENCE, r.below(nv)), leaf(VAR_REFERENCE, r.below(nv))}};
        return MPred{(int)(GREATER_THAN + r.below(5)), 0, {genNum(r, nv, depth ? depth - 1 : 0, consts), genNum(r, nv, depth ? depth - 1 : 0, consts)}};
    }
    if (c < 8) return MPred{NOT, 0, {genBool(r, nv, depth - 1, consts)}};
    MPred p{c < 10 ? AND : OR, 0, {}};
    for (unsigned k = r.below(4); k--;) p.ch.push_back(genBool(r, nv, depth - 1, consts));
    return p;
}
static std::vector<uint64_t> constsOf(const MTrace &t) { std::vector<uint64_t> c; for (auto &p : t.points) for (auto &v : p.vars) { if (v.fmt != 4) { c.push_back(v.u); c.push_back(v.u + 1); } if (v.has) c.push_back(v.bs); } return c; }
static void caseC07(Rng &r) {
    GenOpt o; o.canonical = true; o.floats_nice = r.chance(85); o.maxpoints = 2; MTrace t = genTrace(r, o);
    for (auto &p : t.points) {
        if (p.vars.empty()) continue;
        TracePoint tp = mkPoint(p); auto cs = constsOf(t);
        for (int k = 0; k < 6; k++) {
            unsigned nv = 1 + r.below(3); std::vector<uint32_t> bind; std::vector<MVar> vs;
            for (unsigned i = 0; i < nv; i++) { bind.push_back(r.below(p.vars.size())); vs.push_back(p.vars[bind.back()]); }
            MPred mp = genBool(r, nv, r.below(5), cs); bool e;
            try { e = evalBool(mp, vs); } catch (Reject &) { continue; }
            bool g = tp.satisfiesPredicate(mkPred(mp), bind);
            std::string d = show(mp); for (auto &v : vs) d += " " + show(v);
            SAY(d << " -> " << g);
            CHECK(g == e, "predicate " << d << " evaluated to " << g << ", expected " << e);
            CHECK(EvaluatePredicate(mkPred(mp), [&] { FlyweightTraceVarInfos f; for (auto &v : vs) f.push_back(mkVar(v)); return f; }())() == e, "direct evaluation of " << d << " expected " << e);
        }
    }
}
// ---------------------------------------------------------------- queries
struct Q { std::vector<std::vector<uint32_t> > fv; MPred hard; std::vector<MPred> soft; uint32_t seed; uint64_t mask, stmt; };
static std::string show(const Q &q) { std::ostringstream o; o << "free="; for (auto &f : q.fv) { o << "["; for (auto x : f) o << x << ","; o << "]"; } o << " hard=" << show(q.hard) << " soft="; for (auto &s : q.soft) o << show(s); o << " seed=" << q.seed << " mask=" << q.mask << " stmt=" << q.stmt; return o.str(); }
static Q genQuery(Rng &r, const MTrace &t, bool soft, bool seed) {
    Q q; unsigned nf = r.below(4); q.hard = leaf(NULL_PREDICATE, 0); auto cs = constsOf(t);
    for (unsigned i = 0; i < nf; i++) { std::vector<uint32_t> a; unsigned na = r.below(t.types.size() + 2); for (unsigned k = 0; k < na; k++) a.push_back(r.below(t.types.size() + 1)); if (r.chance(40)) { a.clear(); for (unsigned k = 0; k < t.types.size(); k++) a.push_back(k); } q.fv.push_back(a); }
    if (nf && r.chance(75)) q.hard = genBool(r, nf, r.below(3), cs);
    if (soft) for (unsigned k = 1 + r.below(4); k--;) q.soft.push_back(nf ? genBool(r, nf, r.below(3), cs) : MPred{r.chance(50) ? AND : OR, 0, {}});
    q.seed = seed ? 1 + r.below(r.chance(50) ? 20 : 0xfffffffe) : 0; q.mask = q.stmt = 0;
    if (r.chance(60)) { q.mask = r.chance(40) ? UINT64_MAX : r.value(); q.stmt = t.points.empty() ? r.value() : t.points[r.below(t.points.size())].statement & q.mask; if (r.chance(10)) q.stmt = r.value(); }
    return q;
}
struct QRes { size_t point; std::vector<uint32_t> bind; unsigned soft; };
// enumerated per selected point; soft filter not applied
static std::vector<QRes> oracle(const MTrace &t, const Q &q, std::vector<size_t> &sel) {
    std::vector<QRes> out; size_t total = 0;
    for (size_t i = 0; i < t.points.size(); i++) {
        const MPoint &p = t.points[i];
        if ((p.statement & q.mask) != q.stmt) continue;
        sel.push_back(i);
        std::vector<uint32_t> b(q.fv.size());
        std::function<void(size_t)> rec = [&](size_t k) {
            if (k == q.fv.size()) {
                if (++total > 1500) throw Reject();
                std::vector<MVar> vs; for (auto x : b) vs.push_back(p.vars[x]);
                if (!evalBool(q.hard, vs)) return;
                unsigned s = 0; for (auto &sp : q.soft) s += evalBool(sp, vs);
                out.push_back(QRes{i, b, s}); return;
            }
            for (uint32_t v = 0; v < p.vars.size(); v++) if (std::find(q.fv[k].begin(), q.fv[k].end(), p.vars[v].type) != q.fv[k].end()) { b[k] = v; rec(k + 1); }
        };
        rec(0);
    }
    return out;
}
static FreeVariables mkFree(const Q &q) { FreeVariables f; for (auto &a : q.fv) f.push_back(FreeVariable(a)); return f; }
static Predicates mkSoft(const Q &q) { Predicates f; for (auto &a : q.soft) f.push_back(mkPred(a)); return f; }
static TracePoints runQ(const Trace &t, const Q &q) { return t.query(mkFree(q), mkPred(q.hard), mkSoft(q), q.seed, q.mask, q.stmt); }
static bool varMatches(const TraceVarInfo &v, const MVar &m) { try { cmpVar(v, m, ""); return true; } catch (Fail &) { return false; } }
static std::string resKey(const MPoint &p, const std::vector<uint32_t> &b) { std::ostringstream o; for (auto x : b) o << show(p.vars[x]); return o.str(); }
static MVar fromInfo(const TraceVarInfo &v) { MVar m; m.name = v.getNameIndex(); m.type = v.getTypeIndex(); m.fmt = v.getTypeFormat(); m.size = v.getSize(); m.u = v.getTypeFormat() == BLOB ? 0 : v.getValue().u; if (m.fmt == 4) m.blob.assign((uint8_t *)v.getValue().ptr, (uint8_t *)v.getValue().ptr + m.size); m.bs = v.getBufferSize(); m.has = v.hasBufferSize(); return m; }
static std::string resKey(const TracePoint &p) { std::ostringstream o; for (auto &v : p.getVars()) { o << show(fromInfo(v.get())); } return o.str(); }
// expected list (already filtered) against actual: points in order, bindings per point as multisets
static void cmpResults(const MTrace &t, const std::vector<QRes> &e, const TracePoints &g, const std::string &w) {
    CHECK(e.size() == g.size(), w << ": " << g.size() << " results, expected " << e.size());
    size_t i = 0;
    while (i < e.size()) {
        size_t j = i; std::multiset<std::string> a, b; const MPoint &p = t.points[e[i].point];
        while (j < e.size() && e[j].point == e[i].point) {
            CHECK(g[j].getStatement() == p.statement, w << ": result " << j << " statement " << g[j].getStatement() << " expected " << p.statement);
            CHECK(g[j].getCounter() == p.counter, w << ": result " << j << " counter " << g[j].getCounter() << " expected " << p.counter);
            a.insert(resKey(p, e[j].bind)); b.insert(resKey(g[j])); j++;
        }
        CHECK(a == b, w << ": bindings at point " << e[i].point << " differ");
        i = j;
    }
}
static c_predicate *mkC(const MPred &p, c_predicate *at, Rng &r) {
    if (!at) at = (c_predicate *)malloc(sizeof(c_predicate));
    memset(at, 0, sizeof *at); at->kind = (predicate_kind)p.kind;
    bool leafk = p.kind == VAR_REFERENCE || p.kind == SIGNED_VALUE || p.kind == UNSIGNED_VALUE || p.kind == FLOAT_VALUE;
    uint64_t junk = r.next(); at->var_index = junk; at->unsigned_value = junk + 1; at->signed_value = junk + 2; at->float_value = 1e9 + (double)(junk & 0xffff);
    if (leafk) { if (p.kind == VAR_REFERENCE) at->var_index = p.data; if (p.kind == UNSIGNED_VALUE) at->unsigned_value = p.data; if (p.kind == SIGNED_VALUE) at->signed_value = (int64_t)p.data; if (p.kind == FLOAT_VALUE) at->float_value = asD(p.data); }
    else if (!p.ch.empty()) { at->n_children = p.ch.size(); at->children = (c_predicate *)malloc(sizeof(c_predicate) * p.ch.size()); for (size_t i = 0; i < p.ch.size(); i++) mkC(p.ch[i], at->children + i, r); }
    return at;
}
// null operands are inserted here and there: they have to be dropped
static MPred addNulls(const MPred &p, Rng &r) { MPred q{p.kind, p.data, {}}; for (auto &c : p.ch) { if (r.chance(15)) q.ch.push_back(leaf(NULL_PREDICATE, 0)); q.ch.push_back(addNulls(c, r)); } if (!p.ch.empty() && r.chance(15)) q.ch.push_back(leaf(NULL_PREDICATE, 0)); return q; }
struct CQ { std::vector<c_free_variable> fv; c_predicate *hard; std::vector<c_predicate *> soft; };
static CQ mkCQ(const Q &q, Rng &r, bool nulls) {
    CQ c; c.hard = NULL;
    for (auto &f : q.fv) { c_free_variable v; v.n_allowed_types = f.size(); v.allowed_types = (uint32_t *)malloc(f.size() * 4); if (!f.empty()) memcpy(v.allowed_types, f.data(), f.size() * 4); c.fv.push_back(v); }
    if (!(q.hard.kind == NULL_PREDICATE && r.chance(50))) c.hard = mkC(nulls ? addNulls(q.hard, r) : q.hard, NULL, r);
    for (auto &s : q.soft) c.soft.push_back(mkC(nulls ? addNulls(s, r) : s, NULL, r));
    return c;
}
static void freeCQ(CQ &c) { for (auto &f : c.fv) free(f.allowed_types); free_c_predicate(c.hard); for (auto s : c.soft) free_c_predicate(s); }
static void cQuery(void *db, uint64_t idx, CQ &c, const Q &q, bool keep, c_trace_point_struct *&out, uint64_t &n) {
    out = (c_trace_point_struct *)1; n = 999999;
    query_trace(db, idx, c.fv.data(), c.fv.size(), c.hard, (const c_predicate **)c.soft.data(), c.soft.size(), q.seed, keep, q.mask, q.stmt, &out, &n);
}
static void cmpC(const MTrace &t, const c_trace_point_struct &c, const MPoint &p, const std::vector<uint32_t> *bind, const std::string &w) {
    CHECK(c.statement == p.statement, w << " statement");
    size_t nv = bind ? bind->size() : p.vars.size();
    CHECK(c.n_vars == nv, w << " n_vars " << c.n_vars << " expected " << nv);
    CHECK(c.n_aux == p.aux.size(), w << " n_aux");
    for (size_t i = 0; i < p.aux.size(); i++) CHECK(c.aux[i] == p.aux[i], w << " aux " << i);
    for (size_t i = 0; i < nv; i++) {
        const MVar &m = p.vars[bind ? (*bind)[i] : i]; const c_trace_var_info_struct &v = c.vars[i];
        CHECK(v.var_name_index == m.name && (uint32_t)v.format == m.fmt && v.size == m.size && v.buffer_size == m.bs && v.has_buffer_size == m.has, w << " var " << i << " differs from " << show(m));
        CHECK(v.type_name_index == t.types[m.type].name, w << " var " << i << " type name index " << v.type_name_index << " expected " << t.types[m.type].name);
        if (m.fmt == 4) CHECK(m.blob.empty() || !memcmp(v.value.ptr, m.blob.data(), m.blob.size()), w << " blob of var " << i);
        else CHECK(v.value.u == m.u, w << " value of var " << i);
    }
}
static std::vector<QRes> softFilter(const std::vector<QRes> &e, const Q &q) {
    if (q.soft.empty()) return e;
    std::map<size_t, unsigned> best; for (auto &x : e) best[x.point] = std::max(best[x.point], x.soft);
    std::vector<QRes> o; for (auto &x : e) if (x.soft == best[x.point]) o.push_back(x); return o;
}
static TraceDB *dbWith(const MTrace &t) { TraceDB *db = (TraceDB *)create_db(); db->addTrace(mkTrace(t)); return db; }
static void caseC05(Rng &r) {
    GenOpt o; o.canonical = true; o.floats_nice = true; MTrace t = genTrace(r, o); SAY(show(t));
    Trace tr = mkTrace(t); TraceDB *db = dbWith(t);
    for (int k = 0; k < 4; k++) {
        Q q = genQuery(r, t, false, false); SAY(show(q)); std::vector<size_t> sel; std::vector<QRes> e;
        try { e = oracle(t, q, sel); } catch (Reject &) { continue; }
        if (!e.empty()) distinct_nontrivial++;
        cmpResults(t, e, runQ(tr, q), "Trace::query " + show(q));
        cmpResults(t, e, db->query(0, mkFree(q), mkPred(q.hard), Predicates(), 0, q.mask, q.stmt), "TraceDB::query " + show(q));
        if (r.chance(50)) {
            CQ c = mkCQ(q, r, false); c_trace_point_struct *out; uint64_t n; cQuery(db, 0, c, q, true, out, n);
            CHECK(n == e.size(), "query_trace gave " << n << " results, expected " << e.size() << " " << show(q));
            free_trace_points(n ? out : NULL, n); freeCQ(c);
        }
    }
    free_db(db);
}
static void caseC06(Rng &r) {
    GenOpt o; o.canonical = true; o.floats_nice = true; MTrace t = genTrace(r, o); SAY(show(t)); Trace tr = mkTrace(t);
    for (int k = 0; k < 4; k++) {
        bool sd = r.chance(50), sf = !sd || r.chance(50);
        Q q = genQuery(r, t, sf, false); SAY(show(q)); std::vector<size_t> sel; std::vector<QRes> e;
        try { e = oracle(t, q, sel); } catch (Reject &) { continue; }
        Q hq = q; hq.soft.clear(); TracePoints hard = runQ(tr, hq), got = runQ(tr, q);
        std::vector<QRes> es = softFilter(e, q);
        if (es.size() != e.size()) distinct_nontrivial++;
        cmpResults(t, e, hard, "hard part of " + show(q)); cmpResults(t, es, got, "soft query " + show(q));
        size_t j = 0; for (size_t i = 0; i < hard.size() && j < got.size(); i++) if (hard[i].getCounter() == got[j].getCounter() && resKey(hard[i]) == resKey(got[j])) j++;
        CHECK(j == got.size(), "soft filtering changed the order: " << show(q));
        if (sd) {
            q.seed = 1 + r.below(r.chance(50) ? 50 : 0xfffffffe); TracePoints g = runQ(tr, q), g2 = runQ(tr, q); Trace fresh = mkTrace(t); TracePoints g3 = runQ(fresh, q);
            CHECK(g == g2 && g == g3, "same seed gave different results: " << show(q));
            if (sel.empty()) { CHECK(g.empty(), "seeded query on no points gave results"); continue; }
            bool some = false;
            for (size_t pt : sel) { std::vector<QRes> one; for (auto &x : es) if (x.point == pt) one.push_back(x); try { cmpResults(t, one, g, ""); some = true; break; } catch (Fail &) {} }
            CHECK(some, "seeded query does not return the results of one selected point: " << g.size() << " results " << show(q));
        }
    }
}
// hash collision between an unsigned and a signed literal (inverts boost's 64-bit mixing; skipped when it does not apply)
static uint64_t invMul(uint64_t m) { uint64_t x = m; for (int i = 0; i < 6; i++) x *= 2 - m * x; return x; }
static bool collide(uint64_t d1, uint64_t &d2, int k1, int k2) {
    const uint64_t m = 0xc6a4a7935bd1e995ull, im = invMul(m);
    std::size_t s1 = 0, s2 = 0; boost::hash_combine(s1, (predicate_kind)k1); boost::hash_combine(s2, (predicate_kind)k2);
    auto mix = [&](uint64_t k) { k *= m; k ^= k >> 47; return k * m; };
    uint64_t want = (s1 ^ mix(d1)) ^ s2; want *= im; want ^= want >> 47; want *= im; d2 = want;
    return mkPred(leaf(k1, d1)).getHash() == mkPred(leaf(k2, d2)).getHash();
}
static void caseC08(Rng &r) {
    GenOpt o; o.canonical = true; o.floats_nice = true; o.maxpoints = 4; o.maxvars = 4;
    MTrace t[2] = {genTrace(r, o), genTrace(r, o)}; SAY(show(t[0]) << show(t[1])); Trace tr[2] = {mkTrace(t[0]), mkTrace(t[1])};
    std::vector<Q> hist; std::vector<int> which;
    for (int k = 0; k < 12; k++) {
        int w = r.below(2); Q q;
        if (!hist.empty() && r.chance(50)) {              // variation of an earlier query
            size_t h = r.below(hist.size()); q = hist[h]; w = r.chance(70) ? which[h] : w;
            switch (r.below(5)) {
            case 0: q.mask = r.chance(50) ? 0 : UINT64_MAX; break;
            case 1: q.stmt = t[w].points.empty() ? 0 : t[w].points[r.below(t[w].points.size())].statement & q.mask; break;
            case 2: if (q.fv.size()) q.fv[r.below(q.fv.size())].push_back(r.below(5)); break;
            case 3: { std::function<bool(MPred &)> f = [&](MPred &p) { uint64_t d2; if ((p.kind == UNSIGNED_VALUE || p.kind == SIGNED_VALUE) && collide(p.data, d2, p.kind, p.kind == UNSIGNED_VALUE ? SIGNED_VALUE : UNSIGNED_VALUE)) { p.kind = p.kind == UNSIGNED_VALUE ? SIGNED_VALUE : UNSIGNED_VALUE; p.data = d2; return true; } for (auto &c : p.ch) if (f(c)) return true; return false; }; f(q.hard); break; }
            }
        } else q = genQuery(r, t[w], r.chance(30), r.chance(20));
        hist.push_back(q); which.push_back(w); SAY(w << " " << show(q));
        std::vector<size_t> sel; std::vector<QRes> e;
        try { e = oracle(t[w], q, sel); } catch (Reject &) { continue; }
        if (e.size()) distinct_nontrivial++;
        TracePoints g = runQ(tr[w], q); std::vector<QRes> es = softFilter(e, q);
        if (q.seed) { Trace fresh(tr[w]); CHECK(g == runQ(fresh, q), "seeded query depends on history: " << show(q)); }
        else cmpResults(t[w], es, g, "query after " + std::to_string(k) + " earlier queries: " + show(q));
        cmpTrace(tr[w], t[w], "trace after query");
    }
}
static void caseC09(Rng &r) {
    GenOpt o; o.canonical = true; o.floats_nice = true; o.fewnames = 2; o.maxpoints = 8; MTrace t = genTrace(r, o);
    if (r.chance(60) && !t.points.empty()) for (auto &p : t.points) if (r.chance(50)) { uint64_t c = p.counter; MPoint q = t.points[r.below(t.points.size())]; q.counter = c; if (r.chance(30)) q.statement ^= 1; p = q; }
    SAY(show(t)); TraceDB *db = dbWith(t);
    for (int k = 0; k < 3; k++) {
        Q q = genQuery(r, t, r.chance(20), r.chance(10)); SAY(show(q)); std::vector<size_t> sel;
        try { if (oracle(t, q, sel).size() > 3000) continue; } catch (Reject &) { continue; }
        CQ c = mkCQ(q, r, false); c_trace_point_struct *a, *b; uint64_t na, nb; cQuery(db, 0, c, q, true, a, na); cQuery(db, 0, c, q, false, b, nb);
        TracePoints full = runQ(db->getTraces()[0], q);
        CHECK(full.size() == na, "keeping duplicates: " << na << " results, query gave " << full.size());
        std::vector<size_t> keep; std::set<std::string> seen;
        for (size_t i = 0; i < full.size(); i++) { std::ostringstream o2; o2 << full[i].getStatement(); for (auto &v : full[i].getVars()) o2 << "/" << v.get().getNameIndex() << ":" << v.get().getTypeIndex(); if (seen.insert(o2.str()).second) keep.push_back(i); }
        if (keep.size() != full.size()) distinct_nontrivial++;
        CHECK(nb == keep.size(), "duplicate removal left " << nb << " of " << na << ", expected " << keep.size() << " " << show(q));
        auto same = [&](const c_trace_point_struct &x, const TracePoint &y) { if (x.statement != y.getStatement() || x.n_vars != y.getVars().size()) return false; for (size_t i = 0; i < x.n_vars; i++) { const TraceVarInfo &v = y.getVars()[i].get(); if (x.vars[i].value.u != v.getValue().u || x.vars[i].var_name_index != v.getNameIndex() || x.vars[i].buffer_size != v.getBufferSize() || x.vars[i].has_buffer_size != v.hasBufferSize() || x.vars[i].size != v.getSize()) return false; } if (x.n_aux != y.getAux().size()) return false; for (size_t i = 0; i < x.n_aux; i++) if (x.aux[i] != y.getAux()[i]) return false; return true; };
        for (size_t i = 0; i < na; i++) CHECK(same(a[i], full[i]), "kept results differ at " << i);
        for (size_t i = 0; i < nb; i++) CHECK(same(b[i], full[keep[i]]), "deduplicated result " << i << " is not the first with its bindings");
        free_trace_points(na ? a : NULL, na); free_trace_points(nb ? b : NULL, nb); freeCQ(c);
    }
    free_db(db);
#ifdef DIRECT
    {   // lists with different numbers of variables
        TracePoints ps = mkPoints(t); TracePoints d = deduplicate_results(ps); std::set<std::string> seen; size_t j = 0;
        for (auto &p : ps) { std::ostringstream o2; o2 << p.getStatement(); for (auto &v : p.getVars()) o2 << "/" << v.get().getNameIndex() << ":" << v.get().getTypeIndex(); if (seen.insert(o2.str()).second) { CHECK(j < d.size() && d[j] == p, "deduplicated list differs at " << j); j++; } }
        CHECK(j == d.size(), "deduplicated list has extra results");
    }
#endif
}
// ---------------------------------------------------------------- C10
static void caseC10(Rng &r) {
    GenOpt o; o.canonical = true; o.maxpoints = 3; MTrace t = genTrace(r, o);
    auto irr = [](bool lt, const char *w) { CHECK(!lt, w << " < is not irreflexive"); };
    std::vector<MVar> vs; for (auto &p : t.points) for (auto &v : p.vars) vs.push_back(v);
    if (vs.empty()) { MVar v; v.name = v.type = 0; v.fmt = 0; v.size = 4; v.u = 5; v.bs = 0; v.has = 0; vs.push_back(v); }
    for (int k = 0; k < 8; k++) {
        MVar a = vs[r.below(vs.size())], b = a;
        switch (r.below(9)) {
        case 0: break; case 1: b.name ^= 1ull << r.below(32); break; case 2: b.type ^= 1ull << r.below(32); break;
        case 3: if (a.fmt != 4) { b.fmt = r.below(4); } break; case 4: b.bs ^= 1ull << r.below(64); break; case 5: b.has ^= 1 << r.below(8); break;
        case 6: if (a.fmt == 4) { if (a.blob.size()) b.blob[r.below(a.blob.size())] ^= 1 << r.below(8); } else b.u ^= 1ull << r.below(64); break;
        case 7: if (a.fmt == 4) { b.blob.push_back(0); b.size++; } else { static const uint32_t w[] = {1, 2, 4, 8}; b.size = w[r.below(4)]; } break;
        case 8: b = vs[r.below(vs.size())]; break;
        }
        TraceVarInfo x(mkValue(a), a.name, a.type, (type_format)a.fmt, a.size, a.bs, a.has), y(mkValue(b), b.name, b.type, (type_format)b.fmt, b.size, b.bs, b.has);
        SAY(show(a) << " vs " << show(b)); bool e = sameVar(a, b); if (!e) distinct_nontrivial++;
        CHECK((x == y) == e && (y == x) == e, "variables " << show(a) << " and " << show(b) << " compare " << (x == y));
        CHECK(x == x, "variable not equal to itself " << show(a));
        if (e) CHECK(hash_value(x) == hash_value(y) && std::hash<TraceVarInfo>()(x) == std::hash<TraceVarInfo>()(y), "equal variables with different hashes " << show(a) << show(b));
        irr(x < x, "variable"); CHECK(!(x < y && y < x), "< is not asymmetric on variables " << show(a) << show(b));
        TraceVarInfo cp(x); CHECK(cp == x && hash_value(cp) == hash_value(x), "copy of a variable differs");
        FlyweightTraceVarInfo fx(x), fy(y); CHECK((fx == fy) == e, "shared variables substituted " << show(a) << show(b)); cmpVar(fx.get(), a.fmt == 4 ? a : fromInfo(fx.get()), "stored");
        if (!e) { CHECK(sameVar(fromInfo(fy.get()), b), "shared storage replaced " << show(b)); }
    }
    {   TraceBufferSize a(r.value(), r.value()), b(r.chance(50) ? a.getAddress() : r.value(), r.chance(50) ? a.getSize() : r.value());
        bool e = a.getAddress() == b.getAddress() && a.getSize() == b.getSize(); CHECK((a == b) == e, "buffer size equality"); if (e) CHECK(hash_value(a) == hash_value(b), "buffer size hash"); irr(a < a, "buffer size"); CHECK(!(a < b && b < a), "buffer size order asymmetric"); if (!e) CHECK(a < b || b < a, "buffer size order total"); }
    {   TypeDescription a(r.below(3), (type_format)r.below(5), r.below(3)), b(r.below(3), r.chance(50) ? a.getTypeFormat() : (type_format)r.below(5), r.below(3));
        bool e = a.getNameIndex() == b.getNameIndex() && a.getTypeFormat() == b.getTypeFormat() && a.getSize() == b.getSize(); CHECK((a == b) == e, "type equality"); if (e) CHECK(hash_value(a) == hash_value(b), "type hash"); irr(a < a, "type"); CHECK(!(a < b && b < a), "type order asymmetric"); if (!e) CHECK(a < b || b < a, "type order total"); }
    if (!t.points.empty()) {
        MPoint a = t.points[r.below(t.points.size())], b = a; bool e = true;
        switch (r.below(7)) { case 0: break; case 1: b.counter ^= 1ull << r.below(64); e = false; break; case 2: b.statement ^= 1ull << r.below(64); e = false; break;
        case 3: if (!b.vars.empty()) { if (r.chance(50)) b.vars.pop_back(); else b.vars[r.below(b.vars.size())].bs ^= 1ull << r.below(64); e = false; } break;
        case 4: b.aux.push_back(1); if (b.aux.size() > 1 && r.chance(50)) { b.aux.pop_back(); b.aux[r.below(b.aux.size())] ^= 1ull << r.below(64); } e = false; break;
        case 5: if (!b.sizes.empty()) { if (r.chance(50)) b.sizes[r.below(b.sizes.size())].second ^= 1; else b.sizes.pop_back(); e = false; } break;
        case 6: if (b.vars.size() > 1) { std::swap(b.vars[0], b.vars.back()); e = sameVar(b.vars[0], b.vars.back()); } break; }
        TracePoint x = mkPoint(a), y = mkPoint(b);
        CHECK((x == y) == e, "points compare " << (x == y) << ", expected " << e); CHECK((x.getData().get() == y.getData().get()) == (e || (a.vars.size() == b.vars.size() && a.aux == b.aux && a.sizes == b.sizes && std::equal(a.vars.begin(), a.vars.end(), b.vars.begin(), sameVar))), "point data equality");
        if (e) CHECK(hash_value(x) == hash_value(y) && hash_value(x.getData().get()) == hash_value(y.getData().get()), "equal points with different hashes"); irr(x < x, "point"); CHECK(!(x < y && y < x), "point order asymmetric"); irr(x.getData().get() < x.getData().get(), "data");
        TracePoint c(x); CHECK(c == x && hash_value(c) == hash_value(x), "copied point differs");
    }
    {   MTrace b = t; bool e = true;
        switch (r.below(5)) { case 0: break; case 1: b.names.push_back("x"); e = false; break; case 2: if (!b.types.empty()) { b.types[0].size ^= 1; e = false; } break; case 3: if (!b.points.empty()) { b.points.pop_back(); e = false; } break; case 4: if (!b.names.empty()) { b.names.back() += "y"; e = false; } break; }
        Trace x = mkTrace(t), y = mkTrace(b); CHECK((x == y) == e, "traces compare " << (x == y) << ", expected " << e); if (e) CHECK(hash_value(x) == hash_value(y), "equal traces, different hashes"); Trace c(x); CHECK(c == x, "copied trace differs"); }
    for (int k = 0; k < 4; k++) {
        auto cs = constsOf(t); MPred a = genBool(r, 2, 2, cs), b = a; bool e = true;
        std::function<void(MPred &)> mut = [&](MPred &p) { if (p.ch.empty() || r.chance(30)) { switch (r.below(3)) { case 0: if (p.ch.empty()) { p.data ^= 1ull << r.below(64); e = false; } break; case 1: p.kind = p.kind == AND ? OR : p.kind == ADD ? SUBTRACT : p.kind == UNSIGNED_VALUE ? SIGNED_VALUE : p.kind == LESS_THAN ? EQUAL : AND; e = false; break; case 2: p.ch.push_back(leaf(UNSIGNED_VALUE, 1)); e = false; break; } } else mut(p.ch[r.below(p.ch.size())]); };
        if (r.chance(75)) mut(b); e = show(a) == show(b);
        std::function<bool(const MPred &, const MPred &)> eq = [&](const MPred &x, const MPred &y) { if (x.kind != y.kind || x.ch.size() != y.ch.size()) return false; if (x.ch.empty() && x.data != y.data) return false; for (size_t i = 0; i < x.ch.size(); i++) if (!eq(x.ch[i], y.ch[i])) return false; return true; };
        e = eq(a, b); if (a.ch.empty() != b.ch.empty()) e = false;
        Predicate x = mkPred(a), y = mkPred(b); CHECK((x == y) == e, "predicates " << show(a) << " and " << show(b) << " compare " << (x == y)); if (e) CHECK(hash_value(x) == hash_value(y) && x.getHash() == y.getHash(), "equal predicates, different hashes"); Predicate c(x); CHECK(c == x && c.getHash() == x.getHash(), "copied predicate differs");
        uint64_t d2, d1 = r.value(); if (collide(d1, d2, UNSIGNED_VALUE, SIGNED_VALUE)) CHECK(!(mkPred(leaf(UNSIGNED_VALUE, d1)) == mkPred(leaf(SIGNED_VALUE, d2))), "different literals compare equal");
        FlyweightTraceVarInfos f1, f2; f1.push_back(mkVar(vs[0])); f2.push_back(mkVar(vs[r.below(vs.size())])); EvaluatePredicate p1(x, f1), p2(x, f2), p3(y, f1);
        CHECK((p1 == p2) == sameVar(fromInfo(f1[0].get()), fromInfo(f2[0].get())), "evaluation keys ignore variables"); CHECK((p1 == p3) == e, "evaluation keys ignore the predicate"); if (p1 == p2) CHECK(p1.getHash() == p2.getHash(), "equal evaluation keys, different hashes");
        FreeVariable v1(std::vector<uint32_t>{(uint32_t)r.below(2), (uint32_t)r.below(2)}), v2(std::vector<uint32_t>{(uint32_t)r.below(2), (uint32_t)r.below(2)}); CHECK((v1 == v2) == (v1.getAllowedTypes() == v2.getAllowedTypes()), "free variable equality"); if (v1 == v2) CHECK(v1.getHash() == v2.getHash() && hash_value(v1) == hash_value(v2), "free variable hash");
    }
}
// ---------------------------------------------------------------- C11
static void caseC11(Rng &r) {
    GenOpt o; o.canonical = r.chance(50); o.fixed_blob = true; o.odd_sizes = r.chance(30); std::vector<MTrace> ts; TraceDB *db = (TraceDB *)create_db();
    for (unsigned n = r.below(4); n--;) { MTrace t = genTrace(r, o); for (auto &s : t.names) for (auto &c : s) if (c == 0) c = 1; if (r.chance(30)) for (auto &p : t.points) { p.counter = r.value(); for (auto &v : p.vars) { v.has = r.next(); v.bs = r.value(); } } ts.push_back(t); db->addTrace(mkTrace(t)); SAY(show(t)); }
    char *txt = serialize_trace_db(db); TraceDB *b = (TraceDB *)deserialize_trace_db(txt);
    CHECK(n_traces(b) == ts.size(), "restored " << n_traces(b) << " traces, expected " << ts.size());
    for (size_t i = 0; i < ts.size(); i++) { cmpTrace(*(const Trace *)get_trace(b, i), ts[i], "restored trace " + std::to_string(i)); cmpTrace(*(const Trace *)get_trace(db, i), ts[i], "original trace"); }
    CHECK(*db == *b, "restored database compares unequal");
    char *again = serialize_trace_db(b); CHECK(!strcmp(again, txt), "serialising the restored database gives different text"); free(again);
    free(txt); free_db(db); free_db(b);
}
// ---------------------------------------------------------------- C12
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/allocator_interface.h>
static std::atomic<bool> tracking; static void *live[1 << 16]; static size_t nlive;
static void mhook(const volatile void *p, size_t) { if (tracking && nlive < (1 << 16)) live[nlive++] = (void *)p; }
static void fhook(const volatile void *p) { if (tracking) for (size_t i = nlive; i-- > 0;) if (live[i] == p) { live[i] = live[--nlive]; break; } }
static void startTrack() { static bool in; if (!in) { __sanitizer_install_malloc_and_free_hooks(mhook, fhook); in = true; } nlive = 0; tracking = true; }
static size_t stopTrack() { tracking = false; return nlive; }
static size_t blockSize(const void *p) { return __sanitizer_get_allocated_size(p); }
#else
static void startTrack() {} static size_t stopTrack() { return 0; } static size_t blockSize(const void *) { return SIZE_MAX; }
#endif
static void caseC12(Rng &r) {
    GenOpt o; o.canonical = r.chance(50); o.fixed_blob = true; o.floats_nice = true; MTrace t = genTrace(r, o); SAY(show(t)); TraceDB *db = dbWith(t);
    const void *tp = get_trace(db, 0);
    CHECK(trace_size(tp) == t.points.size() && n_types(tp) == t.types.size() && n_names(tp) == t.names.size(), "counts differ");
    startTrack();
    const char **ty = get_types(tp), **nm = get_names(tp);
    for (size_t i = 0; i < t.types.size(); i++) CHECK(t.names[t.types[i].name] == ty[i], "type name " << i << " is " << ty[i]);
    for (size_t i = 0; i < t.names.size(); i++) CHECK(t.names[i] == nm[i], "name " << i);
    CHECK(t.types.empty() || blockSize(ty) >= t.types.size() * sizeof(char *), "type name array too small"); CHECK(t.names.empty() || blockSize(nm) >= t.names.size() * sizeof(char *), "name array too small");
    free(ty); free(nm);
    size_t left = stopTrack(); CHECK(left == 0, left << " blocks left after releasing names and types");
    startTrack();
    c_trace_point_struct *ps = get_points(tp);
    if (t.points.size()) CHECK(ps && blockSize(ps) >= t.points.size() * sizeof(c_trace_point_struct), "point array too small");
    for (size_t i = 0; i < t.points.size(); i++) { cmpC(t, ps[i], t.points[i], NULL, "point " + std::to_string(i)); CHECK(t.points[i].vars.empty() || blockSize(ps[i].vars) >= ps[i].n_vars * sizeof(c_trace_var_info_struct), "variable array too small"); CHECK(t.points[i].aux.empty() || blockSize(ps[i].aux) >= ps[i].n_aux * 8, "aux array too small"); }
    // the copies do not alias one another
    for (size_t i = 0; i < t.points.size(); i++) for (size_t j = i + 1; j < t.points.size(); j++) CHECK((!ps[i].n_vars || ps[i].vars != ps[j].vars) && (!ps[i].n_aux || ps[i].aux != ps[j].aux), "points share a block");
    free_trace_points(ps, t.points.size());
    left = stopTrack(); CHECK(left == 0, left << " blocks left after free_trace_points");
    Q q = genQuery(r, t, false, false); std::vector<size_t> sel;
    try {
        std::vector<QRes> e = oracle(t, q, sel); if (e.size() < 2000) {
            CQ c = mkCQ(q, r, false); c_trace_point_struct *out; uint64_t n; cQuery(db, 0, c, q, true, out, n); TracePoints full = runQ(*(const Trace *)tp, q);
            CHECK(n == full.size(), "result count " << n);
            for (size_t i = 0; i < n; i++) { const MPoint &p = t.points.at(full[i].getCounter()); MPoint m = p; m.vars.clear(); for (auto &v : full[i].getVars()) m.vars.push_back(fromInfo(v.get())); cmpC(t, out[i], m, NULL, "result " + std::to_string(i)); }
            startTrack(); size_t before = 0; (void)before; stopTrack();
            free_trace_points(n ? out : NULL, n); freeCQ(c); } } catch (Reject &) {}
    free_db(db);
}
// ---------------------------------------------------------------- C13
static Bytes fileBytes(Rng &r, MTrace &t, bool &good, const std::string &tag = "") {
    GenOpt o; o.odd_sizes = true; o.fixed_blob = true; t = genTrace(r, o); if (!tag.empty()) t.names.push_back(tag); Bytes b = encode(t); good = true;
    if (r.chance(40)) { good = false; switch (r.below(3)) { case 0: { Bytes h; encodeHeader(h, t); b.resize(r.below(h.size())); break; } case 1: put(b, 5 + r.below(200), 1); break; case 2: put(b, 3, 1); put(b, 1, r.below(15)); break; } if (b.empty()) b.push_back(0); }
    return b;
}
static void caseC13(Rng &r) {
    TraceDB *db = (TraceDB *)create_db(); std::vector<MTrace> want; std::string fn = scratch + "/c13";
    for (int k = 1 + r.below(6); k--;) {
        MTrace t; bool good; Bytes b = fileBytes(r, t, good); int miss = r.below(10); uint64_t mp = 0;
        if (good && r.chance(30)) { mp = 1 + r.below(4); if (t.points.size() > mp) t.points.resize(mp); }
        { std::ofstream f(fn.c_str(), std::ios::binary); f << str(b); } if (miss == 0) { unlink(fn.c_str()); good = false; }
        int rc = add_trace(db, fn.c_str(), 1, mp); SAY("file " << show(b) << " good=" << good << " -> " << rc);
        if (b.size() == 0) good = false;
        CHECK(rc == (good ? 1 : 0), "add_trace returned " << rc << " on a " << (good ? "good" : "bad") << " file " << show(b) << (miss ? "" : " (missing)"));
        if (good) want.push_back(t);
        CHECK(n_traces(db) == want.size(), "database has " << n_traces(db) << " traces, expected " << want.size());
        for (size_t i = 0; i < want.size(); i++) cmpTrace(*(const Trace *)get_trace(db, i), want[i], "trace " + std::to_string(i));
    }
    unlink(fn.c_str());
    if (r.chance(25)) {                                    // concurrent additions
        unsigned nt = 4, per = 6; std::vector<std::vector<MTrace> > ts(nt); std::vector<std::vector<bool> > gs(nt); std::atomic<int> badrc(0);
        size_t total = want.size();
        for (unsigned a = 0; a < nt; a++) for (unsigned k = 0; k < per; k++) { MTrace t; bool g; Bytes b = fileBytes(r, t, g, "u" + std::to_string(a) + "_" + std::to_string(k)); ts[a].push_back(t); gs[a].push_back(g); total += g; std::ofstream f((scratch + "/t" + std::to_string(a) + "_" + std::to_string(k)).c_str(), std::ios::binary); f << str(b); }
        std::vector<std::thread> th; for (unsigned a = 0; a < nt; a++) th.emplace_back([&, a] { for (unsigned k = 0; k < per; k++) { std::string f = scratch + "/t" + std::to_string(a) + "_" + std::to_string(k); int rc = add_trace(db, f.c_str(), 2, 0); if (rc != (gs[a][k] ? 1 : 0)) badrc++; unlink(f.c_str()); } });
        for (auto &x : th) x.join();
        CHECK(badrc == 0, "concurrent add_trace gave a wrong result"); CHECK(n_traces(db) == total, "concurrent adds: " << n_traces(db) << " traces, expected " << total);
        for (size_t i = 0; i < want.size(); i++) cmpTrace(*(const Trace *)get_trace(db, i), want[i], "earlier trace");
        std::vector<bool> used(total); for (unsigned a = 0; a < nt; a++) { size_t pos = want.size(); for (unsigned k = 0; k < per; k++) if (gs[a][k]) { bool f = false; for (; pos < total && !f; pos++) if (!used[pos]) try { cmpTrace(*(const Trace *)get_trace(db, pos), ts[a][k], ""); used[pos] = f = true; } catch (Fail &) {} CHECK(f, "a trace added by thread " << a << " is missing, damaged or out of order"); } }
    }
    free_db(db);
}
// ---------------------------------------------------------------- C14 (calls made from the code under test are wrapped)
struct Sys { int mode; int nopen, nclosed, fd; int selret; long tv; bool tvnull, selcalled; long polltv; bool nonblock_open; } S;
extern "C" {
#ifdef WRAP
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_close(int); int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...);
static int wopen(const char *p, int fl) {
    if (!S.mode) return __real_open(p, fl, 0600);
    S.nopen++; if (S.mode == 2) { errno = EMFILE; return -1; }
    int fd = __real_open(p, fl, 0600); if (fd < 0) return fd;
    if (S.mode == 3) { int h = dup2(fd, FD_SETSIZE + 3); __real_close(fd); fd = h; }
    if (S.mode == 7) { int h = dup2(fd, FD_SETSIZE); __real_close(fd); fd = h; }
    if (S.mode == 8) { int h = dup2(fd, FD_SETSIZE - 1); __real_close(fd); fd = h; }
    if (S.mode == 9) { int h = dup2(fd, 0); __real_close(fd); fd = h; }
    S.fd = fd; S.nonblock_open = fl & O_NONBLOCK; return fd;
}
int __wrap_open(const char *p, int fl, ...) { return wopen(p, fl); }
int __wrap_open64(const char *p, int fl, ...) { return wopen(p, fl); }
int __wrap_close(int fd) { if (S.mode && fd == S.fd) S.nclosed++; return __real_close(fd); }
int __wrap_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *tv) {
    if (!S.mode) return __real_select(n, a, b, c, tv);
    S.selcalled = true; S.tvnull = tv == NULL; S.tv = tv ? tv->tv_sec * 1000000 + tv->tv_usec : -1;
    if (S.mode == 4) { errno = EINTR; return -1; } if (S.mode == 5) return 0;
    if (S.mode == 6 || S.mode == 1 || S.mode == 8 || S.mode == 9) return 1; return __real_select(n, a, b, c, tv);
}
#endif
}
// is fd still open on the file `name`? (the sanitizer's own thread may reuse the number)
static bool openOn(int fd, const std::string &name) { struct stat a, b; return fd >= 0 && !fstat(fd, &a) && !stat(name.c_str(), &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev; }
static void caseC14(Rng &r, uint64_t idx) {
#ifdef WRAP
    typedef boost::iostreams::stream_buffer<boost::iostreams::file_descriptor_source> SB;
    std::string fn = scratch + "/c14"; MTrace t; GenOpt o; t = genTrace(r, o); Bytes b = encode(t); { std::ofstream f(fn.c_str(), std::ios::binary); f << str(b); }
    unsigned kind = idx % 16; uint64_t to = r.chance(30) ? 0 : r.chance(50) ? 1 + r.below(5) : 1 + r.below(100000);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur < FD_SETSIZE + 16) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, FD_SETSIZE + 64); setrlimit(RLIMIT_NOFILE, &rl); }
    S = Sys(); S.fd = -1; std::string name = fn; bool expectOk = true; bool fifo = false; std::thread writer; int hold = -1;
    switch (kind) {
    case 0: case 1: case 2: S.mode = 1; break;
    case 3: S.mode = 1; name = scratch + "/no-such-file"; expectOk = false; break;
    case 4: S.mode = 2; expectOk = false; break;
    case 5: case 6: S.mode = 4; expectOk = false; break;
    case 7: case 8: S.mode = 5; expectOk = false; break;
    case 9: if (rl.rlim_cur < FD_SETSIZE + 16) return; S.mode = 3; expectOk = false; break;
    case 10: if (rl.rlim_cur < FD_SETSIZE + 16) return; S.mode = 7; expectOk = false; break;
    case 11: if (rl.rlim_cur < FD_SETSIZE + 16) return; S.mode = 8; break;
    case 12: S.mode = 1; name = scratch; expectOk = true; break;    // a directory opens; reading it fails later
    case 13: { if (idx % 64 != 13) return; S.mode = 10; fifo = true; to = 1; expectOk = false; break; }      // FIFO without data
    case 14: { if (idx % 64 != 14) return; S.mode = 10; fifo = true; to = 3; expectOk = true; break; }       // FIFO with data after a while
    case 15: S.mode = 6; break;
    }
    std::string ff = scratch + "/fifo";
    if (fifo) { unlink(ff.c_str()); if (mkfifo(ff.c_str(), 0600)) return; name = ff; if (expectOk) { writer = std::thread([ff, b] { usleep(200000); int m = __real_open(ff.c_str(), O_WRONLY, 0); size_t z = write(m, b.data(), b.size()); (void)z; __real_close(m); }); } else hold = __real_open(ff.c_str(), O_RDWR, 0); }
    SAY("kind=" << kind << " mode=" << S.mode << " timeout=" << to << " expect " << (expectOk ? "stream" : "error"));
    auto t0 = std::chrono::steady_clock::now(); SB *sb = NULL; bool threw = false;
    try { sb = openWithTimeout(name.c_str(), to); } catch (TraceError &) { threw = true; } catch (std::exception &e) { threw = true; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    int mode = S.mode; S.mode = 0; Sys s = S;
    if (writer.joinable()) {}
    CHECK(threw == !expectOk, "open (scenario " << kind << ") " << (threw ? "failed" : "returned a stream") << ", expected " << (expectOk ? "a stream" : "an error"));
    if (threw) CHECK(!openOn(s.fd, name), "descriptor left open after an error (scenario " << kind << ")");
    if (s.fd >= 0) CHECK(s.nclosed <= 1, "descriptor closed " << s.nclosed << " times");
    if (s.selcalled && s.fd >= 0) { if (to == 0) CHECK(s.tvnull, "zero timeout must wait without limit"); else CHECK(!s.tvnull && s.tv == (long)to * 1000000, "timeout of " << to << " s was passed as " << s.tv << " us"); }
    if (mode == 4 || mode == 5) CHECK(s.fd < 0 || s.nclosed == 1, "descriptor not closed once after select failed");
    if (fifo && !expectOk) CHECK(dt < 4.0, "waited " << dt << " s for a 1 s timeout");
    if (sb) {
        CHECK(openOn(s.fd, name), "returned stream has a closed descriptor");
        CHECK(!(fcntl(s.fd, F_GETFL) & O_NONBLOCK), "blocking mode not restored");
        if (kind != 12) { std::istream is(sb); std::string got((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); CHECK(got == str(b), "stream content differs from the file"); }
        delete sb; CHECK(!openOn(s.fd, name), "deleting the stream leaves the descriptor open");
    }
    if (writer.joinable()) writer.join(); if (hold >= 0) __real_close(hold); unlink(ff.c_str());
    if (kind == 3) { CHECK(read_trace(name.c_str(), to, 0) == NULL, "read_trace of a missing file"); void *db = create_db(); CHECK(add_trace(db, name.c_str(), to, 0) == 0, "add_trace of a missing file"); free_db(db); }
    unlink(fn.c_str());
#else
    (void)r; (void)idx;
#endif
}
// ---------------------------------------------------------------- C15
static void caseC15(Rng &r) {
    unsigned nn = 1 + r.below(5); std::vector<std::string> names; std::vector<char *> cn; for (unsigned i = 0; i < nn; i++) { std::string s; for (unsigned k = r.below(5); k--;) s.push_back(1 + r.below(255)); names.push_back(s); cn.push_back(strdup(s.c_str())); }
    if (r.chance(5)) nn = 0;
    TraceDB *db = (TraceDB *)create_db(); unsigned pre = r.below(3); std::vector<MTrace> before; GenOpt o; for (unsigned i = 0; i < pre; i++) { before.push_back(genTrace(r, o)); db->addTrace(mkTrace(before.back())); }
    unsigned np = r.below(6); c_trace_point_struct *ps = (c_trace_point_struct *)malloc(np * sizeof *ps);
    for (unsigned i = 0; i < np; i++) {
        ps[i].statement = r.value(); ps[i].n_vars = r.chance(20) ? 0 : r.below(7); ps[i].n_aux = r.below(5); ps[i].vars = (c_trace_var_info_struct *)malloc(ps[i].n_vars * sizeof(c_trace_var_info_struct)); ps[i].aux = (uint64_t *)malloc(8 * ps[i].n_aux);
        for (unsigned k = 0; k < ps[i].n_aux; k++) ps[i].aux[k] = r.value();
        for (unsigned k = 0; k < ps[i].n_vars; k++) { auto &v = ps[i].vars[k]; memset(&v, 0, sizeof v); v.value.u = r.chance(30) ? (uint64_t)-(int64_t)(1 + r.below(9)) : r.chance(60) ? r.below(9) : r.value(); v.format = (type_format)r.below(6); v.var_name_index = r.below(6); v.type_name_index = r.chance(90) ? r.below(5) : r.value(); v.size = r.below(9); v.has_buffer_size = r.below(3); v.buffer_size = r.value(); }
    }
    int rc = add_trace_points(db, ps, np, cn.data(), nn); CHECK(rc == 1, "add_trace_points returned " << rc);
    CHECK(n_traces(db) == pre + 1, "number of traces " << n_traces(db)); for (unsigned i = 0; i < pre; i++) cmpTrace(*(const Trace *)get_trace(db, i), before[i], "earlier trace");
    const Trace &t = *(const Trace *)get_trace(db, pre);
    names.resize(nn); CHECK(t.getNames() == names, "names differ"); CHECK(t.getPoints().size() == np, "number of points");
    std::map<uint32_t, bool> neg; for (unsigned i = 0; i < np; i++) for (unsigned k = 0; k < ps[i].n_vars; k++) { bool &b = neg[ps[i].vars[k].type_name_index]; b |= ps[i].vars[k].value.s < 0; }
    CHECK(t.getTypes().size() == neg.size(), "number of types " << t.getTypes().size() << " expected " << neg.size());
    for (auto &ty : t.getTypes()) { CHECK(neg.count(ty.getNameIndex()), "type for an unused name"); CHECK((ty.getTypeFormat() == SIGNED) == neg[ty.getNameIndex()] && (ty.getTypeFormat() == SIGNED || ty.getTypeFormat() == UNSIGNED), "type " << ty.getNameIndex() << " format " << ty.getTypeFormat() << ", negative value seen: " << neg[ty.getNameIndex()]); }
    for (unsigned i = 0; i < np; i++) {
        const TracePoint &p = t.getPoints()[i]; CHECK(p.getStatement() == ps[i].statement && p.getVars().size() == ps[i].n_vars && p.getAux().size() == ps[i].n_aux, "point " << i << " statement or counts"); CHECK(p.getBufferSizes().empty(), "buffer sizes");
        for (unsigned k = 0; k < ps[i].n_aux; k++) CHECK(p.getAux()[k] == ps[i].aux[k], "aux value");
        for (unsigned k = 0; k < ps[i].n_vars; k++) { const TraceVarInfo &v = p.getVars()[k].get(); auto &c = ps[i].vars[k]; CHECK(v.getValue().u == c.value.u, "point " << i << " var " << k << " value " << v.getValue().u << " expected " << c.value.u); CHECK(v.getNameIndex() == c.var_name_index && v.getBufferSize() == c.buffer_size && v.hasBufferSize() == c.has_buffer_size, "point " << i << " var " << k << " differs"); CHECK(v.getTypeIndex() < t.getTypes().size() && t.getTypes()[v.getTypeIndex()].getNameIndex() == c.type_name_index, "type of point " << i << " var " << k); CHECK(v.getTypeFormat() == t.getTypes()[v.getTypeIndex()].getTypeFormat() && v.getSize() == t.getTypes()[v.getTypeIndex()].getSize(), "format/size of var"); }
    }
    for (unsigned i = 0; i < np; i++) { free(ps[i].vars); free(ps[i].aux); } free(ps); for (auto c : cn) free(c); free_db(db);
}
// ---------------------------------------------------------------- C16: compare a file written by the injected runtime
static void caseC16(const char *model, const char *file) {
    // model file: text lines produced by the generator (see harness/c16.py)
    std::ifstream m(model); MTrace t; std::string k; size_t n;
    auto hex = [](const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(strtoul(s.substr(i, 2).c_str(), 0, 16)); return b; };
    m >> k >> n; for (size_t i = 0; i < n; i++) { std::string s; m >> s; Bytes b = hex(s.substr(1)); t.names.push_back(str(b)); }
    m >> k >> n; for (size_t i = 0; i < n; i++) { MType ty; m >> ty.name >> ty.fmt >> ty.size; t.types.push_back(ty); }
    AllocOracle ao; m >> k >> n;
    for (size_t i = 0; i < n; i++) {
        MPoint p; p.counter = i; size_t ne; m >> p.statement >> ne;
        for (size_t j = 0; j < ne; j++) { std::string kind; m >> kind; if (kind == "B") { uint64_t a, s; m >> a >> s; ao.update(a, s); p.sizes.push_back({a, s}); } else { MVar v; std::string val; m >> v.name >> v.type >> val; v.fmt = t.types[v.type].fmt; v.bs = 0; v.has = 0; v.u = 0; Bytes b = hex(val.substr(1)); if (v.fmt == 4) { v.blob = b; v.size = b.size(); } else { v.size = t.types[v.type].size; uint64_t u = 0; for (size_t z = 0; z < b.size(); z++) u |= (uint64_t)b[z] << (8 * z); v.u = widen(u, v.fmt, v.size); uint64_t s; if (v.fmt == 3 && ao.size(v.u, s)) { v.bs = s; v.has = 1; } } p.vars.push_back(v); } }
        t.points.push_back(p);
    }
    CHECK((bool)m, "bad model file");
    std::ifstream f(file, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); Bytes b(s.begin(), s.end());
    ExactBuf sb(b); std::istream is(&sb); std::unique_ptr<Trace> tr;
    try { tr.reset(new Trace(is)); } catch (std::exception &e) { FAIL("the reader rejects the runtime's output: " << e.what() << " bytes=" << show(b)); }
    cmpTrace(*tr, t, "decoded runtime output");
}
// ---------------------------------------------------------------- C17
#ifdef DIRECT
static void cmpPred(const Predicate &p, const MPred &m, const std::string &w) {
    CHECK((int)p.getKind() == m.kind, w << " kind " << p.getKind() << " expected " << m.kind); CHECK(p.getChildren().size() == m.ch.size(), w << " has " << p.getChildren().size() << " operands, expected " << m.ch.size());
    if (m.kind == VAR_REFERENCE || m.kind == SIGNED_VALUE || m.kind == UNSIGNED_VALUE || m.kind == FLOAT_VALUE) CHECK(p.getData().unsigned_value == m.data, w << " literal " << p.getData().unsigned_value << " expected " << m.data);
    for (size_t i = 0; i < m.ch.size(); i++) cmpPred(p.getChildren()[i], m.ch[i], w + "." + std::to_string(i));
}
#endif
static void caseC17(Rng &r) {
    GenOpt o; o.canonical = true; o.floats_nice = true; o.maxpoints = 3; MTrace t = genTrace(r, o); SAY(show(t)); TraceDB *db = dbWith(t);
    for (int k = 0; k < 4; k++) {
        Q q = genQuery(r, t, r.chance(50), false); SAY(show(q)); std::vector<size_t> sel; std::vector<QRes> e;
        CQ c = mkCQ(q, r, true);
#ifdef DIRECT
        cmpPred(create_predicate_obj(c.hard), q.hard, "predicate " + show(q.hard)); for (size_t i = 0; i < q.soft.size(); i++) cmpPred(create_predicate_obj(c.soft[i]), q.soft[i], "predicate " + show(q.soft[i]));
        for (size_t i = 0; i < q.fv.size(); i++) CHECK(create_free_variable_obj(c.fv[i]).getAllowedTypes() == q.fv[i], "allowed types of free variable " << i);
        CHECK(create_predicate_obj(NULL).getKind() == NULL_PREDICATE, "null predicate");
#endif
        bool rej = false; try { e = softFilter(oracle(t, q, sel), q); } catch (Reject &) { rej = true; }
        if (!rej) {
            c_trace_point_struct *out; uint64_t n; cQuery(db, 0, c, q, true, out, n); CHECK(n == e.size(), "query_trace gave " << n << " results, expected " << e.size() << " for " << show(q));
            std::multiset<std::string> a, b; for (auto &x : e) { std::ostringstream w; const MPoint &p = t.points[x.point]; w << p.statement; for (auto i : x.bind) w << "," << p.vars[i].name << "," << p.vars[i].u * (p.vars[i].fmt != 4); a.insert(w.str()); } for (uint64_t i = 0; i < n; i++) { std::ostringstream w; w << out[i].statement; for (unsigned j = 0; j < out[i].n_vars; j++) w << "," << out[i].vars[j].var_name_index << "," << out[i].vars[j].value.u * (out[i].vars[j].format != BLOB); b.insert(w.str()); }
            CHECK(a == b, "query_trace results differ for " << show(q)); free_trace_points(n ? out : NULL, n);
        }
        freeCQ(c);
        startTrack(); c_predicate *cp = mkC(addNulls(genBool(r, 2, 3, constsOf(t)), r), NULL, r); free_c_predicate(cp); size_t left = 0;
        left = stopTrack();
        // the model tree built inside the window is temporary; only malloc'ed operand arrays may remain
        (void)left; CHECK(left == 0, left << " blocks left after free_c_predicate");
    }
    free_c_predicate(NULL); free_db(db);
}
// ----------------------------------------------------------------
static void onAlarm(int) { static const char m[] = "FAIL the operation did not finish within the time limit\n"; if (write(1, m, sizeof m - 1)) {} _exit(3); }
int main(int argc, char **argv) {
    std::string prop = argv[1];
    if (prop == "C16") { try { caseC16(argv[2], argv[3]); } catch (Fail &f) { std::cout << "FAIL " << f.m << std::endl; return 3; } return 0; }
    uint64_t seed = strtoull(argv[2], 0, 10), from = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10); double secs = atof(argv[6]);
    int fd = ::creat(argv[7], 0600); ::close(fd); fd = ::open(argv[7], O_RDWR); if (ftruncate(fd, 32)) return 4; progress = (volatile uint64_t *)mmap(0, 32, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    scratch = argv[8]; verbose = argc > 9; signal(SIGPROF, onAlarm); signal(SIGALRM, onAlarm); signal(SIGPIPE, SIG_IGN);
    auto t0 = std::chrono::steady_clock::now(); uint64_t done = 0; unsigned pn = atoi(argv[1] + 1);
    for (uint64_t i = from; done < count; i += stride) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        progress[0] = i; progress[1] = done; progress[2] = distinct_nontrivial;
        struct itimerval it = {{0, 0}, {60, 0}}; setitimer(ITIMER_PROF, &it, NULL); alarm(120);
        Rng r(seed, pn, i);
        try {
            switch (pn) { case 1: caseC01(r); break; case 2: caseC02(r); break; case 3: caseC03(r); break; case 4: caseC04(r); break; case 5: caseC05(r); break; case 6: caseC06(r); break; case 7: caseC07(r); break; case 8: caseC08(r); break; case 9: caseC09(r); break; case 10: caseC10(r); break; case 11: caseC11(r); break; case 12: caseC12(r); break; case 13: caseC13(r); break; case 14: caseC14(r, i); break; case 15: caseC15(r); break; case 17: caseC17(r); break; default: return 5; }
        } catch (Fail &f) { std::cout << "FAIL " << f.m << std::endl; return 3; }
        catch (std::exception &e) { std::cout << "FAIL unexpected exception " << e.what() << std::endl; return 3; }
        done++;
    }
    progress[1] = done; progress[2] = distinct_nontrivial;
    std::cout << "OK cases=" << done << " nontrivial=" << distinct_nontrivial << std::endl; std::cout.flush(); _exit(0);
}
