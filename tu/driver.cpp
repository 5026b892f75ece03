// Translation unit handed to the verifier: the real sources, plus nothing but
// references that make clang emit the inline members that the two .cpp files do
// not happen to use.  No logic of its own.
#include <sstream>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include "trace.cpp"
#include "trace-db.cpp"

extern "C" void vc_refs(std::istream &is, std::ostream &os, const Trace &t,
                        const TracePoint &p, const TracePointData &d,
                        const TraceVarInfo &v, const TypeDescription &td,
                        const TraceBufferSize &b, const TraceDB &db,
                        const Predicate &pr, const FreeVariable &fv,
                        const EvaluatePredicate &ep, MemoryMap &m,
                        const Names &n, const TypeDescriptions &types,
                        size_t *out)
{
    os << t; os << p; os << v; os << td; os << b;
    Trace t1(is); Trace t2(is, 3); Trace t3(t);
    TracePoint p1(is, n, types); TracePoint p2(is, n, types, m);
    TracePoint p3(is, 1, n, types, m);
    TraceVarInfo v1(is, n, types); TraceVarInfo v2(is, n, types, m);
    TypeDescription td1(is); TypeDescription td2(is, n);
    TraceBufferSize b1(is);
    out[0] = (t == t) + (p == p) + (d == d) + (v == v) + (td == td) + (b == b)
           + (db == db) + (pr == pr) + (fv == fv) + (ep == ep);
    out[1] = hash_value(t) + hash_value(p) + hash_value(d) + hash_value(v)
           + hash_value(td) + hash_value(b) + hash_value(db) + hash_value(pr)
           + hash_value(fv) + hash_value(ep);
    out[2] = (p < p) + (d < d) + (v < v) + (td < td) + (b < b);
    m.clear(); m.updateMemoryMap(b); out[3] = m.computeBufferSize(1);
}
