"""C15: in-memory trace points are stored as given."""
import re
import z3
import theory as T
import lib as L
import maps as M
import query as Q
import sysio as S
import decode as D
from base import *
from sx import UNDEF, IntPtr
from props.c12 import PS, FA, heap_start

CLAIMS = ('for every array of points and names, add_trace_points hands addTrace, once, a trace whose names are the given texts and whose points have, in order, the given '
          'statement, auxiliary values and variables (value, name, buffer size, flag); every variable refers to a type with its own type name, and takes its format and size; '
          'a type is signed exactly when some variable of that type is negative')
ASSUMPTIONS = ['the arrays have the advertised lengths and the names are terminated strings; fewer than 2^32 names, 2^31 points, 2^31 variables or auxiliary values per point and 2^31 types',
               'std::map / std::unordered_map iterate over each present key once', 'memory allocation succeeds (an exception leaves the database unchanged: addTrace is the last call)',
               'addTrace appends its argument (C13)']
ntext = z3.Function('text_at', Int, T.StrSort)
negP = z3.Function('negative_before_point', Int, Int, Bool)
negV = z3.Function('negative_before_variable', Int, Int, Int, Bool)
RX_MAP = r'^std::(?:unordered_)?map<unsigned int, type_format, .*? > ?>::(?=~?\w+\(|operator)'


def _key(ex, st, p):
    v = ex.load(st, ir_i32, p)
    return v


from ir import Ty
ir_i32 = Ty('int', 32)
FM = M.MapKind('formats', RX_MAP, Int, Int, _key, lambda t: t, lambda ex, st, v: v, lambda: iv(0), keyval=lambda k: k, enum=True)


def task_add(ctx, r):
    ex = ctx.exec(FM.axioms)
    ex.lib.handlers[:0] = M.handlers(FM) + M.handlers(Q.STMTMAP) + M.iters() + [
        (re.compile(r'^string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$'), str_ctor),
        (re.compile(r'^string::~basic_string\(\)$'), lambda ex, st, a, d: L.one(st)),
        (re.compile(r'^vec<.*>::shrink_to_fit\(\)$'), lambda ex, st, a, d: L.one(st))]
    ps = PS(ctx, ex)
    f = ctx.find(r'^add_trace_points$')
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    heap_start(ex, st)
    R, n, Rn, nn = z3.Ints('points n_points names n_names')
    i, j, k, t, x = z3.Ints('i j k t x')
    al, bs = ex.alive(st), ex.bsize(st)
    for m in ps.pf:
        ex.hmap(st, ps.kp[m])
    for m in ps.vf:
        ex.hmap(st, ps.kv[m])
    ex.hmap(st, 'i64')
    ex.hmap(st, 'ptr')
    st0 = st.copy()
    P = lambda m, q: ps.P(st0, m, R, q)
    V = lambda m, q, u: ps.V(st0, m, P('vars', q), u)
    A = lambda q, u: ps.A(st0, P('aux', q), u)
    neg = lambda q, u: V('value', q, u) >= 2 ** 63
    tn = lambda q, u: V('type_name_index', q, u)
    nv, na = (lambda q: P('n_vars', q)), (lambda q: P('n_aux', q))
    blk = lambda ref, size: z3.And(ref > 0, z3.Select(al, ref), z3.Select(bs, ref) >= size)
    rng = {'statement': 64, 'n_vars': 31, 'n_aux': 31, 'vars': 63, 'aux': 63}
    st.assume(n >= 0, n < 2 ** 31, nn >= 0, nn < 2 ** 32, z3.Or(n == 0, blk(R, ps.psz * n)), z3.Or(nn == 0, blk(Rn, 8 * nn)), R >= 0, Rn >= 0)
    for m, w in rng.items():
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(P(m, i) >= 0, P(m, i) < 2 ** w)), patterns=[P(m, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Or(nv(i) == 0, blk(P('vars', i), ps.vsz * nv(i))), z3.Or(na(i) == 0, blk(P('aux', i), 8 * na(i))))),
                        patterns=[P('vars', i), P('aux', i)]))
    for m, w in {'value': 64, 'var_name_index': 32, 'type_name_index': 32, 'buffer_size': 64, 'has_buffer_size': 8}.items():
        st.assume(z3.ForAll([i, j], z3.And(V(m, i, j) >= 0, V(m, i, j) < 2 ** w), patterns=[V(m, i, j)]))
    st.assume(z3.ForAll([i, j], z3.And(A(i, j) >= 0, A(i, j) < 2 ** 64), patterns=[A(i, j)]))
    nameptr = lambda q: z3.Select(z3.Select(ex.hmap(st0, 'ptr'), Rn), q)
    st.assume(z3.ForAll([k], z3.Not(negP(0, k)), patterns=[negP(0, k)]), z3.ForAll([i, k], z3.Not(negV(i, 0, k)), patterns=[negV(i, 0, k)]),
              z3.ForAll([i, k], z3.Implies(i >= 0, negP(i + 1, k) == z3.Or(negP(i, k), negV(i, nv(i), k))), patterns=[z3.MultiPattern(negP(i, k), mark(i))]),
              z3.ForAll([i, j, k], z3.Implies(j >= 0, negV(i, j + 1, k) == z3.Or(negV(i, j, k), z3.And(tn(i, j) == k, neg(i, j)))),
                        patterns=[z3.MultiPattern(negV(i, j, k), mark(j))]),
              z3.ForAll([i, j], z3.Implies(j >= 0, negV(i, j + 1, tn(i, j)) == z3.Or(negV(i, j, tn(i, j)), neg(i, j))),
                        patterns=[z3.MultiPattern(tn(i, j), mark(j))]))
    ex.extra_bounds = [('n_points', n), ('n_names', nn)]
    ty, va = T.TD.acc, T.TVI.acc
    TPDv = lambda p: T.TPD.acc['vars'](T.TP.acc['data'](p))
    TPDa = lambda p: T.TPD.acc['aux'](T.TP.acc['data'](p))

    def hetero(k_, I=None):
        """variables met so far"""
        return z3.And(i >= 0, i < k_, j >= 0, j < nv(i)) if I is None else z3.And(i >= 0, j >= 0, z3.Or(z3.And(i < I, j < nv(i)), z3.And(i == I, j < k_)))

    def map_inv(m, k_, I=None):
        negk = negP(k_, k) if I is None else z3.Or(negP(I, k), negV(I, k_, k))
        d, v = lambda q: z3.Select(m.dom, q), lambda q: z3.Select(m.val, q)
        yield 'the type of every variable so far is known', FA([i, j], z3.Implies(hetero(k_, I), d(tn(i, j))), tn(i, j))
        yield 'types of negative variables so far are signed', FA([i, j], z3.Implies(z3.And(hetero(k_, I), neg(i, j)), v(tn(i, j)) == 1), tn(i, j))
        yield 'signed types have a negative variable', FA([k], z3.Implies(z3.And(d(k), v(k) == 1), negk), v(k))
        yield 'types are signed or unsigned', FA([k], z3.Implies(d(k), z3.And(v(k) >= 0, v(k) <= 1)), v(k))
        yield 'names of types are 32-bit', FA([k], z3.Implies(d(k), z3.And(k >= 0, k < 2 ** 32)), d(k))

    def type_inv(ts, m, k_):
        e = T.STD.at(ts, i)
        nk = FM.nth(m.dom, i)
        yield 'one type per name so far', T.STD.len(ts) == k_
        yield 'types are as recorded', FA([i], z3.Implies(z3.And(i >= 0, i < k_), z3.And(ty['name'](e) == nk, ty['format'](e) == z3.Select(m.val, nk), ty['size'](e) == 8)), e, nk)

    def var_ok(v, ts, q, u):
        e = T.STD.at(ts, va['type'](v))
        return z3.And(va['value'](v) == V('value', q, u), va['name'](v) == V('var_name_index', q, u), va['bufsz'](v) == V('buffer_size', q, u),
                      va['has'](v) == V('has_buffer_size', q, u), va['type'](v) >= 0, va['type'](v) < T.STD.len(ts), ty['name'](e) == tn(q, u),
                      va['format'](v) == ty['format'](e), va['size'](v) == ty['size'](e), va['size'](v) == 8, z3.Implies(neg(q, u), va['format'](v) == 1))

    def pts_inv(pv, ts, k_):
        p = T.STP.at(pv, i)
        yield 'one point per point', T.STP.len(pv) == k_
        yield 'statements', FA([i], z3.Implies(z3.And(i >= 0, i < k_), T.TP.acc['stmt'](p) == P('statement', i)), p)
        yield 'numbers of values', FA([i], z3.Implies(z3.And(i >= 0, i < k_), z3.And(T.STVI.len(TPDv(p)) == nv(i), T.SU64.len(TPDa(p)) == na(i))), p)
        yield 'auxiliary values', FA([i, t], z3.Implies(z3.And(i >= 0, i < k_, t >= 0, t < na(i)), T.SU64.at(TPDa(p), t) == A(i, t)), T.SU64.at(TPDa(p), t))
        yield 'variables', FA([i, t], z3.Implies(z3.And(i >= 0, i < k_, t >= 0, t < nv(i)), var_ok(T.STVI.at(TPDv(p), t), ts, i, t)), T.STVI.at(TPDv(p), t))

    def find(s, pred):
        return [(o, v) for o, v in s.mem.items() if pred(v)]

    def vec(kind):
        return lambda v: isinstance(v, VecV) and v.kind is kind
    ismap = lambda v: isinstance(v, AbsV) and v.tag == 'map' and v.d['mk'] is FM

    def both(gen, L_, s, k, nm, *a):
        return dict(gen(*a))[nm]

    def ls(ex, L_, st0_, leaves):
        mods = [o for o in L_.mod if isinstance(o, Obj)]
        I = L_.parent.k if L_.parent is not None else None
        for o, v in find(st0_, ismap):
            if o in mods:
                for nm, _ in map_inv(v, iv(0), I):
                    yield (nm, lambda L_, s, k_, o=o, nm=nm: dict(map_inv(s.mem[o], k_, I))[nm])
        for o, v in find(st0_, vec(T.KSTR)):
            if o in mods:
                yield ('one name per name', lambda L_, s, k_, o=o: T.SSTR.len(s.mem[o].t) == k_)
                yield ('names so far', lambda L_, s, k_, o=o: FA([i], z3.Implies(z3.And(i >= 0, i < k_), T.SSTR.at(s.mem[o].t, i) == ntext(nameptr(i))), T.SSTR.at(s.mem[o].t, i)))
        for mo, mv in find(st0_, ismap):
            if mo not in mods:
                yield ('types bounded', lambda L_, s, k_, m=mv: k_ <= FM.size(m.dom))
        for o, v in find(st0_, vec(T.KTD)):
            if o in mods:
                for mo, mv in find(st0_, ismap):
                    for nm, _ in type_inv(v.t, mv, iv(0)):
                        yield (nm, lambda L_, s, k_, o=o, mo=mo, nm=nm: dict(type_inv(s.mem[o].t, s.mem[mo], k_))[nm])
            else:
                for po, pv in find(st0_, vec(T.KTP)):
                    if po in mods:
                        for nm, _ in pts_inv(pv.t, v.t, iv(0)):
                            yield (nm, lambda L_, s, k_, po=po, o=o, nm=nm: dict(pts_inv(s.mem[po].t, s.mem[o].t, k_))[nm])
                if I is not None:
                    for vo, vv in find(st0_, vec(T.KTVI)):
                        if vo in mods:
                            yield ('one variable per variable', lambda L_, s, k_, vo=vo: T.STVI.len(s.mem[vo].t) == k_)
                            yield ('variables so far', lambda L_, s, k_, vo=vo, o=o: FA([t], z3.Implies(z3.And(t >= 0, t < k_), var_ok(
                                T.STVI.at(s.mem[vo].t, t), s.mem[o].t, I, t)), T.STVI.at(s.mem[vo].t, t)))
        if I is not None:
            for ao, av in find(st0_, vec(T.KU64)):
                if ao in mods:
                    yield ('one auxiliary value each', lambda L_, s, k_, ao=ao: T.SU64.len(s.mem[ao].t) == k_)
                    yield ('auxiliary values so far', lambda L_, s, k_, ao=ao: FA([t], z3.Implies(z3.And(t >= 0, t < k_), T.SU64.at(s.mem[ao].t, t) == A(I, t)), T.SU64.at(s.mem[ao].t, t)))
            yield ('within the variables', lambda L_, s, k_: k_ <= nv(I))
            yield ('within the auxiliary values', lambda L_, s, k_: k_ <= na(I))
            for o, path, v in leaves:
                if z3.is_expr(v) and z3.is_int(v):
                    yield ('counter within the variables', lambda L_, s, k_, o=o, path=path: ex.get(s, o, path) <= nv(I))
                    yield ('counter within the auxiliary values', lambda L_, s, k_, o=o, path=path: ex.get(s, o, path) <= na(I))
    ex.loopspecs.append(ls)

    def c_add(ex, st, args, dem):
        ex.prove(st, 'one trace is added', st.gh['added'] == 0)
        st.gh['added'] = iv(1)
        tr = args[1]
        g = lambda role: ex.read(st, Ptr(tr.obj, tr.path + (T.TR.idx[role],)))
        ns, ts, pv = g('names'), g('types'), g('points')
        if not all(isinstance(v, VecV) for v in (ns, ts, pv)):
            raise Unsupported('trace value')
        ex.prove(st, 'the trace goes to the given database', z3.BoolVal(isinstance(args[0], Ptr) and args[0].obj is dbp.obj and not args[0].path))
        ns, ts, pv = ns.t, ts.t, pv.t
        ex.prove(st, 'the names are the given names', z3.And(T.SSTR.len(ns) == nn, FA([i], z3.Implies(z3.And(i >= 0, i < nn), T.SSTR.at(ns, i) == ntext(nameptr(i))), T.SSTR.at(ns, i))))
        for nm, fm in pts_inv(pv, ts, n):
            ex.prove(st, 'stored points: ' + nm, fm)
        q = fresh('q')
        e = T.STD.at(ts, q)
        s = st.copy()
        s.assume(q >= 0, q < T.STD.len(ts))
        ex.prove(s, 'a type is signed only if a variable of it is negative, else unsigned', z3.Or(ty['format'](e) == 0, z3.And(ty['format'](e) == 1, negP(n, ty['name'](e)))))
        return L.one(st)
    ex.contracts += [(re.compile(r'^TraceDB::addTrace\(Trace const&\)$'), c_add), (re.compile(r'^Trace::~Trace\(\)$'), lambda ex, st, a, d: L.one(st))] + D.mm_contracts()
    st.gh['added'] = iv(0)
    dbp = ex.new_obj(st, 'db', None, UNDEF)
    outs = ex.run(f, [dbp, HP(R, iv(0), ps.p), n, HP(Rn, iv(0), Ty('ptr')), nn], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'adding returns normally', z3.BoolVal(False))
            continue
        v = z3.If(o.val, iv(1), iv(0)) if z3.is_bool(o.val) else o.val
        ex.prove(o.st, 'success is reported after adding the trace', z3.And(v == 1, o.st.gh['added'] == 1))
    ex.vacuity(outs[0].st, 'add_trace_points')
    r.absorb(ex)


def str_ctor(ex, st, args, dem):
    c = args[1]
    if not isinstance(c, HP):
        raise Unsupported('string from %r' % (c,))
    ex.prove(st, 'a name is built from the start of its text', c.idx == 0)
    ex.write(st, args[0], AbsV('str', t=ntext(c.ref)))
    return L.one(st)


TASKS = [('add_trace_points', task_add)]
