"""C12: the C interface hands out faithful copies, each block big enough and released once."""
import re
import z3
import theory as T
import lib as L
import query as Q
from base import *
from sx import Null as Null_, Undef
from ir import Ty
from props.c17 import free_lib

CLAIMS = ('points_to_array builds, for every trace and point list, an array whose structures equal the points, with the auxiliary '
          'values and variables of each point in blocks of their own that are large enough; free_trace_points releases exactly the '
          'blocks of such an array, each once; get_types/get_names return, entry by entry, the text of the trace\'s own strings; '
          'the counts are the lengths')
ASSUMPTIONS = ['malloc and calloc succeed (the code does not test their results)',
               'every variable refers to a type of its trace, and every type to a name (established by decoding, C01/C03)',
               'a trace has fewer than 2^32 types and names, a point fewer than 2^32 variables and auxiliary values '
               '(the fields of the C structures have that width)']
FIELDS = [('value', lambda v, ty: T.TVI.acc['value'](v)), ('format', lambda v, ty: T.TVI.acc['format'](v)),
          ('var_name_index', lambda v, ty: T.TVI.acc['name'](v)), ('type_name_index', lambda v, ty: T.TD.acc['name'](ty(v))),
          ('size', lambda v, ty: T.TVI.acc['size'](v)), ('buffer_size', lambda v, ty: T.TVI.acc['bufsz'](v)),
          ('has_buffer_size', lambda v, ty: T.TVI.acc['has'](v))]


class PS:
    """layout of the C structures"""
    def __init__(self, ctx, ex):
        self.p, self.pf = ctx.cstruct('c_trace_point_struct', statement='i64', vars='ptr', n_vars='i32', aux='ptr', n_aux='i32')
        self.v, self.vf = ctx.cstruct('c_trace_var_info_struct', value=None, format='i32', var_name_index='i32',
                                      type_name_index='i32', size='i32', buffer_size='i64', has_buffer_size='i8')
        self.psz, self.vsz = ctx.mod.sizeof(self.p), ctx.mod.sizeof(self.v)
        self.ex = ex
        self.kp = {m: ex.hkey(self.p, ex.hleaf(self.p, (i,))[1]) for m, i in self.pf.items()}
        self.kv = {m: ex.hkey(self.v, ex.hleaf(self.v, (i,))[1]) for m, i in self.vf.items()}

    def P(self, st, m, r, i):
        return z3.Select(z3.Select(self.ex.hmap(st, self.kp[m]), r), i)

    def V(self, st, m, r, i):
        return z3.Select(z3.Select(self.ex.hmap(st, self.kv[m]), r), i)

    def A(self, st, r, i):
        return z3.Select(z3.Select(self.ex.hmap(st, 'i64'), r), i)


def FA(vs, body, *pats):
    """quantified invariant; the triggers only matter (and are only legal) over plain array constants"""
    ok = [p for p in pats if not _conn(p)]
    return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)


def _conn(e):
    if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE):
        return True
    return any(_conn(c) for c in e.children())


def heap_start(ex, st):
    """every live block is below the allocation counter, null is none of them"""
    nx = st.gh['nextref'] = z3.Const('nextref!0', Int)
    b = z3.Int('b')
    al = ex.alive(st)
    ex.bsize(st)
    st.assume(nx >= 1, z3.ForAll([b], z3.Implies(z3.Select(al, b), z3.And(b > 0, b < nx)), patterns=[z3.Select(al, b)]))
    return nx


def alloc_handlers():
    def malloc(ex, st, args, dem):
        return L.one(st, ex.halloc(st, args[0]))

    def calloc(ex, st, args, dem):
        return L.one(st, ex.halloc(st, args[0] * args[1]))

    def copy(ex, st, args, dem):
        a, b, d = args
        va, vb = iterpos(ex, st, a), iterpos(ex, st, b)
        if va is None or vb is None or va[0] != vb[0] or va[1].kind is not T.KU64 or not isinstance(d, (HP, Null_)):
            raise Unsupported('std::copy %r %r %r' % (a, b, d))
        src, i, j = va[1].t, va[2], vb[2]
        n = z3.simplify(j - i)
        if isinstance(d, Null_):
            ex.prove(st, 'nothing is copied to null', n == 0)
            return L.one(st, d)
        ex.prove(st, 'std::copy stays inside the destination block', z3.Or(n == 0, z3.And(
            z3.Select(ex.alive(st), d.ref), d.idx >= 0, (d.idx + n) * 8 <= z3.Select(ex.bsize(st), d.ref))))
        ex.prove(st, 'std::copy stays inside the source', z3.And(i >= 0, i <= j, j <= T.SU64.len(src)))
        m = ex.hmap(st, 'i64')
        old, new = z3.Select(m, d.ref), fresh('copied', z3.ArraySort(Int, Int))
        t = z3.Int('t')
        st.assume(z3.ForAll([t], z3.Select(new, t) == z3.If(z3.And(t >= d.idx, t < d.idx + n), T.SU64.at(src, i + t - d.idx),
                                                            z3.Select(old, t)), patterns=[z3.Select(new, t)]))
        st.gh['H:i64'] = z3.Store(m, d.ref, new)
        return L.one(st, HP(d.ref, d.idx + n, d.ety))
    return [(re.compile(r'^malloc$'), malloc), (re.compile(r'^calloc$'), calloc), (re.compile(r'^free$'), free_lib),
            (re.compile(r'^unsigned long\* std::copy<'), copy)]


def iterpos(ex, st, a):
    """(object, vector value, position) of a vector iterator argument"""
    if isinstance(a, Ptr):
        v = None
        p = ex.canon(st, a) if hasattr(ex, 'canon') else a
        # iterator object or element pointer
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'e':
            base = Ptr(p.obj, p.path[:-1])
            v = ex.read(st, base)
            if isinstance(v, VecV):
                return ((p.obj, p.path[:-1]), v, p.path[-1][1])
    return None


def typeof(types):
    return lambda v: T.STD.at(types, T.TVI.acc['type'](v))


def wf_trace(points, types, names):
    """the shape a decoded trace has"""
    q, t = z3.Ints('q t')
    vs = T.TPD.acc['vars'](T.TP.acc['data'](T.STP.at(points, q)))
    ax = T.TPD.acc['aux'](T.TP.acc['data'](T.STP.at(points, q)))
    return [z3.ForAll([q, t], z3.Implies(z3.And(q >= 0, q < T.STP.len(points), t >= 0, t < T.STVI.len(vs)),
                                         z3.And(T.TVI.acc['type'](T.STVI.at(vs, t)) >= 0,
                                                T.TVI.acc['type'](T.STVI.at(vs, t)) < T.STD.len(types))),
                      patterns=[T.STVI.at(vs, t)]),
            z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T.STP.len(points)), z3.And(T.STVI.len(vs) < 2 ** 32, T.SU64.len(ax) < 2 ** 32)),
                      patterns=[T.STP.at(points, q)])]


def hp_locals(st):
    """distinct block references held by locals"""
    out = []
    def rec(v):
        if isinstance(v, HP):
            if not any(z3.eq(v.ref, r) for r in out):
                out.append(v.ref)
        elif isinstance(v, Agg):
            for x in v.f:
                rec(x)
    for o, v in st.mem.items():
        rec(v)
    return out


def point_inv(ps, ex, points, types, n):
    """[(name, formula builder)] for points 0..k-1 of the array at R being done"""
    P, A = T.TP.acc, T.TPD.acc
    q, t = z3.Ints('q t')
    tp = lambda q: T.STP.at(points, q)
    d = lambda q: P['data'](tp(q))
    vs, ax = lambda q: A['vars'](d(q)), lambda q: A['aux'](d(q))
    rng = lambda k, q: z3.And(q >= 0, q < k)
    out = []
    for m, want in (('statement', lambda q: P['stmt'](tp(q))), ('n_vars', lambda q: T.STVI.len(vs(q))), ('n_aux', lambda q: T.SU64.len(ax(q)))):
        out.append((m, lambda s, R, k, m=m, want=want: FA([q], z3.Implies(rng(k, q), ps.P(s, m, R, q) == want(q)), tp(q), ps.P(s, m, R, q))))
    a = lambda s, R, q: ps.P(s, 'aux', R, q)
    v = lambda s, R, q: ps.P(s, 'vars', R, q)
    for m, ref, need in (('aux', a, lambda q: 8 * T.SU64.len(ax(q))), ('vars', v, lambda q: ps.vsz * T.STVI.len(vs(q)))):
        out.append((m + ' block is live and large enough', lambda s, R, k, ref=ref, need=need: FA([q], z3.Implies(rng(k, q), z3.Or(
            z3.And(ref(s, R, q) == 0, need(q) == 0), z3.And(
                ref(s, R, q) > R, ref(s, R, q) < s.gh['nextref'], z3.Select(ex.alive(s), ref(s, R, q)),
                z3.Select(ex.bsize(s), ref(s, R, q)) >= need(q)))), tp(q), ref(s, R, q))))
    out.append(('auxiliary values', lambda s, R, k: z3.ForAll([q, t], z3.Implies(z3.And(rng(k, q), t >= 0, t < T.SU64.len(ax(q))),
               ps.A(s, a(s, R, q), t) == T.SU64.at(ax(q), t)), patterns=[T.SU64.at(ax(q), t)])))
    for m, want in FIELDS:
        out.append(('variable ' + m, lambda s, R, k, m=m, want=want: z3.ForAll([q, t], z3.Implies(
            z3.And(rng(k, q), t >= 0, t < T.STVI.len(vs(q))), ps.V(s, m, v(s, R, q), t) == want(T.STVI.at(vs(q), t), typeof(types))),
            patterns=[T.STVI.at(vs(q), t)])))
    q1, q2 = z3.Ints('q1 q2')    # two arbitrary positions
    out.append(('blocks of different points are different', lambda s, R, k: z3.Implies(
        z3.And(q1 >= 0, q1 < q2, q2 < k), z3.And(*[z3.Or(x(s, R, q1) < y(s, R, q2), x(s, R, q1) == 0, y(s, R, q2) == 0) for x in (a, v) for y in (a, v)]))))
    out.append(('the two blocks of a point are different', lambda s, R, k: FA([q], z3.Implies(rng(k, q), z3.Or(a(s, R, q) != v(s, R, q), a(s, R, q) == 0)), tp(q), a(s, R, q), v(s, R, q))))
    return out


def task_points(ctx, r):
    ex = ctx.exec()
    ex.lib.handlers += alloc_handlers()
    ps = PS(ctx, ex)
    f = ctx.find(r'^points_to_array\(')
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    points, names, types = z3.Const('points', T.STP.sort), z3.Const('names', T.SSTR.sort), z3.Const('types', T.STD.sort)
    own = z3.Const('trace_points', T.STP.sort)
    tr, ic = Q.mktrace(ctx, ex, st, own, names, types)
    pp = ex.new_obj(st, 'points', None, VecV(T.KTP, points))
    st.assume(*T.KTP.vfacts(points))
    st.assume(*wf_trace(points, types, names))
    nx0 = heap_start(ex, st)
    al0, bs0 = ex.alive(st), ex.bsize(st)
    n = T.STP.len(points)
    inv = point_inv(ps, ex, points, types, n)
    for q in z3.Ints('q1 q2'):
        st.assume(*T.TP.facts(T.STP.at(points, q)))
    ex.extra_bounds = [('points', n)]
    tp = lambda q: T.STP.at(points, q)

    def ls(ex, L_, st0, leaves):
        refs = hp_locals(st0)
        gm = {k[1] for k in L_.mod if isinstance(k, tuple) and k[0] == 'g'}
        if L_.parent is None:
            for R in refs:
                for nm, fn in inv:
                    yield ('%s [%s]' % (nm, R), lambda L_, s, k, fn=fn, R=R: fn(s, R, k))
            b = z3.Int('b')
            for k_, old in (('alive', al0), ('bsize', bs0)):
                yield (k_ + ' of the other blocks', lambda L_, s, k, k_=k_, nx=st0.gh['nextref'], o=st0.gh[k_]: FA([b], z3.Implies(
                    b < nx, z3.Select(s.gh[k_], b) == z3.Select(o, b)), z3.Select(s.gh[k_], b)))
            yield ('allocation counter grows', lambda L_, s, k, nx=st0.gh['nextref']: s.gh['nextref'] >= nx)
        else:
            K = L_.parent.k
            vs, ax = T.TPD.acc['vars'](T.TP.acc['data'](tp(K))), T.TPD.acc['aux'](T.TP.acc['data'](tp(K)))
            t = z3.Int('t')
            for R in refs:
                for m, want in FIELDS:
                    if 'H:' + ps.kv[m] in gm:
                        yield ('variable %s so far [%s]' % (m, R), lambda L_, s, k, m=m, want=want, R=R: z3.ForAll([t], z3.Implies(
                            z3.And(t >= 0, t < k), ps.V(s, m, R, t) == want(T.STVI.at(vs, t), typeof(types))), patterns=[T.STVI.at(vs, t)]))
                yield ('auxiliary values so far [%s]' % R, lambda L_, s, k, R=R: z3.ForAll([t], z3.Implies(
                    z3.And(t >= 0, t < k), ps.A(s, R, t) == T.SU64.at(ax, t)), patterns=[T.SU64.at(ax, t)]))
                for g in gm:
                    if g.startswith('H:'):
                        m0 = ex.hmap(st0, g[2:])
                        yield ('only block %s changes %s' % (R, g), lambda L_, s, k, g=g, R=R, m0=m0: z3.Store(
                            ex.hmap(s, g[2:]), R, z3.Select(m0, R)) == m0)
    ex.loopspecs.append(ls)
    outs = ex.run(f, [tr, pp], st)
    ex.curfn.append(f)
    for o in outs:
        s = o.st
        if o.kind != 'ret':
            ex.prove(s, 'points_to_array returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        if isinstance(o.val, Null_):
            ex.prove(s, 'null only for no points', n == 0)
            continue
        R = o.val.ref
        ex.prove(s, 'result is a fresh live block (or null for no points)', z3.Or(z3.And(R == 0, n == 0), z3.And(
            R >= nx0, z3.Select(ex.alive(s), R), z3.Select(ex.bsize(s), R) >= ps.psz * n, o.val.idx == 0)))
        for nm, fn in inv:
            ex.prove(s, 'result: ' + nm, fn(s, R, n))
        b = fresh('b')
        s.assume(b < nx0)
        ex.prove(s, 'blocks of others stay as they were', z3.Select(ex.alive(s), b) == z3.Select(al0, b))
        ex.prove(s, 'the trace is not changed', Q.trace_same(ex, s, tr, own, names, types))
    for o in outs:
        ex.vacuity(o.st, 'points_to_array')
    r.absorb(ex)


# ---------------------------------------------------------------- release
ownk = z3.Function('array_blocks', Int, Int, Bool)


def task_free(ctx, r):
    ex = ctx.exec()
    ex.lib.handlers += alloc_handlers()
    ps = PS(ctx, ex)
    f = ctx.find(r'^free_trace_points$')
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    heap_start(ex, st)
    R, n, b, k, j = z3.Ints('array n b k j')
    al0 = ex.alive(st)
    mv, ma = (z3.Select(ex.hmap(st, ps.kp[m]), R) for m in ('vars', 'aux'))
    v, a = lambda q: z3.Select(mv, q), lambda q: z3.Select(ma, q)
    inr = lambda q: z3.And(q >= 0, q < n)
    pat = [z3.MultiPattern(mark(k))]
    okp = lambda x: z3.Or(x == 0, z3.And(z3.Select(al0, x), x != R, x > 0))
    st.assume(n >= 0, n < 2 ** 40, z3.Or(z3.And(R == 0, n == 0), z3.And(R > 0, z3.Select(al0, R), z3.Select(ex.bsize(st), R) >= ps.psz * n)),
              z3.ForAll([b], z3.Not(ownk(0, b)), patterns=[ownk(0, b)]),
              z3.ForAll([k, b], z3.Implies(k >= 0, ownk(k + 1, b) == z3.Or(ownk(k, b), z3.And(b != 0, b == v(k)), z3.And(b != 0, b == a(k)))),
                        patterns=[z3.MultiPattern(ownk(k, b), mark(k))]),
              z3.ForAll([k], z3.Implies(inr(k), z3.And(okp(v(k)), okp(a(k)), z3.Or(v(k) == 0, z3.And(v(k) != a(k), z3.Not(ownk(k, v(k))))), z3.Or(a(k) == 0, z3.Not(ownk(k, a(k)))))),
                        patterns=[mark(k)]),
              z3.ForAll([k, b], z3.Implies(z3.And(k >= 0, k <= n, ownk(k, b)), z3.And(b != R, z3.Select(al0, b))), patterns=[ownk(k, b)]))
    ex.extra_bounds = [('n_points', n)]

    def ls(ex, L_, st0, leaves):
        yield ('released so far', lambda L_, s, k: FA([b], z3.Select(ex.alive(s), b) == z3.And(
            z3.Select(al0, b), z3.Not(ownk(k, b))), z3.Select(ex.alive(s), b)))
        q = z3.Int('q')
        for m, old in (('vars', mv), ('aux', ma)):
            def cur(s, m=m):
                return z3.Select(ex.hmap(s, ps.kp[m]), R)
            yield ('pointers still to come are intact: ' + m, lambda L_, s, k, cur=cur, old=old: FA([q], z3.Implies(
                q >= k, z3.Select(cur(s), q) == z3.Select(old, q)), z3.Select(cur(s), q)))
    ex.loopspecs.append(ls)
    f.parse()
    outs = ex.run(f, [HP(R, iv(0), ps.p), n], st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'free_trace_points returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        c = fresh('b')
        o.st.assume(z3.Or(ownk(n, c), z3.Not(ownk(n, c))))
        ex.prove(o.st, 'exactly the array and the blocks of its points are released',
                 z3.Select(ex.alive(o.st), c) == z3.And(z3.Select(al0, c), z3.Or(R == 0, c != R), z3.Not(ownk(n, c))))
    for o in outs[:2]:
        ex.vacuity(o.st, 'free_trace_points')
    r.absorb(ex)


# ---------------------------------------------------------------- counts and strings
ctext = z3.Function('ctext', T.StrSort, Int)     # pointer to the characters of the trace's own string


def strings(which):
    fn = {'types': 'get_types', 'names': 'get_names'}[which]

    def task(ctx, r):
        ex = ctx.exec()
        ex.lib.handlers += alloc_handlers()
        f = ctx.find('^%s$' % fn)
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        points, names, types = z3.Const('points', T.STP.sort), z3.Const('names', T.SSTR.sort), z3.Const('types', T.STD.sort)
        tr, ic = Q.mktrace(ctx, ex, st, points, names, types)
        nx0 = heap_start(ex, st)
        i = z3.Int('i')
        st.assume(T.STD.len(types) < 2 ** 32, T.SSTR.len(names) < 2 ** 32,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.STD.len(types)), T.TD.acc['name'](T.STD.at(types, i)) < T.SSTR.len(names)),
                            patterns=[T.STD.at(types, i)]))
        src = types if which == 'types' else names
        S = T.STD if which == 'types' else T.SSTR
        n = S.len(src)
        want = (lambda i: ctext(T.SSTR.at(names, T.TD.acc['name'](T.STD.at(types, i))))) if which == 'types' else (lambda i: ctext(T.SSTR.at(names, i)))

        def cstr(ex, st, args, dem):
            p = ex.canon(st, args[0])
            if not (isinstance(p, Ptr) and p.obj is tr.obj):
                ex.prove(st, 'text handed out belongs to the trace, not to a temporary', z3.BoolVal(False))
            t = T.STR.term(ex, st, ex.read(st, p))
            st.assume(ctext(t) > 0)
            return L.one(st, HP(ctext(t)))
        ex.lib.handlers.append((re.compile(r'(^string|basic_string<.*>)::(c_str|data)\(\) const$'), cstr))
        ex.extra_bounds = [('count', n)]

        def ls(ex, L_, st0, leaves):
            for R in hp_locals(st0):
                yield ('entries so far [%s]' % R, lambda L_, s, k, R=R: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Select(z3.Select(
                    ex.hmap(s, 'ptr'), R), i) == want(i)), patterns=[S.at(src, i)]))
        ex.loopspecs.append(ls)
        outs = ex.run(f, [tr], st)
        ex.curfn.append(f)
        for o in outs:
            if o.kind != 'ret' or not isinstance(o.val, HP):
                ex.prove(o.st, fn + ' returns an array', z3.BoolVal(False))
                continue
            r.paths += 1
            s, R = o.st, o.val.ref
            ex.prove(s, 'array is fresh, live and large enough', z3.And(R >= nx0, z3.Select(ex.alive(s), R), z3.Select(ex.bsize(s), R) >= 8 * n, o.val.idx == 0))
            j = fresh('j')
            s.assume(j >= 0, j < n, mark(j))
            ex.prove(s, 'every entry is the right string of the trace', z3.Select(z3.Select(ex.hmap(s, 'ptr'), R), j) == want(j))
            ex.prove(s, 'the trace is not changed', Q.trace_same(ex, s, tr, points, names, types))
        for o in outs[:2]:
            ex.vacuity(o.st, fn)
        r.absorb(ex)
    return task


def task_counts(ctx, r):
    for fn, pick in (('trace_size', 'points'), ('n_types', 'types'), ('n_names', 'names')):
        ex = ctx.exec()
        f = ctx.find('^%s$' % fn)
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        ts = {'points': z3.Const('points', T.STP.sort), 'names': z3.Const('names', T.SSTR.sort), 'types': z3.Const('types', T.STD.sort)}
        tr, ic = Q.mktrace(ctx, ex, st, ts['points'], ts['names'], ts['types'])
        S = {'points': T.STP, 'names': T.SSTR, 'types': T.STD}[pick]
        n = S.len(ts[pick])
        if pick != 'points':
            st.assume(n < 2 ** 32)
        outs = ex.run(f, [tr], st)
        ex.curfn.append(f)
        for o in outs:
            r.paths += 1
            ex.prove(o.st, fn + ' is the number of ' + pick, z3.BoolVal(False) if o.kind != 'ret' else o.val == n)
        ex.vacuity(outs[0].st, fn)
        r.absorb(ex)


ARR = z3.Function('PointArray', T.STD.sort, T.STP.sort, Int)


def task_getpoints(ctx, r):
    ex = ctx.exec()
    f = ctx.find('^get_points$')
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    points, names, types = z3.Const('points', T.STP.sort), z3.Const('names', T.SSTR.sort), z3.Const('types', T.STD.sort)
    tr, ic = Q.mktrace(ctx, ex, st, points, names, types)

    def toarr(ex, st, args, dem):
        ty = ex.read(st, Ptr(args[0].obj, args[0].path + (T.TR.idx['types'],)))
        return [Out(st, 'ret', HP(ARR(ty.t, ex.read(st, args[1]).t)))]
    ex.contracts.append((re.compile(r'^points_to_array\('), toarr))
    outs = ex.run(f, [tr], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        ex.prove(o.st, 'get_points hands out the array of all points', o.val.ref == ARR(types, points) if o.kind == 'ret' and isinstance(o.val, HP)
                 else z3.BoolVal(False))
    r.absorb(ex)


TASKS = [('points_to_array copies every point', task_points), ('free_trace_points', task_free), ('get_types', strings('types')),
         ('get_names', strings('names')), ('counts', task_counts), ('get_points', task_getpoints)]
