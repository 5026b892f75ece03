"""C08: answers do not depend on what was asked before (both caches)."""
import re
import z3
import theory as T
import lib as L
import maps as M
import query as Q
from base import *
from ir import Ty
from props import c07, c10
from sx import UNDEF

EP = z3.Datatype('EP')
EP.declare('mkEP', ('ep_pred', T.PredSort), ('ep_vars', c07.VS))
EP = EP.create()
eqP, eqV = L.eqk(T.KPRED), lambda a, b: L.eqvec(T.KTVI, a, b)


def eqEP(a, b):
    return z3.And(eqP(EP.ep_pred(a), EP.ep_pred(b)), eqV(EP.ep_vars(a), EP.ep_vars(b)))


class Lay:
    def __init__(self, ctx):
        self.ty = Ty('named', 'class.EvaluatePredicate')
        rec = dict(ctx.layouts.get('EvaluatePredicate') or [])
        offs = ctx.mod.layout(self.ty)[2]
        if not {'m_predicate', 'm_variables', 'm_hash'} <= set(rec):
            raise Unsupported('members of EvaluatePredicate')
        self.p, self.v, self.h = (offs.index(rec[n]) for n in ('m_predicate', 'm_variables', 'm_hash'))

    def key(self, ex, st, ptr):
        v = ex.read(st, ptr)
        if not isinstance(v, Agg):
            raise Unsupported('functor value')
        return EP.mkEP(T.PRED.term(ex, st, v.f[self.p]), v.f[self.v].t)

    def make(self, ex, st, key, name, h=None):
        o = ex.new_obj(st, name, self.ty)
        ex.write(st, Ptr(o.obj, (self.p,)), TermV(T.PRED, EP.ep_pred(key)))
        ex.write(st, Ptr(o.obj, (self.v,)), VecV(T.KTVI, EP.ep_vars(key)))
        st.assume(*T.PRED.facts(EP.ep_pred(key)))
        st.assume(*T.KTVI.vfacts(EP.ep_vars(key)))
        if h is not None:
            ex.write(st, Ptr(o.obj, (self.h,)), h)
            st.assume(h >= 0, h < 2 ** 64)
        return o


def evalmap(lay):
    tobool = lambda ex, st, v: v if z3.is_bool(v) else ex.to_int(st, v) != 0
    return M.MapKind('evalcache', r'^std::unordered_map<EvaluatePredicate, bool, .*? > ?>::(?=~?\w+\(|operator)', EP, Bool,
                     lay.key, lambda t: z3.If(t, iv(1), iv(0)), tobool, lambda: z3.BoolVal(False), eq=eqEP)


a_, b_ = z3.Const('a', EP), z3.Const('b', EP)
pa_, pb_, va_, vb_ = (z3.Const(n, s) for n, s in (('pa', T.PredSort), ('pb', T.PredSort), ('va', c07.VS), ('vb', c07.VS)))
CONG = [z3.ForAll([pa_, pb_, va_, vb_], z3.Implies(z3.And(eqP(pa_, pb_), eqV(va_, vb_)), c07.sat(va_, pa_) == c07.sat(vb_, pb_)),
                  patterns=[z3.MultiPattern(eqP(pa_, pb_), eqV(va_, vb_))])]
REFL = [z3.ForAll([pa_], eqP(pa_, pa_), patterns=[eqP(pa_, pa_)]), z3.ForAll([va_], eqV(va_, va_), patterns=[eqV(va_, va_)])]
RX_CACHED = re.compile(r'^TracePointData::cachedSatisfiesPredicate\(')
RX_CALL = re.compile(r'^EvaluatePredicate::operator\(\)\(\) const$')


def inv(m):
    q = z3.Const('q', EP)
    return z3.ForAll([q], z3.Implies(z3.Select(m.dom, q), z3.Select(m.val, q) == c07.sat(EP.ep_vars(q), EP.ep_pred(q))),
                     patterns=[z3.Select(m.val, q), z3.Select(m.dom, q)])


def statics(ctx, ex, st, mk):
    """function-local static caches: guard variable and contents (invariant assumed once initialised)"""
    out = []
    for g, d in ctx.mod.globals.items():
        if g.startswith('_ZZ') and 'cachedSatisfiesPredicate' in g and re.search(r'global %"class\.std::unordered_map', d):
            o = Obj(g, None)
            ex.globobj[g] = o
            m = mk.sym('cache%d' % len(out))
            st.mem[o] = m
            st.assume(inv(m))
            gv = '_ZGV' + g[2:]
            if gv in ctx.mod.globals:
                x = Obj('guard', Ty('int', 8))
                ex.globobj[gv] = x
                st.mem[x] = fresh('guard')
                st.assume(st.mem[x] >= 0, st.mem[x] <= 1)
            out.append(o)
    return out


def guard_handlers():
    r = lambda st, v=None: [Out(st, 'ret', v)]

    def acq(ex, st, args, dem):
        return r(st, iv(1))

    def rel(ex, st, args, dem):
        ex.write(st, args[0], iv(1))
        return r(st)
    return [(re.compile('^__cxa_guard_acquire$'), acq), (re.compile('^__cxa_guard_release$'), rel),
            (re.compile('^__cxa_guard_abort$'), lambda ex, st, a, d: r(st)), (re.compile('^__cxa_atexit$'), lambda ex, st, a, d: r(st, iv(0)))]


def task_cached(ctx, r):
    lay = Lay(ctx)
    mk = evalmap(lay)
    ex = ctx.exec(CONG + REFL)
    ex.lib.handlers[:0] = M.handlers(mk) + M.iters() + guard_handlers()
    f = ctx.find(RX_CACHED.pattern)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    p, vs = z3.Const('predicate', T.PredSort), z3.Const('variables', c07.VS)
    tpd = sym(T.TPD, 'self')
    caches = statics(ctx, ex, st, mk)

    def c_apply(ex, st, args, dem):
        k = lay.key(ex, st, args[0])
        return [Out(st, 'ret', c07.sat(EP.ep_vars(k), EP.ep_pred(k)))]
    ex.contracts.append((RX_CALL, c_apply))
    args = [put(st, T.TPD, tpd, 'self'), put(st, T.PRED, p, 'predicate'), ex.new_obj(st, 'variables', None, VecV(T.KTVI, vs))]
    st.assume(*T.KTVI.vfacts(vs))
    before = dict(st.mem)
    outs = ex.run(f, args, st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        v = o.val if z3.is_bool(o.val) else o.val != 0
        t = p
        ex.prove(o.st, 'the answer is the truth of this predicate on these variables, whatever was asked before', v == c07.sat(vs, t))
        for c in caches:
            m = o.st.mem[c]
            q = fresh('key', EP)
            ex.prove(o.st, 'every remembered answer is right', z3.Implies(
                z3.Select(m.dom, q), z3.Select(m.val, q) == c07.sat(EP.ep_vars(q), EP.ep_pred(q))))
        ex.prove(o.st, 'the point and the predicate are unchanged', z3.BoolVal(all(ex.same(o.st.mem[a.obj], before[a.obj]) for a in args)))
    if sum(not ex.contradictory(o.st) for o in outs) < 2:
        raise Unsupported('assumptions contradictory: cachedSatisfiesPredicate')
    r.absorb(ex)


def task_satisfies(ctx, r):
    """TracePointData::satisfiesPredicate evaluates on exactly the bound variables"""
    ex = ctx.exec(Q.BIND_AX + Q.BIND_LEMMA)
    f = ctx.find(r'^TracePointData::satisfiesPredicate\(')
    g = ctx.find(r'^TracePoint::satisfiesPredicate\(')
    r.functions += [ctx.mod.dem[f.name], ctx.mod.dem[g.name]]
    st = newstate()
    p, b = z3.Const('predicate', T.PredSort), z3.Const('bindings', T.SU32.sort)
    tp = sym(T.TP, 'self')
    vs = Q.vars_of(tp)
    i = z3.Int('i')
    st.assume(*T.KU32.vfacts(b))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Q.U.len(b)), Q.U.at(b, i) < T.STVI.len(vs)), patterns=[Q.U.at(b, i)]))

    def c_cached(ex, st, args, dem):
        return [Out(st, 'ret', c07.sat(ex.read(st, args[2]).t, T.PRED.term(ex, st, ex.read(st, args[1]))))]
    ex.contracts.append((RX_CACHED, c_cached))

    def ls(ex, L_, st0, leaves):
        for o, path, v in leaves:
            if isinstance(v, VecV) and v.kind is T.KTVI:
                yield ('bound variables so far', lambda L_, s, k, o=o, path=path: ex.get(s, o, path).t == Q.bd(vs, b, k))
    ex.loopspecs.append(ls)
    ex.extra_bounds = [('bindings', Q.U.len(b))]
    args = [put(st, T.TP, tp, 'self'), put(st, T.PRED, p, 'predicate'), ex.new_obj(st, 'bindings', None, VecV(T.KU32, b))]
    outs = ex.run(g, args, st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        v = o.val if z3.is_bool(o.val) else o.val != 0
        ex.prove(o.st, 'the predicate is evaluated on the bound variables, in order', v == c07.sat(Q.bound(vs, b), p))
    ex.vacuity(outs[0].st, 'satisfiesPredicate')
    r.absorb(ex)


def canon(t):
    """a stored value is the zero- or sign-extension of its bytes (what the reader produces, C01)"""
    g = T.TVI.acc
    v, s, f = g['value'](t), g['size'](t), g['format'](t)
    cs = []
    for n in (1, 2, 4):
        w = 8 * n
        cs.append(z3.Implies(s == n, z3.And(z3.Implies(z3.Or(f == 0, f == 3), v < 2 ** w),
                                            z3.Implies(f == 1, z3.Or(v < 2 ** (w - 1), v >= 2 ** 64 - 2 ** (w - 1))))))
    return z3.And(v >= 0, v < 2 ** 64, *cs)


def task_congruence(ctx, r):
    """equal predicates on equal variables have the same truth (induction over the predicate)"""
    g, (p, q, n) = L.memeq, z3.Ints('p q n')
    o = z3.Int('o')
    ax = [z3.ForAll([p, q, n], g(p, q, n) == g(q, p, n), patterns=[g(p, q, n)]),
          z3.ForAll([p, q, o, n], z3.Implies(z3.And(g(p, q, n), g(q, o, n)), g(p, o, n)), patterns=[z3.MultiPattern(g(p, q, n), g(q, o, n))])]
    from props.c07 import K, C, D, at, ln
    for kk in [x for x in range(20) if x != c07.VREF]:
        ex = ctx.exec(ax)
        st = newstate()
        P, R = z3.Const('P', T.PredSort), z3.Const('R', T.PredSort)
        A, B = z3.Const('A', c07.VS), z3.Const('B', c07.VS)
        j = z3.Int('j')
        val = kk in (c07.VSIZE, c07.VVAL, c07.SIGN, c07.UNSG, c07.FLT, c07.ADD, c07.SUB, c07.MUL, c07.DIV)
        eqnode = lambda x, y: z3.And(K(x) == K(y), D(x) == D(y), L.eqvec(T.KPRED, C(x), C(y)))
        st.assume(eqnode(P, R), eqV(A, B), K(P) == kk, *(c07.wf_axioms(A, P) + [(c07.wfv if val else c07.wfb)(A, P)]))
        # operands: equal nodes (definition of ==), hence, by induction, equal meanings
        ch, cr = C(P), C(R)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln(ch)), z3.And(
            eqnode(at(ch, j), at(cr, j)), c07.ev(A, at(ch, j)) == c07.ev(B, at(cr, j)), c07.sat(A, at(ch, j)) == c07.sat(B, at(cr, j)))),
            patterns=[at(ch, j), at(cr, j)]))
        eT = L.eqk(T.KTVI)
        t, u = z3.Const('t', T.TVI.sort), z3.Const('u', T.TVI.sort)
        st.assume(z3.ForAll([t, u], eT(t, u) == c10.spec_eq(T.TVI, t, u), patterns=[eT(t, u)]))
        for V in (A, B):
            st.assume(z3.ForAll([j], canon(T.STVI.at(V, j)), patterns=[T.STVI.at(V, j)]))
        for V in (A, B):
            for Z in (P, R):
                for x in (0, 1):
                    t_ = T.STVI.at(V, D(at(C(Z), x)))
                    if kk == c07.VVAL:
                        st.assume(z3.Implies(T.TVI.acc['format'](t_) == 2, z3.Or(T.TVI.acc['size'](t_) == 4, T.TVI.acc['size'](t_) == 8)))
                        st.assume(z3.Implies(T.TVI.acc['format'](t_) != 4, z3.Or(*[T.TVI.acc['size'](t_) == z for z in (1, 2, 4, 8)])))
        for x in (0, 1):
            for y in (0, 1):
                st.assume(mark(T.TVI.acc['value'](T.STVI.at(A, D(at(ch, x))))), mark(T.TVI.acc['value'](T.STVI.at(B, D(at(cr, x))))))
        for x in (0, 1):
            va, vb = T.STVI.at(A, D(at(ch, x))), T.STVI.at(B, D(at(cr, x)))
            st.assume(mark(z3.If(eT(va, vb), iv(1), iv(0))))
        if val:
            goal = c07.meaning_value(A, P) == c07.meaning_value(B, R)
        else:
            goal = c07.meaning_bool(A, P, kk) == c07.meaning_bool(B, R, kk)
        ex.prove(st, 'equal predicates of kind %d on equal variables mean the same' % kk, goal)
        ex.vacuity(st, 'congruence %d' % kk)
        r.paths += 1
        r.absorb(ex)
    r.functions.append('lemma over the contracts of evaluate, predicateSatisfied and operator==')


def task_key(ctx, r):
    """equality and hash of the cache key"""
    lay = Lay(ctx)
    h = z3.Function('hash_ep', T.PredSort, c07.VS, Int)
    for what in ('eq', 'hash', 'ctor'):
        ex = ctx.exec(c10.hash_axioms())
        st = newstate()
        A, B = z3.Const('A', EP), z3.Const('B', EP)
        if what == 'eq':
            f = ctx.find(r'^EvaluatePredicate::operator==\(', r'^operator==\(EvaluatePredicate const&')
            r.functions.append(ctx.mod.dem[f.name])
            ha, hb = z3.Ints('ha hb')
            st.assume(z3.Implies(eqEP(A, B), ha == hb))     # stored hashes of equal keys agree (task below)

            def c_eq(ex, st, args, dem):
                x, y = (T.PRED.term(ex, st, ex.read(st, z)) for z in args[:2])
                return [Out(st, 'ret', eqP(x, y))]
            ex.contracts.append((re.compile(r'^Predicate::operator==\('), c_eq))
            for o in ex.run(f, [lay.make(ex, st, A, 'lhs', ha), lay.make(ex, st, B, 'rhs', hb)], st):
                ex.curfn.append(f)
                r.paths += 1
                v = o.val if z3.is_bool(o.val) else o.val != 0
                ex.prove(o.st, 'keys are equal exactly when predicate and variables are', v == eqEP(A, B))
                ex.curfn.pop()
        if what == 'hash':
            f = ctx.find(r'^EvaluatePredicate::computeHash\(\) const$')
            r.functions.append(ctx.mod.dem[f.name])
            st.assume(eqEP(A, B), c10.T_inv(T.PRED, EP.ep_pred(A)), c10.T_inv(T.PRED, EP.ep_pred(B)))
            for o1 in ex.run(f, [lay.make(ex, st, A, 'lhs')], st):
                for o2 in ex.run(f, [lay.make(ex, o1.st, B, 'rhs')], o1.st):
                    ex.curfn.append(f)
                    r.paths += 1
                    ex.prove(o2.st, 'equal keys have equal hashes', o1.val == o2.val)
                    ex.curfn.pop()
        if what == 'ctor':
            f = ctx.find(r'^EvaluatePredicate::EvaluatePredicate\(Predicate const&, vec<FW_TVI> const&\)$')
            fh = ctx.find(r'^std::hash<EvaluatePredicate>::operator\(\)\(EvaluatePredicate const&\) const$')
            fc = ctx.find(r'^EvaluatePredicate::computeHash\(\) const$')
            r.functions += [ctx.mod.dem[f.name], ctx.mod.dem[fh.name]]
            p, vs = EP.ep_pred(A), EP.ep_vars(A)
            d = ex.new_obj(st, 'functor', lay.ty)
            st.assume(*T.KTVI.vfacts(vs))
            for o in ex.run(f, [d, put(st, T.PRED, p, 'predicate'), ex.new_obj(st, 'variables', None, VecV(T.KTVI, vs))], st):
                for o1 in ex.run(fc, [d], o.st.copy()):
                    for o2 in ex.run(fh, [ex.new_obj(o1.st, 'h', None, UNDEF), d], o1.st):
                        ex.curfn.append(f)
                        r.paths += 1
                        ex.prove(o2.st, 'the key hash is computed from predicate and variables', o2.val == o1.val)
                        ex.curfn.pop()
        r.absorb(ex)


CLAIMS = 'neither the static evaluation cache nor the per-trace selection cache can change an answer: both keep the invariant that every remembered entry is the right one, lookups by == find only entries with the same meaning, and queries leave the trace unchanged'
ASSUMPTIONS = ['containers hold fewer than 2^31 elements and the number of combinations at one point stays below 2^31 '
               '(so size_t arithmetic does not wrap)', 'memory allocation succeeds',
               'std::vector, std::map and flyweight behave as their contracts in vc/lib.py and vc/maps.py say',
               'a query with no free variables has the null predicate (asserted by the code)',
               'stored values are zero- or sign-extended to 64 bits (established by the reader, C01)',
               'the points of a trace do not change after its construction (m_points has no other writer)',
               'std::unordered_map with a reflexive == and a hash that agrees with it (both proved) finds an equal key exactly when there is one']
TASKS = [('remembered answers', task_cached), ('evaluation on bound variables', task_satisfies), ('cache key', task_key),
         ('congruence of evaluation', task_congruence), ('remembered selections', Q.task_getpoints), ('whole query', Q.task_query(False)),
         ('seeded query', Q.task_query(True))]
