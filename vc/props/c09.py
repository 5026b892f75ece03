"""C09: duplicate removal keeps the first result of every distinct binding."""
import re
import z3
import theory as T
import lib as L
import query as Q
from base import *
from props import c17
from sx import UNDEF

CLAIMS = ('deduplicate_results returns, in order, exactly the results with no earlier result of the same statement and the same '
          'list of variable names and types; its equality and hash functions are what its hash set needs; query_trace drops '
          'duplicates exactly when asked to')
ASSUMPTIONS = ['std::unordered_set with an equality that is an equivalence and a hash that agrees with it (both proved) '
               'contains an element equal to x exactly when one was inserted', 'containers hold fewer than 2^31 elements',
               'memory allocation succeeds']
VS = T.STVI.sort
g = T.TVI.acc
E = z3.Function('same_binding', T.TP.sort, T.TP.sort, Bool)
mem = z3.Function('covered', T.STP.sort, T.TP.sort, Bool)           # some element of the sequence has the same binding
memk = z3.Function('covered_first', T.STP.sort, Int, T.TP.sort, Bool)
dd = z3.Function('distinct', T.STP.sort, Int, T.STP.sort)
s_, rs_, x_, y_, z_, k_ = (z3.Const('s', T.STP.sort), z3.Const('rs', T.STP.sort), z3.Const('x', T.TP.sort), z3.Const('y', T.TP.sort),
                           z3.Const('z', T.TP.sort), z3.Int('k'))
at = T.STP.at
AX = [
    z3.ForAll([x_], E(x_, x_), patterns=[E(x_, x_)]),
    z3.ForAll([x_, y_], E(x_, y_) == E(y_, x_), patterns=[E(x_, y_)]),
    z3.ForAll([x_], z3.Not(mem(T.STP.empty, x_)), patterns=[mem(T.STP.empty, x_)]),
    z3.ForAll([s_, y_, x_], mem(T.STP.push(s_, y_), x_) == z3.Or(mem(s_, x_), E(y_, x_)), patterns=[mem(T.STP.push(s_, y_), x_)]),
    z3.ForAll([rs_, x_], z3.Not(memk(rs_, 0, x_)), patterns=[memk(rs_, 0, x_)]),
    z3.ForAll([rs_, k_, x_], z3.Implies(k_ >= 0, memk(rs_, k_ + 1, x_) == z3.Or(memk(rs_, k_, x_), E(at(rs_, k_), x_))),
              patterns=[z3.MultiPattern(memk(rs_, k_, x_), mark(k_))]),
    z3.ForAll([rs_], dd(rs_, 0) == T.STP.empty, patterns=[dd(rs_, 0)]),
    z3.ForAll([rs_, k_], z3.Implies(k_ >= 0, dd(rs_, k_ + 1) == z3.If(memk(rs_, k_, at(rs_, k_)), dd(rs_, k_), T.STP.push(dd(rs_, k_), at(rs_, k_)))),
              patterns=[z3.MultiPattern(dd(rs_, k_), mark(k_))])]
# proved in task_lemmas
LEM = [z3.ForAll([rs_, k_, x_, y_], z3.Implies(z3.And(k_ >= 0, memk(rs_, k_, y_), E(y_, x_)), memk(rs_, k_, x_)),
                 patterns=[z3.MultiPattern(memk(rs_, k_, y_), E(y_, x_))])]
TRANS = z3.ForAll([x_, y_, z_], z3.Implies(z3.And(E(x_, y_), E(y_, z_)), E(x_, z_)), patterns=[z3.MultiPattern(E(x_, y_), E(y_, z_))])


def match(a, b, j):
    x, y = T.STVI.at(a, j), T.STVI.at(b, j)
    return z3.And(g['name'](x) == g['name'](y), g['type'](x) == g['type'](y))


def upto(a, b, k):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), match(a, b, j)), patterns=[T.STVI.at(a, j), T.STVI.at(b, j)])


def Edef(a, b):
    va, vb = Q.vars_of(a), Q.vars_of(b)
    n = T.STVI.len(va)
    return z3.And(T.TP.acc['stmt'](a) == T.TP.acc['stmt'](b), n == T.STVI.len(vb), upto(va, vb, n))


RX_DD = r'^deduplicate_results\(vec<TracePoint> const&\)$'
RX_SET = re.compile(r'^(?:std::pair<.*> )?std::unordered_set<TracePoint, (.*), std::allocator<TracePoint> >::(~?unordered_set|find|end|insert|count|reserve|size|clear|empty|emplace)\b')


def functors(ctx):
    """names of the hash and equality functors of the set in use"""
    f = ctx.find(RX_DD)
    f.parse()
    names = set()
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op in ('call', 'invoke') and ins.a[0][0] == 'glob':
                m = RX_SET.match(ctx.mod.dem.get(ins.a[0][1], ''))
                if m:
                    names.add(m.group(1))
    if len(names) != 1:
        raise Unsupported('the set of seen results')
    s = names.pop()
    depth, cut = 0, []
    for i, c in enumerate(s):
        depth += c in '<(' and 1 or (c in '>)' and -1 or 0)
        if c == ',' and depth == 0:
            cut.append(i)
    if len(cut) != 1:
        raise Unsupported('functors of the set')
    return s[:cut[0]].strip(), s[cut[0] + 1:].strip()


def opcall(ctx, name, n):
    args = ', '.join(['TracePoint const&'] * n)
    return ctx.find('^' + re.escape('%s::operator()(%s) const' % (name, args)) + '$')


def task_equal(ctx, r):
    ex = ctx.exec()
    f = opcall(ctx, functors(ctx)[1], 2)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    a, b = sym(T.TP, 'lhs'), sym(T.TP, 'rhs')
    va, vb = Q.vars_of(a), Q.vars_of(b)
    base = z3.And(T.TP.acc['stmt'](a) == T.TP.acc['stmt'](b), T.STVI.len(va) == T.STVI.len(vb))

    def ls(ex, L_, st0, leaves):
        yield ('same so far', lambda L_, s, k: z3.And(base, upto(va, vb, k)))
        for o, path, v in leaves:
            if z3.is_expr(v) and z3.is_int(v):
                get = lambda s, o=o, path=path: ex.get(s, o, path)
                yield ('flag is a boolean', lambda L_, s, k, get=get: z3.And(get(s) >= 0, get(s) <= 1))
                yield ('flag says whether all are the same so far', lambda L_, s, k, get=get: (get(s) != 0) == z3.And(base, upto(va, vb, k)))
    ex.loopspecs.append(ls)
    ex.extra_bounds = [('lhs', T.STVI.len(va)), ('rhs', T.STVI.len(vb))]
    outs = ex.run(f, [ex.new_obj(st, 'functor', None, UNDEF), put(st, T.TP, a, 'lhs'), put(st, T.TP, b, 'rhs')], st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'comparison returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        v = o.val if z3.is_bool(o.val) else o.val != 0
        ex.prove(o.st, 'equal exactly when statement, names and types agree', v == Edef(a, b))
    ex.vacuity(outs[0].st, 'equality')
    r.absorb(ex)


# hash folds: one per way of mixing name and type
hi = L.hashf('int', Int)
WAYS = {'name,type': ('name', 'type'), 'type,name': ('type', 'name'), 'name': ('name',), 'type': ('type',)}
HF = {w: z3.Function('hashfold_' + w.replace(',', '_'), VS, Int, Int, Int) for w in WAYS}
v_, w_, i_ = z3.Const('v', VS), z3.Const('w', VS), z3.Int('i')
HAX, HLEM = [], []
for way, fs in WAYS.items():
    F = HF[way]
    step = F(v_, i_, k_)
    for fld in fs:
        step = L.hc(step, hi(g[fld](T.STVI.at(v_, k_))))
    HAX += [z3.ForAll([v_, i_], F(v_, i_, 0) == i_, patterns=[F(v_, i_, 0)]),
            z3.ForAll([v_, i_, k_], z3.Implies(k_ >= 0, F(v_, i_, k_ + 1) == step), patterns=[z3.MultiPattern(F(v_, i_, k_), mark(k_))])]
    HLEM.append(z3.ForAll([v_, w_, i_, k_], z3.Implies(z3.And(k_ >= 0, upto(v_, w_, k_)), F(v_, i_, k_) == F(w_, i_, k_)),
                          patterns=[z3.MultiPattern(F(v_, i_, k_), F(w_, i_, k_))]))


def task_hash(ctx, r):
    ex = ctx.exec(HAX + HLEM)
    f = opcall(ctx, functors(ctx)[0], 1)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    a, b = sym(T.TP, 'lhs'), sym(T.TP, 'rhs')
    st.assume(Edef(a, b))

    def one(tp, st, nm):
        vs = Q.vars_of(tp)

        def ls(ex, L_, st0, leaves):
            for o, path, v in leaves:
                if z3.is_expr(v) and z3.is_int(v):
                    for way in WAYS:
                        try:
                            s0 = ex.get(st0, o, path)
                        except Exception:
                            continue
                        if z3.is_expr(s0) and z3.is_int(s0):
                            yield ('hash so far (%s)' % way, lambda L_, s, k, o=o, path=path, way=way, s0=s0: ex.get(s, o, path) == HF[way](vs, s0, k))
        ex.loopspecs[:] = [ls]
        ex.extra_bounds = [(nm, T.STVI.len(vs))]
        return ex.run(f, [ex.new_obj(st, 'functor', None, UNDEF), put(st, T.TP, tp, nm)], st)
    for o1 in one(a, st, 'lhs'):
        if not any('hash so far' in str(c) for l in ex.loops_done for c in l[-1]) and ex.loops_done:
            raise Unsupported('shape of the hash function')
        for o2 in one(b, o1.st, 'rhs'):
            ex.curfn.append(f)
            r.paths += 1
            ex.prove(o2.st, 'results with the same binding have the same hash', o1.val == o2.val)
            ex.curfn.pop()
    r.absorb(ex)


def task_lemmas(ctx, r):
    ex = ctx.exec(AX + [TRANS] + HAX)
    st = newstate()
    rs, x, y, v, w, i = z3.Const('RS', T.STP.sort), z3.Const('X', T.TP.sort), z3.Const('Y', T.TP.sort), z3.Const('V', VS), z3.Const('W', VS), z3.Int('I')
    Q.induction(ex, st, 'coverage respects equality', lambda n: z3.Implies(z3.And(memk(rs, n, y), E(y, x)), memk(rs, n, x)),
                lambda n: [mark(z3.If(memk(rs, n, z), iv(1), iv(0))) for z in (x, y)])
    for way in WAYS:
        Q.induction(ex, st, 'hash fold %s depends on names and types only' % way, lambda n: z3.Implies(upto(v, w, n), HF[way](v, i, n) == HF[way](w, i, n)),
                    lambda n: [mark(g['name'](T.STVI.at(v, n))), mark(HF[way](v, i, n)), mark(HF[way](w, i, n))])
    a, b, c = (z3.Const(n, T.TP.sort) for n in 'abc')
    ex.prove(st, 'lemma same binding is reflexive', Edef(a, a))
    s = st.copy()
    s.assume(Edef(a, b))
    ex.prove(s, 'lemma same binding is symmetric', Edef(b, a))
    s.assume(Edef(b, c))
    ex.prove(s, 'lemma same binding is transitive', Edef(a, c))
    # what the fold means
    q = z3.Int('q')
    st.assume(q >= 0)
    Q.induction(ex, st, 'covered by every earlier result', lambda n: z3.Implies(q < n, memk(rs, n, at(rs, q))),
                lambda n: [mark(z3.If(memk(rs, n, at(rs, z)), iv(1), iv(0))) for z in (q, n)], q)
    wit = z3.Function('witness', Int, Int)
    Q.induction(ex, st, 'covered only by an earlier result', lambda n: z3.Implies(memk(rs, n, x), z3.And(wit(n) >= 0, wit(n) < n, E(at(rs, wit(n)), x))),
                lambda n: [z3.If(E(at(rs, n), x), wit(n + 1) == n, wit(n + 1) == wit(n)),
                           z3.Implies(wit(n + 1) == n, at(rs, wit(n + 1)) == at(rs, n)), z3.Implies(wit(n + 1) == wit(n), at(rs, wit(n + 1)) == at(rs, wit(n)))])
    r.paths += 1
    r.absorb(ex)


def set_handlers():
    ret = lambda st, v=None: [Out(st, 'ret', v)]

    def val(ex, st, p):
        v = ex.read(st, p)
        if not (isinstance(v, AbsV) and v.tag == 'tpset'):
            raise Unsupported('set value')
        return v

    def elem(ex, st, p):
        return T.TP.term(ex, st, ex.read(st, p))

    def h(ex, st, args, dem):
        op = RX_SET.match(dem).group(2)
        if op.startswith('~') or op == 'reserve':
            return ret(st)
        if op == 'unordered_set':
            ex.write(st, args[0], AbsV('tpset', s=T.STP.empty))
            return ret(st)
        v = val(ex, st, args[0])
        if op == 'clear':
            ex.write(st, args[0], AbsV('tpset', s=T.STP.empty))
            return ret(st)
        if op in ('size', 'empty'):
            n = fresh('setsize')
            st.assume(n >= 0, n < 2 ** 63)
            return ret(st, n if op == 'size' else n == 0)
        if op == 'end':
            return ret(st, AbsV('setit', found=z3.BoolVal(False)))
        x = elem(ex, st, args[1])
        if op == 'find':
            return ret(st, AbsV('setit', found=mem(v.s, x)))
        if op == 'count':
            return ret(st, z3.If(mem(v.s, x), iv(1), iv(0)))
        if op in ('insert', 'emplace'):
            ex.write(st, args[0], v.upd(s=T.STP.push(v.s, x)))
            return ret(st, Agg(None, [AbsV('setit', found=z3.BoolVal(True)), z3.If(mem(v.s, x), iv(0), iv(1))]))
        raise Unsupported('set operation ' + op)

    def cmp(ex, st, args, dem):
        a, b = (ex.first(st, ex.read(st, p)) for p in args[:2])
        if not all(isinstance(v, AbsV) and v.tag == 'setit' for v in (a, b)):
            raise Unsupported('set iterators')
        if z3.is_false(a.found):
            a, b = b, a
        if not z3.is_false(b.found):
            raise Unsupported('set iterators')
        r = z3.Not(a.found)
        return ret(st, z3.Not(r) if 'operator!=' in dem else r)
    return [(RX_SET, h), (re.compile(r'^std::__detail::operator(==|!=)\(std::__detail::_Node_iterator_base<TracePoint'), cmp)]


def task_dedup(ctx, r):
    ex = ctx.exec(AX + LEM)
    ex.lib.handlers[:0] = set_handlers()
    functors(ctx)
    f = ctx.find(RX_DD)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    rs = z3.Const('results', T.STP.sort)
    st.assume(*T.KTP.vfacts(rs))
    res = ex.new_obj(st, 'result', None, UNDEF)
    src = ex.new_obj(st, 'results', None, VecV(T.KTP, rs))

    def ls(ex, L_, st0, leaves):
        for o, path, v in leaves:
            get = lambda s, o=o, path=path: ex.get(s, o, path)
            if isinstance(v, VecV) and v.kind is T.KTP:
                yield ('distinct results so far', lambda L_, s, k, get=get: get(s).t == dd(rs, k))
            if z3.is_expr(v) and v.sort() == T.STP.sort:
                yield ('the set covers the results so far', lambda L_, s, k, get=get: z3.ForAll(
                    [x_], mem(get(s), x_) == memk(rs, k, x_), patterns=[mem(get(s), x_), memk(rs, k, x_)]))
    ex.loopspecs.append(ls)
    ex.extra_bounds = [('results', T.STP.len(rs))]
    outs = ex.run(f, [res, src], st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'duplicate removal returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        ex.prove(o.st, 'first result of each distinct binding, in order', ex.read(o.st, res).t == dd(rs, T.STP.len(rs)))
        ex.prove(o.st, 'the given results are unchanged', z3.BoolVal(ex.same(ex.read(o.st, src), VecV(T.KTP, rs))))
    ex.vacuity(outs[0].st, 'dedup')
    r.absorb(ex)


TASKS = [('lemmas', task_lemmas), ('equality of bindings', task_equal), ('hash of bindings', task_hash),
         ('duplicate removal', task_dedup), ('query_trace drops duplicates only when asked', c17.task_query)]
