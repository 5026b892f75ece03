"""C10: equality covers every component, hashing agrees, orders irreflexive."""
import z3
import theory as T
import lib as L
from base import *

memeq = L.memeq
hp_spec = z3.Function('Hpred', Int, Int, T.SPRED.sort, Int)
eqTVI = L.eqk(T.KTVI)


def low(x, n):
    return x % (1 << (8 * n))


def spec_eq(cls, a, b):
    g = cls.acc
    if cls is T.TVI:
        f, s = g['format'](a), g['size'](a)
        val = z3.If(f == 4, memeq(g['value'](a), g['value'](b), s),
                    z3.If(s == 1, low(g['value'](a), 1) == low(g['value'](b), 1),
                          z3.If(s == 2, low(g['value'](a), 2) == low(g['value'](b), 2),
                                z3.If(s == 4, low(g['value'](a), 4) == low(g['value'](b), 4),
                                      g['value'](a) == g['value'](b)))))
        return z3.And(*[g[r](a) == g[r](b) for r in ('name', 'type', 'format', 'size', 'bufsz', 'has')] + [val])
    cs = []
    for role, _, k in cls.roles:
        if role == 'hash':
            continue
        x, y = g[role](a), g[role](b)
        if isinstance(k, str) or k[0] == 'union':
            cs.append(x == y)
        elif k[0] == 'vec':
            cs.append(L.eqvec(k[1], x, y))
        elif k[0] == 'fw':
            cs.append(L.eqTPDfw(x, y))
    return z3.And(*cs)


def hash_axioms():
    """congruence of library hashes: equal vectors / interned values hash alike
    (the element obligations are the hash tasks below)"""
    ax = []
    for k in L.KINDS.values():
        s, t = z3.Const('s', k.seq.sort), z3.Const('t', k.seq.sort)
        e, h = L.eqvecf(k), L.hashf('vec_' + k.name, k.seq.sort)
        ax.append(z3.ForAll([s, t], z3.Implies(e(s, t), h(s) == h(t)), patterns=[e(s, t)]))
    for nm, cls, e in (('tpd', T.TPD, L.eqTPDfw), ('tvi', T.TVI, eqTVI), ('pred', T.PRED, L.eqk(T.KPRED))):
        a, b = z3.Const('a', cls.sort), z3.Const('b', cls.sort)
        h = L.hashf(nm, cls.sort)
        ax.append(z3.ForAll([a, b], z3.Implies(e(a, b), h(a) == h(b)), patterns=[e(a, b)]))
    k, d = z3.Ints('k d')
    s, t = z3.Const('s', T.SPRED.sort), z3.Const('t', T.SPRED.sort)
    ax.append(z3.ForAll([k, d, s, t], z3.Implies(L.eqvec(T.KPRED, s, t), hp_spec(k, d, s) == hp_spec(k, d, t)),
                        patterns=[z3.MultiPattern(L.eqvec(T.KPRED, s, t), hp_spec(k, d, s))]))
    return ax


def task_eq(cls):
    def run(ctx, r):
        ex = ctx.exec(hash_axioms())
        c = cls.name
        f = ctx.find(r'^%s::operator==\(%s const&\) const$' % (c, c), r'^operator==\(%s const&, %s const&\)$' % (c, c))
        r.functions.append(ctx.mod.dem[f.name])
        a, b = sym(cls, 'a'), sym(cls, 'b')
        st = newstate()
        pa, pb = put(st, cls, a, 'lhs'), put(st, cls, b, 'rhs')
        outs = ex.run(f, [pa, pb], st)
        ex.curfn.append(f)
        n = 0
        for o in outs:
            if o.kind != 'ret':
                ex.prove(o.st, 'comparison returns normally', z3.BoolVal(False))
                continue
            n += 1
            v = o.val if z3.is_bool(o.val) else o.val != 0
            ex.prove(o.st, '%s: equal exactly when every recorded component is equal' % c, v == spec_eq(cls, a, b))
        r.paths = n
        r.absorb(ex)
    return run


def task_hash(cls):
    def run(ctx, r):
        ex = ctx.exec(hash_axioms())
        c = cls.name
        f = ctx.find(r'^hash_value\(%s const&\)$' % c)
        r.functions.append(ctx.mod.dem[f.name])
        a, b = sym(cls, 'a'), sym(cls, 'b')
        st = newstate()
        pa, pb = put(st, cls, a, 'lhs'), put(st, cls, b, 'rhs')
        st.assume(spec_eq(cls, a, b))
        if cls in (T.PRED, T.FV):
            # class invariant: the stored hash is a function of the components
            # (established by every constructor: tasks 'stored hash')
            st.assume(T_inv(cls, a), T_inv(cls, b))
        n = 0
        for o1 in ex.run(f, [pa], st):
            for o2 in ex.run(f, [pb], o1.st.copy()):
                ex.curfn.append(f)
                ex.prove(o2.st, '%s: equal values have equal hashes' % c, o1.val == o2.val)
                ex.curfn.pop()
                n += 1
        r.paths = n
        r.absorb(ex)
    return run


def T_inv(cls, t):
    if cls is T.PRED:
        g = T.PRED.acc
        return g['hash'](t) == pred_hash(g['kind'](t), g['data'](t), g['children'](t))
    return T.FV.acc['hash'](t) == L.hashf('vec_u32', T.SU32.sort)(T.FV.acc['types'](t))


def pred_hash(k, d, ch):
    """any function of the components will do; constructors are checked against the
    value the tree's own computeHash produces (see task_inv)"""
    return hp_spec(k, d, ch)


def task_inv_pred(ctx, r):
    """every constructor stores computeHash() of the components it stores, and
    computeHash depends on the components only through their equality classes"""
    ex = ctx.exec(hash_axioms())
    P = T.PRED
    fh = ctx.find(r'^Predicate::computeHash\(\) const$')
    # 1. computeHash respects equality
    a, b = sym(P, 'a'), sym(P, 'b')
    st = newstate()
    pa, pb = put(st, P, a, 'a'), put(st, P, b, 'b')
    st.assume(spec_eq(P, a, b))
    for o1 in ex.run(fh, [pa], st):
        for o2 in ex.run(fh, [pb], o1.st.copy()):
            ex.curfn.append(fh)
            ex.prove(o2.st, 'computeHash is a function of the compared components', o1.val == o2.val)
            ex.curfn.pop()
    r.functions.append(ctx.mod.dem[fh.name])
    # 2. constructors
    for rx, mk in ((r'^Predicate::Predicate\(\)$', 'd'),
                   (r'^Predicate::Predicate\(predicate_kind, predicate_data, vec<Predicate> const&\)$', 'v'),
                   (r'^Predicate::Predicate\(Predicate const&\)$', 'c')):
        f = ctx.find(rx)
        f.parse()
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        p = ex.new_obj(st, 'this', P.irty)
        args = [p]
        exp = None
        if mk == 'v':
            k, d, ch = z3.Int('kind'), z3.Int('data'), z3.Const('children', T.SPRED.sort)
            st.assume(k >= 0, k < 2 ** 32, d >= 0, d < 2 ** 64)
            vo = Obj('children', None)
            st.mem[vo] = VecV(T.KPRED, ch)
            st.assume(*T.KPRED.vfacts(ch))
            args += [k, d, Ptr(vo)]
            exp = (k, d, ch)
        if mk == 'c':
            src = sym(P, 'src')
            args.append(put(st, P, src, 'src'))
            st.assume(T_inv(P, src))
        outs = ex.run(f, args, st)
        for o in outs:
            ex.curfn.append(f)
            t = P.term(ex, o.st, ex.read(o.st, p))
            s2 = o.st.copy()
            # what computeHash returns on the constructed object
            if mk == 'c':
                ex.prove(o.st, 'copy has the same components and hash',
                         z3.And(*[P.acc[x](t) == P.acc[x](src) for x in ('kind', 'data', 'children', 'hash')]))
            else:
                for o2 in ex.run(fh, [p], s2):
                    ex.prove(o2.st, 'stored hash is the hash of the stored components', P.acc['hash'](t) == o2.val)
                if exp:
                    ex.prove(o.st, 'constructor stores what it is given',
                             z3.And(P.acc['kind'](t) == exp[0], P.acc['data'](t) == exp[1], P.acc['children'](t) == exp[2]))
            ex.curfn.pop()
    r.absorb(ex)


def task_inv_fv(ctx, r):
    ex = ctx.exec(hash_axioms())
    F = T.FV
    for rx, mk in ((r'^FreeVariable::FreeVariable\(vec<unsigned int> const&\)$', 'v'),
                   (r'^FreeVariable::FreeVariable\(FreeVariable const&\)$', 'c')):
        f = ctx.find(rx)
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        p = ex.new_obj(st, 'this', F.irty)
        args = [p]
        src = None
        if mk == 'v':
            v = z3.Const('types', T.SU32.sort)
            vo = Obj('types', None)
            st.mem[vo] = VecV(T.KU32, v)
            st.assume(*T.KU32.vfacts(v))
            args.append(Ptr(vo))
        if mk == 'c':
            src = sym(F, 'src')
            args.append(put(st, F, src, 'src'))
            st.assume(T_inv(F, src))
        for o in ex.run(f, args, st):
            ex.curfn.append(f)
            t = F.term(ex, o.st, ex.read(o.st, p))
            ex.prove(o.st, 'stored hash is the hash of the allowed types', T_inv(F, t))
            if mk == 'v':
                ex.prove(o.st, 'allowed types are stored', F.acc['types'](t) == v)
            if mk == 'c':
                ex.prove(o.st, 'copy keeps the allowed types', F.acc['types'](t) == F.acc['types'](src))
            ex.curfn.pop()
    r.absorb(ex)


def task_lt(cls):
    def run(ctx, r):
        ex = ctx.exec(hash_axioms())
        c = cls.name
        f = ctx.find(r'^%s::operator<\(%s const&\) const$' % (c, c))
        r.functions.append(ctx.mod.dem[f.name])
        a = sym(cls, 'a')
        st = newstate()
        pa = put(st, cls, a, 'self')
        n = 0
        for o in ex.run(f, [pa, pa], st):
            ex.curfn.append(f)
            if o.kind == 'ret':
                n += 1
                v = o.val if z3.is_bool(o.val) else o.val != 0
                ex.prove(o.st, '%s: no value is less than itself' % c, z3.Not(v))
            else:
                ex.prove(o.st, 'comparison returns normally', z3.BoolVal(False))
            ex.curfn.pop()
        r.paths = n
        r.absorb(ex)
    return run


def task_copy(cls):
    def run(ctx, r):
        ex = ctx.exec()
        c = cls.name
        f = ctx.find(r'^%s::%s\(%s const&\)$' % (c, c, c))
        r.functions.append(ctx.mod.dem[f.name])
        a = sym(cls, 'a')
        st = newstate()
        pa = put(st, cls, a, 'src')
        p = ex.new_obj(st, 'this', cls.irty)
        for o in ex.run(f, [p, pa], st):
            ex.curfn.append(f)
            t = cls.term(ex, o.st, ex.read(o.st, p))
            ex.prove(o.st, '%s: a copy has the same components' % c,
                     z3.And(*[cls.acc[x](t) == cls.acc[x](a) for x, _, _ in cls.roles]))
            ex.curfn.pop()
        r.absorb(ex)
    return run


TASKS = []
for c in (T.TBS, T.TD, T.TVI, T.TPD, T.TP, T.TR, T.PRED, T.FV):
    TASKS.append(('equality of ' + c.name, task_eq(c)))
for c in (T.TBS, T.TD, T.TVI, T.TPD, T.TP, T.TR, T.PRED, T.FV):
    TASKS.append(('hash of ' + c.name, task_hash(c)))
TASKS.append(('stored hash of Predicate', task_inv_pred))
TASKS.append(('stored hash of FreeVariable', task_inv_fv))
for c in (T.TBS, T.TD, T.TVI, T.TPD, T.TP):
    TASKS.append(('order of ' + c.name, task_lt(c)))
for c in (T.TBS, T.TD, T.TVI, T.TPD, T.TP):
    TASKS.append(('copy of ' + c.name, task_copy(c)))
