"""C04: the allocation map answers according to the allocation history.

The skip list is proved against an abstract map A from start address to size (0: no allocation).  Ghost state: S, the set of list nodes;
ND, the node of a start address; LV, the level of a node; OW, the owner of a block.  A level list is characterised by successors: next[i] of
x is the node with the least key above x among those of level i or more, or the head."""
import re
import z3
import lib as L
import theory as T
from base import *
from sx import HeapAlias, Null, is_c, ArrV
from props.c12 import FA, heap_start
from props.c17 import free_lib

CLAIMS = ('for every state of the list that satisfies the representation invariant: the constructor and clear give the empty map, updateMemoryMap '
          'turns map A into A with this address set, replaced or released (all-ones never stored), computeBufferSize answers start + size - address for the '
          'greatest live start not above the address, else all-ones, whatever levels were drawn; the destructor releases every block exactly once')
ASSUMPTIONS = ['memory allocation succeeds', 'partial correctness: termination of the list walks is not proved (every step strictly increases the key)',
               'rand() returns an arbitrary int']
MAX = 2 ** 64 - 1
MAXH = 32
AI, AB = z3.ArraySort(Int, Int), z3.ArraySort(Int, Bool)


class World:
    """the list in one state"""

    def __init__(self, ctx, ex, this, H):
        self.ctx, self.ex, self.this, self.H = ctx, ex, this, H
        ty, m = ctx.cstruct('snode', key='i64', value='i64', next='ptr')
        self.ty = ty
        self.kk = {n: ex.hkey(ty, (i,)) for n, i in m.items()}
        self.size = ctx.mod.sizeof(ty)
        _, mm = ctx.cstruct('MemoryMap', m_height='i32', m_head=None)
        self.ih, self.iH = mm['m_height'], mm['m_head']

    def at(self, st, S, ND, LV, OW, A):
        return At(self, st, S, ND, LV, OW, A)


class At:
    def __init__(self, w, st, S, ND, LV, OW, A):
        ex = w.ex
        self.w, self.st, self.H = w, st, w.H
        self.S, self.ND, self.LV, self.OW, self.A = S, ND, LV, OW, A
        self.K, self.V, self.NX = (ex.hmap(st, w.kk[n]) for n in ('key', 'value', 'next'))
        self.P = ex.hmap(st, 'ptr')
        self.al, self.bs = ex.alive(st), ex.bsize(st)
        self.h = ex.read(st, Ptr(w.this.obj, (w.ih,)))

    def k(self, x):
        return z3.Select(z3.Select(self.K, x), 0)

    def v(self, x):
        return z3.Select(z3.Select(self.V, x), 0)

    def ar(self, x):
        return z3.Select(z3.Select(self.NX, x), 0)

    def nx(self, x, i):
        return z3.Select(z3.Select(self.P, self.ar(x)), i)

    def s(self, x):
        return z3.Select(self.S, x)

    def lv(self, x):
        return z3.Select(self.LV, x)

    def ow(self, x):
        return z3.Select(self.OW, x)

    def mem(self, x):
        return z3.Or(self.s(x), x == self.H)

    def ks(self, x):
        return z3.If(x == self.H, -1, self.k(x))

    def inv(self):
        x, y, i, a = z3.Ints('x y i a')
        w, H, h = self.w, self.H, self.h
        n = self.nx(x, i)
        rng = z3.And(self.mem(x), 1 <= i, i <= self.lv(x), i <= h)
        al, bs = (lambda b: z3.Select(self.al, b)), (lambda b: z3.Select(self.bs, b))
        block = lambda x: z3.And(x > 0, al(x), al(self.ar(x)), self.ar(x) > 0, bs(x) >= w.size, bs(self.ar(x)) >= 8 * (self.lv(x) + 1),
                                 self.ow(x) == x, self.ow(self.ar(x)) == x, self.ar(x) != x)
        nd = lambda a: z3.Select(self.ND, a)
        A = lambda a: z3.Select(self.A, a)
        yield 'head', z3.And(h >= 1, h <= MAXH, self.k(H) == MAX, z3.Not(self.s(H)), self.lv(H) == MAXH, block(H))
        yield 'nodes are live blocks of their own', FA([x], z3.Implies(self.s(x), z3.And(block(x), self.lv(x) >= 1, self.lv(x) <= h)), self.s(x))
        yield 'nodes and starts correspond', FA([x], z3.Implies(self.s(x), z3.And(
            self.k(x) >= 0, self.k(x) < MAX, nd(self.k(x)) == x, self.v(x) == A(self.k(x)), A(self.k(x)) != 0)), self.s(x))
        yield 'every live start has its node', FA([a], z3.Implies(A(a) != 0, z3.And(self.s(nd(a)), self.k(nd(a)) == a)), A(a), nd(a))
        yield 'the next node is on the level and later', FA([x, i], z3.Implies(rng, z3.And(
            self.mem(n), self.lv(n) >= i, self.k(n) > self.ks(x))), n)
        yield 'no node of the level is skipped', FA([x, i, y], z3.Implies(z3.And(rng, self.s(y), self.lv(y) >= i, self.k(y) > self.ks(x)),
                                                                        self.k(y) >= self.k(n)), z3.MultiPattern(n, self.s(y)))
        yield 'unused levels are empty', FA([i], z3.Implies(z3.And(i > h, i <= MAXH), self.nx(H, i) == H), self.nx(H, i))


def some_path(ex, outs, what):
    """not every path is contradictory"""
    if all(ex.contradictory(o.st) for o in outs):
        raise Unsupported('assumptions contradictory: ' + what)


def spec_upd(A, a, s):
    return z3.If(a == MAX, A, z3.Store(A, a, s))


def handlers():
    def new(ex, st, args, dem):
        return L.one(st, ex.halloc(st, args[0]))

    def rand(ex, st, args, dem):
        r = fresh('rand')
        st.assume(r >= 0, r < 2 ** 31)
        return L.one(st, r)
    return [(re.compile(r'^operator new(\[\])?\(unsigned long\)$'), new), (re.compile(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$'), free_lib),
            (re.compile(r'^rand$'), rand)]


def start(ctx, r, fresh_obj=False):
    ex = ctx.exec(timeout=20000)
    ex.lib.handlers[:0] = handlers()
    st = newstate()
    nx0 = heap_start(ex, st)
    ty, _ = ctx.cstruct('MemoryMap', m_height='i32', m_head=None)
    this = ex.new_obj(st, 'map', ty)
    H = z3.Int('head')
    w = World(ctx, ex, this, H)
    ag = ex.blank(ty)
    f = list(ag.f)
    h = z3.Int('height')
    st.assume(h >= 0, h < 2 ** 32)
    f[w.ih] = h
    f[w.iH] = HeapAlias(H, w.ty)
    st.mem[this.obj] = Agg(ty, f)
    g = [z3.Const(n, s) for n, s in (('S', AB), ('ND', AI), ('LV', AI), ('OW', AI), ('A', AI))]
    if fresh_obj:
        st.assume(z3.Select(ex.alive(st), H), z3.Select(ex.bsize(st), H) >= w.size, H > 0)
    else:
        for n, q in w.at(st, *g).inv():
            st.assume(q)
        a = z3.Int('a')
        st.assume(z3.ForAll([a], z3.And(z3.Select(g[4], a) >= 0, z3.Select(g[4], a) < 2 ** 64), patterns=[z3.Select(g[4], a)]), z3.Select(g[4], MAX) == 0)
    return ex, st, w, g, nx0


def walk_specs(w, g, key):
    """the walk down the levels: nothing between the current node and the key on the levels above"""
    def ls(ex, L_, st0, leaves):
        y = z3.Int('y')
        ints = [(o, p) for o, p, v in leaves if z3.is_expr(v) and z3.is_int(v) and p[-1:] not in (('hpref',), ('hpidx',)) and not any(isinstance(q, tuple) for q in p)]
        refs = [(o, p) for o, p, v in leaves if p[-1:] == ('hpref',)]
        # the level being walked: a modified integer here or in the enclosing loop
        lv = list(ints)
        if L_.parent is not None:
            P = L_.parent
            lv += [(o, ()) for o, v in P.head.mem.items() if z3.is_expr(v) and z3.is_int(v) and o in P.entry.mem and P.entry.mem[o] is not v]
        for o, p in refs:
            cur = lambda s, o=o, p=p: ex.get(s, o, p)
            at = lambda s: w.at(s, *g)
            yield ('walk stays in the list', lambda L_, s, k, cur=cur: at(s).mem(cur(s)))
            yield ('walk stays at or before the key', lambda L_, s, k, cur=cur: at(s).ks(cur(s)) <= key)
            yield ('walk stays before the key', lambda L_, s, k, cur=cur: at(s).ks(cur(s)) < key)
            for o2, p2 in lv:
                i = lambda s, o2=o2, p2=p2: ex.get(s, o2, p2)

                def gap(strict, d):
                    def f(L_, s, k, cur=cur, i=i):
                        c = at(s)
                        before = c.k(y) < key if strict else c.k(y) <= key
                        return FA([y], z3.Implies(z3.And(c.s(y), c.lv(y) >= i(s) + d, before), c.k(y) <= c.ks(cur(s))), c.s(y))
                    return f
                for o3, p3 in refs:
                    if (o3, p3) != (o, p):
                        yield ('one node is the next of the other', lambda L_, s, k, cur=cur, i=i, o3=o3, p3=p3: ex.get(s, o3, p3) == at(s).nx(cur(s), i(s)))
                yield ('walk is on level', lambda L_, s, k, cur=cur, i=i: at(s).lv(cur(s)) >= i(s))
                yield ('level in range', lambda L_, s, k, i=i: z3.And(i(s) >= 0, i(s) <= at(s).h))
                for st_ in (True, False):
                    yield ('nothing skipped on the levels above%s' % (' (strict)' if st_ else ''), gap(st_, 1))
    return ls


def task_size(ctx, r):
    ex, st, w, g, nx0 = start(ctx, r)
    f = ctx.find(r'^MemoryMap::computeBufferSize\(unsigned long\) const$')
    r.functions.append(ctx.mod.dem[f.name])
    a = z3.Int('address')
    st.assume(a >= 0, a < 2 ** 64)
    ex.loopspecs.append(walk_specs(w, g, a))
    A = g[4]
    q = z3.Int('q')
    # the answer: G is the greatest live start not above a, or there is none
    G = z3.Int('greatest_start')
    some = z3.And(G >= 0, G <= a, z3.Select(A, G) != 0, a != MAX)
    st.assume(z3.Implies(some, z3.ForAll([q], z3.Implies(z3.And(q > G, q <= a), z3.Select(A, q) == 0), patterns=[z3.Select(A, q)])),
              z3.Implies(z3.Not(some), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= a, a != MAX), z3.Select(A, q) == 0), patterns=[z3.Select(A, q)])))
    want = z3.If(z3.And(some, a <= G + z3.Select(A, G)), G + z3.Select(A, G) - a, MAX)
    pre = dict(st.gh)
    ex.vacuity(st, 'representation invariant')
    outs = ex.run(f, [w.this, a], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'the query returns', z3.BoolVal(False))
            continue
        s = o.st
        ex.prove(s, 'start + size - address of the greatest live start not above it, else all-ones', o.val == want)
        ex.prove(s, 'a query changes nothing', z3.And(*[s.gh[k] == pre[k] for k in pre if k in s.gh and z3.is_expr(pre[k])]))
    some_path(ex, outs, 'computeBufferSize')
    r.absorb(ex)


def outermost(L_):
    while L_.parent is not None and L_.parent.fn is L_.fn:
        L_ = L_.parent
    return L_


def ints_of(ex, L_, leaves):
    """modified integer locals of this loop and of the enclosing one"""
    out = [(o, p) for o, p, v in leaves if z3.is_expr(v) and z3.is_int(v) and p[-1:] not in (('hpref',), ('hpidx',)) and not any(isinstance(q, tuple) for q in p)]
    if L_.parent is not None:
        P = L_.parent
        out += [(o, ()) for o, v in P.head.mem.items() if z3.is_expr(v) and z3.is_int(v) and o in P.entry.mem and P.entry.mem[o] is not v]
    return out


def fill_specs(w, g):
    """the head's pointers are set one after the other"""
    def ls(ex, L_, st0, leaves):
        j = z3.Int('j')
        def done(L_, s, k):
            n = z3.Select(z3.Select(w.at(s, *g).P, z3.simplify(w.at(s, *g).ar(w.H))), j)
            return FA([j], z3.Implies(z3.And(j >= 0, j < k), n == w.H), n)
        yield ('levels set so far', done)
        for o, p in ints_of(ex, L_, leaves):
            yield ('level at most the maximum', lambda L_, s, k, o=o, p=p: ex.get(s, o, p) <= MAXH + 1)
        yield ('fields of the head kept', lambda L_, s, k: z3.And(w.at(s, *g).k(w.H) == w.at(st0, *g).k(w.H), w.at(s, *g).ar(w.H) == w.at(st0, *g).ar(w.H)))
    return ls


def empty(w, ex, st, g):
    c = w.at(st, *g)
    return [z3.K(Int, z3.BoolVal(False)), z3.K(Int, iv(0)), z3.K(Int, iv(MAXH)), z3.Store(z3.K(Int, w.H), w.H, w.H), z3.K(Int, iv(0))]


def prove_inv(ex, w, st, g, what):
    for n, q in w.at(st, *g).inv():
        ex.prove(st, '%s: %s' % (what, n), q)


def task_new(ctx, r):
    ex, st, w, g, nx0 = start(ctx, r, True)
    f = ctx.find(r'^MemoryMap::MemoryMap\(\)$')
    r.functions.append(ctx.mod.dem[f.name])
    ex.loopspecs.append(fill_specs(w, g))
    outs = ex.run(f, [w.this], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        prove_inv(ex, w, o.st, empty(w, ex, o.st, g), 'new map is empty')
    some_path(ex, outs, 'MemoryMap()')
    r.absorb(ex)


def release_specs(w, g):
    """nodes before the current one are released, the others untouched"""
    def ls(ex, L_, st0, leaves):
        x = z3.Int('x')
        a0 = w.at(st0, *g)
        for o, p in [(o, p) for o, p, v in leaves if p[-1:] == ('hpref',)]:
            cur = lambda s, o=o, p=p: ex.get(s, o, p)
            yield ('current node is in the list', lambda L_, s, k, cur=cur: a0.mem(cur(s)))
            def al(L_, s, k, cur=cur):
                c = w.at(s, *g)
                gone = z3.And(a0.s(a0.ow(x)), a0.k(a0.ow(x)) < a0.k(cur(s)), z3.Or(x == a0.ow(x), x == a0.ar(a0.ow(x))))
                return FA([x], z3.Select(c.al, x) == z3.And(z3.Select(a0.al, x), z3.Not(gone)), z3.Select(c.al, x))
            yield ('exactly the nodes passed are released', al)
    return ls


def released(w, g, a0, c, x):
    own = z3.And(a0.s(a0.ow(x)), z3.Or(x == a0.ow(x), x == a0.ar(a0.ow(x))))
    return z3.Select(c.al, x) == z3.And(z3.Select(a0.al, x), z3.Not(z3.Or(own, x == a0.ar(w.H))))


def task_delete(ctx, r):
    ex, st, w, g, nx0 = start(ctx, r)
    f = ctx.find(r'^MemoryMap::~MemoryMap\(\)$')
    r.functions.append(ctx.mod.dem[f.name])
    a0 = w.at(st.copy(), *g)
    ex.loopspecs.append(release_specs(w, g))
    outs = ex.run(f, [w.this], st)
    ex.curfn.append(f)
    x = fresh('block')
    for o in outs:
        r.paths += 1
        ex.prove(o.st, 'exactly the blocks of the list are released', released(w, g, a0, w.at(o.st, *g), x))
    some_path(ex, outs, '~MemoryMap()')
    r.absorb(ex)


def task_clear(ctx, r):
    ex, st, w, g, nx0 = start(ctx, r)
    f = ctx.find(r'^MemoryMap::clear\(\)$')
    r.functions.append(ctx.mod.dem[f.name])
    a0 = w.at(st.copy(), *g)
    ex.loopspecs += [release_specs(w, g), fill_specs(w, g)]
    outs = ex.run(f, [w.this], st)
    ex.curfn.append(f)
    x = fresh('block')
    for o in outs:
        r.paths += 1
        prove_inv(ex, w, o.st, empty(w, ex, o.st, g), 'cleared map is empty')
        o.st.assume(x < nx0)
        ex.prove(o.st, 'exactly the blocks of the list are released', released(w, g, a0, w.at(o.st, *g), x))
    some_path(ex, outs, 'clear()')
    r.absorb(ex)


def newnode(ex, w, st, g, nx0):
    """(node, its level) if this state has just built a node from two new blocks"""
    c = w.at(st, *g)
    for n, a in ((nx0, nx0 + 1), (nx0 + 1, nx0)):
        if ex.entails(st, z3.simplify(c.ar(n)) == z3.simplify(a)):
            return n, z3.simplify(z3.Select(c.bs, a) / 8 - 1)
    return None, None


def link_specs(w, g, nx0, key):
    """insertion: on the levels done, the predecessor of the key points to the new node"""
    def ls(ex, L_, st0, leaves):
        if L_.parent is not None or ('g', 'H:ptr') not in L_.mod:
            return
        N, lv = newnode(ex, w, st0, g, nx0)
        if N is None:
            return
        x, j, y = z3.Ints('x j y')
        c0 = w.at(st0, *g)
        for o, p in ints_of(ex, L_, leaves):
            i = lambda s, o=o, p=p: ex.get(s, o, p)

            def link(L_, s, k, i=i):
                c = w.at(s, *g)
                old = c0.nx(x, j)
                return FA([x, j], z3.Implies(z3.And(c.mem(x), 1 <= j, j <= c.lv(x)), c.nx(x, j) == z3.If(
                    z3.And(j > i(s), j <= lv, c.ks(x) < key, key < c0.k(old)), N, old)), c.nx(x, j))

            def own(L_, s, k, i=i):
                c = w.at(s, *g)
                n = c.nx(N, j)
                return FA([j], z3.Implies(z3.And(j > i(s), j <= lv), z3.And(c.mem(n), c.lv(n) >= j, c.k(n) > key)), n)

            def least(L_, s, k, i=i):
                c = w.at(s, *g)
                n = c.nx(N, j)
                return FA([j, y], z3.Implies(z3.And(j > i(s), j <= lv, c.s(y), c.lv(y) >= j, c.k(y) > key), c.k(y) >= c.k(n)), z3.MultiPattern(n, c.s(y)))
            yield ('links to the new node on the levels done', link)
            yield ('the new node points to a later node', own)
            yield ('the new node points to the next one', least)
    return ls


def unlink_specs(w, g, key):
    def ls(ex, L_, st0, leaves):
        x, j, y = z3.Ints('x j y')
        X = z3.Select(g[1], key)
        at = lambda s: w.at(s, *g)
        c0 = at(st0)
        # the predecessors remembered while walking
        arrs = [(o, p) for o, p, v in leaves if isinstance(v, ArrV)]
        for o, p in arrs:
            U = lambda s, o=o, p=p: ex.get(s, o, p).t
            for o2, p2 in ints_of(ex, L_, leaves):
                i = lambda s, o2=o2, p2=p2: ex.get(s, o2, p2)

                def pred(L_, s, k, U=U, i=i):
                    c, u = at(s), z3.Select(U(s), j)
                    return FA([j], z3.Implies(z3.And(j > i(s), j <= c.h), z3.And(c.mem(u), c.ks(u) < key, c.lv(u) >= j)), u)

                def last(L_, s, k, U=U, i=i):
                    c, u = at(s), z3.Select(U(s), j)
                    return FA([j, y], z3.Implies(z3.And(j > i(s), j <= c.h, c.s(y), c.lv(y) >= j, c.k(y) < key), c.k(y) <= c.ks(u)), z3.MultiPattern(u, c.s(y)))
                yield ('remembered nodes are before the key', pred)
                yield ('remembered nodes are the last before the key', last)
        if ('g', 'H:ptr') in L_.mod:
            for o2, p2 in ints_of(ex, L_, leaves):
                i = lambda s, o2=o2, p2=p2: ex.get(s, o2, p2)

                def un(L_, s, k, i=i):
                    c = at(s)
                    old = c0.nx(x, j)
                    return FA([x, j], z3.Implies(z3.And(c.mem(x), 1 <= j, j <= c.lv(x)), c.nx(x, j) == z3.If(
                        z3.And(j < i(s), old == X), c0.nx(X, j), old)), c.nx(x, j))
                yield ('unlinked on the levels done', un)
                yield ('levels done belong to the node', lambda L_, s, k, i=i: z3.And(i(s) >= 1, i(s) <= at(s).lv(X) + 1))
        # the height may drop while its level is empty
        if w.this.obj in L_.mod:
            yield ('height in range', lambda L_, s, k: z3.And(at(s).h >= 1, at(s).h <= MAXH))
            yield ('levels above the height are empty', lambda L_, s, k: FA([j], z3.Implies(z3.And(j > at(s).h, j <= MAXH), at(s).nx(w.H, j) == w.H), at(s).nx(w.H, j)))
            yield ('nodes fit the height', lambda L_, s, k: FA([y], z3.Implies(z3.And(at(s).s(y), y != X), at(s).lv(y) <= at(s).h), at(s).s(y)))
    return ls


def level_specs(w):
    def ls(ex, L_, st0, leaves):
        for o, p, v in leaves:
            if z3.is_expr(v) and z3.is_int(v) and p[-1:] not in (('hpref',), ('hpidx',)):
                yield ('level drawn in range', lambda L_, s, k, o=o, p=p: z3.And(ex.get(s, o, p) >= 1, ex.get(s, o, p) <= MAXH))
    return ls


def task_update(which):
    return lambda ctx, r: update(ctx, r, which)


def update(ctx, r, which):
    ex, st, w, g, nx0 = start(ctx, r)
    f = ctx.find(r'^MemoryMap::updateMemoryMap\(TraceBufferSize const&\)$')
    r.functions.append(ctx.mod.dem[f.name])
    e = sym(T.TBS, 'entry')
    ep = put(st, T.TBS, e, 'entry')
    a, n = T.TBS.acc['addr'](e), T.TBS.acc['size'](e)
    ex.loopspecs += [level_specs(w), walk_specs(w, g, a), link_specs(w, g, nx0, a), unlink_specs(w, g, a)]
    S, ND, LV, OW, A = g
    st.assume({'release': n == 0, 'replace': z3.And(n != 0, z3.Select(A, a) != 0), 'add': z3.And(n != 0, z3.Select(A, a) == 0)}[which])
    a0 = w.at(st.copy(), *g)
    ex.vacuity(st, 'representation invariant')
    outs = ex.run(f, [w.this, ep], st)
    ex.curfn.append(f)
    b = fresh('block')
    X = z3.Select(ND, a)
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'the update returns', z3.BoolVal(False))
            continue
        live = z3.Select(A, a) != 0
        for nm, cond in (('reserved address changes nothing', a == MAX), ('release of an unknown address changes nothing', z3.And(a != MAX, n == 0, z3.Not(live))),
                         ('release removes the allocation', z3.And(a != MAX, n == 0, live)), ('a new size replaces the old one', z3.And(a != MAX, n != 0, live)),
                         ('a new allocation is added', z3.And(a != MAX, n != 0, z3.Not(live)))):
            s = o.st.copy()
            s.assume(cond)
            if ex.contradictory(s):
                continue
            c = w.at(s, *g)
            bal = z3.Select(c.al, b) == z3.Select(a0.al, b)
            if nm.startswith('release r'):
                g2 = [z3.Store(S, X, False), z3.Store(ND, a, iv(0)), LV, OW, z3.Store(A, a, iv(0))]
                bal = z3.Select(c.al, b) == z3.And(z3.Select(a0.al, b), b != X, b != a0.ar(X))
            elif nm.startswith('a new size'):
                g2 = [S, ND, LV, OW, z3.Store(A, a, n)]
            elif nm.startswith('a new alloc'):
                N, lv = newnode(ex, w, s, g, nx0)
                if N is None:
                    raise Unsupported('insertion does not build a node from two new blocks')
                ar = nx0 + nx0 + 1 - N
                g2 = [z3.Store(S, N, True), z3.Store(ND, a, N), z3.Store(LV, N, lv), z3.Store(z3.Store(OW, N, N), ar, N), z3.Store(A, a, n)]
                bal = z3.Select(c.al, b) == z3.Or(z3.Select(a0.al, b), b == nx0, b == nx0 + 1)
            else:
                g2 = g
            prove_inv(ex, w, s, g2, nm)
            ex.prove(s, nm + ': no other block is released or kept', bal)
    some_path(ex, outs, 'updateMemoryMap')
    r.absorb(ex)


TASKS = [("size at an address", task_size), ("new map", task_new), ("clear", task_clear), ("destructor", task_delete), ("release", task_update("release")),
         ("replace", task_update("replace")), ("add", task_update("add"))]
