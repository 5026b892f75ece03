"""Shared specification of queries (C05, C06, C08): folds over the trace and their contracts."""
import re
import z3
import theory as T
import lib as L
from base import *
from ir import Ty
from props import c07

VS = T.STVI.sort
U, VU = T.SU32, T.KVU32.seq
sat = c07.sat
bd = z3.Function('bound', VS, U.sort, Int, VS)              # variables bound by b[0..k-1]
mv = z3.Function('matching', VS, T.FV.sort, Int, U.sort)     # indices < k of variables compatible with a free variable
compat = z3.Function('compatible', T.FV.sort, T.TVI.sort, Bool)
prod = z3.Function('prod', VU.sort, Int, Int)               # product of the first k lengths
quo = z3.Function('quo', VU.sort, Int, Int, Int)            # quotient left after v digits of number i
combo = z3.Function('combo', VU.sort, Int, U.sort)          # i-th combination
cart = z3.Function('cart', VU.sort, Int, VU.sort)           # the first k combinations
MV = z3.Function('Matching', VS, T.SFV.sort, VU.sort)       # matching indices of every free variable
i, j, k, u = z3.Ints('i j k u')
vs_, fv_, b_, w_, fvs_ = z3.Const('vs', VS), z3.Const('fv', T.FV.sort), z3.Const('b', U.sort), z3.Const('w', VU.sort), z3.Const('fvs', T.SFV.sort)


def compat_def(fv, t):
    ty = T.FV.acc['types'](fv)
    return z3.Not(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < U.len(ty)), U.at(ty, j) != T.TVI.acc['type'](t)),
                            patterns=[U.at(ty, j)]))


def digit(w, i, v):
    return quo(w, i, v) % U.len(VU.at(w, v))


BIND_AX = [
    z3.ForAll([vs_, b_], bd(vs_, b_, 0) == T.STVI.empty, patterns=[bd(vs_, b_, 0)]),
    z3.ForAll([vs_, b_, k], z3.Implies(k >= 0, bd(vs_, b_, k + 1) == T.STVI.push(bd(vs_, b_, k), T.STVI.at(vs_, U.at(b_, k)))),
              patterns=[z3.MultiPattern(bd(vs_, b_, k), mark(k))])]
# consequences of BIND_AX by induction, proved by lemma_bound
BIND_LEMMA = [
    z3.ForAll([vs_, b_, k], z3.Implies(k >= 0, T.STVI.len(bd(vs_, b_, k)) == k), patterns=[bd(vs_, b_, k)]),
    z3.ForAll([vs_, b_, k, j], z3.Implies(z3.And(j >= 0, j < k), T.STVI.at(bd(vs_, b_, k), j) == T.STVI.at(vs_, U.at(b_, j))),
              patterns=[T.STVI.at(bd(vs_, b_, k), j)])]
MATCH_AX = [
    z3.ForAll([vs_, fv_], mv(vs_, fv_, 0) == U.empty, patterns=[mv(vs_, fv_, 0)]),
    z3.ForAll([vs_, fv_, k], z3.Implies(k >= 0, mv(vs_, fv_, k + 1) == z3.If(
        compat(fv_, T.STVI.at(vs_, k)), U.push(mv(vs_, fv_, k), k), mv(vs_, fv_, k))),
        patterns=[z3.MultiPattern(mv(vs_, fv_, k), mark(k))]),
    z3.ForAll([vs_, fvs_], VU.len(MV(vs_, fvs_)) == T.SFV.len(fvs_), patterns=[MV(vs_, fvs_)]),
    z3.ForAll([vs_, fvs_, i], z3.Implies(z3.And(i >= 0, i < T.SFV.len(fvs_)),
                                         VU.at(MV(vs_, fvs_), i) == mv(vs_, T.SFV.at(fvs_, i), T.STVI.len(vs_))),
              patterns=[VU.at(MV(vs_, fvs_), i)])]
MATCH_LEMMA = [   # proved by lemma_match
    z3.ForAll([vs_, fv_, k, j], z3.Implies(z3.And(k >= 0, j >= 0, j < U.len(mv(vs_, fv_, k))), z3.And(
        U.at(mv(vs_, fv_, k), j) >= 0, U.at(mv(vs_, fv_, k), j) < k)), patterns=[U.at(mv(vs_, fv_, k), j)])]
CART_AX = [
    z3.ForAll([w_], prod(w_, 0) == 1, patterns=[prod(w_, 0)]),
    z3.ForAll([w_, k], z3.Implies(k >= 0, prod(w_, k + 1) == prod(w_, k) * U.len(VU.at(w_, k))), patterns=[z3.MultiPattern(prod(w_, k), mark(k))]),
    z3.ForAll([w_, i], quo(w_, i, 0) == i, patterns=[quo(w_, i, 0)]),
    z3.ForAll([w_, i, k], z3.Implies(k >= 0, quo(w_, i, k + 1) == quo(w_, i, k) / U.len(VU.at(w_, k))), patterns=[z3.MultiPattern(quo(w_, i, k), mark(k))]),
    z3.ForAll([w_, i], U.len(combo(w_, i)) == VU.len(w_), patterns=[combo(w_, i)]),
    z3.ForAll([w_, i, u], z3.Implies(z3.And(u >= 0, u < VU.len(w_)), U.at(combo(w_, i), u) == U.at(VU.at(w_, u), digit(w_, i, u))),
              patterns=[U.at(combo(w_, i), u)]),
    z3.ForAll([w_], cart(w_, 0) == VU.empty, patterns=[cart(w_, 0)]),
    z3.ForAll([w_, k], z3.Implies(k >= 0, cart(w_, k + 1) == VU.push(cart(w_, k), combo(w_, k))), patterns=[z3.MultiPattern(cart(w_, k), mark(k))])]
CART_LEMMA = [   # proved by lemma_cart
    z3.ForAll([w_, k], z3.Implies(k >= 0, VU.len(cart(w_, k)) == k), patterns=[cart(w_, k)]),
    z3.ForAll([w_, k, i], z3.Implies(z3.And(i >= 0, i < k), VU.at(cart(w_, k), i) == combo(w_, i)), patterns=[VU.at(cart(w_, k), i)]),
    z3.ForAll([w_, u], z3.Implies(z3.And(u >= 0, u < VU.len(w_), prod(w_, VU.len(w_)) > 0), U.len(VU.at(w_, u)) > 0),
              patterns=[VU.at(w_, u)]),
    z3.ForAll([w_, k], z3.Implies(k >= 0, prod(w_, k) >= 0), patterns=[prod(w_, k)]),
    z3.ForAll([w_, i, k], z3.Implies(z3.And(k >= 0, i >= 0, k <= VU.len(w_), prod(w_, VU.len(w_)) > 0), quo(w_, i, k) >= 0),
              patterns=[quo(w_, i, k)])]


def bound(vs, b):
    return bd(vs, b, U.len(b))


def vars_of(tp):
    return T.TPD.acc['vars'](T.TP.acc['data'](tp))


def rebind(tp, b):
    """the result of binding b at point tp"""
    d = T.TP.acc['data'](tp)
    return T.TP.mk(T.TP.acc['counter'](tp), T.TP.acc['stmt'](tp),
                   T.TPD.mk(T.TPD.acc['sizes'](d), bound(T.TPD.acc['vars'](d), b), T.TPD.acc['aux'](d)))


# results at one point
hardk = z3.Function('hard_results', T.TP.sort, T.SFV.sort, T.PredSort, Int, T.STP.sort)
tp_, p_, sp_ = z3.Const('tp', T.TP.sort), z3.Const('p', T.PredSort), z3.Const('sp', T.SPRED.sort)
_mv = MV(vars_of(tp_), fvs_)
_b = combo(_mv, k)
HARD_AX = [
    z3.ForAll([tp_, fvs_, p_], hardk(tp_, fvs_, p_, 0) == T.STP.empty, patterns=[hardk(tp_, fvs_, p_, 0)]),
    z3.ForAll([tp_, fvs_, p_, k], z3.Implies(k >= 0, hardk(tp_, fvs_, p_, k + 1) == z3.If(
        sat(bound(vars_of(tp_), _b), p_), T.STP.push(hardk(tp_, fvs_, p_, k), rebind(tp_, _b)), hardk(tp_, fvs_, p_, k))),
        patterns=[z3.MultiPattern(hardk(tp_, fvs_, p_, k), mark(k))])]


def hard(tp, fvs, p):
    w = MV(vars_of(tp), fvs)
    return hardk(tp, fvs, p, prod(w, VU.len(w)))


# soft predicates
cntk = z3.Function('soft_count', VS, T.SPRED.sort, Int, Int)        # how many of the first k soft predicates hold
mxk = z3.Function('soft_max', T.STP.sort, T.SPRED.sort, Int, Int)   # best count among the first k results
keepk = z3.Function('soft_keep', T.STP.sort, T.SPRED.sort, Int, T.STP.sort)
rs_ = z3.Const('rs', T.STP.sort)


def cnt(tp, sp):
    return cntk(vars_of(tp), sp, T.SPRED.len(sp))


def best(rs, sp):
    return mxk(rs, sp, T.STP.len(rs))


_c = cnt(T.STP.at(rs_, k), sp_)
SOFT_AX = [
    z3.ForAll([vs_, sp_], cntk(vs_, sp_, 0) == 0, patterns=[cntk(vs_, sp_, 0)]),
    z3.ForAll([vs_, sp_, k], z3.Implies(k >= 0, cntk(vs_, sp_, k + 1) == cntk(vs_, sp_, k) + z3.If(
        sat(vs_, T.SPRED.at(sp_, k)), 1, 0)), patterns=[z3.MultiPattern(cntk(vs_, sp_, k), mark(k))]),
    z3.ForAll([rs_, sp_], mxk(rs_, sp_, 0) == 0, patterns=[mxk(rs_, sp_, 0)]),
    z3.ForAll([rs_, sp_, k], z3.Implies(k >= 0, mxk(rs_, sp_, k + 1) == z3.If(mxk(rs_, sp_, k) < _c, _c, mxk(rs_, sp_, k))),
              patterns=[z3.MultiPattern(mxk(rs_, sp_, k), mark(k))]),
    z3.ForAll([rs_, sp_], keepk(rs_, sp_, 0) == T.STP.empty, patterns=[keepk(rs_, sp_, 0)]),
    z3.ForAll([rs_, sp_, k], z3.Implies(k >= 0, keepk(rs_, sp_, k + 1) == z3.If(
        _c == best(rs_, sp_), T.STP.push(keepk(rs_, sp_, k), T.STP.at(rs_, k)), keepk(rs_, sp_, k))),
        patterns=[z3.MultiPattern(keepk(rs_, sp_, k), mark(k))])]
SOFT_LEMMA = [z3.ForAll([vs_, sp_, k], z3.Implies(k >= 0, z3.And(cntk(vs_, sp_, k) >= 0, cntk(vs_, sp_, k) <= k)), patterns=[cntk(vs_, sp_, k)])]


def atpoint(tp, fvs, p, sp):
    h = hard(tp, fvs, p)
    return z3.If(T.SPRED.len(sp) == 0, h, keepk(h, sp, T.STP.len(h)))


def induction(ex, st, name, P, hyps=lambda n: [], split=None):
    """P(0), and P(n) => P(n+1) for a fixed arbitrary n (split: case distinction on a constant being n)"""
    ex.prove(st, 'lemma %s: base' % name, P(iv(0)))
    s = st.copy()
    n = fresh('n')
    s.assume(n >= 0, mark(n), P(n), *hyps(n))
    g = P(n + 1)
    if split is None:
        ex.prove(s, 'lemma %s: step' % name, g)
        return
    ex.prove(s, 'lemma %s: step at the new element' % name, z3.substitute(g, (split, n)))
    s.assume(split != n)
    ex.prove(s, 'lemma %s: step elsewhere' % name, g)


# ---------------------------------------------------------------- contracts at call sites
def c_typecompat(ex, st, args, dem):
    fv = T.FV.term(ex, st, ex.read(st, args[0]))
    tv = T.TVI.term(ex, st, ex.read(st, args[1]))
    return [Out(st, 'ret', compat(fv, tv))]


def wf_for(n, p):
    """p is well formed for every binding of n variables"""
    return z3.ForAll([vs_], z3.Implies(T.STVI.len(vs_) == n, c07.wfb(vs_, p)), patterns=[sat(vs_, p)])


def c_satisfies(ex, st, args, dem):
    tp = T.TP.term(ex, st, ex.read(st, args[0]))
    p = T.PRED.term(ex, st, ex.read(st, args[1]))
    b = ex.read(st, args[2])
    vs = vars_of(tp)
    q = fresh('bi')
    ex.prove(st, 'bindings passed to satisfiesPredicate are in range', z3.Implies(
        z3.And(q >= 0, q < U.len(b.t)), U.at(b.t, q) < T.STVI.len(vs)))
    r = sat(bound(vs, b.t), p)
    return [Out(st, 'ret', r)]


RX_TC = re.compile(r'^Trace::typeCompatible\(')
RX_SP = re.compile(r'^TracePoint::satisfiesPredicate\(')
RX_CART = re.compile(r'^Trace::cartesian\(')
RX_COL = re.compile(r'^Trace::collectResultsAtPoint\(')
RX_GP = re.compile(r'^Trace::getPoints\(unsigned long, unsigned long\) const$')


def c_cartesian(hint):
    def h(ex, st, args, dem):
        w = ex.read(st, args[1])
        if not (isinstance(w, VecV) and w.kind is T.KVU32):
            raise Unsupported('cartesian argument')
        for x in hint:
            st.assume(VU.ext(w.t, x))
        n = prod(w.t, VU.len(w.t))
        st.assume(n < T.MAXLEN)
        ex.write(st, args[0], VecV(T.KVU32, cart(w.t, n)))
        return [Out(st, 'ret')]
    return h


# ---------------------------------------------------------------- tasks
def task_typecompat(ctx, r):
    ex = ctx.exec()
    f = ctx.find(RX_TC.pattern)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    fv, tv = sym(T.FV, 'fv'), sym(T.TVI, 'tv')
    ty = T.FV.acc['types'](fv)

    def ls(ex, L_, st0, leaves):
        yield ('no allowed type so far matches', lambda L_, s, k: z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < k), U.at(ty, j) != T.TVI.acc['type'](tv)), patterns=[U.at(ty, j)]))
    ex.loopspecs.append(ls)
    ex.extra_bounds = [('types', U.len(ty))]
    outs = ex.run(f, [put(st, T.FV, fv, 'free_var'), put(st, T.TVI, tv, 'real_var')], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'typeCompatible returns', z3.BoolVal(False))
            continue
        ex.prove(o.st, 'compatible exactly when the type is among the allowed ones', o.val == compat_def(fv, tv))
    ex.vacuity(outs[0].st, 'typeCompatible')
    r.absorb(ex)


def task_cartesian(ctx, r):
    ex = ctx.exec(CART_AX + CART_LEMMA)
    f = ctx.find(RX_CART.pattern)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    w = z3.Const('vectors', VU.sort)
    st.assume(*T.KVU32.vfacts(w))
    N = VU.len(w)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= N), prod(w, k) < T.MAXLEN), patterns=[prod(w, k)]),
              z3.ForAll([k], z3.And(U.len(VU.at(w, k)) >= 0, U.len(VU.at(w, k)) < T.MAXLEN), patterns=[VU.at(w, k)]))
    wp = ex.new_obj(st, 'vectors', None, VecV(T.KVU32, w))
    res = ex.new_obj(st, 'result', None, UNDEF_)
    ex.extra_bounds = [('vectors', N), ('combinations', prod(w, N))]

    def ls(ex, L_, st0, leaves):
        seqs = [v for o, path, v in leaves if isinstance(v, VecV)]
        if sum(v.kind is not T.KVU32 for v in seqs) > 1 or sum(v.kind is T.KVU32 for v in seqs) > 1:
            raise Unsupported('an enumeration that keeps more sequences than the combination and the results')
        for o, path, v in leaves:
            if z3.is_expr(v) and z3.is_int(v):
                yield ('product', lambda L_, s, k, o=o, path=path: ex.get(s, o, path) == prod(w, k))
                if L_.parent is not None:
                    yield ('quotient', lambda L_, s, k, o=o, path=path: ex.get(s, o, path) == quo(w, L_.parent.k, k))
            if isinstance(v, VecV) and v.kind is T.KU32:
                yield ('length kept', lambda L_, s, k, o=o, path=path: U.len(ex.get(s, o, path).t) == N)
                yield ('length so far', lambda L_, s, k, o=o, path=path: U.len(ex.get(s, o, path).t) == k)
                if L_.parent is not None:
                    yield ('digits so far', lambda L_, s, k, o=o, path=path: z3.ForAll([u], z3.Implies(
                        z3.And(u >= 0, u < k), U.at(ex.get(s, o, path).t, u) == U.at(VU.at(w, u), digit(w, L_.parent.k, u))),
                        patterns=[U.at(ex.get(s, o, path).t, u)]))
            if isinstance(v, VecV) and v.kind is T.KVU32:
                def cands(L_, s, k, o=o, path=path):
                    for x in list(s.mem.values()):
                        if isinstance(x, VecV) and x.kind is T.KU32:
                            s.assume(U.ext(x.t, combo(w, z3.simplify(k - 1))))
                    return ex.get(s, o, path).t == cart(w, k)
                yield ('combinations so far', cands)
    ex.loopspecs.append(ls)
    outs = ex.run(f, [res, wp], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'cartesian returns', z3.BoolVal(False))
            continue
        ex.prove(o.st, 'all combinations, each once, in mixed-radix order', ex.read(o.st, res).t == cart(w, prod(w, N)))
    ex.vacuity(outs[0].st, 'cartesian')
    r.absorb(ex)


from sx import UNDEF as UNDEF_


def ctx_hard(ctx, r, ex):
    r.absorb(ex)
    return ctx.exec(BIND_AX + BIND_LEMMA + MATCH_AX + CART_AX + HARD_AX)


def task_lemmas(ctx, r):
    """inductive lemmas about the specification (no code involved)"""
    ex = ctx.exec(BIND_AX + MATCH_AX + CART_AX + SOFT_AX)
    st = newstate()
    w, vs, b, fv = z3.Const('W', VU.sort), z3.Const('VS', VS), z3.Const('B', U.sort), z3.Const('FV', T.FV.sort)
    sp, rs = z3.Const('SP', T.SPRED.sort), z3.Const('RS', T.STP.sort)
    q, x = z3.Ints('q x')
    st.assume(q >= 0, x >= 0)
    def ind(*a):
        induction(ex, st, *a)
    ind('length of a binding', lambda n: T.STVI.len(bd(vs, b, n)) == n)
    ind('element of a binding', lambda n: z3.And(T.STVI.len(bd(vs, b, n)) == n, z3.Implies(
        q < n, T.STVI.at(bd(vs, b, n), q) == T.STVI.at(vs, U.at(b, q)))))
    ind('matching indices are in range', lambda n: z3.Implies(q < U.len(mv(vs, fv, n)), z3.And(
        U.at(mv(vs, fv, n), q) >= 0, U.at(mv(vs, fv, n), q) < n)))
    ind('every compatible variable is listed', lambda n: z3.Implies(
        z3.And(q < n, compat(fv, T.STVI.at(vs, q))), listed(mv(vs, fv, n), q)),
        lambda n: [listed_ax(mv(vs, fv, n), mv(vs, fv, n + 1), n)])
    ind('only compatible variables are listed', lambda n: z3.Implies(
        q < U.len(mv(vs, fv, n)), compat(fv, T.STVI.at(vs, U.at(mv(vs, fv, n), q)))))
    y = z3.Int('y')
    rng = lambda n: z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < U.len(mv(vs, fv, n))), U.at(mv(vs, fv, n), y) < n),
                              patterns=[U.at(mv(vs, fv, n), y)])
    ind('no variable is listed twice', lambda n: z3.Implies(z3.And(q < x, x < U.len(mv(vs, fv, n))),
                                                          U.at(mv(vs, fv, n), q) != U.at(mv(vs, fv, n), x)),
        lambda n: [rng(n)])
    ind('number of combinations', lambda n: VU.len(cart(w, n)) == n)
    ind('each combination', lambda n: z3.And(VU.len(cart(w, n)) == n, z3.Implies(q < n, VU.at(cart(w, n), q) == combo(w, q))))
    ind('product is not negative', lambda n: prod(w, n) >= 0)
    ind('an empty factor makes the product empty', lambda n: z3.Implies(
        z3.And(q < n, U.len(VU.at(w, q)) == 0), prod(w, n) == 0),
        lambda n: [z3.Implies(z3.Or(prod(w, n) == 0, U.len(VU.at(w, n)) == 0), prod(w, n) * U.len(VU.at(w, n)) == 0), mark(prod(w, n))], q)
    ind('quotients are not negative', lambda n: quo(w, x, n) >= 0, lambda n: [U.len(VU.at(w, n)) > 0])
    # mixed radix is a bijection between numbers below the product and choices of one index per list
    d, nn, e, s_, qq = z3.Ints('d n E S Q')
    s2 = st.copy()
    s2.assume(nn > 0, d >= 0, d < nn, e >= 0, e < s_)
    div = [('last digit is recovered', (d + nn * e) % nn == d), ('quotient is recovered', (d + nn * e) / nn == e),
           ('the number is in range', z3.And(d + nn * e >= 0, d + nn * e < nn * s_))]
    for nm, fm in div:
        ex.prove(s2, 'lemma digits: ' + nm, fm)
    inst = lambda D, n_, E, S: [z3.substitute(z3.Implies(z3.And(nn > 0, d >= 0, d < nn, e >= 0, e < s_), fm),
                                              (d, D), (nn, n_), (e, E), (s_, S)) for _, fm in div]
    s3 = st.copy()
    s3.assume(nn > 0, qq >= 0)
    dm = z3.And(qq == nn * (qq / nn) + qq % nn, qq / nn >= 0, qq % nn >= 0, qq % nn < nn)
    ex.prove(s3, 'lemma digits: division with remainder', dm)
    P, S1 = z3.Ints('P S1')
    assoc = (P * nn) * S1 == P * (nn * S1)
    ex.prove(st, 'lemma digits: prefix and suffix products agree', assoc)
    ln = lambda n: U.len(VU.at(w, n))
    X, Y = z3.Ints('X Y')
    st4 = st.copy()
    st4.assume(X >= 0, Y >= 0)
    ind4 = lambda *a: induction(ex, st4, *a)
    dinst = lambda Q_, n_: z3.substitute(z3.Implies(z3.And(nn > 0, qq >= 0), dm), (qq, Q_), (nn, n_))
    both = lambda n: [ln(n) > 0, quo(w, X, n) >= 0, quo(w, Y, n) >= 0, dinst(quo(w, X, n), ln(n)), dinst(quo(w, Y, n), ln(n))]
    agree = z3.Function('agree', Int, Bool)     # the first n digits of X and Y agree
    ind4('numbers with the same digits and quotient are the same', lambda n: z3.Implies(
        z3.And(agree(n), quo(w, X, n) == quo(w, Y, n)), X == Y),
        lambda n: both(n) + [agree(n + 1) == z3.And(agree(n), digit(w, X, n) == digit(w, Y, n)),
                             z3.Implies(z3.And(quo(w, X, n) / ln(n) == quo(w, Y, n) / ln(n), digit(w, X, n) == digit(w, Y, n)),
                                        ln(n) * (quo(w, X, n) / ln(n)) == ln(n) * (quo(w, Y, n) / ln(n)))])
    A_, B_, C_ = z3.Ints('A B C')
    mono = z3.Implies(z3.And(A_ >= 0, B_ >= C_), A_ * B_ >= A_ * C_)
    ex.prove(st, 'lemma digits: multiplication is monotone', mono)
    ind4('the quotient is what is left', lambda n: quo(w, X, n) * prod(w, n) <= X,
         lambda n: [ln(n) > 0, quo(w, X, n) >= 0, prod(w, n) >= 0, dinst(quo(w, X, n), ln(n)),
                    z3.substitute(mono, (A_, prod(w, n)), (B_, quo(w, X, n)), (C_, ln(n) * (quo(w, X, n) / ln(n)))),
                    z3.substitute(assoc, (P, prod(w, n)), (nn, ln(n)), (S1, quo(w, X, n) / ln(n)))])
    s5 = st4.copy()
    s5.assume(P > 0, X < P, S1 >= 0, S1 * P <= X)
    ex.prove(s5, 'lemma digits: nothing is left of a number below the product', S1 == 0)
    num, suf, dg = z3.Function('number', Int, Int), z3.Function('suffix', Int, Int), z3.Function('dig', Int, Int)
    N = z3.Int('N')
    sufd = lambda n: z3.And(num(n) == dg(n) + ln(n) * num(n + 1), suf(n) == ln(n) * suf(n + 1), ln(n) > 0, dg(n) >= 0, dg(n) < ln(n))
    # downwards induction: number(N) = 0 < 1 = suffix(N)
    n0 = z3.Int('m')
    s6 = st.copy()
    s6.assume(n0 >= 0, sufd(n0), num(n0 + 1) >= 0, num(n0 + 1) < suf(n0 + 1), *inst(dg(n0), ln(n0), num(n0 + 1), suf(n0 + 1)))
    ex.prove(s6, 'lemma digits: a choice of digits is a number below the product', z3.And(num(n0) >= 0, num(n0) < suf(n0)))
    ind('the digits of that number are the chosen ones', lambda n: quo(w, num(0), n) == num(n),
        lambda n: [sufd(n), num(n + 1) >= 0, num(n + 1) < suf(n + 1)] + inst(dg(n), ln(n), num(n + 1), suf(n + 1)))
    s6.assume(quo(w, num(0), n0) == num(n0))
    ex.prove(s6, 'lemma digits: each chosen digit is recovered', digit(w, num(0), n0) == dg(n0))
    ind('the range is the product', lambda n: prod(w, n) * suf(n) == suf(0), lambda n: [
        sufd(n), z3.substitute(assoc, (P, prod(w, n)), (nn, ln(n)), (S1, suf(n + 1)))])
    ind('soft counts are bounded', lambda n: z3.And(cntk(vs, sp, n) >= 0, cntk(vs, sp, n) <= n))
    c = lambda z: cnt(T.STP.at(rs, z), sp)
    ind('the best count is an upper bound', lambda n: z3.Implies(q < n, c(q) <= mxk(rs, sp, n)), lambda n: [mark(mxk(rs, sp, n))], q)
    g = z3.Function('achieved', Int, Int)
    ind('the best count is achieved', lambda n: z3.Or(n == 0, z3.And(g(n) >= 0, g(n) < n, mxk(rs, sp, n) == c(g(n)))),
        lambda n: [z3.If(z3.Or(mxk(rs, sp, n) < c(n), n == 0), g(n + 1) == n, g(n + 1) == g(n)), c(n) >= 0,
                   z3.Implies(g(n + 1) == n, c(g(n + 1)) == c(n)), z3.Implies(g(n + 1) == g(n), c(g(n + 1)) == c(g(n)))])
    # hard results have one variable per free variable
    ex = ctx_hard(ctx, r, ex)
    tp, fvs, p = z3.Const('TPX', T.TP.sort), z3.Const('FVS', T.SFV.sort), z3.Const('PX', T.PredSort)
    ind('hard results have one variable per free variable', lambda n: z3.Implies(
        q < T.STP.len(hardk(tp, fvs, p, n)), T.STVI.len(vars_of(T.STP.at(hardk(tp, fvs, p, n), q))) == T.SFV.len(fvs)))
    r.absorb(ex)
    r.paths += 1


_pos = z3.Function('pos', U.sort, Int, Int)


def listed(s, x):
    return z3.And(_pos(s, x) >= 0, _pos(s, x) < U.len(s), U.at(s, _pos(s, x)) == x)


def listed_ax(s, t, n):
    """choice of a position witness in t from one in s"""
    x = z3.Int('x')
    return z3.ForAll([x], _pos(t, x) == z3.If(x == n, U.len(s), _pos(s, x)), patterns=[_pos(t, x)])


def task_collect(soft):
    def task(ctx, r):
        ex = ctx.exec(BIND_AX + BIND_LEMMA + MATCH_AX + MATCH_LEMMA + CART_AX + CART_LEMMA + HARD_AX + (SOFT_AX + SOFT_LEMMA if soft else []))
        f = ctx.find(RX_COL.pattern)
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        tp, fvs, p, sp = sym(T.TP, 'point'), z3.Const('variables', T.SFV.sort), z3.Const('hard', T.PredSort), z3.Const('soft', T.SPRED.sort)
        vs = vars_of(tp)
        nf, nv = T.SFV.len(fvs), T.STVI.len(vs)
        w = MV(vs, fvs)
        np_ = prod(w, VU.len(w))
        st.assume(*T.KFV.vfacts(fvs))
        st.assume(*T.KPRED.vfacts(sp))
        st.assume(*T.KTVI.vfacts(vs))
        st.assume(np_ < T.MAXLEN, z3.Implies(nf == 0, T.PRED.acc['kind'](p) == 0))
        st.assume((T.SPRED.len(sp) > 0) if soft else (T.SPRED.len(sp) == 0))
        ex.contracts += [(RX_TC, c_typecompat), (RX_CART, c_cartesian([w])), (RX_SP, c_satisfies)]
        args = [ex.new_obj(st, 'result', None, UNDEF_), ex.new_obj(st, 'trace', None, UNDEF_), put(st, T.TP, tp, 'current'),
                ex.new_obj(st, 'variables', None, VecV(T.KFV, fvs)), put(st, T.PRED, p, 'hard'),
                ex.new_obj(st, 'soft', None, VecV(T.KPRED, sp))]
        H = hard(tp, fvs, p)
        nh = T.STP.len(H)
        ex.extra_bounds = [('free variables', nf), ('variables', nv), ('combinations', np_), ('soft', T.SPRED.len(sp)), ('hard results', nh)]
        g = z3.Int('g')
        fv = lambda x: T.SFV.at(fvs, x)

        def ls(ex, L_, st0, leaves):
            P = L_.parent
            for o, path, v in leaves:
                get = lambda s, o=o, path=path: ex.get(s, o, path)
                if isinstance(v, VecV) and v.kind is T.KVU32:
                    yield ('number of matching lists', lambda L_, s, k, get=get: VU.len(get(s).t) == nf)
                    if P is None:
                        yield ('matching lists so far', lambda L_, s, k, get=get: z3.ForAll([g], z3.Implies(
                            z3.And(g >= 0, g < nf), VU.at(get(s).t, g) == z3.If(g < k, mv(vs, fv(g), nv), U.empty)),
                            patterns=[VU.at(get(s).t, g)]))
                    else:
                        yield ('matching list so far', lambda L_, s, k, get=get: z3.ForAll([g], z3.Implies(
                            z3.And(g >= 0, g < nf), VU.at(get(s).t, g) == z3.If(g < L_.parent.k, mv(vs, fv(g), nv), z3.If(
                                g == L_.parent.k, mv(vs, fv(g), k), U.empty))), patterns=[VU.at(get(s).t, g)]))
                if isinstance(v, VecV) and v.kind is T.KTP:
                    yield ('hard results so far', lambda L_, s, k, get=get: get(s).t == hardk(tp, fvs, p, k))
                    if soft:
                        yield ('kept results so far', lambda L_, s, k, get=get: get(s).t == keepk(H, sp, k))
                if isinstance(v, VecV) and v.kind is T.KTVI and P is not None:
                    yield ('bound variables so far', lambda L_, s, k, get=get: get(s).t == bd(vs, combo(w, L_.parent.k), k))
                if soft and isinstance(v, VecV) and v.kind is T.KU32:
                    yield ('length kept', lambda L_, s, k, get=get: U.len(get(s).t) == nf)
                    yield ('identity binding so far', lambda L_, s, k, get=get: z3.ForAll([g], z3.Implies(
                        z3.And(g >= 0, g < k), U.at(get(s).t, g) == g), patterns=[U.at(get(s).t, g)]))
                    yield ('as many counts as results', lambda L_, s, k, get=get: U.len(get(s).t) == k)
                    yield ('counts so far', lambda L_, s, k, get=get: z3.ForAll([g], z3.Implies(
                        z3.And(g >= 0, g < k), U.at(get(s).t, g) == cnt(T.STP.at(H, g), sp)), patterns=[U.at(get(s).t, g)]))
                if soft and z3.is_expr(v) and z3.is_int(v):
                    yield ('best so far', lambda L_, s, k, get=get: get(s) == mxk(H, sp, k))
                    yield ('best is bounded', lambda L_, s, k, get=get: get(s) <= T.SPRED.len(sp))
                    if P is not None:
                        yield ('count so far', lambda L_, s, k, get=get: get(s) == cntk(vars_of(T.STP.at(H, L_.parent.k)), sp, k))
        ex.loopspecs.append(ls)
        if soft:
            ex.contracts[-1] = (RX_SP, soft_satisfies(H, fvs))
            # every hard result has one variable per free variable (lemma over hardk)
            st.assume(z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < nh), T.STVI.len(vars_of(T.STP.at(H, g))) == nf),
                                patterns=[T.STP.at(H, g)]))
        before = dict(st.mem)
        outs = ex.run(f, args, st)
        ex.curfn.append(f)
        for o in outs:
            if o.kind != 'ret':
                ex.prove(o.st, 'collecting returns normally', z3.BoolVal(False))
                continue
            r.paths += 1
            ex.prove(o.st, 'results are those of the specification', ex.read(o.st, args[0]).t == (keepk(H, sp, nh) if soft else H))
            ex.prove(o.st, 'arguments unchanged', z3.BoolVal(all(ex.same(o.st.mem[a.obj], before[a.obj]) for a in args[2:])))
        if r.paths:
            ex.vacuity(outs[-1].st, 'collect')
        r.absorb(ex)
    return task


def soft_satisfies(H, fvs):
    def h(ex, st, args, dem):
        tp = T.TP.term(ex, st, ex.read(st, args[0]))
        vs, b = vars_of(tp), ex.read(st, args[2]).t
        # identity bindings: bound(vs,b) == vs when they have the same length and agree element-wise
        st.assume(T.STVI.ext(bound(vs, b), vs))
        return c_satisfies(ex, st, args, dem)
    return h


# ---------------------------------------------------------------- points selected by a statement mask
import maps as M
KEY = z3.Datatype('StmtKey')
KEY.declare('mkkey', ('kmask', Int), ('kstmt', Int))
KEY = KEY.create()
BAND = z3.Function('band64', Int, Int, Int)
filt = z3.Function('selected', T.STP.sort, Int, Int, Int, T.STP.sort)   # matching points among the first k
ps_ = z3.Const('ps', T.STP.sort)
m_, s_ = z3.Ints('m s')
FILT_AX = [
    z3.ForAll([i, j], BAND(i, j) == BAND(j, i), patterns=[BAND(i, j)]),
    z3.ForAll([ps_, m_, s_], filt(ps_, m_, s_, 0) == T.STP.empty, patterns=[filt(ps_, m_, s_, 0)]),
    z3.ForAll([ps_, m_, s_, k], z3.Implies(k >= 0, filt(ps_, m_, s_, k + 1) == z3.If(
        BAND(T.TP.acc['stmt'](T.STP.at(ps_, k)), m_) == s_, T.STP.push(filt(ps_, m_, s_, k), T.STP.at(ps_, k)), filt(ps_, m_, s_, k))),
        patterns=[z3.MultiPattern(filt(ps_, m_, s_, k), mark(k))])]


def _key(ex, st, p):
    v = ex.read(st, p)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Agg) and len(v.f) == 2 and all(z3.is_expr(x) for x in v.f):
        return KEY.mkkey(v.f[0], v.f[1])
    raise Unsupported('statement key %r' % (v,))


STMTMAP = M.MapKind('stmtmap', r'^std::(?:unordered_)?map<std::pair<unsigned long, unsigned long>, vec<TracePoint>, .*? >::(?=~?\w+\(|operator)',
                    KEY, T.STP.sort, _key, lambda t: VecV(T.KTP, t), lambda ex, st, v: v.t, lambda: T.STP.empty,
                    keyval=lambda k: Agg(None, [KEY.kmask(k), KEY.kstmt(k)]))


def cache_inv(m, points):
    q = z3.Const('q', KEY)
    return z3.ForAll([q], z3.Implies(z3.Select(m.dom, q), z3.Select(m.val, q) == filt(
        points, KEY.kmask(q), KEY.kstmt(q), T.STP.len(points))), patterns=[z3.Select(m.val, q)])


def mktrace(ctx, ex, st, points, names, types):
    """a trace object with these contents and a cache satisfying the cache invariant"""
    ty = T.TR.irty
    p = ex.new_obj(st, 'trace', ty)
    for role, kind, t in (('points', T.KTP, points), ('names', T.KSTR, names), ('types', T.KTD, types)):
        ex.write(st, Ptr(p.obj, (T.TR.idx[role],)), VecV(kind, t))
        st.assume(*kind.vfacts(t))
    rec = dict(ctx.layouts['Trace'])
    extra = [n for n in T.TR.extra]
    fs = ctx.mod.struct(ty.a)
    offs = ctx.mod.layout(ty)[2]
    ic = None
    for n in extra:
        if rec[n] in offs and fs[offs.index(rec[n])].k == 'named' and re.search(r'std::(unordered_)?map', str(fs[offs.index(rec[n])].a)):
            if ic is not None:
                raise Unsupported('two map members in Trace')
            ic = offs.index(rec[n])
    if ic is not None:
        m = STMTMAP.sym('cache')
        ex.write(st, Ptr(p.obj, (ic,)), m)
        st.assume(cache_inv(m, points))
    return p, ic


def trace_same(ex, st, p, points, names, types):
    g = lambda r: ex.read(st, Ptr(p.obj, (T.TR.idx[r],))).t
    return z3.And(g('points') == points, g('names') == names, g('types') == types)


def filt_spec(points, key):
    def ls(ex, L_, st0, leaves):
        F = lambda k: filt(points, KEY.kmask(key), KEY.kstmt(key), k)
        for o, path, v in leaves:
            get = lambda s, o=o, path=path: ex.get(s, o, path)
            if isinstance(v, VecV) and v.kind is T.KTP:
                yield ('selected points so far', lambda L_, s, k, get=get: get(s).t == F(k))
            if z3.is_expr(v) and v.sort() == z3.ArraySort(KEY, T.STP.sort):
                e0 = ex.get(st0, o, path)
                yield ('cached selection so far', lambda L_, s, k, get=get, e0=e0: get(s) == z3.Store(e0, key, F(k)))
            if z3.is_expr(v) and v.sort() == z3.ArraySort(KEY, Bool):
                e0 = ex.get(st0, o, path)
                yield ('cached keys', lambda L_, s, k, get=get, e0=e0: get(s) == e0)
    return ls


def task_getpoints(ctx, r):
    ex = ctx.exec(FILT_AX)
    ex.BOP[('and', 64)] = BAND
    ex.lib.handlers[:0] = M.handlers(STMTMAP) + M.iters()
    f = ctx.find(RX_GP.pattern)
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    points, names, types = z3.Const('points', T.STP.sort), z3.Const('names', T.SSTR.sort), z3.Const('types', T.STD.sort)
    mask, stmt = z3.Ints('mask statement')
    st.assume(mask >= 0, mask < 2 ** 64, stmt >= 0, stmt < 2 ** 64)
    tr, ic = mktrace(ctx, ex, st, points, names, types)
    ex.loopspecs.append(filt_spec(points, KEY.mkkey(mask, stmt)))
    ex.extra_bounds = [('points', T.STP.len(points))]
    outs = ex.run(f, [tr, mask, stmt], st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'selection returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        v = ex.read(o.st, o.val)
        ex.prove(o.st, 'exactly the points with this statement, in order, whatever was asked before',
                 v.t == filt(points, mask, stmt, T.STP.len(points)))
        if ic is not None:
            m = ex.read(o.st, Ptr(tr.obj, (ic,)))
            q = fresh('key', KEY)
            ex.prove(o.st, 'every remembered selection is still the right one', z3.Implies(
                z3.Select(m.dom, q), z3.Select(m.val, q) == filt(points, KEY.kmask(q), KEY.kstmt(q), T.STP.len(points))))
        ex.prove(o.st, 'the trace itself is unchanged', trace_same(ex, o.st, tr, points, names, types))
    for o in outs[:2]:
        ex.vacuity(o.st, 'getPoints')
    r.absorb(ex)


# ---------------------------------------------------------------- whole queries
draw = z3.Function('draw', Int, Int, Int, Int)     # value drawn by a distribution over [lo, hi] with a generator seeded so
resk = z3.Function('results', T.STP.sort, T.SFV.sort, T.PredSort, T.SPRED.sort, Int, T.STP.sort)
atp = z3.Function('at_point', T.TP.sort, T.SFV.sort, T.PredSort, T.SPRED.sort, T.STP.sort)
QUERY_AX = [
    z3.ForAll([ps_, fvs_, p_, sp_], resk(ps_, fvs_, p_, sp_, 0) == T.STP.empty, patterns=[resk(ps_, fvs_, p_, sp_, 0)]),
    z3.ForAll([ps_, fvs_, p_, sp_, k], z3.Implies(k >= 0, resk(ps_, fvs_, p_, sp_, k + 1) == T.STP.cat(
        resk(ps_, fvs_, p_, sp_, k), atp(T.STP.at(ps_, k), fvs_, p_, sp_))), patterns=[z3.MultiPattern(resk(ps_, fvs_, p_, sp_, k), mark(k))])]


def c_getpoints(sel):
    def h(ex, st, args, dem):
        p = ex.new_obj(st, 'selected', None, VecV(T.KTP, sel(args[1], args[2])))
        st.assume(*T.KTP.vfacts(ex.read(st, p).t))
        return [Out(st, 'ret', p)]
    return h


def c_collect(ex, st, args, dem):
    tp = T.TP.term(ex, st, ex.read(st, args[2]))
    fv, p, sp = ex.read(st, args[3]), T.PRED.term(ex, st, ex.read(st, args[4])), ex.read(st, args[5])
    r = atp(tp, fv.t, p, sp.t)
    st.assume(*T.KTP.vfacts(r))
    ex.write(st, args[0], VecV(T.KTP, r))
    return [Out(st, 'ret')]


def rng_handlers():
    ret = lambda st, v=None: [Out(st, 'ret', v)]

    def mt(ex, st, args, dem):
        if 'mersenne_twister_engine(unsigned long)' in dem:
            ex.write(st, args[0], AbsV('mt', seed=args[1], n=iv(0)))
            return ret(st)
        raise Unsupported('random engine ' + dem[-60:])

    def dist(ex, st, args, dem):
        if 'uniform_int_distribution(unsigned long, unsigned long)' in dem:
            ex.write(st, args[0], AbsV('uid', lo=args[1], hi=args[2]))
            return ret(st)
        if '::operator()<' in dem:
            d, g = ex.read(st, args[0]), ex.read(st, args[1])
            if not (isinstance(d, AbsV) and d.tag == 'uid' and isinstance(g, AbsV) and g.tag == 'mt'):
                raise Unsupported('random draw')
            if not (z3.is_int_value(g.n) and g.n.as_long() == 0):
                raise Unsupported('more than one draw')
            ex.prove(st, 'distribution range is not empty', d.lo <= d.hi)
            ex.write(st, args[1], g.upd(n=iv(1)))
            x = draw(g.seed, d.lo, d.hi)
            st.assume(x >= d.lo, x <= d.hi)
            return ret(st, x)
        raise Unsupported('distribution ' + dem[-60:])

    def backins(ex, st, args, dem):
        return ret(st, AbsV('backins', p=args[0]))

    def moverange(ex, st, args, dem):
        def norm(a):
            v = a
            if isinstance(v, Ptr) and v.path and isinstance(v.path[-1], tuple):
                return v
            v = ex.first(st, ex.read(st, a)) if isinstance(a, Ptr) else a
            return v
        a, b = norm(args[0]), norm(args[1])
        d = args[2]
        if isinstance(d, Ptr):
            d = ex.first(st, ex.read(st, d))
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(d, AbsV) and d.tag == 'backins' and a.obj is b.obj and
                a.path[:-1] == b.path[:-1] and isinstance(a.path[-1], tuple) and isinstance(b.path[-1], tuple)):
            raise Unsupported('moved range')
        src = ex.read(st, Ptr(a.obj, a.path[:-1]))
        dst = ex.read(st, d.p)
        if not (isinstance(src, VecV) and isinstance(dst, VecV) and src.kind is dst.kind):
            raise Unsupported('moved range kinds')
        lo, hi = z3.simplify(a.path[-1][1]), b.path[-1][1]
        if not (z3.is_int_value(lo) and lo.as_long() == 0):
            raise Unsupported('moved range start')
        ex.prove(st, 'the whole of the source is moved', hi == src.kind.seq.len(src.t))
        t = src.kind.seq.cat(dst.t, src.t)
        st.assume(*src.kind.vfacts(t))
        ex.write(st, d.p, VecV(dst.kind, t))
        return ret(st, d)
    return [(re.compile(r'^(unsigned long )?std::mersenne_twister_engine<'), mt),
            (re.compile(r'std::uniform_int_distribution<unsigned long>::'), dist),
            (re.compile(r'^std::back_insert_iterator<.*> std::back_inserter<'), backins),
            (re.compile(r'^std::back_insert_iterator<.*> std::(move|copy)<'), moverange)]


RX_Q = re.compile(r'^Trace::query\(')


def task_query(seeded):
    def task(ctx, r):
        ex = ctx.exec(QUERY_AX)
        ex.lib.handlers[:0] = rng_handlers()
        f = ctx.find(RX_Q.pattern)
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        points, names, types = z3.Const('points', T.STP.sort), z3.Const('names', T.SSTR.sort), z3.Const('types', T.STD.sort)
        mask, stmt, seed = z3.Ints('mask statement seed')
        st.assume(mask >= 0, mask < 2 ** 64, stmt >= 0, stmt < 2 ** 64, seed >= 0, seed < 2 ** 32)
        st.assume(seed != 0 if seeded else seed == 0)
        fvs, p, sp = z3.Const('variables', T.SFV.sort), z3.Const('hard', T.PredSort), z3.Const('soft', T.SPRED.sort)
        st.assume(*T.KFV.vfacts(fvs))
        st.assume(*T.KPRED.vfacts(sp))
        tr, ic = mktrace(ctx, ex, st, points, names, types)
        sel = lambda m, s: filt(points, m, s, T.STP.len(points))
        S = sel(mask, stmt)
        n = T.STP.len(S)
        ex.contracts += [(RX_GP, c_getpoints(sel)), (RX_COL, c_collect)]
        args = [ex.new_obj(st, 'result', None, UNDEF_), tr, ex.new_obj(st, 'variables', None, VecV(T.KFV, fvs)),
                put(st, T.PRED, p, 'hard'), ex.new_obj(st, 'soft', None, VecV(T.KPRED, sp)), seed, mask, stmt]

        def ls(ex, L_, st0, leaves):
            for o, path, v in leaves:
                if isinstance(v, VecV) and v.kind is T.KTP:
                    yield ('results so far', lambda L_, s, k, o=o, path=path: ex.get(s, o, path).t == resk(S, fvs, p, sp, k))
        ex.loopspecs += [ls, copy_spec(T.KTP)]
        ex.extra_bounds = [('selected points', n)]
        before = dict(st.mem)
        outs = ex.run(f, args, st)
        ex.curfn.append(f)
        for o in outs:
            if o.kind != 'ret':
                ex.prove(o.st, 'query returns normally', z3.BoolVal(False))
                continue
            r.paths += 1
            v = ex.read(o.st, args[0])
            if seeded:
                x = draw(seed, iv(0), n - 1)
                ex.prove(o.st, 'the results of exactly one point, fixed by the seed and the number of points (none if there are no points)',
                         v.t == z3.If(n == 0, T.STP.empty, atp(T.STP.at(S, x), fvs, p, sp)))
            else:
                ex.prove(o.st, 'results of every selected point, in order', v.t == resk(S, fvs, p, sp, n))
            ex.prove(o.st, 'query does not change its trace or arguments', z3.BoolVal(all(
                ex.same(o.st.mem[x.obj], before[x.obj]) for x in args[1:5])))
        for o in outs:
            ex.vacuity(o.st, 'query')
        r.absorb(ex)
    return task
