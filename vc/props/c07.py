"""C07: predicates evaluate to their mathematical meaning."""
import re
import z3
import theory as T
import lib as L
import num as N
from base import *
from ir import Ty
from sx import Null

CLAIMS = ('EvaluatePredicate::predicateSatisfied / evaluate return, for every well-formed predicate tree and binding, the '
          'mathematical meaning defined below; every PredicateValue operator is the exact integer operation on two integers, '
          'the decimal operation otherwise, and undefined / false as soon as an operand is undefined')
ASSUMPTIONS = ['boost cpp_int arithmetic is exact integer arithmetic; cpp_dec_float_50 operations are taken as given '
               '(50-digit decimal)', 'memory allocation succeeds',
               'predicates are well formed: operand counts and kinds as the operators need, variable references in range']

NULLP, VREF, VSIZE, VVAL, DIST, SIGN, UNSG, FLT, AND, OR, NOT, GT, GE, LT, LE, EQ, ADD, SUB, MUL, DIV = range(20)
PV = z3.Datatype('PV')
PV.declare('Und')
PV.declare('IntV', ('int', Int))
PV.declare('DecV', ('dec', N.Dec))
PV = PV.create()
VS = T.STVI.sort
ev = z3.Function('ev', VS, T.PredSort, PV)
sat = z3.Function('sat', VS, T.PredSort, Bool)
wfv = z3.Function('wf_value', VS, T.PredSort, Bool)
wfb = z3.Function('wf_bool', VS, T.PredSort, Bool)
SYM = {ADD: '+', SUB: '-', MUL: '*', GT: '>', GE: '>=', LT: '<', LE: '<=', EQ: '=='}


def todec(v):
    return z3.If(PV.is_IntV(v), N.dec_int(PV.int(v)), PV.dec(v))


def arith(k, a, b):
    und = z3.Or(PV.is_Und(a), PV.is_Und(b))
    if k == DIV:
        zero = z3.Or(z3.And(PV.is_IntV(b), PV.int(b) == 0), z3.And(PV.is_DecV(b), N.deq(PV.dec(b), N.dec_int(iv(0)))))
        return z3.If(z3.Or(und, zero), PV.Und, PV.DecV(N.ddiv(todec(a), todec(b))))
    return z3.If(und, PV.Und, z3.If(z3.And(PV.is_IntV(a), PV.is_IntV(b)), PV.IntV(N.INTOP[SYM[k]](PV.int(a), PV.int(b))),
                                    PV.DecV(N.DECOP[SYM[k]](todec(a), todec(b)))))


def compare(k, a, b):
    und = z3.Or(PV.is_Und(a), PV.is_Und(b))
    return z3.And(z3.Not(und), z3.If(z3.And(PV.is_IntV(a), PV.is_IntV(b)), N.INTOP[SYM[k]](PV.int(a), PV.int(b)),
                                     N.DECOP[SYM[k]](todec(a), todec(b))))


class Shape:
    """the representation of a PredicateValue, taken from this run's layout"""

    def __init__(self, ctx):
        self.ty = Ty('named', 'class.PredicateValue')
        fs = ctx.mod.struct(self.ty.a)
        rec = dict(ctx.layouts.get('PredicateValue') or [])
        offs = ctx.mod.layout(self.ty)[2]
        need = {'m_is_valid': 'i8', 'm_kind': 'i32', 'm_value': None}
        self.i = {}
        for n, t in need.items():
            if n not in rec or rec[n] not in offs:
                raise Unsupported('PredicateValue::' + n)
            self.i[n] = offs.index(rec[n])
            if t and repr(fs[self.i[n]]) != t:
                raise Unsupported('type of PredicateValue::' + n)

    def make(self, ex, st, v, name, shape):
        """an object with the representation of value v, which has this shape"""
        o = Obj(name, self.ty)
        st.mem[o] = ex.blank(self.ty)
        self.fill(ex, st, Ptr(o), v, shape)
        return Ptr(o)

    def fill(self, ex, st, p, v, shape):
        w = lambda m, x: ex.write(st, Ptr(p.obj, p.path + (self.i[m],)), x)
        w('m_is_valid', iv(0 if shape == 'Und' else 1))
        w('m_kind', iv(1 if shape == 'DecV' else 0))
        if shape == 'Und':
            x = NULL
            st.assume(PV.is_Und(v))
        else:
            n = Obj('new', None)
            if shape == 'IntV':
                st.assume(PV.is_IntV(v))
                st.mem[n] = AbsV('cppint', t=PV.int(v))
            else:
                st.assume(PV.is_DecV(v))
                st.mem[n] = AbsV('cppdec', t=PV.dec(v))
            x = Ptr(n)
        u = ex.blank(ex.fieldty(self.ty, self.i['m_value']))
        w('m_value', u)
        ex.store(st, Ty('ptr'), x, Ptr(p.obj, p.path + (self.i['m_value'],)))

    def value(self, ex, st, p):
        """(formula that the representation is well formed, the value it denotes)"""
        g = lambda m: ex.first(st, ex.read(st, Ptr(p.obj, p.path + (self.i[m],))))
        ok, k, x = z3.simplify(g('m_is_valid')), z3.simplify(g('m_kind')), g('m_value')
        if not (z3.is_int_value(ok) and z3.is_int_value(k)):
            raise Unsupported('symbolic representation of a value')
        if ok.as_long() == 0:
            return z3.BoolVal(isinstance(x, Null)), PV.Und
        if not isinstance(x, Ptr):
            return z3.BoolVal(False), PV.Und
        v = st.mem.get(x.obj)
        if isinstance(v, AbsV) and v.tag == 'cppint' and k.as_long() == 0:
            return z3.BoolVal(True), PV.IntV(v.t)
        if isinstance(v, AbsV) and v.tag == 'cppdec' and k.as_long() == 1:
            return z3.BoolVal(True), PV.DecV(v.t)
        return z3.BoolVal(False), PV.Und


SHAPES = ('Und', 'IntV', 'DecV')


def prep(ctx):
    ex = ctx.exec(N.AXIOMS)
    ex.lib.handlers[:0] = N.HANDLERS
    return ex, Shape(ctx)


OPNAME = {ADD: r'\+', SUB: '-', MUL: r'\*', DIV: '/', GT: '>', GE: '>=', LT: '<', LE: '<=', EQ: '=='}


def op_task(k):
    def task(ctx, r):
        f = ctx.find(r'^PredicateValue::operator%s\(PredicateValue const&\) const$' % OPNAME[k])
        r.functions.append(ctx.mod.dem[f.name])
        for sa in SHAPES:
            for sb in SHAPES:
                ex, sh = prep(ctx)
                st = newstate()
                a, b = z3.Const('lhs', PV), z3.Const('rhs', PV)
                pa, pb = sh.make(ex, st, a, 'lhs', sa), sh.make(ex, st, b, 'rhs', sb)
                before = dict(st.mem)
                if k in (ADD, SUB, MUL, DIV):
                    res = ex.new_obj(st, 'result', sh.ty)
                    outs = ex.run(f, [res, pa, pb], st)
                else:
                    outs = ex.run(f, [pa, pb], st)
                ex.curfn.append(f)
                for o in outs:
                    r.paths += 1
                    if o.kind != 'ret':
                        ex.prove(o.st, 'operator returns normally', z3.BoolVal(False))
                        continue
                    if k in (ADD, SUB, MUL, DIV):
                        ok, v = sh.value(ex, o.st, res)
                        ex.prove(o.st, 'result is a well-formed value', ok)
                        ex.prove(o.st, 'result of %s on %s and %s' % (OPNAME[k].strip('\\'), sa, sb), v == arith(k, a, b))
                    else:
                        ex.prove(o.st, 'result of %s on %s and %s' % (OPNAME[k], sa, sb), o.val == compare(k, a, b))
                    ex.prove(o.st, 'operands unchanged', z3.BoolVal(all(ex.same(o.st.mem[x], before[x]) for x in before
                                                                       if x is not (res.obj if k in (ADD, SUB, MUL, DIV) else None))))
                r.absorb(ex)
    return task


def task_life(ctx, r):
    """construction, copying and destruction of values"""
    sh = None
    for rx, ty, want in ((r'^PredicateValue::PredicateValue\(unsigned long\)$', 64, lambda ex, st, x: PV.IntV(x)),
                         (r'^PredicateValue::PredicateValue\(long\)$', 64, lambda ex, st, x: PV.IntV(z3.If(x >= 2 ** 63, x - 2 ** 64, x))),
                         (r'^PredicateValue::PredicateValue\(double\)$', 64, lambda ex, st, x: PV.DecV(N.dec_f64(x))),
                         (r'^PredicateValue::PredicateValue\(float\)$', 32, lambda ex, st, x: PV.DecV(N.dec_f32(x))),
                         (r'^PredicateValue::PredicateValue\(\)$', 0, lambda ex, st, x: PV.Und)):
        ex, sh = prep(ctx)
        f = ctx.find(rx)
        r.functions.append(ctx.mod.dem[f.name])
        st = newstate()
        x = z3.Int('x')
        st.assume(x >= 0, x < 2 ** ty if ty else True)
        p = ex.new_obj(st, 'value', sh.ty)
        for o in ex.run(f, [p] + ([x] if ty else []), st):
            ex.curfn.append(f)
            r.paths += 1
            ok, v = sh.value(ex, o.st, p)
            ex.prove(o.st, 'constructed value is well formed', ok)
            ex.prove(o.st, 'constructed value denotes its argument', v == want(ex, o.st, x))
            ex.curfn.pop()
        r.absorb(ex)
    f = ctx.find(r'^PredicateValue::~PredicateValue\(\)$')
    r.functions.append(ctx.mod.dem[f.name])
    for s in SHAPES:
        ex, sh = prep(ctx)
        st = newstate()
        p = sh.make(ex, st, z3.Const('v', PV), 'value', s)
        num = [o for o in st.mem if o.name == 'new']
        for o in ex.run(f, [p], st):
            ex.curfn.append(f)
            r.paths += 1
            ex.prove(o.st, 'destruction releases the number (%s)' % s,
                     z3.BoolVal(all(isinstance(o.st.mem[x], AbsV) and o.st.mem[x].tag == 'freed' for x in num)))
            ex.curfn.pop()
        r.absorb(ex)


# ---------------------------------------------------------------- the evaluator
K, C, D = T.PRED.acc['kind'], T.PRED.acc['children'], T.PRED.acc['data']
at, ln = T.SPRED.at, T.SPRED.len


def isvar(vs, c):
    return z3.And(K(c) == VREF, D(c) >= 0, D(c) < T.STVI.len(vs))


def wf_axioms(vs, p):
    """what well-formedness of the node p says about p and its operands"""
    j = z3.Int('j')
    ch, k = C(p), K(p)
    two = lambda f: z3.And(ln(ch) == 2, f(at(ch, 0)), f(at(ch, 1)))
    isin = lambda *ks: z3.Or(*[k == x for x in ks])
    return [
        wfv(vs, p) == z3.Or(
            isin(SIGN, UNSG, FLT), z3.And(isin(VSIZE, VVAL), ln(ch) == 1, isvar(vs, at(ch, 0))),
            z3.And(isin(ADD, SUB, MUL, DIV), two(lambda c: wfv(vs, c)))),
        wfb(vs, p) == z3.Or(
            k == NULLP, z3.And(isin(AND, OR), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln(ch)), wfb(vs, at(ch, j))),
                                                       patterns=[at(ch, j)])),
            z3.And(k == NOT, ln(ch) == 1, wfb(vs, at(ch, 0))), z3.And(k == DIST, two(lambda c: isvar(vs, c))),
            z3.And(isin(GT, GE, LT, LE, EQ), two(lambda c: wfv(vs, c))))]


def meaning_value(vs, p):
    ch, k, d = C(p), K(p), D(p)
    var = T.STVI.at(vs, D(at(ch, 0)))
    t = T.TVI.acc
    sx = lambda x: z3.If(x >= 2 ** 63, x - 2 ** 64, x)
    f = t['format'](var)
    vval = z3.If(z3.Or(f == 0, f == 3), PV.IntV(t['value'](var)), z3.If(f == 1, PV.IntV(sx(t['value'](var))), z3.If(
        f == 2, PV.DecV(z3.If(t['size'](var) == 4, N.dec_f32(t['value'](var) % 2 ** 32), N.dec_f64(t['value'](var)))), PV.Und)))
    a, b = ev(vs, at(ch, 0)), ev(vs, at(ch, 1))
    r = arith(DIV, a, b)
    for kk in (ADD, SUB, MUL):
        r = z3.If(k == kk, arith(kk, a, b), r)
    for kk, v in ((VSIZE, z3.If(t['has'](var) != 0, PV.IntV(t['bufsz'](var)), PV.Und)), (VVAL, vval), (UNSG, PV.IntV(d)),
                  (SIGN, PV.IntV(sx(d))), (FLT, PV.DecV(N.dec_f64(d)))):
        r = z3.If(k == kk, v, r)
    return r


def meaning_bool(vs, p, kind):
    ch = C(p)
    j = z3.Int('j')
    rng = z3.And(j >= 0, j < ln(ch))
    if kind == NULLP:
        return z3.BoolVal(True)
    if kind == AND:
        return z3.ForAll([j], z3.Implies(rng, sat(vs, at(ch, j))), patterns=[at(ch, j)])
    if kind == OR:
        return z3.Not(z3.ForAll([j], z3.Implies(rng, z3.Not(sat(vs, at(ch, j)))), patterns=[at(ch, j)]))
    if kind == NOT:
        return z3.Not(sat(vs, at(ch, 0)))
    if kind == DIST:
        return z3.Not(L.eqk(T.KTVI)(T.STVI.at(vs, D(at(ch, 0))), T.STVI.at(vs, D(at(ch, 1)))))
    return compare(kind, ev(vs, at(ch, 0)), ev(vs, at(ch, 1)))


RXE = re.compile(r'^EvaluatePredicate::evaluate\(Predicate const&\) const$')
RXS = re.compile(r'^EvaluatePredicate::predicateSatisfied\(Predicate const&\) const$')


def evalobj(ctx, ex, st, vs, root):
    ty = Ty('named', 'class.EvaluatePredicate')
    rec = dict(ctx.layouts.get('EvaluatePredicate') or [])
    offs = ctx.mod.layout(ty)[2]
    if 'm_predicate' not in rec or 'm_variables' not in rec:
        raise Unsupported('members of EvaluatePredicate')
    p = ex.new_obj(st, 'self', ty)
    ip, ivs = offs.index(rec['m_predicate']), offs.index(rec['m_variables'])
    ex.write(st, Ptr(p.obj, (ip,)), TermV(T.PRED, root))
    ex.write(st, Ptr(p.obj, (ivs,)), VecV(T.KTVI, vs))
    st.assume(*T.KTVI.vfacts(vs))
    st.assume(*T.PRED.facts(root))
    return p, ip, ivs


def contracts(ctx, ex, sh, vs, this):
    def chk(ex, st, p):
        if not (isinstance(p, Ptr) and p.obj is this.obj and not p.path):
            raise Unsupported('evaluation on another object')

    def c_eval(ex, st, args, dem):
        res, self_, p = args
        chk(ex, st, self_)
        t = T.PRED.term(ex, st, ex.read(st, p))
        ex.prove(st, 'operand is a well-formed value expression', wfv(vs, t))
        outs = []
        for s in SHAPES:
            s2 = st.copy()
            sh.fill(ex, s2, res, ev(vs, t), s)
            outs.append(Out(s2, 'ret'))
        return outs

    def c_sat(ex, st, args, dem):
        self_, p = args
        chk(ex, st, self_)
        t = T.PRED.term(ex, st, ex.read(st, p))
        ex.prove(st, 'operand is a well-formed condition', wfb(vs, t))
        return [Out(st, 'ret', sat(vs, t))]
    return c_eval, c_sat


def task_eval(ctx, r):
    f = ctx.find(RXE.pattern)
    r.functions.append(ctx.mod.dem[f.name])
    for kk in (VSIZE, VVAL, UNSG, SIGN, FLT, ADD, SUB, MUL, DIV):
        ex, sh = prep(ctx)
        st = newstate()
        vs, p, root = z3.Const('vars', VS), z3.Const('p', T.PredSort), z3.Const('root', T.PredSort)
        this, _, _ = evalobj(ctx, ex, st, vs, root)
        c_eval, c_sat = contracts(ctx, ex, sh, vs, this)
        ex.contracts += [(RXE, c_eval), (RXS, c_sat)]
        pp = put(st, T.PRED, p, 'predicate')
        st.assume(wfv(vs, p), *wf_axioms(vs, p))
        st.assume(K(p) == kk)
        var = T.STVI.at(vs, D(at(C(p), 0)))
        if kk == VVAL:
            st.assume(z3.Implies(T.TVI.acc['format'](var) == 2, z3.Or(T.TVI.acc['size'](var) == 4, T.TVI.acc['size'](var) == 8)))
        res = ex.new_obj(st, 'result', sh.ty)
        outs = ex.run(f, [res, this, pp], st)
        ex.curfn.append(f)
        for o in outs:
            if o.kind != 'ret':
                ex.prove(o.st, 'evaluation returns normally', z3.BoolVal(False))
                continue
            r.paths += 1
            ok, v = sh.value(ex, o.st, res)
            ex.prove(o.st, 'value is well formed', ok)
            ex.prove(o.st, 'value of an expression of kind %d is its meaning' % kk, v == meaning_value(vs, p))
        if outs:
            ex.vacuity(outs[-1].st, 'evaluate kind %d' % kk)
        r.absorb(ex)


def task_sat(ctx, r):
    f = ctx.find(RXS.pattern)
    r.functions.append(ctx.mod.dem[f.name])
    for kk in (NULLP, AND, OR, NOT, DIST, GT, GE, LT, LE, EQ):
        ex, sh = prep(ctx)
        st = newstate()
        vs, p, root = z3.Const('vars', VS), z3.Const('p', T.PredSort), z3.Const('root', T.PredSort)
        this, _, _ = evalobj(ctx, ex, st, vs, root)
        c_eval, c_sat = contracts(ctx, ex, sh, vs, this)
        ex.contracts += [(RXE, c_eval), (RXS, c_sat)]
        pp = put(st, T.PRED, p, 'predicate')
        st.assume(wfb(vs, p), *wf_axioms(vs, p))
        st.assume(K(p) == kk)
        j = z3.Int('j')
        ch = C(p)

        def ls(ex, L_, st0, leaves):
            for nm, g in (('all operands so far satisfied', lambda x: x), ('no operand so far satisfied', z3.Not)):
                yield (nm, lambda L_, s, k, g=g: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), g(sat(vs, at(ch, j)))), patterns=[at(ch, j)]))
            for fn, o, path, v0 in getattr(L_, 'allints', []):
                for w in (0, 1):
                    for nm, g in (('all operands so far satisfied', lambda x: x), ('no operand so far satisfied', z3.Not)):
                        for neg in (False, True):
                            yield ('%s is %d only if %s%s' % (fn, w, 'not ' if neg else '', nm),
                                   lambda L_, s, k, o=o, path=path, w=w, g=g, neg=neg: z3.Implies((ex.get(s, o, path) % 2) == w, (z3.Not if neg else lambda x: x)(
                                       z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), g(sat(vs, at(ch, j)))), patterns=[at(ch, j)]))))
        ex.loopspecs.append(ls)
        ex.extra_bounds = [('operands', ln(ch))]
        outs = ex.run(f, [this, pp], st)
        ex.curfn.append(f)
        for o in outs:
            if o.kind != 'ret':
                ex.prove(o.st, 'evaluation returns normally', z3.BoolVal(False))
                continue
            r.paths += 1
            m = meaning_bool(vs, p, kk)
            if kk in (AND, OR):         # one polarity of the quantifier at a time
                for w in (True, False):
                    s = o.st.copy()
                    s.assume(o.val == w)
                    ex.prove(s, 'truth of a condition of kind %d is its meaning (%s)' % (kk, str(w).lower()), m if w else z3.Not(m))
            else:
                ex.prove(o.st, 'truth of a condition of kind %d is its meaning' % kk, o.val == m)
        if outs:
            ex.vacuity(outs[-1].st, 'predicateSatisfied kind %d' % kk)
        r.absorb(ex)


def task_root(ctx, r):
    """construction, copying and application of the functor"""
    vs, p = z3.Const('vars', VS), z3.Const('p', T.PredSort)
    f = ctx.find(r'^EvaluatePredicate::operator\(\)\(\) const$')
    r.functions.append(ctx.mod.dem[f.name])
    ex, sh = prep(ctx)
    st = newstate()
    this, ip, ivs = evalobj(ctx, ex, st, vs, p)
    st.assume(wfb(vs, p))
    ex.contracts += [(RXS, contracts(ctx, ex, sh, vs, this)[1])]
    for o in ex.run(f, [this], st):
        ex.curfn.append(f)
        r.paths += 1
        ex.prove(o.st, 'the functor evaluates its own predicate', o.val == sat(vs, p))
        ex.curfn.pop()
    r.absorb(ex)
    for rx, n in ((r'^EvaluatePredicate::EvaluatePredicate\(Predicate const&, vec<FW_TVI> const&\)$', 2),
                  (r'^EvaluatePredicate::EvaluatePredicate\(EvaluatePredicate const&\)$', 1)):
        f = ctx.find(rx)
        r.functions.append(ctx.mod.dem[f.name])
        ex, sh = prep(ctx)
        st = newstate()
        src, ip, ivs = evalobj(ctx, ex, st, vs, p)
        dst = ex.new_obj(st, 'new functor', Ty('named', 'class.EvaluatePredicate'))
        if n == 2:
            vp = ex.new_obj(st, 'variables', None, VecV(T.KTVI, vs))
            args = [dst, put(st, T.PRED, p, 'predicate'), vp]
        else:
            args = [dst, src]
        for o in ex.run(f, args, st):
            ex.curfn.append(f)
            r.paths += 1
            t = T.PRED.term(ex, o.st, ex.read(o.st, Ptr(dst.obj, (ip,))))
            ex.prove(o.st, 'functor holds the predicate', z3.And(K(t) == K(p), C(t) == C(p), D(t) == D(p)))
            ex.prove(o.st, 'functor holds the variables', ex.read(o.st, Ptr(dst.obj, (ivs,))).t == vs)
            ex.curfn.pop()
        r.absorb(ex)


TASKS = [('operator ' + n, op_task(k)) for k, n in ((ADD, '+'), (SUB, '-'), (MUL, '*'), (DIV, '/'), (GT, '>'), (GE, '>='),
                                                   (LT, '<'), (LE, '<='), (EQ, '=='))] + [
    ('construction and destruction of values', task_life), ('evaluation of value expressions', task_eval),
    ('evaluation of conditions', task_sat), ('evaluation functor', task_root)]
