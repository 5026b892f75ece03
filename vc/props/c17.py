import re
"""C17: query arguments cross the C boundary unchanged; predicates are freed once."""
import z3
import theory as T
import lib as L
from base import *
from ir import Ty

VAR_REF, SIGNED_V, UNSIGNED_V, FLOAT_V = 1, 5, 6, 7
LEAF = {VAR_REF: 'var_index', SIGNED_V: 'signed_value', UNSIGNED_V: 'unsigned_value', FLOAT_V: 'float_value'}
CLAIMS = ('create_predicate_obj / create_free_variable_obj build, node by node, the tree the C structures describe; '
          'query_trace hands every argument to Trace::query unchanged and returns its (de-duplicated if asked) result; '
          'free_c_predicate releases exactly the blocks the tree owns, each once')
ASSUMPTIONS = ['a c_predicate tree is finite, its operand arrays are live, large enough and (for freeing) pairwise distinct; '
               'operand counts are below 2^31', 'Trace::query, deduplicate_results and points_to_array are cut at their '
               'contracts here (C05/C06, C09, C12)']

conv = z3.Function('conv', Int, Int, T.PredSort)        # the C++ predicate for the node at (block, index)
filt = z3.Function('filt', Int, Int, T.SPRED.sort)      # operands 0..k-1 of the array at a block, null ones dropped
valid = z3.Function('validnode', Int, Int, Bool)
own = z3.Function('own', Int, Int, Int, Bool)           # block b belongs to the tree under node (block, index)
ownk = z3.Function('ownk', Int, Int, Int, Bool)         # ... to one of the operands 0..k-1
HEAP = Exec.HS


class CP:
    def __init__(self, ctx):
        self.ty, self.f = ctx.cstruct('c_predicate', kind='i32', n_children='i64', var_index='i64', unsigned_value='i64',
                                      signed_value='i64', float_value='double', children='ptr')
        self.size = ctx.mod.sizeof(self.ty)

    def get(self, ex, st, m, r, i):
        return z3.Select(z3.Select(ex.hmap(st, ex.hkey(self.ty, (self.f[m],))), r), i)


def setup(ctx, ex, st, cp, free=False):
    """tree axioms over the heap at entry (the functions only read it)"""
    r, i, k, b, j = z3.Ints('r i k b j')
    g = lambda m, r, i: cp.get(ex, st, m, r, i)
    kind, n, ch = g('kind', r, i), g('n_children', r, i), g('children', r, i)
    al, bs = ex.alive(st), ex.bsize(st)
    V = valid(r, i)
    ax = [z3.ForAll([r, i], z3.Implies(V, z3.And(r != 0, z3.Select(al, r), i >= 0, (i + 1) * cp.size <= z3.Select(bs, r),
                                                 kind >= 0, kind < 2 ** 31, n >= 0, n < 2 ** 31)), patterns=[V]),
          z3.ForAll([r], filt(r, 0) == T.SPRED.empty, patterns=[filt(r, 0)]),
          z3.ForAll([r, k], z3.Implies(k >= 0, filt(r, k + 1) == z3.If(T.PRED.acc['kind'](conv(r, k)) != 0,
                                                                       T.SPRED.push(filt(r, k), conv(r, k)), filt(r, k))),
                    patterns=[z3.MultiPattern(filt(r, k), mark(k))])]
    st.assume(*ax)
    return g


def spec(ex, st, g, t, r, i, prove):
    """what the conversion of node (r,i) must look like"""
    P = T.PRED.acc
    kind, n, ch = g('kind', r, i), g('n_children', r, i), g('children', r, i)
    prove('same operator', P['kind'](t) == kind)
    prove('operands in order, null ones dropped', P['children'](t) == z3.If(ch == 0, T.SPRED.empty, filt(ch, n)))
    for kv, m in LEAF.items():
        prove('literal of kind %d comes from %s' % (kv, m), z3.Implies(kind == kv, P['data'](t) == g(m, r, i)))


def conv_contract(ex, st, args, dem):
    """create_predicate_obj at a call site"""
    p = args[1]
    if isinstance(p, Null_):
        raise Unsupported('null predicate literal')
    if not isinstance(p, HP):
        raise Unsupported('predicate pointer %r' % (p,))
    if p.path:
        raise Unsupported('predicate pointer path')
    outs = []
    i = z3.simplify(p.idx)
    if z3.is_int_value(i) and i.as_long() == 0:
        s0 = st.copy()
        s0.assume(p.ref == 0)
        if ex.feasible(s0):
            t = fresh('nullpred', T.PredSort)
            s0.assume(T.PRED.acc['kind'](t) == 0, T.PRED.acc['children'](t) == T.SPRED.empty, t == nullpred)
            ex.write(s0, args[0], TermV(T.PRED, t))
            outs.append(Out(s0, 'ret'))
        st.assume(p.ref != 0)
        if not ex.feasible(st):
            return outs
    ex.prove(st, 'operand handed to the conversion is a valid node', valid(p.ref, p.idx))
    t = conv(p.ref, p.idx)
    st.assume(*T.PRED.facts(t))
    ex.write(st, args[0], TermV(T.PRED, t))
    return outs + [Out(st, 'ret')]


from sx import Null as Null_
nullpred = z3.Const('nullpred', T.PredSort)
RXC = re.compile(r'^create_predicate_obj\(c_predicate const\*\)$')


def task_conv(ctx, r):
    ex = ctx.exec()
    cp = CP(ctx)
    f = ctx.find(r'^create_predicate_obj\(c_predicate const\*\)$')
    r.functions.append(ctx.mod.dem[f.name])
    ex.contracts.append((RXC, conv_contract))
    st = newstate()
    ref, idx = z3.Ints('node index')
    g = setup(ctx, ex, st, cp)
    ch, k = g('children', ref, idx), z3.Int('k')
    st.assume(valid(ref, idx), z3.ForAll([k], z3.Implies(z3.And(ch != 0, k >= 0, k < g('n_children', ref, idx)), valid(ch, k)),
                                         patterns=[valid(ch, k), conv(ch, k), mark(k)]))
    ex.extra_bounds = [('n_children', g('n_children', ref, idx))]

    def ls(ex, L_, st0, leaves):
        for o, path, v in leaves:
            if isinstance(v, VecV) and v.kind is T.KPRED:
                yield ('operands so far', lambda L_, s, k, o=o, path=path: ex.get(s, o, path).t == filt(ch, k))
    ex.loopspecs.append(ls)
    res = ex.new_obj(st, 'result', T.PRED.irty)
    outs = ex.run(f, [res, HP(ref, idx, cp.ty)], st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'conversion returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        t = T.PRED.term(ex, o.st, ex.read(o.st, res))
        # instantiate the fold at the exit iteration
        spec(ex, o.st, g, t, ref, idx, lambda n, gl: ex.prove(o.st, n, gl))
    if r.paths:
        ex.vacuity(outs[0].st, 'conversion')
    r.absorb(ex)


def task_null(ctx, r):
    ex = ctx.exec()
    f = ctx.find(r'^create_predicate_obj\(c_predicate const\*\)$')
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    res = ex.new_obj(st, 'result', T.PRED.irty)
    for o in ex.run(f, [res, NULL], st):
        ex.curfn.append(f)
        t = T.PRED.term(ex, o.st, ex.read(o.st, res))
        ex.prove(o.st, 'an absent predicate becomes the null predicate',
                 z3.And(T.PRED.acc['kind'](t) == 0, T.SPRED.len(T.PRED.acc['children'](t)) == 0))
        ex.curfn.pop()
    r.absorb(ex)


def task_fv(ctx, r):
    ex = ctx.exec()
    ty, fx = ctx.cstruct('c_free_variable', n_allowed_types='i32', allowed_types='ptr')
    f = ctx.find(r'^create_free_variable_obj\(c_free_variable')
    f.parse()
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    n, ref = z3.Ints('n_allowed allowed')
    st.assume(n >= 0, n < 2 ** 31, z3.Select(ex.alive(st), ref), ref != 0, z3.Select(ex.bsize(st), ref) >= 4 * n)
    m = ex.hmap(st, 'i32')
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.And(z3.Select(z3.Select(m, ref), k) >= 0, z3.Select(z3.Select(m, ref), k) < 2 ** 32),
                        patterns=[z3.Select(z3.Select(m, ref), k)]))
    res = ex.new_obj(st, 'result', T.FV.irty)
    if [t.k for t, _ in f.params] == ['ptr', 'int', 'ptr']:
        args = [res, n, HP(ref, iv(0), Ty('int', 32))]
    else:
        raise Unsupported('parameters of create_free_variable_obj')
    for o in ex.run(f, args, st):
        ex.curfn.append(f)
        r.paths += 1
        t = T.FV.acc['types'](T.FV.term(ex, o.st, ex.read(o.st, res)))
        ex.prove(o.st, 'as many allowed types as given', T.SU32.len(t) == n)
        j = fresh('j')
        o.st.assume(j >= 0, j < n)
        ex.prove(o.st, 'every allowed type kept, in order', T.SU32.at(t, j) == z3.Select(z3.Select(m, ref), j))
        ex.curfn.pop()
    r.absorb(ex)


# ---------------------------------------------------------------- query_trace
convfv = z3.Function('convfv', Int, Int, T.FV.sort)
fvk = z3.Function('fvk', Int, Int, T.SFV.sort)
softk = z3.Function('softk', Int, Int, T.SPRED.sort)
TRS = T.STR_
Q = z3.Function('Query', T.TR.sort, T.SFV.sort, T.PredSort, T.SPRED.sort, Int, Int, Int, T.STP.sort)
DD = z3.Function('Dedup', T.STP.sort, T.STP.sort)
ARR = z3.Function('PointArray', T.TR.sort, T.STP.sort, Int)


def task_query(ctx, r):
    ex = ctx.exec()
    cp = CP(ctx)
    fty, fx = ctx.cstruct('c_free_variable', n_allowed_types='i32', allowed_types='ptr')
    f = ctx.find(r'^query_trace$', r'^query_trace\(')
    f.parse()
    r.functions.append(ctx.mod.dem[f.name])
    st = newstate()
    g = setup(ctx, ex, st, cp)
    trs = z3.Const('traces', TRS.sort)
    dbp = db_object(ctx, ex, st, trs)
    index, nv, ns, seed, keep, mask, stmt = z3.Ints('index n_variables n_soft seed keep mask statement')
    fvr, hard, softr = z3.Ints('variables hard soft')
    ptrs = ex.hmap(st, 'ptr')
    soft = lambda k: z3.Select(z3.Select(ptrs, softr), k)
    k = z3.Int('k')
    st.assume(index >= 0, index < TRS.len(trs), nv >= 0, nv < 2 ** 31, ns >= 0, ns < 2 ** 31, seed >= 0, seed < 2 ** 32,
              keep >= 0, keep < 256, mask >= 0, mask < T.U64, stmt >= 0, stmt < T.U64,
              z3.Or(hard == 0, valid(hard, 0)), z3.Select(ex.alive(st), fvr), z3.Select(ex.bsize(st), fvr) >= 16 * nv,
              z3.Select(ex.alive(st), softr), z3.Select(ex.bsize(st), softr) >= 8 * ns,
              z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ns), z3.Or(soft(k) == 0, valid(soft(k), 0))), patterns=[soft(k)]))
    convp = lambda x: z3.If(x == 0, nullpred, conv(x, 0))
    st.assume(T.PRED.acc['kind'](nullpred) == 0,
              fvk(fvr, 0) == T.SFV.empty, softk(softr, 0) == T.SPRED.empty,
              z3.ForAll([k], z3.Implies(k >= 0, fvk(fvr, k + 1) == T.SFV.push(fvk(fvr, k), convfv(fvr, k))), patterns=[z3.MultiPattern(fvk(fvr, k), mark(k))]),
              z3.ForAll([k], z3.Implies(k >= 0, softk(softr, k + 1) == T.SPRED.push(softk(softr, k), convp(soft(k)))), patterns=[z3.MultiPattern(softk(softr, k), mark(k))]))
    ex.contracts.append((RXC, conv_contract))

    def cfv(ex, st, args, dem):
        # by-value struct: two pieces, read back which element they came from
        n, p = args[1], args[2]
        e = fresh('fvsrc')
        src = [h for h in st.gh.get('fvload', ())]
        num = ex.hkey(fty, (fx['n_allowed_types'],))
        pt = ex.hkey(fty, (fx['allowed_types'],))
        mn, mp = ex.hmap(st, num), ex.hmap(st, pt)
        pr = p.ref if isinstance(p, HP) else ex.to_int(st, p)
        # the element index: decided by the loop position
        kk = ex.loopstack[-1].k if ex.loopstack else iv(0)
        ex.prove(st, 'free variable %s comes from the matching C structure' % '', z3.And(
            n == z3.Select(z3.Select(mn, fvr), kk), pr == z3.Select(z3.Select(mp, fvr), kk)))
        t = convfv(fvr, kk)
        st.assume(*T.FV.facts(t))
        ex.write(st, args[0], TermV(T.FV, t))
        return [Out(st, 'ret')]
    ex.contracts.append((re.compile(r'^create_free_variable_obj\('), cfv))

    def query(ex, st, args, dem):
        res, tr = args[0], args[1]
        trt = T.TR.term(ex, st, ex.read(st, tr))
        vs = ex.read(st, args[2])
        hp = T.PRED.term(ex, st, ex.read(st, args[3]))
        sp = ex.read(st, args[4])
        t = Q(trt, vs.t, hp, sp.t, args[5], args[6], args[7])
        st.assume(*T.KTP.vfacts(t))
        ex.write(st, res, VecV(T.KTP, t))
        return [Out(st, 'ret')]
    ex.contracts.append((re.compile(r'^Trace::query\('), query))

    def dedup(ex, st, args, dem):
        v = ex.read(st, args[1])
        t = DD(v.t)
        st.assume(*T.KTP.vfacts(t))
        ex.write(st, args[0], VecV(T.KTP, t))
        return [Out(st, 'ret')]
    ex.contracts.append((re.compile(r'^deduplicate_results\('), dedup))

    def toarr(ex, st, args, dem):
        trt = T.TR.term(ex, st, ex.read(st, args[0]))
        return [Out(st, 'ret', HP(ARR(trt, ex.read(st, args[1]).t)))]
    ex.contracts.append((re.compile(r'^points_to_array\('), toarr))
    ex.extra_bounds = [('n_variables', nv), ('n_soft', ns)]

    def ls(ex, L_, st0, leaves):
        for o, path, v in leaves:
            if isinstance(v, VecV) and v.kind is T.KFV:
                yield ('variables so far', lambda L_, s, k, o=o, path=path: ex.get(s, o, path).t == fvk(fvr, k))
            if isinstance(v, VecV) and v.kind is T.KPRED:
                yield ('soft predicates so far', lambda L_, s, k, o=o, path=path: ex.get(s, o, path).t == softk(softr, k))
    ex.loopspecs.append(ls)
    outp = ex.new_obj(st, 'results_out', Ty('ptr'))
    cntp = ex.new_obj(st, 'n_results_out', Ty('int', 64))
    args = [dbp, index, HP(fvr, iv(0), fty), nv, HP(hard), HP(softr, iv(0), Ty('ptr')), ns, seed, keep, mask, stmt, outp, cntp]
    trt = TRS.at(trs, index)
    outs = ex.run(f, args, st)
    ex.curfn.append(f)
    for o in outs:
        if o.kind != 'ret':
            ex.prove(o.st, 'query returns normally', z3.BoolVal(False))
            continue
        r.paths += 1
        q = Q(trt, fvk(fvr, nv), convp(hard), softk(softr, ns), seed, mask, stmt)
        want = z3.If(keep != 0, q, DD(q))
        arr = ex.read(o.st, outp)
        ex.prove(o.st, 'result array is that of the query with exactly these arguments (duplicates dropped only if asked)',
                 (arr.ref if isinstance(arr, HP) else ex.to_int(o.st, arr)) == ARR(trt, want))
        ex.prove(o.st, 'result count is that of the query', ex.load(o.st, Ty('int', 64), cntp) == T.STP.len(want))
    if r.paths:
        ex.vacuity(outs[-1].st, 'query_trace')
    r.absorb(ex)


def db_object(ctx, ex, st, trs):
    """a TraceDB whose trace list is `trs`"""
    ty = Ty('named', 'class.TraceDB')
    offs = ctx.mod.layout(ty)[2]
    rec = dict(ctx.layouts.get('TraceDB') or [])
    if 'm_traces' in rec:
        i = [j for j, o in enumerate(offs) if o == rec['m_traces']][0]
    else:
        raise Unsupported('TraceDB::m_traces')
    p = ex.new_obj(st, 'db', ty)
    ex.write(st, Ptr(p.obj, (i,)), VecV(T.KTR, trs))
    st.assume(*T.KTR.vfacts(trs))
    p.trs_index = i if False else None
    return p


# ---------------------------------------------------------------- freeing
def free_lib(ex, st, args, dem):
    p = args[0]
    if isinstance(p, Null_):
        return [Out(st, 'ret')]
    if not isinstance(p, HP):
        raise Unsupported('free of %r' % (p,))
    ex.prove(st, 'only a live block (or null) is released', z3.Or(p.ref == 0, z3.Select(ex.alive(st), p.ref)))
    i = z3.simplify(p.idx)
    if not (z3.is_int_value(i) and i.as_long() == 0):
        ex.prove(st, 'only the start of a block is released', p.idx == 0)
    al = ex.alive(st)
    st.gh['alive'] = z3.Store(al, p.ref, z3.And(p.ref == 0, z3.Select(al, p.ref)))
    return [Out(st, 'ret')]


RXF = re.compile(r'^free_c_predicate_helper\(c_predicate\*\)$')


def free_setup(ctx, ex, st, cp, r, i):
    """ownership of the tree under node (r,i): the operand array, and what the operands own, all distinct"""
    k, b = z3.Ints('k b')
    g = lambda m, r, i: cp.get(ex, st, m, r, i)
    kind, n, ch = g('kind', r, i), g('n_children', r, i), g('children', r, i)
    inner = z3.And(*[kind != kv for kv in LEAF])
    bs = ex.bsize(st)
    hasch = z3.And(inner, ch != 0)
    V = z3.Implies
    st.assume(
        r != 0, i >= 0, (i + 1) * cp.size <= z3.Select(bs, r), kind >= 0, n >= 0, n < 2 ** 31, valid(r, i),
        z3.Implies(z3.And(inner, ch == 0), n == 0), z3.Not(own(r, i, r)), z3.Implies(hasch, own(r, i, ch)),
        z3.ForAll([k], z3.Implies(z3.And(hasch, k >= 0, k < n), valid(ch, k)), patterns=[valid(ch, k), mark(k)]),
        z3.ForAll([b], own(r, i, b) == z3.And(hasch, z3.Or(b == ch, ownk(ch, n, b))), patterns=[own(r, i, b)]),
        z3.ForAll([b], z3.Not(ownk(ch, 0, b)), patterns=[ownk(ch, 0, b)]),
        z3.ForAll([k, b], z3.Implies(k >= 0, ownk(ch, k + 1, b) == z3.Or(ownk(ch, k, b), own(ch, k, b))),
                  patterns=[z3.MultiPattern(ownk(ch, k, b), mark(k)), z3.MultiPattern(own(ch, k, b), mark(k))]),
        # the blocks of one operand are distinct from the array and from those of the operands before it
        z3.ForAll([k, b], z3.Implies(z3.And(hasch, k >= 0, k < n, own(ch, k, b)),
                                     z3.And(b != ch, b != r, z3.Not(ownk(ch, k, b)), ownk(ch, n, b), own(r, i, b))),
                  patterns=[own(ch, k, b)]),
        z3.ForAll([k, b], z3.Implies(z3.And(hasch, k >= 0, k <= n, ownk(ch, k, b)),
                                     z3.And(b != ch, b != r, ownk(ch, n, b), own(r, i, b))), patterns=[ownk(ch, k, b)]),
    )
    return g


def free_contract(ex, st, args, dem):
    p = args[0]
    if not isinstance(p, HP):
        raise Unsupported('predicate pointer')
    b = z3.Int('b')
    al = ex.alive(st)
    ex.prove(st, 'tree to release is valid and wholly live',
             z3.And(valid(p.ref, p.idx), z3.Select(al, p.ref), z3.ForAll([b], z3.Implies(own(p.ref, p.idx, b), z3.Select(al, b)))))
    na = fresh('alive', al.sort())
    st.assume(z3.ForAll([b], z3.Select(na, b) == z3.And(z3.Select(al, b), z3.Not(own(p.ref, p.idx, b))), patterns=[z3.Select(na, b)]))
    st.gh['alive'] = na
    return [Out(st, 'ret')]


def task_free(ctx, r):
    ex = ctx.exec()
    cp = CP(ctx)
    f = ctx.find(r'^free_c_predicate_helper\(c_predicate\*\)$')
    r.functions.append(ctx.mod.dem[f.name])
    ex.contracts.append((RXF, free_contract))
    ex.lib.handlers.append((re.compile(r'^free$'), free_lib))
    st = newstate()
    ref, idx, b = z3.Ints('node index b')
    g = free_setup(ctx, ex, st, cp, ref, idx)
    al0 = ex.alive(st)
    st.assume(valid(ref, idx), z3.Select(al0, ref), z3.ForAll([b], z3.Implies(own(ref, idx, b), z3.Select(al0, b)), patterns=[own(ref, idx, b)]))
    ch, n = g('children', ref, idx), g('n_children', ref, idx)
    ex.extra_bounds = [('n_children', n)]

    def ls(ex, L_, st0, leaves):
        yield ('released so far', lambda L_, s, k: z3.ForAll([b], z3.Select(ex.alive(s), b) == z3.And(
            z3.Select(al0, b), z3.Not(ownk(ch, k, b))), patterns=[z3.Select(ex.alive(s), b), ownk(ch, k, b)]))
    ex.loopspecs.append(ls)
    outs = ex.run(f, [HP(ref, idx, cp.ty)], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        c = fresh('b')
        o.st.assume(z3.Or(own(ref, idx, c), z3.Not(own(ref, idx, c))))
        ex.prove(o.st, 'exactly the blocks of the tree are released',
                 z3.Select(ex.alive(o.st), c) == z3.And(z3.Select(al0, c), z3.Not(own(ref, idx, c))))
    if outs:
        ex.vacuity(outs[-1].st, 'free helper')
    r.absorb(ex)


def task_free_root(ctx, r):
    ex = ctx.exec()
    cp = CP(ctx)
    f = ctx.find(r'^free_c_predicate$')
    r.functions.append(ctx.mod.dem[f.name])
    ex.contracts.append((RXF, free_contract))
    ex.lib.handlers.append((re.compile(r'^free$'), free_lib))
    st = newstate()
    ref, b = z3.Ints('root b')
    al0 = ex.alive(st)
    st.assume(z3.Or(ref == 0, z3.And(valid(ref, 0), z3.Select(al0, ref))), z3.Not(own(ref, 0, ref)),
              z3.ForAll([b], z3.Implies(z3.And(ref != 0, own(ref, 0, b)), z3.Select(al0, b)), patterns=[own(ref, 0, b)]))
    outs = ex.run(f, [HP(ref, iv(0), cp.ty)], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        c = fresh('b')
        o.st.assume(z3.Or(own(ref, 0, c), z3.Not(own(ref, 0, c))))
        ex.prove(o.st, 'the root and exactly the blocks of its tree are released',
                 z3.Select(ex.alive(o.st), c) == z3.And(z3.Select(al0, c), z3.Or(ref == 0, z3.Not(z3.Or(c == ref, own(ref, 0, c))))))
    r.absorb(ex)


TASKS = [('conversion of a predicate node', task_conv), ('conversion of an absent predicate', task_null),
         ('conversion of a free variable', task_fv), ('query_trace passes its arguments on', task_query),
         ('release of a predicate tree', task_free), ('release of the root', task_free_root)]
