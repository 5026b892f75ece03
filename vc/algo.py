"""Contract of the search algorithms of the standard library (std::find_if and everything libstdc++ builds on it).

The predicate is the real code: it is executed on the element at an arbitrary position to obtain the formula that says
when it holds; the contract then gives the first position at which it does."""
import re
import z3
from ir import Unsupported
from sx import Int, Bool, iv, fresh, Ptr, Out, UNDEF, VecV, Agg, _fresh

RX = re.compile(r'.*\bstd::__find_if<.*\(.*, std::random_access_iterator_tag\)$')
RX_INLINE = re.compile(r'(^|[ &*>])std::(find_if|find_if_not|any_of|all_of|none_of|__find_if|__find_if_not|__pred_iter|count_if|__count_if)<')


def consts(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(e.decl().name())
    for c in e.children():
        consts(c, out, seen)


def position(ex, st, a):
    if isinstance(a, Ptr):
        a = ex.canon(st, a)
        if a.path and isinstance(a.path[-1], tuple) and a.path[-1][0] == 'e':
            v = ex.read(st, Ptr(a.obj, a.path[:-1]))
            if isinstance(v, VecV):
                return a, v, a.path[-1][1]
    raise Unsupported('iterator %r of a search' % (a,))


def h_find(ex, st, args, dem):
    f = next((ex.mod.funcs[n] for n, d in ex.mod.dem.items() if d == dem and n in ex.mod.funcs and len(args) == len(ex.mod.funcs[n].parse().params)), None)
    if f is None:
        raise Unsupported('search body')
    call = None
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op in ('call', 'invoke') and ins.a[0][0] == 'glob' and re.search(r'__ops::_Iter_\w+<.*::operator\(\)', ex.mod.dem.get(ins.a[0][1], '')):
                call = ins.a[0][1]
    if call is None:
        raise Unsupported('predicate of a search')
    a, v, i = position(ex, st, args[0])
    b, w, j = position(ex, st, args[1])
    if a.obj is not b.obj or a.path[:-1] != b.path[:-1]:
        raise Unsupported('range of a search')
    rest = args[2:]
    if not rest:
        p = ex.new_obj(st, 'pred', None, UNDEF)
    elif len(rest) == 1 and f.params[2][0].k == 'ptr' and 'byval' in f.header:
        p = rest[0]
    else:
        ty = None
        for ins in f.blocks[f.order[0]]:
            if ins.op == 'alloca' and '_Iter_' in repr(ins.ty if ins.ty is not None else ins.a):
                ty = ins.ty if ins.ty is not None else ins.a[0]
        if ty is None or len(rest) != 1:
            raise Unsupported('predicate of a search')
        p = ex.new_obj(st, 'pred', ty)
        ex.store(st, f.params[2][0], rest[0], p)
    mark0 = _fresh[0]
    q = fresh('q')
    s0 = st.copy()
    s0.assume(q >= i, q < j)
    n0 = len(s0.pc)
    outs = ex.call(s0.copy(), call, [p, Ptr(a.obj, a.path[:-1] + (('e', q),))])
    alts, nots = [], []
    for o in outs:
        if o.kind != 'ret':
            raise Unsupported('predicate of a search does not return')
        for x, val in st.mem.items():
            if not ex.same(o.st.mem.get(x), val):
                raise Unsupported('predicate of a search changes ' + x.name)
        val = o.val if z3.is_bool(o.val) else o.val != 0
        alts.append(z3.And(*(o.st.pc[n0:] + [val])))
        nots.append(z3.And(*(o.st.pc[n0:] + [z3.Not(val)])))
    # the paths are exhaustive: where the predicate does not hold, some path on which it is false does
    phi, psi = z3.simplify(z3.Or(*alts)), z3.simplify(z3.Or(*nots))
    names = set()
    consts(phi, names, set())
    consts(psi, names, set())
    for nm in names:
        m = re.match(r'.*!(\d+)$', nm)
        if m and int(m.group(1)) > mark0 and nm != q.decl().name():
            raise Unsupported('predicate of a search introduces ' + nm)
    elem = v.kind.seq.at(v.t, q)

    def none(hi):
        x = z3.Int('q')
        e = z3.substitute(elem, (q, x))
        return z3.ForAll([x], z3.Implies(z3.And(x >= i, x < hi), z3.substitute(psi, (q, x))), patterns=[e])
    r = fresh('found')
    s1, s2 = st, st.copy()
    s1.assume(r >= i, r < j, *v.kind.facts(v.kind.seq.at(v.t, r)))
    s1.assume(z3.substitute(phi, (q, r)), none(r))
    # the first instance makes the terms of the predicate known to the solver, whatever the range
    first = z3.substitute(phi, (q, i))
    s2.assume(none(j), z3.Implies(i < j, z3.substitute(psi, (q, i))), fresh('first', z3.BoolSort()) == first)
    return [Out(s, 'ret', x) for s, x in ((s1, Ptr(a.obj, a.path[:-1] + (('e', r),))), (s2, args[1])) if ex.feasible(s) and (s is s1 or ex.mute or not ex.contradictory(s))]


HANDLERS = [(RX, h_find)]
