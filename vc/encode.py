"""Contracts of the binary writer: what the writing functions emit decodes (by the meaning given in decode.py) to what was written.

The byte array B of length N of decode.py is here the complete output: a write of n bytes at position p fixes the bytes p..p+n-1 of B,
which are never written again, and N is at least every position reached.  The postcondition of each writing function is therefore
stated in the terms the reader's contracts are stated in (td_spec, VarSpec, point_kind, points_of_the_input, ...): the bytes it
emitted decode to the object it was called on.  Together with the reader's contracts (also checked) this is the round trip."""
import re
import z3
import theory as T
import lib as L
import maps as M
import query as Q
from base import *
from sx import UNDEF, IntPtr, is_c
from ir import Ty
from props.c12 import heap_start
import decode as D
from decode import (B, N, rd, MM, mempty, mupd, mcb, names, types, VarSpec, sext, NONE, UNSIGNED, SIGNED, FLOAT, POINTER, BLOB, td_spec, tbs_spec,
                    ep, es, eb, ev, ea, em, ok, kind, pst, pdt, pnx, pmp, POINT, CUT, pp, pm, pf, pok, npos, nf, tf, tok, tbad, pbad, zpos, cstrB, BS)

chr_ = z3.Function('char_of', T.StrSort, Int, Int)
blobat = z3.Function('blob_offset', Int, Int)
mf = z3.Function('allocations_after', MM, T.STBS.sort, Int, MM)         # the map after the first k sizes of a point
nsum = z3.Function('text_length', T.SSTR.sort, Int, Int)
amap = z3.Function('allocations_before_point', T.STP.sort, Int, MM)
cons = z3.Function('consistent_point', T.TP.sort, MM, Bool)
VQ, BQ, SQ, AQ, JQ = z3.Ints('some_variable some_byte some_size some_aux some_element')
a_ = z3.Int('a')
ENC_AX = [z3.ForAll([a_], blobat(D.blobref(a_)) == a_, patterns=[D.blobref(a_)])]


def sobj(p):
    return D.sobj(p)


def oget(ex, st, p):
    v = ex.read(st, sobj(p))
    if not (isinstance(v, AbsV) and v.tag == 'ostream'):
        raise Unsupported('output stream value')
    return v


def advance(ex, st, p, s, n):
    pos = z3.simplify(s.pos + n)
    st.assume(pos <= N)
    ex.write(st, sobj(p), s.upd(pos=pos))


def width(ex, st, p):
    """(value, bytes) of the scalar a pointer refers to"""
    p = ex.canon(st, p)
    if p.path and isinstance(p.path[-1], tuple):
        v = ex.read(st, Ptr(p.obj, p.path[:-1]))
        w = {T.KU64: 8, T.KU32: 4}.get(getattr(v, 'kind', None)) if isinstance(v, VecV) else None
        if w is None:
            raise Unsupported('write of an element of %r' % (v,))
        return ex.load(st, Ty('int', 8 * w), p), w
    base, j = p.obj.ty, 0
    for i in range(len(p.path), 0, -1):
        if isinstance(p.path[i - 1], tuple):
            v = ex.read(st, Ptr(p.obj, p.path[:i]))
            if not isinstance(v, (TermV, Agg)) or not isinstance(v, TermV):
                raise Unsupported('write of a member of %r' % (v,))
            base, j = v.cls.irty, i
            break
    ty = base
    for q in p.path[j:]:
        ty = ex.fieldty(ty, q)
    while ty is not None and ty.k in ('named', 'struct'):
        p = Ptr(p.obj, p.path + (0,))
        ty = ex.fieldty(ty, 0)
    if ty is None or ty.k not in ('int', 'double', 'float', 'ptr'):
        raise Unsupported('write of %r' % (ty,))
    w = {'double': 8, 'float': 4, 'ptr': 8}.get(ty.k) or ty.a // 8
    v = ex.load(st, Ty('int', 64) if ty.k == 'ptr' else ty, p)
    return v, w


def handlers():
    def write(ex, st, args, dem):
        p, d, n = args
        s = oget(ex, st, p)
        if isinstance(d, IntPtr):           # a blob value is the block it refers to
            d = HP(d.val, d.off, Ty('int', 8))
        if isinstance(d, HP):
            ex.prove(st, 'bytes written come from a live block', z3.Or(n == 0, z3.And(
                z3.Select(ex.alive(st), d.ref), d.idx >= 0, d.idx + n <= z3.Select(ex.bsize(st), d.ref))))
            m = z3.Select(ex.hmap(st, 'i8'), d.ref)
            t = z3.Int('t')
            st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= s.pos, t < s.pos + n), z3.Select(B, t) == z3.Select(m, d.idx + t - s.pos)), patterns=[z3.Select(B, t)]))
            advance(ex, st, p, s, n)
            return L.one(st, p)
        if not isinstance(d, Ptr):
            raise Unsupported('write from %r' % (d,))
        v = st.mem.get(d.obj)
        if isinstance(v, AbsV) and v.tag == 'cstr' and not d.path:
            ln = T.slen(v.t)
            ex.prove(st, 'characters written belong to the string', z3.And(n >= 0, n <= ln + 1))
            t = z3.Int('t')
            st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= s.pos, t < s.pos + n), z3.Select(B, t) == chr_(v.t, t - s.pos)), patterns=[z3.Select(B, t)]))
            # text up to the next NUL is the string, if all of it is there and a NUL follows (strings in a dictionary hold no NUL)
            end = z3.Select(B, s.pos + ln)
            st.assume(z3.Implies(n == ln + 1, end == 0))
            st.assume(z3.Implies(z3.And(n >= ln, end == 0), z3.And(cstrB(s.pos) == v.t, zpos(s.pos) == s.pos + ln)))
            advance(ex, st, p, s, n)
            return L.one(st, p)
        x, w = width(ex, st, d)
        n = st.const(z3.simplify(n))
        ex.prove(st, 'bytes written belong to the variable', z3.And(n >= 0, n <= w))
        r = rd(s.pos, n)
        st.assume(z3.Implies(n == w, r == x))
        if not (is_c(n) and n.as_long() == w):
            for c in range(1, w):
                st.assume(z3.Implies(n == c, r == x % (256 ** c)))
        advance(ex, st, p, s, n)
        return L.one(st, p)

    def put(ex, st, args, dem):
        p, c = args[0], args[1]
        s = oget(ex, st, p)
        st.assume(rd(s.pos, iv(1)) == c, z3.Select(B, s.pos) == c)
        advance(ex, st, p, s, 1)
        return L.one(st, p)

    def cs(ex, st, args, dem):
        return L.one(st, ex.new_obj(st, 'text', None, AbsV('cstr', t=T.STR.term(ex, st, ex.read(st, args[0])))))
    yes = lambda ex, st, a, d: L.one(st, z3.BoolVal(True))
    no = lambda ex, st, a, d: L.one(st, z3.BoolVal(False))
    return [(re.compile(r'^ostream::write\(char const\*, long\)$'), write), (re.compile(r'^ostream::put\(char\)$'), put),
            (re.compile(r'^string::(c_str|data)\(\) const$'), cs), (re.compile(r'^ios::(good|operator bool)\(\) const$'), yes),
            (re.compile(r'^ios::(fail|bad|eof|operator!)\(\) const$'), no), (re.compile(r'^ostream::flush\(\)$'), lambda ex, st, a, d: L.one(st, a[0]))]


def start(ctx, r, axioms=()):
    ex = ctx.exec(list(D.RD_AX) + list(D.MM_AX) + list(D.TY_AX) + ENC_AX + list(axioms))
    ex.lib.handlers[:0] = handlers() + D.mem_handlers() + D.STR_H
    ex.lib.handlers[:0] = M.handlers(Q.STMTMAP) + M.iters()
    st = newstate()
    p0, m0 = z3.Int('pos'), z3.Const('allocations', MM)
    st.assume(N >= 0, N < 2 ** 62, p0 >= 0, p0 <= N)
    heap_start(ex, st)
    os = ex.new_obj(st, 'os', None, AbsV('ostream', pos=p0, m=m0))
    st.assume(*T.KSTR.vfacts(names))
    st.assume(*T.KTD.vfacts(types))
    return ex, st, p0, m0, os


def consistent_var(ex, st, t, m):
    """the variables the statement speaks of: valid indices, a machine-sized value of its type, sizes agreeing with the allocations"""
    a = T.TVI.acc
    v, fm, sz = a['value'](t), a['format'](t), a['size'](t)
    td = T.STD.at(types, a['type'](t))
    bounds = z3.And(*[z3.Implies(sz == c, v < 256 ** c) for c in (1, 2, 4)])
    signed = z3.And(*[z3.Implies(sz == c, z3.Or(v < 2 ** (8 * c - 1), v >= 2 ** 64 - 2 ** (8 * c - 1))) for c in (1, 2, 4)])
    cb = mcb(m, v)
    isptr = z3.And(fm == POINTER, cb != NONE)
    return z3.And(
        a['type'](t) < T.STD.len(types), a['name'](t) < T.SSTR.len(names), fm == T.TD.acc['format'](td), fm < 5,
        z3.If(fm == BLOB, T.TD.acc['size'](td) == 0, T.TD.acc['size'](td) == sz),
        z3.Or(fm == BLOB, z3.Or(*[sz == c for c in (1, 2, 4, 8)])), z3.Implies(fm == FLOAT, sz >= 4),
        z3.If(fm == SIGNED, signed, z3.Or(fm == BLOB, bounds)),
        a['bufsz'](t) == z3.If(isptr, cb, 0), a['has'](t) == z3.If(isptr, 1, 0))


def owns_blob(ex, st, t):
    a = T.TVI.acc
    v = a['value'](t)
    return z3.Implies(a['format'](t) == BLOB, z3.And(v > 0, z3.Select(ex.alive(st), v), z3.Select(ex.bsize(st), v) >= a['size'](t)))


def same_var(ex, st, x, t, byte):
    """a decoded variable x equals the written one t (blobs: their bytes)"""
    a = T.TVI.acc
    blob = a['format'](t) == BLOB
    return z3.And(*([a[c](x) == a[c](t) for c in ('name', 'type', 'format', 'size', 'bufsz', 'has')] + [
        z3.Or(blob, a['value'](x) == a['value'](t)),
        z3.Implies(z3.And(blob, byte >= 0, byte < a['size'](t)),
                   z3.Select(B, blobat(a['value'](x)) + byte) == z3.Select(z3.Select(ex.hmap(st, 'i8'), a['value'](t)), byte))]))


RX_TD = r'^TypeDescription::write\(ostream&\) const$'
RX_TBS = r'^TraceBufferSize::write\(ostream&\) const$'
RX_VAR = r'^TraceVarInfo::write\(ostream&\) const$'
RX_PT = r'^TracePoint::write\(ostream&\) const$'
RX_TR = r'^Trace::write\(ostream&\) const$'


def writer(ctx, cls, own):
    """the writing function of a class: its write member, or operator<< if that has been folded away"""
    return ctx.find(own, r'^operator<<\(ostream&, %s const&\)$' % cls), None


def call(ctx, ex, st, own, cls, obj, os):
    try:
        f = ctx.find(own)
        return f, ex.run(f, [obj, os], st)
    except Unsupported as e:
        if 'function not found' not in str(e):
            raise
    f = ctx.find(r'^operator<<\(ostream&, %s const&\)$' % cls)
    return f, ex.run(f, [os, obj], st)


def arg(own, cls):
    """contracts apply to the write member or to operator<<"""
    return [(re.compile(own), lambda a: (a[0], a[1])), (re.compile(r'^operator<<\(ostream&, %s const&\)$' % cls), lambda a: (a[1], a[0]))]


def task_td(ctx, r):
    ex, st, p0, m0, os = start(ctx, r)
    t = sym(T.TD, 'type')
    o = put(st, T.TD, t, 'type')
    st.assume(T.TD.acc['format'](t) < 5, T.TD.acc['name'](t) < T.SSTR.len(names))
    f, outs = call(ctx, ex, st, RX_TD, 'TypeDescription', o, os)
    r.functions.append(ctx.mod.dem[f.name])
    ex.curfn.append(f)
    want, wf = td_spec(p0)
    for x in outs:
        r.paths += 1
        ex.prove(x.st, 'writing a type returns', z3.BoolVal(x.kind == 'ret'))
        ex.prove(x.st, 'a written type decodes to itself', z3.And(wf, want == t))
        ex.prove(x.st, 'a type takes twelve bytes', oget(ex, x.st, os).pos == p0 + 12)
        ex.vacuity(x.st, 'TypeDescription::write')
    r.absorb(ex)


def task_tbs(ctx, r):
    ex, st, p0, m0, os = start(ctx, r)
    t = sym(T.TBS, 'size')
    o = put(st, T.TBS, t, 'size')
    f, outs = call(ctx, ex, st, RX_TBS, 'TraceBufferSize', o, os)
    r.functions.append(ctx.mod.dem[f.name])
    ex.curfn.append(f)
    for x in outs:
        r.paths += 1
        ex.prove(x.st, 'writing a size returns', z3.BoolVal(x.kind == 'ret'))
        ex.prove(x.st, 'a written size decodes to itself', tbs_spec(p0) == t)
        ex.prove(x.st, 'a size takes sixteen bytes', oget(ex, x.st, os).pos == p0 + 16)
        ex.vacuity(x.st, 'TraceBufferSize::write')
    r.absorb(ex)


def task_var(ctx, r):
    ex, st, p0, m0, os = start(ctx, r)
    t = sym(T.TVI, 'variable')
    o = put(st, T.TVI, t, 'variable')
    st.assume(consistent_var(ex, st, t, m0), owns_blob(ex, st, t))
    V = VarSpec(p0, m0)
    q = BQ
    h0 = ex.hmap(st, 'i8')
    f, outs = call(ctx, ex, st, RX_VAR, 'TraceVarInfo', o, os)
    r.functions.append(ctx.mod.dem[f.name])
    ex.curfn.append(f)
    x_ = V.tvi()
    a = T.TVI.acc
    for x in outs:
        r.paths += 1
        s = oget(ex, x.st, os)
        ex.prove(x.st, 'writing a variable returns', z3.BoolVal(x.kind == 'ret'))
        ex.prove(x.st, 'a written variable is a valid entry', V.wf)
        for c in ('name', 'type', 'format', 'size', 'bufsz', 'has'):
            ex.prove(x.st, 'a written variable decodes with its own %s' % c, a[c](x_) == a[c](t))
        ex.prove(x.st, 'a written variable decodes with its own value', z3.Or(V.blob, a['value'](x_) == a['value'](t)))
        ex.prove(x.st, 'exactly the bytes of the entry are written', s.pos == p0 + V.len)
        ex.prove(x.st, 'the bytes of a blob are written as they are', same_var(ex, x.st, x_, t, q))
        ex.prove(x.st, 'blobs are not changed', ex.hmap(x.st, 'i8') == h0)
        ex.vacuity(x.st, 'TraceVarInfo::write')
    r.absorb(ex)


def c_td(own=RX_TD, cls='TypeDescription'):
    def mk(get):
        def h(ex, st, args, dem):
            o, os = get(args)
            t = T.TD.term(ex, st, ex.read(st, o))
            ex.prove(st, 'a type that is written is valid', z3.And(T.TD.acc['format'](t) < 5, T.TD.acc['name'](t) < T.SSTR.len(names)))
            s = oget(ex, st, os)
            want, wf = td_spec(s.pos)
            st.assume(wf, want == t)
            advance(ex, st, os, s, 12)
            return [Out(st, 'ret', os)]
        return h
    return [(rx, mk(get)) for rx, get in arg(own, cls)]


def c_tbs():
    def mk(get):
        def h(ex, st, args, dem):
            o, os = get(args)
            t = T.TBS.term(ex, st, ex.read(st, o))
            s = oget(ex, st, os)
            st.assume(tbs_spec(s.pos) == t)
            s = s.upd(m=mupd(s.m, T.TBS.acc['addr'](t), T.TBS.acc['size'](t)))
            advance(ex, st, os, s, 16)
            return [Out(st, 'ret', os)]
        return h
    return [(rx, mk(get)) for rx, get in arg(RX_TBS, 'TraceBufferSize')]


def c_var():
    def mk(get):
        def h(ex, st, args, dem):
            o, os = get(args)
            t = T.TVI.term(ex, st, ex.read(st, o))
            s = oget(ex, st, os)
            ex.prove(st, 'a variable that is written agrees with the allocations written before it', consistent_var(ex, st, t, s.m))
            V = VarSpec(s.pos, s.m)
            x = V.tvi()
            st.assume(V.wf, same_var(ex, st, x, t, BQ), V.at == blobat(D.blobref(V.at)))
            advance(ex, st, os, s, V.len)
            return [Out(st, 'ret', os)]
        return h
    return [(rx, mk(get)) for rx, get in arg(RX_VAR, 'TraceVarInfo')]


def task_point(ctx, r):
    p0, m0 = z3.Int('pos'), z3.Const('allocations', MM)
    pt = sym(T.TP, 'point')
    d = T.TP.acc['data'](pt)
    szs, vs, ax = [T.TPD.acc[c](d) for c in ('sizes', 'vars', 'aux')]
    ns, nv, na = T.STBS.len(szs), T.STVI.len(vs), T.SU64.len(ax)
    k = z3.Int('k')
    S = T.STBS.at(szs, k)
    axioms = D.point_axioms(p0, m0) + [
        mf(m0, szs, iv(0)) == m0,
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ns), mf(m0, szs, k + 1) == mupd(mf(m0, szs, k), T.TBS.acc['addr'](S), T.TBS.acc['size'](S))),
                  patterns=[z3.MultiPattern(S, mark(k))])]
    ex, st, p0, m0, os = start(ctx, r, axioms)
    ex.contracts += c_tbs() + c_var()
    o = put(st, T.TP, pt, 'point')
    t = z3.Int('t')
    st.assume(mark(iv(0)))
    st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < nv), consistent_var(ex, st, T.STVI.at(vs, t), mf(m0, szs, ns))), patterns=[T.STVI.at(vs, t)]))
    for c in (szs, vs, ax):
        pass
    st.assume(*T.KTBS.vfacts(szs))
    st.assume(*T.KTVI.vfacts(vs))
    st.assume(*T.KU64.vfacts(ax))
    E = lambda F, e: F(p0, m0, e)
    stmt = T.TP.acc['stmt'](pt)

    def facts(s, e, nS, nV, nA, st_done):
        """the first e entries decode to: nS sizes, nV variables, nA auxiliary values, and the statement or not"""
        x = oget(ex, s, os)
        b, v, a = E(eb, e), E(ev, e), E(ea, e)
        fs = [('position', x.pos == E(ep, e)), ('valid', E(ok, e)), ('map', x.m == E(em, e)), ('map of sizes', x.m == mf(m0, szs, nS)),
              ('statement', E(es, e) == (stmt if st_done else 0)),
              ('sizes', z3.And(T.STBS.len(b) == nS, z3.Implies(z3.And(SQ >= 0, SQ < nS), T.STBS.at(b, SQ) == T.STBS.at(szs, SQ)))),
              ('variables', z3.And(T.STVI.len(v) == nV, z3.Implies(z3.And(VQ >= 0, VQ < nV), same_var(ex, s, T.STVI.at(v, VQ), T.STVI.at(vs, VQ), BQ)))),
              ('aux', z3.And(T.SU64.len(a) == nA, z3.Implies(z3.And(AQ >= 0, AQ < nA), T.SU64.at(a, AQ) == T.SU64.at(ax, AQ))))]
        return fs

    def ls(ex, L_, st0, leaves):
        full = {'s': ns, 'v': nv, 'a': na}
        x0 = oget(ex, st0, os)
        n = 0
        for done in ('', 's', 'sv', 'sa', 'v', 'a', 'va'):
            for sd in (True, False):
                off = (1 if sd else 0) + sum((full[c] for c in done), iv(0))
                if ex.pv.prove(st0.pc + [mark(iv(0))], x0.pos == E(ep, z3.simplify(off)), 1500)[0] != 'proved':
                    continue
                for cur in 'sva':
                    if cur in done:
                        continue
                    cnt = lambda c, k, cur=cur, done=done: k if c == cur else (full[c] if c in done else iv(0))
                    for i, (nm, _) in enumerate(facts(st0, iv(0), iv(0), iv(0), iv(0), sd)):
                        def fn(L_, s, k, i=i, off=off, cnt=cnt, sd=sd):
                            e = z3.simplify(k + off)
                            s.assume(mark(e))
                            return facts(s, e, cnt('s', k), cnt('v', k), cnt('a', k), sd)[i][1]
                        yield ('%s (%s %s)' % (nm, done, cur), fn)
    ex.loopspecs.append(ls)
    f, outs = call(ctx, ex, st, RX_PT, 'TracePoint', o, os)
    r.functions.append(ctx.mod.dem[f.name])
    ex.curfn.append(f)
    X = pdt(p0, m0)
    for x in outs:
        r.paths += 1
        s = oget(ex, x.st, os)
        x.st.assume(mark(ns + nv + na), mark(1 + ns + nv + na))
        ex.prove(x.st, 'writing a point returns', z3.BoolVal(x.kind == 'ret'))
        ex.prove(x.st, 'a written point is complete and valid', kind(p0, m0) == POINT)
        ex.prove(x.st, 'a written point decodes with its statement', pst(p0, m0) == stmt)
        b, v, a = [T.TPD.acc[c](X) for c in ('sizes', 'vars', 'aux')]
        ex.prove(x.st, 'a written point decodes with its sizes', z3.And(T.STBS.len(b) == ns, z3.Implies(z3.And(SQ >= 0, SQ < ns), T.STBS.at(b, SQ) == T.STBS.at(szs, SQ))))
        ex.prove(x.st, 'a written point decodes with its variables', z3.And(T.STVI.len(v) == nv, z3.Implies(z3.And(VQ >= 0, VQ < nv), same_var(ex, x.st, T.STVI.at(v, VQ), T.STVI.at(vs, VQ), BQ))))
        ex.prove(x.st, 'a written point decodes with its auxiliary values', z3.And(T.SU64.len(a) == na, z3.Implies(z3.And(AQ >= 0, AQ < na), T.SU64.at(a, AQ) == T.SU64.at(ax, AQ))))
        ex.prove(x.st, 'the next point starts right after a written one', s.pos == pnx(p0, m0))
        ex.prove(x.st, 'allocations after a written point', pmp(p0, m0) == mf(m0, szs, ns))
        ex.vacuity(x.st, 'TracePoint::write')
    r.absorb(ex)


def same_point(ex, st, x, t):
    dx, dt = T.TP.acc['data'](x), T.TP.acc['data'](t)
    vx, vt = T.TPD.acc['vars'](dx), T.TPD.acc['vars'](dt)
    return z3.And(T.TP.acc['counter'](x) == T.TP.acc['counter'](t), T.TP.acc['stmt'](x) == T.TP.acc['stmt'](t),
                  T.TPD.acc['sizes'](dx) == T.TPD.acc['sizes'](dt), T.TPD.acc['aux'](dx) == T.TPD.acc['aux'](dt), T.STVI.len(vx) == T.STVI.len(vt),
                  z3.Implies(z3.And(VQ >= 0, VQ < T.STVI.len(vt)), same_var(ex, st, T.STVI.at(vx, VQ), T.STVI.at(vt, VQ), BQ)))


def c_point(ex0):
    def mk(get):
        def h(ex, st, args, dem):
            o, os = get(args)
            t = T.TP.term(ex, st, ex.read(st, o))
            s = oget(ex, st, os)
            ex.point_dicts(st)
            p, m = s.pos, s.m
            ex.prove(st, 'a point that is written agrees with the allocations written before it', cons(t, m))
            d = T.TP.acc['data'](t)
            a = dict(counter=T.TP.acc['counter'](t), stmt=pst(p, m), data=pdt(p, m))
            x = T.TP.mk(*[a[r] for r, _, _ in T.TP.roles])
            st.assume(kind(p, m) == POINT, same_point(ex, st, x, t), pmp(p, m) == mf(m, T.TPD.acc['sizes'](d), T.STBS.len(T.TPD.acc['sizes'](d))))
            st.assume(pnx(p, m) > p, pnx(p, m) <= N)
            ex.write(st, sobj(os), s.upd(pos=pnx(p, m), m=pmp(p, m)))
            return [Out(st, 'ret', os)]
        return h
    return [(rx, mk(get)) for rx, get in arg(RX_PT, 'TracePoint')]


def task_trace(ctx, r):
    tr = sym(T.TR, 'trace')
    names0, types0, points0 = [T.TR.acc[c](tr) for c in ('names', 'types', 'points')]
    n0, n1, n2 = T.SSTR.len(names0), T.STD.len(types0), T.STP.len(points0)
    k = z3.Int('k')
    nm = T.SSTR.at(names0, k)
    P = T.STP.at(points0, k)
    sz = T.TPD.acc['sizes'](T.TP.acc['data'](P))
    ty = T.STD.at(types0, k)
    axioms = D.trace_axioms(iv(0)) + [
        nsum(names0, iv(0)) == 0,
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0), nsum(names0, k + 1) == nsum(names0, k) + T.slen(nm) + 1), patterns=[z3.MultiPattern(nm, mark(k))]),
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n0), z3.And(nsum(names0, k) >= k, nsum(names0, k) <= nsum(names0, n0))), patterns=[nsum(names0, k)]),
        z3.ForAll([k], z3.And(T.slen(nm) >= 0, T.slen(nm) < 2 ** 62), patterns=[nm]),
        nsum(names0, n0) < 2 ** 62, n1 < 2 ** 32,
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n1), z3.And(T.TD.acc['format'](ty) < 5, T.TD.acc['name'](ty) < n0)), patterns=[ty]),
        amap(points0, iv(0)) == mempty,
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n2), z3.And(
            cons(P, amap(points0, k)), T.TP.acc['counter'](P) == k,
            amap(points0, k + 1) == mf(amap(points0, k), sz, T.STBS.len(sz)))), patterns=[z3.MultiPattern(P, mark(k))]),
        z3.ForAll([D.p_, D.m_], z3.Implies(D.p_ >= N, kind(D.p_, D.m_) == CUT), patterns=[kind(D.p_, D.m_)])]
    ex, st, p0, m0, os = start(ctx, r, axioms)
    ex.contracts += c_td() + c_point(ex)
    st.assume(mark(iv(0)), p0 == 0, m0 == mempty)
    ex.write(st, os, AbsV('ostream', pos=iv(0), m=mempty))
    o = put(st, T.TR, tr, 'trace')

    def same_names(x, k):
        return z3.And(T.SSTR.len(x) == k, z3.Implies(z3.And(JQ >= 0, JQ < k), T.SSTR.at(x, JQ) == T.SSTR.at(names0, JQ)))

    def same_types(x, k):
        return z3.And(T.STD.len(x) == k, z3.Implies(z3.And(JQ >= 0, JQ < k), T.STD.at(x, JQ) == T.STD.at(types0, JQ)))

    def dict_names(s):
        ex.prove(s, 'the written names decode to the names of the trace', z3.And(n0 == T.SSTR.len(names), same_names(names, n0)))
        s.assume(names == names0)

    def dicts(s):
        dict_names(s)
        ex.prove(s, 'the written types decode to the types of the trace', same_types(types, n1))
        s.assume(types == types0)
    ex.point_dicts = dicts

    def ls(ex, L_, st0, leaves):
        S = lambda s: oget(ex, s, os)
        for ob, path, v in leaves:
            if z3.is_expr(v) and z3.is_int(v) and ob is not os.obj:
                get = lambda s, o=ob, path=path: ex.get(s, o, path)
                yield ('text length', lambda L_, s, k, get=get: get(s) == nsum(names0, k))
                yield ('text length without terminators', lambda L_, s, k, get=get, v=get(st0): get(s) == v + nsum(names0, k) - k)
                yield ('count', lambda L_, s, k, get=get: get(s) == k)
        if os.obj not in [x[0] for x in leaves]:
            return
        # names
        yield ('name position', lambda L_, s, k: z3.And(S(s).pos == npos(k), S(s).pos == 8 + nsum(names0, k)))
        yield ('names so far', lambda L_, s, k: same_names(nf(k), k))
        yield ('text terminated', lambda L_, s, k: z3.Or(k == 0, z3.Select(B, S(s).pos - 1) == 0))
        # types
        yield ('type position', lambda L_, s, k: S(s).pos == D.T0 + 12 * k)
        yield ('types so far', lambda L_, s, k: z3.And(same_types(tf(k), k), tok(k)))
        # points
        yield ('point position', lambda L_, s, k: S(s).pos == pp(k))
        yield ('point map', lambda L_, s, k: z3.And(S(s).m == pm(k), S(s).m == amap(points0, k)))
        yield ('no map yet', lambda L_, s, k: S(s).m == mempty)
        yield ('points valid', lambda L_, s, k: pok(k))
        yield ('points so far', lambda L_, s, k: z3.And(T.STP.len(pf(k)) == k, z3.Implies(z3.And(JQ >= 0, JQ < k), same_point(ex, s, T.STP.at(pf(k), JQ), T.STP.at(points0, JQ)))))
    ex.loopspecs.append(ls)
    f, outs = call(ctx, ex, st, RX_TR, 'Trace', o, os)
    r.functions.append(ctx.mod.dem[f.name])
    ex.curfn.append(f)
    for x in outs:
        r.paths += 1
        s = oget(ex, x.st, os)
        x.st.assume(s.pos == N)             # the output is complete
        ex.prove(x.st, 'writing a trace returns', z3.BoolVal(x.kind == 'ret'))
        ex.prove(x.st, 'the dictionaries are complete and terminated', D.HDR)
        dict_names(x.st)
        ex.prove(x.st, 'the written types decode to the types of the trace', same_types(types, n1))
        ex.prove(x.st, 'every written type is valid', z3.Not(tbad))
        ex.prove(x.st, 'every written point is valid', z3.Not(pbad))
        ex.prove(x.st, 'the written points decode to the points of the trace', z3.And(
            T.STP.len(D.want) == n2, z3.Implies(z3.And(JQ >= 0, JQ < n2), same_point(ex, x.st, T.STP.at(D.want, JQ), T.STP.at(points0, JQ)))))
        ex.vacuity(x.st, 'Trace::write')
    r.absorb(ex)


TASKS = [('write type', task_td), ('write size', task_tbs), ('write variable', task_var), ('write point', task_point), ('write trace', task_trace)]
