"""Contracts of the binary reader: what a byte string means, and that the reading functions compute exactly that.

The input is a byte array B of length N.  rd(p, n) is the little-endian unsigned number in bytes p..p+n-1.  A std::istream over it is
AbsV('istream', pos, good, eof); istream::read(d, n) either delivers n bytes and advances, or (past the end) leaves the destination
unspecified and the stream not good / at end."""
import re
import z3
import theory as T
import lib as L
import maps as M
import query as Q
from base import *
from sx import Null, Undef, UNDEF, GlobP, is_c, Exc
from ir import Ty
from props.c12 import FA, heap_start

BS = z3.ArraySort(Int, Int)
B = z3.Const('input', BS)
N = z3.Int('input_length')
rd = z3.Function('rd', Int, Int, Int)
blobref = z3.Function('blobref', Int, Int)             # block holding the blob read at this offset
MM = z3.DeclareSort('AllocMap')
mempty = z3.Const('no_allocations', MM)
mupd = z3.Function('recorded', MM, Int, Int, MM)
mcb = z3.Function('buffer_size_at', MM, Int, Int)
p_, n_ = z3.Ints('p n')
RD_AX = [z3.ForAll([p_, n_], z3.And(rd(p_, n_) >= 0, rd(p_, n_) < 2 ** 64, z3.Implies(n_ == 0, rd(p_, n_) == 0),
                                    *[z3.Implies(n_ == c, rd(p_, n_) < 256 ** c) for c in (1, 2, 4)]), patterns=[rd(p_, n_)]),
         z3.ForAll([p_], z3.And(z3.Select(B, p_) >= 0, z3.Select(B, p_) < 256), patterns=[z3.Select(B, p_)])]
m_ = z3.Const('m', MM)
MM_AX = [z3.ForAll([m_, p_], z3.And(mcb(m_, p_) >= 0, mcb(m_, p_) < 2 ** 64), patterns=[mcb(m_, p_)])]
mixlow = z3.Function('mixlow', Int, Int, Int, Int)
NONE = 2 ** 64 - 1
UNSIGNED, SIGNED, FLOAT, POINTER, BLOB = range(5)
STD_ERR = {'TraceError', 'TraceEOFError', 'std::bad_alloc', 'std::bad_array_new_length', 'std::length_error', 'std::runtime_error'}


def stream(pos, good=True, eof=False):
    return AbsV('istream', len=N, pos=pos, good=z3.BoolVal(good) if isinstance(good, bool) else good,
                eof=z3.BoolVal(eof) if isinstance(eof, bool) else eof)


def sobj(p):
    if not isinstance(p, Ptr):
        raise Unsupported('stream pointer')
    return Ptr(p.obj, tuple(x for x in p.path if x != 'vbase'))


def sget(ex, st, p):
    v = ex.read(st, sobj(p))
    if not (isinstance(v, AbsV) and v.tag == 'istream'):
        raise Unsupported('stream value')
    return v


def tyat(ex, st, p):
    ty = p.obj.ty
    for q in p.path:
        if isinstance(q, tuple):
            raise Unsupported('read into an element')
        ty = ex.fieldty(ty, q)
    path = list(p.path)
    while ty is not None and ty.k in ('named', 'struct'):
        path.append(0)
        ty = ex.fieldty(ty, 0)
    return ty, Ptr(p.obj, tuple(path))


def store_read(ex, st, d, pos, cnt, ok):
    """the destination after reading cnt bytes at pos (ok) or after running into the end (not ok)"""
    if isinstance(d, Null):
        ex.prove(st, 'nothing is read into null', cnt == 0)
        return
    if isinstance(d, HP):
        ex.prove(st, 'read stays inside the destination block', z3.Or(cnt == 0, z3.And(
            z3.Select(ex.alive(st), d.ref), d.idx >= 0, d.idx + cnt <= z3.Select(ex.bsize(st), d.ref))))
        m = ex.hmap(st, 'i8')
        new = fresh('bytes', BS)
        if ok:
            t = z3.Int('t')
            st.assume(z3.ForAll([t], z3.Select(new, t) == z3.If(z3.And(t >= d.idx, t < d.idx + cnt), z3.Select(B, pos + t - d.idx),
                                                               z3.Select(z3.Select(m, d.ref), t)), patterns=[z3.Select(new, t)]))
        st.gh['H:i8'] = z3.Store(m, d.ref, new)
        return
    if not isinstance(d, Ptr):
        raise Unsupported('read into %r' % (d,))
    ty, q = tyat(ex, st, d)
    if ty is None or ty.k not in ('int', 'double', 'float'):
        raise Unsupported('read into %r' % (ty,))
    w = {'double': 8, 'float': 4}.get(ty.k) or ty.a // 8
    c = st.const(z3.simplify(cnt))
    ex.prove(st, 'read stays inside the variable', cnt <= w)
    if not ok:
        v = fresh('partial')
        st.assume(v >= 0, v < 256 ** w)
    elif is_c(c) and c.as_long() == w:
        v = rd(pos, c)
        st.assume(v >= 0, v < 256 ** w)
    else:
        old = ex.load(st, Ty('int', 8 * w), q) if ty.k == 'int' else UNDEF
        r = rd(pos, cnt)
        v = fresh('mixed')
        st.assume(v >= 0, v < 256 ** w, z3.Implies(cnt == w, v == r))
        if z3.is_expr(old):
            st.assume(z3.Implies(old == 0, v == r), z3.Implies(cnt == 0, v == old))
    ex.store(st, Ty('int', 8 * w) if ty.k == 'int' else ty, v, q)


def stream_handlers():
    def good(ex, st, args, dem):
        return L.one(st, sget(ex, st, args[0]).good)

    def eof(ex, st, args, dem):
        return L.one(st, sget(ex, st, args[0]).eof)

    def bad(ex, st, args, dem):
        return L.one(st, z3.Not(sget(ex, st, args[0]).good))

    def read(ex, st, args, dem):
        p, d, cnt = args
        s = sget(ex, st, p)
        outs = []
        # not good: nothing is delivered
        x = st.copy()
        x.assume(z3.Not(s.good))
        if ex.feasible(x):
            outs.append(Out(x, 'ret', p))
        # past the end (a negative count behaves the same: nothing more can be delivered)
        x = st.copy()
        x.assume(s.good, z3.Or(cnt >= 2 ** 63, s.pos + cnt > N))
        if ex.feasible(x):
            y = x.copy()
            store_read(ex, y, d, s.pos, cnt, False)
            ex.write(y, sobj(p), s.upd(pos=N, good=z3.BoolVal(False), eof=z3.BoolVal(True)))
            outs.append(Out(y, 'ret', p))
        st.assume(s.good, cnt < 2 ** 63, s.pos + cnt <= N)
        if ex.feasible(st):
            store_read(ex, st, d, s.pos, cnt, True)
            ex.write(st, sobj(p), s.upd(pos=z3.simplify(s.pos + cnt)))
            outs.append(Out(st, 'ret', p))
        return outs

    def get1(ex, st, args, dem):
        raise Unsupported('istream::get')
    return [(re.compile(r'^ios::good\(\) const$'), good), (re.compile(r'^ios::eof\(\) const$'), eof),
            (re.compile(r'^ios::(fail|bad|operator!)\(\) const$'), lambda ex, st, a, d: L.one(st, z3.Not(sget(ex, st, a[0]).good)) if 'bad' not in d
             else L.one(st, z3.BoolVal(False))),
            (re.compile(r'^ios::operator bool\(\) const$'), good), (re.compile(r'^istream::read\(char\*, long\)$'), read)]


def nomem(st):
    st.gh['nomem'] = z3.BoolVal(True)
    return st


def mem_handlers():
    def malloc(ex, st, args, dem):
        f = nomem(st.copy())
        f2 = [] if (is_c(z3.simplify(args[0])) and False) else [Out(f, 'ret', L_NULL)]
        st.assume(args[0] < 2 ** 63)
        return f2 + [Out(st, 'ret', ex.halloc(st, args[0]))]

    def newarr(ex, st, args, dem):
        f = nomem(st.copy())
        st.assume(args[0] < 2 ** 62)
        return [Out(f, 'throw', Exc('std::bad_alloc', ex.new_obj(f, 'exc', None, UNDEF))), Out(st, 'ret', ex.halloc(st, args[0]))]

    def up_ctor(ex, st, args, dem):
        ex.write(st, args[0], AbsV('uptr', p=args[1]))
        return L.one(st)

    def up_get(ex, st, args, dem):
        v = ex.read(st, args[0])
        if not (isinstance(v, AbsV) and v.tag == 'uptr'):
            raise Unsupported('unique_ptr')
        p = v.d['p']
        if 'operator[]' in dem:
            p = HP(p.ref, z3.simplify(p.idx + args[1]), p.ety or Ty('int', 8))
        return L.one(st, p)

    def up_dtor(ex, st, args, dem):
        v = ex.read(st, args[0])
        if isinstance(v, AbsV) and v.tag == 'uptr' and isinstance(v.d['p'], HP):
            st.gh['alive'] = z3.Store(ex.alive(st), v.d['p'].ref, False)
        return L.one(st)

    def delarr(ex, st, args, dem):
        if isinstance(args[0], HP):
            ex.prove(st, 'only a live block is released', z3.Select(ex.alive(st), args[0].ref))
            st.gh['alive'] = z3.Store(ex.alive(st), args[0].ref, False)
        return L.one(st)
    U = r'^std::unique_ptr<char ?\[\], .*>::'
    return [(re.compile(r'^malloc$'), malloc), (re.compile(r'^operator new\[\]\(unsigned long\)$'), newarr),
            (re.compile(U + r'unique_ptr<'), up_ctor), (re.compile(U + r'(get\(\) const|operator\[\]\(unsigned long\) const)$'), up_get),
            (re.compile(U + '~unique_ptr'), up_dtor), (re.compile(r'^operator delete\[\]\(void\*\)$'), delarr)]


from sx import NULL as L_NULL

RX_UPD = re.compile(r'^MemoryMap::updateMemoryMap\(')
RX_CB = re.compile(r'^MemoryMap::computeBufferSize\(unsigned long\) const$')
RX_MCTOR = re.compile(r'^MemoryMap::MemoryMap\(\)$')
RX_MDTOR = re.compile(r'^MemoryMap::~MemoryMap\(\)$')


def mm_contracts():
    def get(ex, st, p):
        v = ex.read(st, p)
        if not (isinstance(v, AbsV) and v.tag == 'mmap'):
            raise Unsupported('allocation map %r' % (v,))
        return v

    def upd(ex, st, args, dem):
        v = get(ex, st, args[0])
        t = T.TBS.term(ex, st, ex.read(st, args[1]))
        ex.write(st, args[0], v.upd(m=mupd(v.m, T.TBS.acc['addr'](t), T.TBS.acc['size'](t))))
        return [Out(st, 'ret')]

    def cb(ex, st, args, dem):
        r = mcb(get(ex, st, args[0]).m, args[1])
        st.assume(r >= 0, r < 2 ** 64)
        return [Out(st, 'ret', r)]

    def ctor(ex, st, args, dem):
        ex.write(st, args[0], AbsV('mmap', m=mempty))
        return [Out(st, 'ret')]

    def dtor(ex, st, args, dem):
        return [Out(st, 'ret')]
    return [(RX_UPD, upd), (RX_CB, cb), (RX_MCTOR, ctor), (RX_MDTOR, dtor)]


# ---------------------------------------------------------------- meaning of one entry
names, types = z3.Const('names', T.SSTR.sort), z3.Const('types', T.STD.sort)


i_ = z3.Int('i')
# members of a type description are machine numbers (outside the dictionary the term is unconstrained anyway)
TY_AX = [z3.ForAll([i_], z3.And(*T.TD.facts(T.STD.at(types, i_))), patterns=[T.STD.at(types, i_)])]


def sext(v, n):
    return z3.If(v >= 2 ** (8 * n - 1), v - 2 ** (8 * n) + 2 ** 64, v)


class VarSpec:
    def __init__(self, p, m):
        self.ni, self.ti = rd(p, 4), rd(p + 4, 4)
        td = T.STD.at(types, self.ti)
        self.fm, self.sz = T.TD.acc['format'](td), T.TD.acc['size'](td)
        self.blob = self.fm == BLOB
        varsized = z3.And(self.blob, self.sz == 0)
        self.bsz = z3.If(varsized, rd(p + 8, 4), self.sz)
        self.at = z3.If(varsized, p + 12, p + 8)
        self.len = z3.If(varsized, 12, 8) + self.bsz
        self.wf = z3.And(self.ti < T.STD.len(types), self.ni < T.SSTR.len(names), self.fm < 5,
                         z3.Or(self.blob, self.sz <= 8),
                         z3.Implies(self.fm == SIGNED, z3.Or(*[self.sz == c for c in (1, 2, 4, 8)])))
        self.fits = p + self.len <= N
        raw = rd(p + 8, self.sz)
        sv = z3.If(self.sz == 1, sext(rd(p + 8, 1), 1), z3.If(self.sz == 2, sext(rd(p + 8, 2), 2), z3.If(
            self.sz == 4, sext(rd(p + 8, 4), 4), rd(p + 8, 8))))
        self.value = z3.If(self.fm == SIGNED, sv, z3.If(self.blob, blobref(self.at), raw))
        cb = mcb(m, raw)
        isptr = z3.And(self.fm == POINTER, cb != NONE)
        self.bufsz = z3.If(isptr, cb, 0)
        self.has = z3.If(isptr, 1, 0)

    def tvi(self):
        a = dict(value=self.value, name=self.ni, type=self.ti, format=self.fm, size=self.bsz, bufsz=self.bufsz, has=self.has)
        return T.TVI.mk(*[a[r] for r, _, _ in T.TVI.roles])


def valid_tvi(t):
    a = T.TVI.acc
    td = T.STD.at(types, a['type'](t))
    return z3.And(a['type'](t) >= 0, a['type'](t) < T.STD.len(types), a['name'](t) >= 0, a['name'](t) < T.SSTR.len(names),
                  a['format'](t) == T.TD.acc['format'](td))


def td_spec(p):
    a = dict(name=rd(p, 4), format=rd(p + 4, 4), size=rd(p + 8, 4))
    return T.TD.mk(*[a[r] for r, _, _ in T.TD.roles]), z3.And(a['format'] < 5, a['name'] < T.SSTR.len(names))


def tbs_spec(p):
    a = dict(addr=rd(p, 8), size=rd(p + 8, 8))
    return T.TBS.mk(*[a[r] for r, _, _ in T.TBS.roles])


G0 = z3.Bool('stream_good')


def start(ctx, r, axioms=(), pos=None):
    ex = ctx.exec(list(RD_AX) + list(MM_AX) + list(TY_AX) + list(axioms))
    ex.lib.handlers[:0] = stream_handlers() + mem_handlers() + STR_H
    ex.contracts += mm_contracts()
    st = newstate()
    p0 = z3.Int('pos')
    st.assume(N >= 0, N < 2 ** 62, p0 >= 0, p0 <= N)
    heap_start(ex, st)
    isp = ex.new_obj(st, 'is', None, stream(p0, G0))
    np = ex.new_obj(st, 'names', None, VecV(T.KSTR, names))
    tp = ex.new_obj(st, 'types', None, VecV(T.KTD, types))
    st.assume(*T.KSTR.vfacts(names))
    st.assume(*T.KTD.vfacts(types))
    m0 = z3.Const('allocations', MM)
    mp = ex.new_obj(st, 'map', None, AbsV('mmap', m=m0))
    st.gh['nomem'] = z3.BoolVal(False)
    return ex, st, p0, isp, np, tp, m0, mp


cstr = z3.Function('cstring', BS, Int, T.StrSort)       # the characters of an array from an index up to the next NUL
cstrB = z3.Function('input_string', Int, T.StrSort)     # ... of the input


def str_ctor(ex, st, args, dem):
    p, c = args[0], args[1]
    if isinstance(c, GlobP):
        ex.write(st, p, AbsV('str', t=fresh('message', T.StrSort)))
        return L.one(st)
    if not isinstance(c, HP) or c.path:
        raise Unsupported('string from %r' % (c,))
    arr = z3.Select(ex.hmap(st, 'i8'), c.ref)
    sz = z3.Select(ex.bsize(st), c.ref)
    ex.prove(st, 'string is built from terminated text inside a live block', z3.And(
        z3.Select(ex.alive(st), c.ref), c.idx >= 0, c.idx < sz, z3.Select(arr, sz - 1) == 0))
    t = cstr(arr, c.idx)
    q = z3.Int('q')
    for base in getattr(ex, 'text_bases', []):
        st.assume(z3.Implies(z3.ForAll([q], z3.Implies(z3.And(q >= c.idx, q < sz), z3.Select(arr, q) == z3.Select(B, base + q))),
                             t == cstrB(base + c.idx)))
    ex.write(st, p, AbsV('str', t=t))
    return L.one(st)


def str_size(ex, st, args, dem):
    t = T.STR.term(ex, st, ex.read(st, args[0]))
    n = T.slen(t)
    st.assume(n >= 0, n < 2 ** 62)
    return L.one(st, n)


def str_empty(ex, st, args, dem):
    o = str_size(ex, st, args, dem)[0]
    return L.one(o.st, o.val == 0)


STR_H = [(re.compile(r'^string::empty\(\) const$'), str_empty),
         (re.compile(r'^string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$'), str_ctor),
         (re.compile(r'^string::~basic_string\(\)$'), lambda ex, st, a, d: L.one(st)),
         (re.compile(r'^string::(size|length)\(\) const$'), str_size)]


def throws(ex, o, why, tag):
    """an exception may only mean that the input is wrong (or memory ran out)"""
    ex.prove(o.st, '[C03] errors are reported as exceptions the interface catches', z3.BoolVal(o.val.typ in STD_ERR))
    ex.prove(o.st, '[C01] rejected only if ' + tag, z3.Or(o.st.gh.get('nomem', z3.BoolVal(False)), why))


# ---------------------------------------------------------------- the small readers
def task_td(ctx, r):
    ex, st, p0, isp, np, tp, m0, mp = start(ctx, r)
    f = ctx.find(r'^TypeDescription::TypeDescription\(istream&, vec<string> const&\)$')
    r.functions.append(ctx.mod.dem[f.name])
    res = ex.new_obj(st, 'type', T.TD.irty)
    want, wf = td_spec(p0)
    fits = p0 + 12 <= N
    outs = ex.run(f, [res, isp, np], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        s = sget(ex, o.st, isp)
        if o.kind == 'throw':
            throws(ex, o, z3.Not(z3.And(G0, fits, wf)), 'the type entry is truncated or invalid')
            continue
        ex.prove(o.st, 'nothing is read from a failed stream', G0)
        t = T.TD.term(ex, o.st, ex.read(o.st, res))
        ex.prove(o.st, '[C03] a truncated type entry leaves the stream failed', s.good == fits)
        ex.prove(o.st, '[C03] an accepted type has a known format and a name in the dictionary', z3.Implies(s.good, wf))
        ex.prove(o.st, '[C01] type entry decoded', z3.Implies(s.good, t == want))
        ex.prove(o.st, '[C01] exactly the type entry is consumed', z3.Implies(s.good, s.pos == p0 + 12))
        ex.prove(o.st, 'failed means at end of input', z3.Implies(z3.Not(s.good), s.eof))
    for o in outs:
        ex.vacuity(o.st, 'TypeDescription')
    r.absorb(ex)


def task_tbs(ctx, r):
    ex, st, p0, isp, np, tp, m0, mp = start(ctx, r)
    f = ctx.find(r'^TraceBufferSize::TraceBufferSize\(istream&\)$')
    r.functions.append(ctx.mod.dem[f.name])
    res = ex.new_obj(st, 'size', T.TBS.irty)
    want = tbs_spec(p0)
    fits = p0 + 16 <= N
    outs = ex.run(f, [res, isp], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        s = sget(ex, o.st, isp)
        if o.kind == 'throw':
            throws(ex, o, z3.Not(z3.And(G0, fits)), 'the size entry is truncated')
            continue
        ex.prove(o.st, 'nothing is read from a failed stream', G0)
        t = T.TBS.term(ex, o.st, ex.read(o.st, res))
        ex.prove(o.st, '[C03] a truncated size entry leaves the stream failed', s.good == fits)
        ex.prove(o.st, '[C01] size entry decoded', z3.Implies(s.good, t == want))
        ex.prove(o.st, '[C01] exactly the size entry is consumed', z3.Implies(s.good, s.pos == p0 + 16))
        ex.prove(o.st, 'failed means at end of input', z3.Implies(z3.Not(s.good), s.eof))
    for o in outs:
        ex.vacuity(o.st, 'TraceBufferSize')
    r.absorb(ex)


def task_var(ctx, r):
    ex, st, p0, isp, np, tp, m0, mp = start(ctx, r)
    f = ctx.find(r'^TraceVarInfo::TraceVarInfo\(istream&, vec<string> const&, vec<TypeDescription> const&, MemoryMap const&\)$')
    r.functions.append(ctx.mod.dem[f.name])
    res = ex.new_obj(st, 'var', T.TVI.irty)
    V = VarSpec(p0, m0)
    nx0 = st.gh['nextref']
    outs = ex.run(f, [res, isp, np, tp, mp], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        s = sget(ex, o.st, isp)
        if o.kind == 'throw':
            throws(ex, o, z3.Not(z3.And(G0, V.wf, V.fits)), 'the variable entry is truncated or invalid')
            continue
        st_ = o.st
        ex.prove(st_, 'nothing is read from a failed stream', G0)
        t = T.TVI.term(ex, st_, ex.read(st_, res))
        a = T.TVI.acc
        G = lambda g: z3.Implies(s.good, g)
        ex.prove(st_, '[C03] a truncated variable entry leaves the stream failed', G(V.fits))
        ex.prove(st_, 'a complete variable entry does not fail the stream', z3.Implies(z3.Not(s.good), z3.And(z3.Not(V.fits), s.eof)))
        ex.prove(st_, '[C03] an accepted variable has valid indices, format and size', G(V.wf))
        ex.prove(st_, '[C03] its indices are inside the dictionaries', G(valid_tvi(t)))
        ex.prove(st_, '[C01] name and type index', G(z3.And(a['name'](t) == V.ni, a['type'](t) == V.ti)))
        ex.prove(st_, '[C01] format and size', G(z3.And(a['format'](t) == V.fm, a['size'](t) == V.bsz)))
        ex.prove(st_, '[C01] value extended by format and size', G(z3.Or(V.blob, a['value'](t) == V.value)))
        ex.prove(st_, '[C01] pointers carry the remaining allocation size', G(z3.And(a['bufsz'](t) == V.bufsz, a['has'](t) == V.has)))
        ex.prove(st_, '[C01] exactly the variable entry is consumed', G(s.pos == p0 + V.len))
        # blobs: a fresh block of their own with exactly the bytes of the entry
        q = fresh('q')
        b = a['value'](t)
        st_.assume(q >= 0, q < V.bsz)
        inb = z3.And(s.good, V.blob)
        ex.prove(st_, 'blob value is a fresh block of its size', z3.Implies(inb, z3.And(
            b >= nx0, z3.Select(ex.alive(st_), b), z3.Select(ex.bsize(st_), b) == V.bsz)))
        ex.prove(st_, '[C01] blob bytes', z3.Implies(inb, z3.Select(z3.Select(ex.hmap(st_, 'i8'), b), q) == z3.Select(B, V.at + q)))
        ex.prove(st_, 'the allocation map is only consulted', ex.read(st_, mp).m == m0)
    for o in outs[:3] + outs[-3:]:
        ex.vacuity(o.st, 'TraceVarInfo')
    r.absorb(ex)


# contracts of the small readers at their call sites
def failed_first(ex, st, s):
    """a failed stream makes every reader throw; continue in st with a good one"""
    x = st.copy()
    x.assume(z3.Not(s.good))
    st.assume(s.good)
    return [Out(x, 'throw', Exc('TraceError', ex.new_obj(x, 'exc', None, UNDEF)))] if ex.feasible(x) else []


def small(spec, cls, size, rxs):
    """cases: complete and valid -> value; otherwise an exception, or (only when truncated) a failed stream"""
    def h(ex, st, args, dem):
        s = sget(ex, st, args[1])
        outs0 = failed_first(ex, st, s)
        if ex.contradictory(st):
            return outs0
        val, wf, ln, map_ = spec(ex, st, args, s.pos)
        fits = s.pos + ln <= N
        outs = outs0
        x = st.copy()
        x.assume(wf, fits)
        if ex.feasible(x):
            ex.write(x, args[0], TermV(cls, val))
            x.assume(*cls.facts(val))
            ex.write(x, sobj(args[1]), s.upd(pos=z3.simplify(s.pos + ln)))
            outs.append(Out(x, 'ret'))
            if map_:
                y = nomem(st.copy())
                outs.append(Out(y, 'throw', Exc('TraceError', ex.new_obj(y, 'exc', None, UNDEF))))
        x = st.copy()
        x.assume(z3.Not(z3.And(wf, fits)))
        if ex.feasible(x):
            y = x.copy()
            outs.append(Out(y, 'throw', Exc('TraceError', ex.new_obj(y, 'exc', None, UNDEF))))
            x.assume(z3.Not(fits))
            if ex.feasible(x):
                g = fresh('partial_' + cls.name, cls.sort)
                x.assume(*cls.facts(g))
                ex.write(x, args[0], TermV(cls, g))
                ps = fresh('pos')
                x.assume(ps >= 0, ps <= N)
                ex.write(x, sobj(args[1]), s.upd(pos=ps, good=z3.BoolVal(False), eof=z3.BoolVal(True)))
                outs.append(Out(x, 'ret'))
        return outs
    return (re.compile(rxs), h)


def c_tbs():
    return small(lambda ex, st, a, p: (tbs_spec(p), z3.BoolVal(True), 16, False), T.TBS, 16, r'^TraceBufferSize::TraceBufferSize\(istream&\)$')


def c_td(nm):
    def spec(ex, st, a, p):
        v = ex.read(st, a[2])
        val = td_spec(p)[0]
        return val, z3.And(rd(p + 4, 4) < 5, rd(p, 4) < T.SSTR.len(v.t)), 12, False
    return small(spec, T.TD, 12, r'^TypeDescription::TypeDescription\(istream&, vec<string> const&\)$')


def c_var():
    def spec(ex, st, a, p):
        nv, tv, mv = ex.read(st, a[2]), ex.read(st, a[3]), ex.read(st, a[4])
        ex.prove(st, 'variable is read against the dictionaries of the trace', z3.And(nv.t == names, tv.t == types))
        V = VarSpec(p, mv.m)
        t = V.tvi()
        st.assume(z3.Implies(z3.And(V.wf, V.fits), valid_tvi(t)))
        return t, V.wf, V.len, True
    return small(spec, T.TVI, None, r'^TraceVarInfo::TraceVarInfo\(istream&, vec<string> const&, vec<TypeDescription> const&, MemoryMap const&\)$')


# ---------------------------------------------------------------- one trace point
ep = z3.Function('entry_pos', Int, MM, Int, Int)
es = z3.Function('entry_statement', Int, MM, Int, Int)
eb = z3.Function('entry_sizes', Int, MM, Int, T.STBS.sort)
ev = z3.Function('entry_vars', Int, MM, Int, T.STVI.sort)
ea = z3.Function('entry_aux', Int, MM, Int, T.SU64.sort)
em = z3.Function('entry_map', Int, MM, Int, MM)
ok = z3.Function('entries_valid', Int, MM, Int, Bool)
kind = z3.Function('point_kind', Int, MM, Int)
pst = z3.Function('point_statement', Int, MM, Int)
pdt = z3.Function('point_data', Int, MM, T.TPD.sort)
pnx = z3.Function('point_end', Int, MM, Int)
pmp = z3.Function('point_map', Int, MM, MM)
POINT, CUT, ERR = 0, 1, 2
STMT_TAG, VAR_TAG, SIZE_TAG, AUX_TAG = 1, 2, 3, 4


def entry(p, m):
    """(tag, well-formed, length)"""
    tag = rd(p, 1)
    V = VarSpec(p + 1, m)
    ln = z3.If(tag == VAR_TAG, V.len, z3.If(tag == SIZE_TAG, 16, 8))
    wf = z3.And(p < N, tag >= 1, tag <= 4, p + 1 + ln <= N, z3.Implies(tag == VAR_TAG, V.wf))
    return tag, wf, ln, V


def point_axioms(p0, m0):
    k = z3.Int('k')
    a = lambda F, k: F(p0, m0, k)
    p, m = a(ep, k), a(em, k)
    tag, wf, ln, V = entry(p, m)
    tb = tbs_spec(p + 1)
    pat = [z3.MultiPattern(p, mark(k))]
    data = {'sizes': a(eb, k), 'vars': a(ev, k), 'aux': a(ea, k)}
    end = z3.And(a(ok, k), p < N, tag == 0)
    return [a(ep, iv(0)) == p0, a(es, iv(0)) == 0, a(eb, iv(0)) == T.STBS.empty, a(ev, iv(0)) == T.STVI.empty, a(ea, iv(0)) == T.SU64.empty,
            a(em, iv(0)) == m0, a(ok, iv(0)),
            z3.ForAll([k], z3.Implies(k >= 0, z3.And(
                a(ep, k + 1) == p + 1 + ln, a(es, k + 1) == z3.If(tag == STMT_TAG, rd(p + 1, 8), a(es, k)),
                a(eb, k + 1) == z3.If(tag == SIZE_TAG, T.STBS.push(a(eb, k), tb), a(eb, k)),
                a(em, k + 1) == z3.If(tag == SIZE_TAG, mupd(m, rd(p + 1, 8), rd(p + 9, 8)), m),
                a(ev, k + 1) == z3.If(tag == VAR_TAG, T.STVI.push(a(ev, k), V.tvi()), a(ev, k)),
                a(ea, k + 1) == z3.If(tag == AUX_TAG, T.SU64.push(a(ea, k), rd(p + 1, 8)), a(ea, k)),
                a(ok, k + 1) == z3.And(a(ok, k), wf))), patterns=pat),
            # what the entries amount to
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, end), z3.And(
                kind(p0, m0) == POINT, pst(p0, m0) == a(es, k), pnx(p0, m0) == p + 1, pmp(p0, m0) == m,
                *[T.TPD.acc[x](pdt(p0, m0)) == data[x] for x in data])), patterns=pat),
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, a(ok, k), p >= N), kind(p0, m0) == CUT), patterns=pat),
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, a(ok, k), p < N, tag != 0, z3.Not(wf)), kind(p0, m0) == ERR), patterns=pat)]


def task_point(ctx, r):
    p0, m0 = z3.Int('pos'), z3.Const('allocations', MM)
    ex, st, p0, isp, np, tp, m0, mp = start(ctx, r, point_axioms(p0, m0))
    ex.contracts += [c_tbs(), c_var()]
    f = ctx.find(r'^TracePoint::TracePoint\(istream&, unsigned long, vec<string> const&, vec<TypeDescription> const&, MemoryMap&\)$')
    r.functions.append(ctx.mod.dem[f.name])
    counter = z3.Int('counter')
    st.assume(counter >= 0, counter < 2 ** 64, mark(iv(0)))
    res = ex.new_obj(st, 'point', T.TP.irty)
    a = lambda F, k: F(p0, m0, k)
    t = z3.Int('t')

    def ls(ex, L_, st0, leaves):
        g = lambda s: sget(ex, s, isp).good
        yield ('position', lambda L_, s, k: z3.Implies(g(s), sget(ex, s, isp).pos == a(ep, k)))
        yield ('position in range', lambda L_, s, k: z3.Implies(g(s), z3.And(sget(ex, s, isp).pos >= p0, sget(ex, s, isp).pos <= N)))
        yield ('entries valid', lambda L_, s, k: z3.Implies(g(s), a(ok, k)))
        yield ('stream was good', lambda L_, s, k: z3.Implies(g(s), G0))
        yield ('failed means truncated', lambda L_, s, k: z3.Or(g(s), z3.Not(G0), z3.And(sget(ex, s, isp).eof, kind(p0, m0) == ERR)))
        yield ('allocation map', lambda L_, s, k: z3.Implies(g(s), ex.read(s, mp).m == a(em, k)))
        for o, path, v in leaves:
            get = lambda s, o=o, path=path: ex.get(s, o, path)
            if isinstance(v, VecV):
                F = {T.KTBS: eb, T.KTVI: ev, T.KU64: ea}.get(v.kind)
                if F is not None:
                    yield ('%s so far' % F.name(), lambda L_, s, k, get=get, F=F: z3.Implies(g(s), get(s).t == a(F, k)))
                if v.kind is T.KTVI:
                    def vi(L_, s, k, get=get):
                        x = get(s).t
                        return z3.Implies(g(s), FA([t], z3.Implies(z3.And(t >= 0, t < T.STVI.len(x)), valid_tvi(T.STVI.at(x, t))), T.STVI.at(x, t)))
                    yield ('variables so far have valid indices', vi)
            elif z3.is_expr(v) and z3.is_int(v):
                yield ('statement so far', lambda L_, s, k, get=get: z3.Implies(g(s), get(s) == a(es, k)))
    ex.loopspecs.append(ls)
    outs = ex.run(f, [res, isp, counter, np, tp, mp], st)
    ex.curfn.append(f)
    K = kind(p0, m0)
    for o in outs:
        r.paths += 1
        s = sget(ex, o.st, isp)
        if o.kind == 'throw':
            throws(ex, o, z3.Or(z3.Not(G0), K == ERR), 'an entry is unknown, truncated or invalid')
            continue
        G = lambda g: z3.Implies(s.good, g)
        ex.prove(o.st, 'nothing is read from a failed stream', G0)
        x = T.TP.term(ex, o.st, ex.read(o.st, res))
        d = T.TP.acc['data'](x)
        ex.prove(o.st, '[C03] a point is accepted only if all its entries are valid and it is ended', G(K == POINT))
        ex.prove(o.st, '[C03] otherwise the input ended between two entries', z3.Implies(z3.Not(s.good), z3.And(K == CUT, s.eof)))
        ex.prove(o.st, '[C01] the point keeps its counter', G(T.TP.acc['counter'](x) == counter))
        ex.prove(o.st, '[C01] statement is the last one given, 0 if none', G(T.TP.acc['stmt'](x) == pst(p0, m0)))
        for c in ('sizes', 'vars', 'aux'):
            ex.prove(o.st, '[C01] all %s of the point, in order' % c, G(T.TPD.acc[c](d) == T.TPD.acc[c](pdt(p0, m0))))
        ex.prove(o.st, '[C01] reading goes on right after the point', G(s.pos == pnx(p0, m0)))
        ex.prove(o.st, 'reading goes on inside the input', G(z3.And(s.pos > p0, s.pos <= N)))
        ex.prove(o.st, '[C01] allocations recorded', G(ex.read(o.st, mp).m == pmp(p0, m0)))
        j = fresh('j')
        vs = T.TPD.acc['vars'](d)
        o.st.assume(j >= 0, j < T.STVI.len(vs))
        ex.prove(o.st, '[C03] every variable of the point has valid indices', G(valid_tvi(T.STVI.at(vs, j))))
    for o in outs[:2] + outs[-3:]:
        ex.vacuity(o.st, 'TracePoint')
    r.absorb(ex)


task_point.loose = True


def c_point(ex, st, args, dem):
    """TracePoint(is, counter, names, types, map) at its call site"""
    res, isp, counter, np, tp, mp = args
    s = sget(ex, st, isp)
    outs = failed_first(ex, st, s)
    if outs and ex.contradictory(st):
        return outs
    nv, tv, mv = ex.read(st, np), ex.read(st, tp), ex.read(st, mp)
    ex.point_dicts(st, nv.t, tv.t)
    p, m = s.pos, mv.m
    x = st.copy()
    x.assume(kind(p, m) == POINT)
    if ex.feasible(x):
        a = dict(counter=counter, stmt=pst(p, m), data=pdt(p, m))
        t = T.TP.mk(*[a[r] for r, _, _ in T.TP.roles])
        x.assume(*T.TP.facts(t))
        y = nomem(x.copy())
        ex.write(x, res, TermV(T.TP, t))
        x.assume(pnx(p, m) > p, pnx(p, m) <= N)
        vs, t = T.TPD.acc['vars'](pdt(p, m)), z3.Int('t')
        x.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < T.STVI.len(vs)), valid_tvi(T.STVI.at(vs, t))), patterns=[T.STVI.at(vs, t)]))
        ex.write(x, isp, s.upd(pos=pnx(p, m)))
        ex.write(x, mp, mv.upd(m=pmp(p, m)))
        outs.append(Out(x, 'ret'))
        outs.append(Out(y, 'throw', Exc('TraceError', ex.new_obj(y, 'exc', None, UNDEF))))
    x = st.copy()
    x.assume(kind(p, m) == CUT)
    if ex.feasible(x):
        t = fresh('cut_point', T.TP.sort)
        x.assume(*T.TP.facts(t))
        ex.write(x, res, TermV(T.TP, t))
        ex.write(x, isp, s.upd(pos=N, good=z3.BoolVal(False), eof=z3.BoolVal(True)))
        ex.write(x, mp, mv.upd(m=fresh('cut_map', MM)))
        outs.append(Out(x, 'ret'))
    x = st.copy()
    x.assume(kind(p, m) == ERR)
    if ex.feasible(x):
        outs.append(Out(x, 'throw', Exc('TraceError', ex.new_obj(x, 'exc', None, UNDEF))))
    return outs


# ---------------------------------------------------------------- the whole trace
n_names, n_types = rd(iv(0), iv(8)), rd(8 + rd(iv(0), iv(8)), iv(4))
zpos = z3.Function('next_nul', Int, Int)
npos = z3.Function('name_pos', Int, Int)
nf = z3.Function('names_read', Int, T.SSTR.sort)
tf = z3.Function('types_read', Int, T.STD.sort)
tok = z3.Function('types_valid', Int, Bool)
tbad = z3.Bool('a_type_is_invalid')
pp = z3.Function('point_pos', Int, Int)
pm = z3.Function('point_allocations', Int, MM)
pf = z3.Function('points_read', Int, T.STP.sort)
pok = z3.Function('points_valid', Int, Bool)
want = z3.Const('points_of_the_input', T.STP.sort)
pbad = z3.Bool('a_point_is_invalid')
T0 = 8 + n_names + 4
P0 = T0 + 12 * n_types
HDR = z3.And(8 <= N, 8 + n_names <= N, z3.Implies(n_names > 0, z3.Select(B, 8 + n_names - 1) == 0), T0 <= N)
k_ = z3.Int('k')


def trace_axioms(maxp):
    k, p = k_, p_
    last = 8 + n_names - 1
    pat = lambda x: [z3.MultiPattern(x, mark(k))]
    tdv, tdw = td_spec(T0 + 12 * k)
    cur, m = pp(k), pm(k)
    a = dict(counter=k, stmt=pst(cur, m), data=pdt(cur, m))
    limit = z3.And(maxp > 0, k == maxp)
    return [
        # text: the next NUL, and the names between NULs
        z3.ForAll([p], z3.And(z3.Implies(z3.Select(B, p) == 0, zpos(p) == p), z3.Implies(z3.Select(B, p) != 0, zpos(p) == zpos(p + 1))),
                  patterns=[z3.MultiPattern(zpos(p), z3.Select(B, p))]),
        z3.ForAll([p], z3.And(zpos(p) >= p, z3.Implies(z3.And(p >= 0, p <= last, z3.Select(B, last) == 0), zpos(p) <= last)), patterns=[zpos(p)]),
        z3.ForAll([p], z3.And(T.slen(cstrB(p)) == zpos(p) - p, z3.Implies(z3.Select(B, p) == 0, zpos(p) == p)), patterns=[cstrB(p)]),
        npos(iv(0)) == 8, nf(iv(0)) == T.SSTR.empty,
        z3.ForAll([k], z3.Implies(k >= 0, z3.And(npos(k + 1) == zpos(npos(k)) + 1, nf(k + 1) == T.SSTR.push(nf(k), cstrB(npos(k))))), patterns=pat(npos(k))),
        z3.Implies(n_names == 0, names == T.SSTR.empty),
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, npos(k) == 8 + n_names), names == nf(k)), patterns=[z3.MultiPattern(npos(k), nf(k))]),
        # types
        tf(iv(0)) == T.STD.empty, tok(iv(0)), types == tf(n_types),
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n_types), z3.And(
            tf(k + 1) == T.STD.push(tf(k), tdv), tok(k + 1) == z3.And(tok(k), tdw, T0 + 12 * k + 12 <= N),
            z3.Implies(z3.And(tok(k), z3.Not(tok(k + 1))), tbad))), patterns=pat(tf(k))),
        z3.Implies(tok(n_types), z3.Not(tbad)),
        # points
        pp(iv(0)) == P0, pm(iv(0)) == mempty, pf(iv(0)) == T.STP.empty, pok(iv(0)),
        z3.ForAll([k], z3.Implies(k >= 0, z3.And(
            pp(k + 1) == pnx(cur, m), pm(k + 1) == pmp(cur, m), pf(k + 1) == T.STP.push(pf(k), T.TP.mk(*[a[r] for r, _, _ in T.TP.roles])),
            pok(k + 1) == z3.And(pok(k), kind(cur, m) == POINT))), patterns=pat(cur)),
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, pok(k), z3.Or(limit, kind(cur, m) == CUT)), z3.And(want == pf(k), z3.Not(pbad))), patterns=pat(cur)),
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, pok(k), z3.Not(limit), kind(cur, m) == ERR), pbad), patterns=pat(cur))]


def task_trace(ctx, r):
    maxp = z3.Int('max_points')
    ex = ctx.exec(list(RD_AX) + list(MM_AX) + list(TY_AX) + trace_axioms(maxp))
    ex.lib.handlers[:0] = stream_handlers() + mem_handlers() + STR_H
    ex.lib.handlers[:0] = M.handlers(Q.STMTMAP) + M.iters()
    ex.contracts += mm_contracts() + [c_td(None), (re.compile(r'^TracePoint::TracePoint\(istream&, unsigned long, vec<string> const&, vec<TypeDescription> const&, MemoryMap&\)$'), c_point)]
    f = ctx.find(r'^Trace::Trace\(istream&, unsigned long\)$')
    r.functions.append(ctx.mod.dem[f.name])
    ex.text_bases = [iv(8)]
    st = newstate()
    st.assume(N >= 0, N < 2 ** 62, maxp >= 0, maxp < 2 ** 64, mark(iv(0)))
    heap_start(ex, st)
    st.gh['nomem'] = z3.BoolVal(False)
    isp = ex.new_obj(st, 'is', None, stream(iv(0)))
    tr = ex.new_obj(st, 'trace', T.TR.irty)
    jq, vq = z3.Ints('some_point some_variable')

    def dicts(s, nt, tt):
        ex.prove(s, 'points are read against the dictionaries of the trace', z3.And(nt == names, tt == types))
        s.assume(nt == names, tt == types)
    ex.point_dicts = dicts

    def vars_ok(x):
        vs = T.TPD.acc['vars'](T.TP.acc['data'](T.STP.at(x, jq)))
        return z3.Implies(z3.And(jq >= 0, jq < T.STP.len(x), vq >= 0, vq < T.STVI.len(vs)), valid_tvi(T.STVI.at(vs, vq)))

    def type_ok(x, nt):
        t = T.STD.at(x, jq)
        return z3.Implies(z3.And(jq >= 0, jq < T.STD.len(x)), z3.And(T.TD.acc['name'](t) < T.SSTR.len(nt), T.TD.acc['format'](t) < 5))

    def vec(s, role):
        return ex.read(s, Ptr(tr.obj, (T.TR.idx[role],))).t
    loops = {}

    def ls(ex, L_, st0, leaves):
        S = lambda s: sget(ex, s, isp)
        have = {v.kind for o, path, v in leaves if isinstance(v, VecV)}
        if T.KTP in have:
            g = lambda s: S(s).good
            yield ('position', lambda L_, s, k: z3.Implies(g(s), z3.And(S(s).pos == pp(k), S(s).pos <= N)))
            yield ('points valid', lambda L_, s, k: z3.Implies(g(s), pok(k)))
            yield ('allocations', lambda L_, s, k: z3.Implies(g(s), ex.read(s, map_p(s)).m == pm(k)))
            yield ('progress', lambda L_, s, k: z3.If(g(s), k <= S(s).pos, k <= N + 1))
            yield ('limit', lambda L_, s, k: z3.Implies(maxp > 0, k <= maxp))
            yield ('points so far', lambda L_, s, k: z3.Implies(g(s), vec(s, 'points') == pf(k)))
            yield ('all points at the end', lambda L_, s, k: z3.Implies(z3.Not(g(s)), z3.And(vec(s, 'points') == want, z3.Not(pbad))))
            yield ('variables of the points', lambda L_, s, k: vars_ok(vec(s, 'points')))
        elif T.KTD in have:
            yield ('position', lambda L_, s, k: z3.And(S(s).good, S(s).pos == T0 + 12 * k, S(s).pos <= N))
            yield ('types so far', lambda L_, s, k: vec(s, 'types') == tf(k))
            yield ('types valid', lambda L_, s, k: tok(k))
            yield ('type names', lambda L_, s, k: type_ok(vec(s, 'types'), vec(s, 'names')))
        elif T.KSTR in have:
            for o, path, v in leaves:
                if z3.is_expr(v) and z3.is_int(v):
                    get = lambda s, o=o, path=path: ex.get(s, o, path)
                    yield ('name position', lambda L_, s, k, get=get: z3.And(8 + get(s) == npos(k), npos(k) <= 8 + n_names, get(s) >= 0))
                    yield ('name starts inside', lambda L_, s, k, get=get: get(s) < n_names)
            yield ('names so far', lambda L_, s, k: vec(s, 'names') == nf(k))
        else:
            for o, path, v in leaves:
                if z3.is_expr(v) and z3.is_int(v):
                    get = lambda s, o=o, path=path: ex.get(s, o, path)
                    i0 = ex.get(st0, o, path)
                    yield ('still inside the same name', lambda L_, s, k, get=get, i0=i0: z3.And(
                        zpos(8 + get(s)) == zpos(8 + i0), get(s) < n_names, get(s) >= i0))
    ex.loopspecs.append(ls)

    def map_p(s):
        fs = ctx.mod.struct(T.TR.irty.a)
        for i, t in enumerate(fs):
            if t.k == 'named' and 'MemoryMap' in str(t.a):
                return Ptr(tr.obj, (i,))
        raise Unsupported('allocation map member')
    outs = ex.run(f, [tr, isp, maxp], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        if o.kind == 'throw':
            throws(ex, o, z3.Or(z3.Not(HDR), tbad, pbad), 'the header or some entry is truncated or invalid')
            continue
        s_ = o.st
        nt, tt, pt = vec(s_, 'names'), vec(s_, 'types'), vec(s_, 'points')
        ex.prove(s_, '[C03] accepted only with complete, terminated dictionaries', HDR)
        ex.prove(s_, '[C03] accepted only if every type is valid', z3.Not(tbad))
        ex.prove(s_, '[C03] accepted only if every point is valid', z3.Not(pbad))
        ex.prove(s_, '[C03] every type names a dictionary entry', type_ok(tt, nt))
        ex.prove(s_, '[C03] every variable of every point has valid indices', vars_ok(pt))
        ex.prove(s_, '[C01] the name dictionary', nt == names)
        ex.prove(s_, '[C01] the type dictionary', tt == types)
        ex.prove(s_, '[C01] the points, in order, up to the limit or the end of the input', pt == want)
    rr = [o for o in outs if o.kind == 'ret']
    for o in rr[:2] + rr[-2:] + outs[-2:]:
        ex.vacuity(o.st, 'Trace')
    r.absorb(ex)


task_trace.loose = True


def tagged(tag):
    """the tasks of the reader, each keeping the obligations of one property (untagged ones belong to both)"""
    def wrap(fn):
        def g(ctx, r):
            fn(ctx, r)
            r.obligs = [o for o in r.obligs if not o[0].startswith('[') or o[0].startswith('[%s]' % tag)]
        g.loose = getattr(fn, 'loose', False)
        return g
    return [(n, wrap(f)) for n, f in (('type entry', task_td), ('size entry', task_tbs), ('variable entry', task_var),
                                      ('trace point', task_point), ('whole trace', task_trace))]
