"""Contracts of the database archive: loading an archive gives back what was saved.

An archive is a sequence of tokens, one per `ar & x`.  Token p has a kind tag(p) and a value (num(p) for numbers, str(p), and for every
archived class a value of that class); saving fixes the token at the current position and advances, loading delivers it and advances,
and is only allowed at a token of its own kind.  An object of a class of the repository is one token for whoever archives it; its own
save and load functions are checked in a task of their own: run on the same position, they agree.

boost::archive itself (text encoding, class headers, flyweight tables) is trusted to transport the tokens."""
import re
import z3
import theory as T
import lib as L
import maps as M
import query as Q
from base import *
from sx import UNDEF, IntPtr, is_c, Null
from ir import Ty
from props.c12 import heap_start, FA
import decode as D
from encode import owns_blob, JQ, VQ, BQ, SQ, AQ

tag = z3.Function('token_kind', Int, Int)
num = z3.Function('token_number', Int, Int)
KINDS = {'str': (1, T.STR), 'td': (2, T.TD), 'tbs': (3, T.TBS), 'tvi': (4, T.TVI), 'tpd': (5, T.TPD), 'tp': (6, T.TP), 'tr': (7, T.TR)}
val = {k: z3.Function('token_' + k, Int, c.sort) for k, (_, c) in KINDS.items()}
# equality of what is loaded with what was saved; blobs are compared by content, so it is a relation: its meaning is what the task of the class proves
REL = {k: z3.Function('restored_' + k, KINDS[k][1].sort, KINDS[k][1].sort, Bool) for k in ('tvi', 'tpd', 'tp', 'tr')}
CLS = {'string': 'str', 'TypeDescription': 'td', 'TraceBufferSize': 'tbs', 'TraceVarInfo': 'tvi', 'TracePointData': 'tpd', 'TracePoint': 'tp', 'Trace': 'tr',
       'FW_TPD': 'tpd', 'FW_TVI': 'tvi'}
NUMS = {'unsigned long': (64, False), 'unsigned long long': (64, False), 'long': (64, True), 'long long': (64, True), 'unsigned int': (32, False),
        'int': (32, True), 'unsigned short': (16, False), 'short': (16, True), 'unsigned char': (8, False), 'char': (8, True), 'signed char': (8, True),
        'type_format': (32, False)}
FLT = {'double': z3.Function('shown_double', Int, Int), 'float': z3.Function('shown_float', Int, Int)}
RX = re.compile(r'^boost::archive::text_([io])archive& boost::archive::detail::interface_[io]archive<boost::archive::text_[io]archive>::operator(&|<<|>>) ?<(?:const )?(.*?)(?: const)? ?>\((.*)\)$')


def rel(k, x, t):
    return REL[k](x, t) if k in REL else x == t


def aget(ex, st, p, kind):
    p = D.sobj(p)
    v = ex.read(st, p)
    if not (isinstance(v, AbsV) and v.tag == kind):
        raise Unsupported('archive %r' % (v,))
    return p, v


def char_at(ex, st, p):
    ref, idx = (p.val, p.off) if isinstance(p, IntPtr) else (p.ref, p.idx)
    ex.prove(st, 'bytes archived belong to a live block', z3.And(z3.Select(ex.alive(st), ref), idx >= 0, idx < z3.Select(ex.bsize(st), ref)))
    v = z3.Select(z3.Select(ex.hmap(st, 'i8'), ref), idx)
    st.assume(v >= 0, v < 256)
    return v


def clsof(t):
    t = t.strip()
    if t not in CLS:
        raise Unsupported('archived type ' + t)
    return CLS[t]


def h_op(ex, st, args, dem):
    m = RX.match(dem)
    out, op, ty = m.group(1) == 'o', m.group(2), m.group(3).strip()
    a, x = args
    p, s = aget(ex, st, a, 'oar' if out else 'iar')
    pos = s.pos
    if ty in ('double', 'float'):
        # a number shown as text: nothing is assumed about getting the same bits back
        if out:
            v = ex.load(st, Ty(ty), x)
            st.assume(tag(pos) == 8, num(pos) == FLT[ty](v))
        else:
            ex.prove(st, 'a token is loaded as what it was saved as', tag(pos) == 8)
            v = fresh('parsed')
            st.assume(v >= 0, v < 2 ** (64 if ty == 'double' else 32))
            ex.store(st, Ty(ty), v, x)
    elif ty in NUMS:
        w, signed = NUMS[ty]
        if out:
            v = char_at(ex, st, x) if isinstance(x, (HP, IntPtr)) and w == 8 else ex.load(st, Ty('int', w), x)
            st.assume(tag(pos) == 0, num(pos) == (ex.sgn(st, v, w) if signed else v))
        else:
            n = num(pos)
            ex.prove(st, 'a token is loaded as what it was saved as', tag(pos) == 0)
            ex.prove(st, 'a number is loaded into a type that holds it', z3.And(n >= -2 ** (w - 1), n < 2 ** (w - 1)) if signed else z3.And(n >= 0, n < 2 ** w))
            v = fresh('loaded')
            st.assume(v >= 0, v < 2 ** w, v == (z3.If(n < 0, n + 2 ** w, n) if signed else n))
            ex.store(st, Ty('int', w), v, x)
    else:
        k = clsof(ty)
        kind, cls = KINDS[k]
        if out:
            t = cls.term(ex, st, ex.read(st, x))
            st.assume(tag(pos) == kind, rel(k, val[k](pos), t))
        else:
            ex.prove(st, 'a token is loaded as what it was saved as', tag(pos) == kind)
            t = val[k](pos)
            st.assume(*cls.facts(t))
            ex.write(st, x, AbsV('fw', t=t) if ty.startswith('FW_') else AbsV('str', t=t) if k == 'str' else TermV(cls, t))
    ex.write(st, p, s.upd(pos=z3.simplify(pos + 1)))
    return L.one(st, a)


def malloc(ex, st, args, dem):
    st.assume(args[0] < 2 ** 62)
    return [Out(st, 'ret', ex.halloc(st, args[0]))]


class Pair:
    """save, then load from the same position"""
    def __init__(self, ctx, r, name, cls, own=None, axioms=()):
        self.ctx, self.r = ctx, r
        self.ex = ex = ctx.exec(list(axioms))
        ex.lib.handlers[:0] = [(RX, h_op), (re.compile(r'^malloc$'), malloc)] + M.handlers(Q.STMTMAP) + M.iters()
        ex.contracts += D.mm_contracts()
        self.st = st = newstate()
        heap_start(ex, st)
        self.p0 = z3.Int('start')
        st.assume(self.p0 >= 0, mark(iv(0)))
        self.oa = ex.new_obj(st, 'oarchive', None, AbsV('oar', pos=self.p0))
        self.ia = ex.new_obj(st, 'iarchive', None, AbsV('iar', pos=self.p0))
        self.name, self.cls = name, cls
        self.phase = 'save'
        A = r'<boost::archive::text_%sarchive>\(boost::archive::text_%sarchive&, unsigned int\)'
        self.fs = ctx.find(r'^void %s::save%s const$' % (name, A % ('o', 'o')), r'^void %s::serialize%s$' % (name, A % ('o', 'o')))
        self.fl = ctx.find(r'^void %s::load%s$' % (name, A % ('i', 'i')), r'^void %s::serialize%s$' % (name, A % ('i', 'i')))
        r.functions += [ctx.mod.dem[self.fs.name], ctx.mod.dem[self.fl.name]]

    def run(self, saved, loaded, seqs, finish, version=0):
        """seqs: [(token kind or 'num', seq class, term of the saved sequence, fn(state) -> term of the loaded sequence)]"""
        ex = self.ex
        t = z3.Int('t')

        def is_saved(kind, SQ_, src, start, n):
            if kind == 'num':
                body = z3.And(tag(t) == 0, num(t) == SQ_.at(src, t - start))
            else:
                body = z3.And(tag(t) == KINDS[kind][0], rel(kind, val[kind](t), SQ_.at(src, t - start)))
            return FA([t], z3.Implies(z3.And(t >= start, t < start + n), body), tag(t), num(t) if kind == 'num' else val[kind](t))

        def ls(ex, L_, st0, leaves):
            ar = self.oa if self.phase == 'save' else self.ia
            start = ex.read(st0, ar).pos
            yield ('one token per element', lambda L_, s, k: ex.read(s, ar).pos == start + k)
            if self.phase == 'save':
                for kind, S, src, _ in seqs:
                    yield ('elements saved so far: %s' % S.name, lambda L_, s, k, a=(kind, S, src): is_saved(*a, start, k))
            else:
                for kind, S, src, get in seqs:
                    def fn(L_, s, k, kind=kind, S=S, src=src, get=get):
                        x = get(s)
                        if x is None:
                            return z3.BoolVal(True)
                        e = S.at(x, JQ)
                        return z3.Implies(z3.And(JQ >= 0, JQ < k), (e == num(start + JQ)) if kind == 'num' else e == val[kind](start + JQ))
                    yield ('elements loaded so far: %s' % S.name, fn)
                    yield ('one element each: %s' % S.name, lambda L_, s, k, get=get, S=S: S.len(get(s)) == k)
                    for nm, n in (('all', S.len(src)),):
                        yield ('length kept: %s' % S.name, lambda L_, s, k, get=get, S=S, n=n: S.len(get(s)) == n)
                    x0 = get(st0)
                    yield ('others untouched: %s' % S.name, lambda L_, s, k, get=get, x0=x0: get(s) == x0)
            for f in getattr(self, 'more', []):
                yield from f(ex, L_, st0, leaves, start)
        ex.loopspecs.append(ls)
        outs = ex.run(self.fs, [saved, self.oa, iv(version)], self.st)
        for o in outs:
            ex.curfn.append(self.fs)
            ex.prove(o.st, 'saving returns', z3.BoolVal(o.kind == 'ret'))
            if o.kind != 'ret':
                continue
            self.phase = 'load'
            end = ex.read(o.st, self.oa).pos
            ex.curfn.pop()
            outs2 = ex.run(self.fl, [loaded, self.ia, iv(version)], o.st)
            ex.curfn.append(self.fl)
            for o2 in outs2:
                self.r.paths += 1
                ex.prove(o2.st, 'loading returns', z3.BoolVal(o2.kind == 'ret'))
                if o2.kind != 'ret':
                    continue
                ex.prove(o2.st, 'loading consumes exactly what was saved', ex.read(o2.st, self.ia).pos == end)
                finish(o2.st)
                ex.vacuity(o2.st, self.name)
            ex.curfn.pop()
            self.phase = 'save'
        self.r.absorb(ex)


def simple(name, cls):
    def task(ctx, r):
        P = Pair(ctx, r, name, cls)
        t = sym(cls, 'saved')
        a = put(P.st, cls, t, 'saved')
        b = put(P.st, cls, sym(cls, 'before'), 'loaded')

        def fin(s):
            x = cls.term(P.ex, s, P.ex.read(s, b))
            for role, mem, k in cls.roles:
                u, v = cls.acc[role](x), cls.acc[role](t)
                P.ex.prove(s, '%s is restored' % role, REL['tpd'](u, v) if role == 'data' else u == v)
        P.run(a, b, [], fin)
    return task


def task_tvi(ctx, r):
    P = Pair(ctx, r, 'TraceVarInfo', T.TVI)
    ex, st = P.ex, P.st
    t = sym(T.TVI, 'saved')
    a = put(st, T.TVI, t, 'saved')
    A = T.TVI.acc
    st.assume(owns_blob(ex, st, t), A['value'](t) < st.gh['nextref'])
    b = put(st, T.TVI, sym(T.TVI, 'before'), 'loaded')
    h = lambda s: ex.hmap(s, 'i8')
    h0, nx0 = h(st), st.gh['nextref']
    src = lambda s, i: z3.Select(z3.Select(h0, A['value'](t)), i)
    sg = lambda v: z3.If(v >= 128, v - 256, v)
    q = z3.Int('q')
    st.assume(z3.ForAll([q], z3.And(src(st, q) >= 0, src(st, q) < 256), patterns=[src(st, q)]))

    def more(ex, L_, st0, leaves, start):
        if P.phase == 'save':
            yield ('bytes saved so far', lambda L_, s, k: FA([q], z3.Implies(z3.And(q >= start, q < start + k), z3.And(
                tag(q) == 0, num(q) == sg(src(s, q - start)))), tag(q), num(q)))
        else:
            def new(s):
                v = ex.first(s, ex.read(s, Ptr(b.obj, (T.TVI.idx['value'],))))
                return v.ref if isinstance(v, HP) else None

            def fn(L_, s, k):
                n = new(s)
                if n is None:
                    return z3.BoolVal(True)
                x = z3.Select(z3.Select(h(s), n), BQ)
                return z3.Implies(z3.And(BQ >= 0, BQ < k), z3.And(x == z3.If(num(start + BQ) < 0, num(start + BQ) + 256, num(start + BQ))))
            yield ('bytes loaded so far', fn)
            yield ('the saved blob stays', lambda L_, s, k: z3.Select(h(s), A['value'](t)) == z3.Select(h0, A['value'](t)))
    P.more = [more]
    ex.extra_bounds = [('size', A['size'](t))]

    def fin(s):
        x = T.TVI.term(ex, s, ex.read(s, b))
        for c in ('name', 'type', 'format', 'size', 'bufsz', 'has'):
            ex.prove(s, '%s is restored' % c, A[c](x) == A[c](t))
        blob = A['format'](t) == D.BLOB
        ex.prove(s, 'value is restored', z3.Or(blob, A['value'](x) == A['value'](t)))
        v = A['value'](x)
        ex.prove(s, 'a restored blob is a fresh block of its size', z3.Implies(blob, z3.And(
            v >= nx0, z3.Select(ex.alive(s), v), z3.Select(ex.bsize(s), v) >= A['size'](t))))
        ex.prove(s, 'blob bytes are restored', z3.Implies(z3.And(blob, BQ >= 0, BQ < A['size'](t)), z3.Select(z3.Select(h(s), v), BQ) == src(s, BQ)))
        ex.prove(s, 'the saved blob is not changed', z3.Implies(blob, z3.Select(h(s), A['value'](t)) == z3.Select(h0, A['value'](t))))
    P.run(a, b, [], fin)


def vecs(name, cls, parts):
    """classes that archive their vectors element by element; parts: role -> token kind"""
    def task(ctx, r):
        P = Pair(ctx, r, name, cls)
        ex, st = P.ex, P.st
        t = sym(cls, 'saved')
        a = put(st, cls, t, 'saved')
        old = sym(cls, 'before')
        b = put(st, cls, old, 'loaded')
        S = {c: seqof(cls, c) for c in parts}
        for c in parts:
            st.assume(cls.acc[c](old) == S[c].empty)
            st.assume(*kindof(cls, c).vfacts(cls.acc[c](t)))

        def get(c):
            def g(s):
                v = ex.read(s, Ptr(b.obj, (cls.idx[c],)))
                return v.t if isinstance(v, VecV) else cls.acc[c](cls.term(ex, s, ex.read(s, b)))
            return g

        def fin(s):
            for c, k in parts.items():
                x, y = get(c)(s), cls.acc[c](t)
                ex.prove(s, 'number of %s is restored' % c, S[c].len(x) == S[c].len(y))
                g = S[c].at(x, JQ) == S[c].at(y, JQ) if k == 'num' else rel(k, S[c].at(x, JQ), S[c].at(y, JQ))
                ex.prove(s, '%s are restored in order' % c, z3.Implies(z3.And(JQ >= 0, JQ < S[c].len(y)), g))
        P.run(a, b, [(k, S[c], cls.acc[c](t), get(c)) for c, k in parts.items()], fin)
    return task


def kindof(cls, role):
    return {('TPD', 'sizes'): T.KTBS, ('TPD', 'vars'): T.KTVI, ('TPD', 'aux'): T.KU64,
            ('TR', 'names'): T.KSTR, ('TR', 'types'): T.KTD, ('TR', 'points'): T.KTP}[('TPD' if cls is T.TPD else 'TR', role)]


def seqof(cls, role):
    return kindof(cls, role).seq


def mkdb(ctx, ex, st, name, t):
    ty, m = ctx.cstruct('TraceDB', m_traces=None)
    fs = [UNDEF] * len(ctx.mod.struct(ty.a))
    fs[m['m_traces']] = VecV(T.KTR, t)
    st.assume(*T.KTR.vfacts(t))
    return ex.new_obj(st, name, ty, Agg(ty, fs)), m['m_traces']


def task_db(ctx, r):
    P = Pair(ctx, r, 'TraceDB', None)
    ex, st = P.ex, P.st
    t = z3.Const('traces', T.STR_.sort)
    a, i = mkdb(ctx, ex, st, 'saved', t)
    b, i = mkdb(ctx, ex, st, 'loaded', T.STR_.empty)
    get = lambda s: ex.read(s, Ptr(b.obj, (i,))).t

    def fin(s):
        x = get(s)
        ex.prove(s, 'number of traces is restored', T.STR_.len(x) == T.STR_.len(t))
        ex.prove(s, 'traces are restored in order', z3.Implies(z3.And(JQ >= 0, JQ < T.STR_.len(t)), rel('tr', T.STR_.at(x, JQ), T.STR_.at(t, JQ))))
        ex.prove(s, 'the saved database is not changed', ex.read(s, Ptr(a.obj, (i,))).t == t)
    P.run(a, b, [('tr', T.STR_, t, get)], fin)


# ---------------------------------------------------------------- the C interface
chr_ = z3.Function('char_of', T.StrSort, Int, Int)
TEXT = z3.Function('archive_text', T.STR_.sort, T.StrSort)       # the text of an archive that holds one database
restored = z3.Function('restored_db', T.StrSort, T.STR_.sort)    # the traces an archive text stands for
SS = r'^std::__cxx11::basic_stringstream<char, .*>::'


def sstream(ex, st, p):
    p = D.sobj(p)
    path = tuple(x for x in p.path if not isinstance(x, tuple))
    p = Ptr(p.obj, ())
    v = ex.read(st, p)
    if not (isinstance(v, AbsV) and v.tag == 'sstream'):
        raise Unsupported('string stream %r' % (v,))
    return p, v


def c_handlers(ctx):
    ty, m = ctx.cstruct('TraceDB', m_traces=None)
    i = m['m_traces']

    def ss_ctor(ex, st, args, dem):
        ex.write(st, Ptr(D.sobj(args[0]).obj, ()), AbsV('sstream', t=z3.Const('no_text', T.StrSort), n=iv(0)))
        return L.one(st)

    def ss_str(ex, st, args, dem):
        p, v = sstream(ex, st, args[1])
        ex.write(st, args[0], AbsV('str', t=v.t))
        st.assume(T.slen(v.t) >= 0, T.slen(v.t) < 2 ** 62)
        return L.one(st)

    def oa_ctor(ex, st, args, dem):
        p, v = sstream(ex, st, args[1])
        st.mem[args[0].obj] = AbsV('oarchive', ss=p)
        return L.one(st)

    def ia_ctor(ex, st, args, dem):
        p, v = sstream(ex, st, args[1])
        st.mem[args[0].obj] = AbsV('iarchive', ss=p)
        return L.one(st)

    def nop(ex, st, args, dem):
        return L.one(st)

    def save(ex, st, args, dem):
        v = st.mem.get(args[0].obj)
        if not (isinstance(v, AbsV) and v.tag == 'oarchive'):
            raise Unsupported('archive %r' % (v,))
        p, s = sstream(ex, st, v.ss)
        t = ex.read(st, Ptr(args[1].obj, args[1].path + (i,))).t
        # the first and only object of the archive; anything before or after it is a different text
        ex.write(st, p, AbsV('sstream', t=TEXT(t) if is_c(s.n) and s.n.as_long() == 0 else fresh('text', T.StrSort), n=iv(1)))
        return L.one(st, args[0])

    def load(ex, st, args, dem):
        v = st.mem.get(args[0].obj)
        if not (isinstance(v, AbsV) and v.tag == 'iarchive'):
            raise Unsupported('archive %r' % (v,))
        p, s = sstream(ex, st, v.ss)
        t = restored(s.t)
        st.assume(*T.KTR.vfacts(t))
        q = Ptr(args[1].obj, args[1].path + (i,))
        ex.prove(st, 'a database is restored into an empty one', T.STR_.len(ex.read(st, q).t) == 0)
        ex.write(st, q, VecV(T.KTR, t))
        return L.one(st, args[0])

    def ins(ex, st, args, dem):
        p, v = sstream(ex, st, args[0])
        t = T.STR.term(ex, st, ex.read(st, args[1]))
        ex.write(st, p, AbsV('sstream', t=t if is_c(v.n) and v.n.as_long() == 0 else fresh('text', T.StrSort), n=iv(1)))
        return L.one(st, args[0])

    def ss_text(ex, st, args, dem):
        ex.write(st, Ptr(D.sobj(args[0]).obj, ()), AbsV('sstream', t=T.STR.term(ex, st, ex.read(st, args[1])), n=iv(1)))
        return L.one(st)

    def str_ctor(ex, st, args, dem):
        c = args[1]
        if not isinstance(c, HP):
            raise Unsupported('string from %r' % (c,))
        t = fresh('string', T.StrSort)
        arr = z3.Select(ex.hmap(st, 'i8'), c.ref)
        q = z3.Int('q')
        for x in ex.texts:
            st.assume(z3.Implies(z3.And(c.idx == 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T.slen(x)), z3.Select(arr, q) == chr_(x, q))), z3.Select(arr, T.slen(x)) == 0), t == x))
        ex.write(st, args[0], AbsV('str', t=t))
        return L.one(st)

    def cs(ex, st, args, dem):
        return L.one(st, ex.new_obj(st, 'text', None, AbsV('cstr', t=T.STR.term(ex, st, ex.read(st, args[0])))))

    def memcpy(ex, st, args, dem):
        d, s, n = args[:3]
        v = st.mem.get(s.obj) if isinstance(s, Ptr) and not s.path else None
        if not (isinstance(v, AbsV) and v.tag == 'cstr' and isinstance(d, HP)):
            raise Unsupported('memcpy')
        ex.prove(st, 'the copy stays inside the text', z3.And(n >= 0, n <= T.slen(v.t) + 1))
        ex.prove(st, 'the copy stays inside its block', z3.Or(n == 0, z3.And(z3.Select(ex.alive(st), d.ref), d.idx >= 0, d.idx + n <= z3.Select(ex.bsize(st), d.ref))))
        m = ex.hmap(st, 'i8')
        new = fresh('bytes', D.BS)
        q = z3.Int('q')
        st.assume(z3.ForAll([q], z3.Select(new, q) == z3.If(z3.And(q >= d.idx, q < d.idx + n), chr_(v.t, q - d.idx), z3.Select(z3.Select(m, d.ref), q)), patterns=[z3.Select(new, q)]))
        st.assume(chr_(v.t, T.slen(v.t)) == 0)
        st.gh['H:i8'] = z3.Store(m, d.ref, new)
        return L.one(st, d)

    def new_db(ex, st, args, dem):
        p, _ = mkdb(ctx, ex, st, 'db', T.STR_.empty)
        st.gh['newdb'] = p
        return L.one(st, p)
    AR = r'^boost::archive::text_%sarchive& boost::archive::detail::interface_%sarchive<boost::archive::text_%sarchive>::operator(?:&|%s) ?<TraceDB>\(.*\)$'
    return [(re.compile(SS + r'basic_stringstream\(\)$'), ss_ctor), (re.compile(SS + r'basic_stringstream\(std::_Ios_Openmode\)$'), ss_ctor), (re.compile(SS + r'basic_stringstream\(string const&, std::_Ios_Openmode\)$'), ss_text),
            (re.compile(SS + r'str\(\) const$'), ss_str), (re.compile(SS + r'~basic_stringstream\(\)$'), nop),
            (re.compile(r'^boost::archive::text_oarchive::text_oarchive\(ostream&, unsigned int\)$'), oa_ctor), (re.compile(r'^boost::archive::text_iarchive::text_iarchive\(istream&, unsigned int\)$'), ia_ctor),
            (re.compile(r'^boost::archive::text_[io]archive::~text_[io]archive\(\)$'), nop),
            (re.compile(AR % ('o', 'o', 'o', '<<')), save), (re.compile(AR % ('i', 'i', 'i', '>>')), load),
            (re.compile(r'^ostream& std::operator<< <char, std::char_traits<char>, std::allocator<char> ?>\(ostream&, string const&\)$'), ins),
            (re.compile(r'^string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$'), str_ctor), (re.compile(r'^string::~basic_string\(\)$'), nop),
            (re.compile(r'^string::(c_str|data)\(\) const$'), cs), (re.compile(r'^string::(size|length)\(\) const$'), D.str_size), (re.compile(r'^malloc$'), malloc),
            ('memcpy', lambda ex, st, d, s, n: memcpy(ex, st, [d, s, n], '')), (re.compile(r'^create_db$'), new_db)]


def c_start(ctx, r, name):
    ex = ctx.exec([])
    ex.lib.handlers[:0] = c_handlers(ctx)
    ex.contracts += [(rx, h) for rx, h in c_handlers(ctx) if rx != 'memcpy' and rx.pattern == '^create_db$']
    st = newstate()
    heap_start(ex, st)
    f = ctx.find('^%s$' % name)
    r.functions.append(name)
    return ex, st, f


def task_serialize(ctx, r):
    ex, st, f = c_start(ctx, r, 'serialize_trace_db')
    t = z3.Const('traces', T.STR_.sort)
    db, i = mkdb(ctx, ex, st, 'db', t)
    nx = st.gh['nextref']
    outs = ex.run(f, [db], st)
    ex.curfn.append(f)
    X = TEXT(t)
    for o in outs:
        r.paths += 1
        ex.prove(o.st, 'serialising returns a text', z3.BoolVal(o.kind == 'ret' and isinstance(o.val, HP)))
        if o.kind != 'ret' or not isinstance(o.val, HP):
            continue
        v = o.val
        arr = z3.Select(ex.hmap(o.st, 'i8'), v.ref)
        ex.prove(o.st, 'the text is a block of its own, for the caller to release', z3.And(v.idx == 0, v.ref >= nx, z3.Select(ex.alive(o.st), v.ref), z3.Select(ex.bsize(o.st), v.ref) > T.slen(X)))
        ex.prove(o.st, 'the text is the archive of the database', z3.Implies(z3.And(JQ >= 0, JQ < T.slen(X)), z3.Select(arr, JQ) == chr_(X, JQ)))
        ex.prove(o.st, 'the text is terminated', z3.Select(arr, T.slen(X)) == 0)
        ex.prove(o.st, 'the database is not changed', ex.read(o.st, Ptr(db.obj, (i,))).t == t)
        ex.vacuity(o.st, 'serialize_trace_db')
    r.absorb(ex)


def task_deserialize(ctx, r):
    ex, st, f = c_start(ctx, r, 'deserialize_trace_db')
    t = z3.Const('traces', T.STR_.sort)
    X = TEXT(t)
    ex.texts = [X]
    p = ex.halloc(st, T.slen(X) + 1)
    arr = z3.Select(ex.hmap(st, 'i8'), p.ref)
    q = z3.Int('q')
    st.assume(T.slen(X) >= 0, T.slen(X) < 2 ** 62)
    st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T.slen(X)), z3.Select(arr, q) == chr_(X, q)), patterns=[z3.Select(arr, q)]), z3.Select(arr, T.slen(X)) == 0)
    outs = ex.run(f, [p], st)
    ex.curfn.append(f)
    ty, m = ctx.cstruct('TraceDB', m_traces=None)
    for o in outs:
        r.paths += 1
        ok = o.kind == 'ret' and isinstance(o.val, Ptr) and o.val.obj in o.st.mem
        ex.prove(o.st, 'deserialising returns a database', z3.BoolVal(ok))
        if not ok:
            continue
        v = ex.read(o.st, Ptr(o.val.obj, o.val.path + (m['m_traces'],)))
        ex.prove(o.st, 'its traces are those of the archive', v.t == restored(X))
        ex.vacuity(o.st, 'deserialize_trace_db')
    r.absorb(ex)


TASKS = [('TypeDescription', simple('TypeDescription', T.TD)), ('TraceBufferSize', simple('TraceBufferSize', T.TBS)), ('TraceVarInfo', task_tvi),
         ('TracePointData', vecs('TracePointData', T.TPD, {'sizes': 'tbs', 'vars': 'tvi', 'aux': 'num'})),
         ('TracePoint', simple('TracePoint', T.TP)),
         ('Trace', vecs('Trace', T.TR, {'points': 'tp', 'names': 'str', 'types': 'td'})), ('TraceDB', task_db),
         ('serialize_trace_db', task_serialize), ('deserialize_trace_db', task_deserialize)]
