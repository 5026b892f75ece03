"""Function-by-function symbolic verification of LLVM IR against contracts.

Forward symbolic execution over the real IR, loops cut at their headers by
inductive invariants (candidates filtered by Houdini), calls cut at contracts,
every obligation discharged by z3.  See DESIGN.md.
"""
import re
import time
import z3
from ir import Unsupported, Ty, PTR, I as ITY

z3.set_param('smt.random_seed', 0)

Int, Bool = z3.IntSort(), z3.BoolSort()


def iv(n):
    return z3.IntVal(n)


def is_c(e):
    return z3.is_int_value(e)


_fresh = [0]


def fresh(name, sort=Int):
    return _fresh_const(name, sort)


def _fresh_const(name, sort=Int):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


mark = z3.Function('mark', Int, Bool)       # loop positions: triggers one unfolding of a fold


# ------------------------------------------------------------------ values
class V:
    pass


class Undef(V):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Null(V):
    def __repr__(self):
        return 'null'


NULL = Null()


class Obj:
    n = 0

    def __init__(self, name, ty=None):
        Obj.n += 1
        self.id, self.name, self.ty = Obj.n, name, ty

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


class Ptr(V):
    """pointer into a structured object; path = ints (fields) / ('e', idx)"""
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, tuple(path)

    def __repr__(self):
        return '&%r%s' % (self.obj, ''.join('.%s' % (p,) for p in self.path))


class HP(V):
    """pointer into the region heap: block ref, element index, field path"""
    __slots__ = ('ref', 'idx', 'ety', 'path')

    def __init__(self, ref, idx=None, ety=None, path=()):
        self.ref, self.idx, self.ety, self.path = ref, iv(0) if idx is None else idx, ety, tuple(path)

    def __repr__(self):
        return 'HP(%s,%s,%s)' % (self.ref, self.idx, self.path)


class IntPtr(V):
    """an integer-valued address (contents of a value union read as pointer)"""
    __slots__ = ('val', 'off')

    def __init__(self, val, off=None):
        self.val, self.off = val, iv(0) if off is None else off

    def __repr__(self):
        return 'IP(%s+%s)' % (self.val, self.off)


class Fn(V):
    def __init__(self, name):
        self.name = name


class GlobP(V):
    def __init__(self, name, off=None):
        self.name, self.off = name, off

    def __repr__(self):
        return '@' + self.name


class Agg(V):
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, f

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.f))


class TermV(V):
    """a class value represented by one logical term"""
    __slots__ = ('cls', 't')

    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __repr__(self):
        return 'T(%s)' % (self.t,)


class VecV(V):
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return 'Vec(%s)' % (self.t,)


class ArrV(V):
    """C array of scalars/pointers with symbolic indices"""
    __slots__ = ('n', 'ety', 't')

    def __init__(self, n, ety, t):
        self.n, self.ety, self.t = n, ety, t


class AbsV(V):
    """abstract library object: tag + dict of terms"""
    __slots__ = ('tag', 'd')

    def __init__(self, tag, **d):
        self.tag, self.d = tag, d

    def upd(self, **kw):
        r = AbsV(self.tag)
        r.d = dict(self.d)
        r.d.update(kw)
        return r

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s%r' % (self.tag, self.d)


class HeapAlias(V):
    def __init__(self, ref, ety):
        self.ref, self.ety = ref, ety


class Exc(V):
    def __init__(self, typ, ptr=None):
        self.typ, self.ptr = typ, ptr


class VT(V):          # vtable pointer of a stream object
    def __init__(self, obj, n=0):
        self.obj, self.n = obj, n


class VSlot(V):       # entry of a virtual table
    def __init__(self, obj, n):
        self.obj, self.n = obj, n


class VBOff(V):       # virtual-base offset read through it
    def __init__(self, obj):
        self.obj = obj


class PInt(V):        # pointer converted to an integer
    def __init__(self, p):
        self.p = p


# ------------------------------------------------------------------ state
SHL = z3.Function('shl', Int, Int, Int, Int)


class State:
    __slots__ = ('mem', 'pc', 'gh', 'eq', 'trail')

    def __init__(self):
        self.mem, self.pc, self.gh, self.eq, self.trail = {}, [], {}, {}, []

    def copy(self):
        s = State()
        s.mem, s.pc, s.gh, s.eq, s.trail = dict(self.mem), list(self.pc), dict(self.gh), dict(self.eq), list(self.trail)
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            self.pc.append(f)
            self._eq(f)

    def _eq(self, f):
        if z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            if is_c(b) and not is_c(a):
                self.eq[a.get_id()] = (a, b)
            elif is_c(a) and not is_c(b):
                self.eq[b.get_id()] = (b, a)
        elif z3.is_and(f):
            for c in f.children():
                self._eq(c)

    def const(self, e):
        """resolve an int term to a constant if an assumed equality says so"""
        if is_c(e):
            return e
        r = self.eq.get(e.get_id())
        if r is not None:
            return r[1]
        return e


class Out:
    """outcome of executing a function: kind in ret / throw / abort"""
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


class ProofFail(Exception):
    pass


class Oblig:
    def __init__(self, name, fn, line, ok, t, detail='', backend='z3'):
        self.name, self.fn, self.line, self.ok, self.t, self.detail, self.backend = name, fn, line, ok, t, detail, backend


# ------------------------------------------------------------------ solver
RETRY = ({'smt.phase_selection': 0, 'smt.random_seed': 7}, {'smt.phase_selection': 1, 'smt.random_seed': 11})


class Prover:
    def __init__(self, axioms=(), timeout=20000):
        self.axioms = list(axioms)
        self.timeout = timeout
        self.n = 0
        self.time = 0.0
        self._q = None
        self.trace = None
        self.cache = {}

    def prove(self, hyps, goal, timeout=None, retry=True):
        """'proved' | 'refuted' (model found) | 'unknown'"""
        if z3.is_true(goal):
            return 'proved', None
        t0 = time.time()
        r, m = self._try(hyps, goal, timeout or self.timeout, {})
        if r == 'unknown' and retry and time.time() - t0 < 2:
            # the instantiation stopped early: once more without preprocessing
            r2, m2 = self._try(hyps, goal, min(3000, timeout or self.timeout), {}, z3.SimpleSolver)
            if r2 == 'proved':
                r, m = r2, m2
            else:
                # which literals are relevant, and so what is instantiated, depends on the case splits: others
                for o in RETRY + (({'smt.relevancy': 0},) if timeout is None else ()):
                    r2, m2 = self._try(hyps, goal, min(2000, timeout or self.timeout), o)
                    if r2 == 'proved':
                        r, m = r2, m2
                        break
        self.n += 1
        self.time += time.time() - t0
        if self.trace:
            self.trace(hyps, goal, r, time.time() - t0)
        return r, m

    def _try(self, hyps, goal, timeout, opts, mk=z3.Solver):
        s = mk()
        s.set('timeout', timeout)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        for o, v in opts.items():
            s.set(o, v)
        for a in self.axioms:
            s.add(a)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s.model()
        m = None
        try:
            m = s.model()
        except z3.Z3Exception:
            pass
        return 'unknown', m

    def quick(self, hyps, goal, ms=2500):
        if z3.is_true(goal):
            return True
        if z3.is_false(goal) and not hyps:
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        for h in hyps:
            if not _has_q(h):
                s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        self.time += time.time() - t0
        return r == z3.unsat

    def infeasible(self, hyps, ms=2500):
        return self.quick(hyps, z3.BoolVal(False), ms)


_hasq = {}


def _has_q(e):
    k = e.get_id()
    r = _hasq.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    st = [e]
    res = False
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _hasq[k] = (e, res)
    return res


# ------------------------------------------------------------------ executor
class Loop:
    """what a contract's candidate generator sees at a loop header"""

    def __init__(self):
        self.k = None
        self.parent = None
        self.entry = None
        self.head = None
        self.fn = None
        self.hdr = None
        self.ints = []
        self.nonhole = []


LAMBDA = re.compile(r'\}::(operator\(\)|_FUN|__invoke)')


class Exec:
    MAXPATHS = 4000

    def __init__(self, mod, prover, lib, is_repo):
        self.mod, self.pv, self.lib, self.is_repo = mod, prover, lib, is_repo
        self.contracts = []            # (regex on demangled, handler)
        self.globobj = {}
        self.obligs = []
        self.mute = 0
        self.loopspecs = []            # callables (ex, Loop, state)->[(name,formula fn)]
        self.curfn = []
        self.curline = 0
        self.loopstack = []
        self.used_lib = {}
        self.inlined = set()
        self.contracted = set()
        self.safety = True
        self.fails = []
        self.depth = 0
        self.kinds = {}
        self.loops_done = []
        self.deadline = None
        self.virtual = None            # handler of calls through a virtual table

    # ---- obligations
    def prove(self, st, name, goal, timeout=None):
        """record an obligation; returns True when discharged"""
        if self.mute:
            return True
        if z3.is_true(z3.simplify(goal)) if z3.is_expr(goal) else goal is True:
            self.obligs.append(Oblig(name, self.where(), self.curline, True, 0.0, 'simplified'))
            return True
        t0 = time.time()
        r, m = self.pv.prove(st.pc, goal, timeout)
        ok = r == 'proved'
        self.obligs.append(Oblig(name, self.where(), self.curline, ok, time.time() - t0,
                                 '' if ok else '%s: %s\nmodel: %s\npath: %s' % (
                                     r, str(goal)[:1500], str(m)[:3000], st.trail[-12:])))
        return ok

    def vacuity(self, st, what):
        """the assumptions on this path must not be contradictory"""
        if self.mute:
            return
        r, _ = self.pv.prove(st.pc, z3.BoolVal(False), 1500)
        if r == 'proved':
            raise Unsupported('assumptions contradictory: ' + what)

    def contradictory(self, st):
        return self.pv.prove(st.pc, z3.BoolVal(False), 1500)[0] == 'proved'

    def where(self):
        return self.mod.dem.get(self.curfn[-1].name, self.curfn[-1].name) if self.curfn else '?'

    def entails(self, st, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.pv.quick(st.pc, f)

    def feasible(self, st):
        return not self.pv.infeasible(st.pc)

    # ---- integer helpers (canonical unsigned)
    def norm(self, st, e, n):
        """wrap e into [0,2^n); drops the wrap when it provably cannot occur"""
        e = z3.simplify(e)
        M = 1 << n
        if is_c(e):
            return iv(e.as_long() % M)
        if self.entails(st, z3.And(e >= 0, e < M)):
            return e
        return e % M

    def sgn(self, st, e, n):
        if is_c(e):
            v = e.as_long()
            return iv(v - (1 << n) if v >= 1 << (n - 1) else v)
        if self.entails(st, e < (1 << (n - 1))):
            return e
        return z3.If(e >= (1 << (n - 1)), e - (1 << n), e)

    # ---- memory
    def node(self, st, obj):
        if obj not in st.mem:
            raise Unsupported('unknown object %r' % obj)
        return st.mem[obj]

    def child(self, st, v, p, want_bounds=True):
        if isinstance(v, TermV):
            v = self.expand(st, v)
        if isinstance(p, tuple):
            idx = p[1]
            if isinstance(v, AbsV) and v.tag == 'map' and p[0] in ('m', 'mp'):
                x = v.mk.wrap(z3.Select(v.val, idx))
                return x if p[0] == 'm' else Agg(None, [v.mk.keyval(idx) if v.mk.keyval else UNDEF, x])
            if isinstance(v, VecV):
                if want_bounds and self.safety:
                    self.prove(st, 'vector index in range', z3.And(idx >= 0, idx < v.kind.seq.len(v.t)))
                t = v.kind.seq.at(v.t, idx)
                r = v.kind.wrap(t)
                st.assume(*v.kind.facts(t))
                return r
            if isinstance(v, ArrV):
                if want_bounds and self.safety:
                    self.prove(st, 'array index in range', z3.And(idx >= 0, idx < v.n))
                return self.from_sel(z3.Select(v.t, idx), v.ety)
            if isinstance(v, Agg):
                i = st.const(z3.simplify(idx))
                if is_c(i):
                    return v.f[i.as_long()]
            raise Unsupported('index into %r' % v)
        if isinstance(v, Agg):
            return v.f[p]
        if isinstance(v, Undef):
            return UNDEF
        raise Unsupported('field %r of %r' % (p, type(v)))

    def from_sel(self, t, ety):
        if ety.k == 'ptr':
            return HP(t)
        return t

    def expand(self, st, v):
        return Agg(v.cls.irty, v.cls.unpack(self, st, v.t))

    def read(self, st, ptr):
        """value tree at ptr"""
        if isinstance(ptr, HP):
            return self.hread(st, ptr)
        if not isinstance(ptr, Ptr):
            raise Unsupported('read through %r' % (ptr,))
        v = self.node(st, ptr.obj)
        for p in ptr.path:
            if isinstance(v, HeapAlias):
                raise Unsupported('alias read')
            v = self.child(st, v, p)
        return v

    def write(self, st, ptr, val):
        if isinstance(ptr, HP):
            return self.hwrite(st, ptr, val)
        if not isinstance(ptr, Ptr):
            raise Unsupported('write through %r' % (ptr,))
        root = st.mem.get(ptr.obj)
        if root is None:
            raise Unsupported('write to unknown object %r' % ptr.obj)
        st.mem[ptr.obj] = self._upd(st, root, ptr.path, val, ptr.obj.ty)

    def _upd(self, st, v, path, val, ty):
        if not path:
            return val
        p = path[0]
        if isinstance(v, TermV):
            v = self.expand(st, v)
        if isinstance(p, tuple):
            idx = p[1]
            if isinstance(v, AbsV) and v.tag == 'map' and p[0] in ('m', 'mp'):
                rest = path[1:]
                if p[0] == 'mp':
                    if not rest or rest[0] != 1:
                        raise Unsupported('store to a map key')
                    rest = rest[1:]
                new = self._upd(st, v.mk.wrap(z3.Select(v.val, idx)), rest, val, None)
                return v.upd(val=z3.Store(v.val, idx, v.mk.unwrap(self, st, new)))
            if isinstance(v, VecV):
                if self.safety:
                    self.prove(st, 'vector index in range', z3.And(idx >= 0, idx < v.kind.seq.len(v.t)))
                old = v.kind.wrap(v.kind.seq.at(v.t, idx)) if len(path) > 1 else None
                new = self._upd(st, old, path[1:], val, None)
                return VecV(v.kind, v.kind.seq.set(st, v.t, idx, v.kind.unwrap(self, st, new)))
            if isinstance(v, ArrV):
                if self.safety:
                    self.prove(st, 'array index in range', z3.And(idx >= 0, idx < v.n))
                return ArrV(v.n, v.ety, z3.Store(v.t, idx, self.to_int(st, val)))
            if isinstance(v, Agg):
                i = st.const(z3.simplify(idx))
                if is_c(i):
                    f = list(v.f)
                    f[i.as_long()] = self._upd(st, f[i.as_long()], path[1:], val, None)
                    return Agg(v.ty, f)
            raise Unsupported('indexed store into %r' % type(v))
        if isinstance(v, Undef) or v is None:
            v = self.blank(ty)
        if not isinstance(v, Agg):
            raise Unsupported('field store into %r' % type(v))
        f = list(v.f)
        fty = None
        if v.ty is not None:
            fty = self.fieldty(v.ty, p)
        f[p] = self._upd(st, f[p], path[1:], val, fty)
        return Agg(v.ty, f)

    def fieldty(self, ty, p):
        if ty.k == 'named':
            fs = self.mod.struct(ty.a)
            return fs[p] if fs and p < len(fs) else None
        if ty.k == 'struct':
            return ty.a[p]
        if ty.k == 'array':
            return ty.b
        return None

    def blank(self, ty):
        """fresh uninitialised tree for an IR type"""
        if ty is None:
            raise Unsupported('blank of unknown type')
        if ty.k == 'named':
            h = self.lib.blank_named(self, ty)
            if h is not None:
                return h
            fs = self.mod.struct(ty.a)
            if fs is None:
                return UNDEF
            return Agg(ty, [self.blank(f) for f in fs])
        if ty.k == 'struct':
            return Agg(ty, [self.blank(f) for f in ty.a])
        if ty.k == 'array':
            if ty.b.k in ('int', 'ptr') and ty.a > 8:
                return ArrV(ty.a, ty.b, fresh('arr', z3.ArraySort(Int, Int)))
            if ty.a <= 64:
                return Agg(ty, [self.blank(ty.b) for _ in range(ty.a)])
            return UNDEF
        return UNDEF

    # ---- region heap: maps  name -> Array(Ref, Array(Int, Int))
    HS = z3.ArraySort(Int, z3.ArraySort(Int, Int))

    def hmap(self, st, name):
        k = 'H:' + name
        if k not in st.gh:
            st.gh[k] = z3.Const(k + '!0', self.HS)
        return st.gh[k]

    def hkey(self, ety, path):
        if ety is None:
            raise Unsupported('untyped heap access')
        if not path and ety.k in ('int', 'ptr', 'double', 'float'):
            return repr(ety) if ety.k == 'int' else {'ptr': 'ptr', 'double': 'i64', 'float': 'i32'}[ety.k]
        return repr(ety).lstrip('%').replace('struct.', '').replace('class.', '') + '.' + '.'.join(map(str, path))

    def halloc(self, st, size, name='blk', zero=False):
        """fresh block of `size` bytes"""
        nx = st.gh.get('nextref')
        if nx is None:
            nx = st.gh['nextref'] = z3.Const('nextref!0', Int)
            st.assume(nx >= 1)
        ref = nx
        st.gh['nextref'] = nx + 1
        st.gh['alive'] = z3.Store(self.alive(st), ref, True)
        st.gh['bsize'] = z3.Store(self.bsize(st), ref, size)
        if zero:
            st.gh['zeroed'] = z3.Store(st.gh.get('zeroed', z3.K(Int, False)), ref, True)
        return HP(ref)

    def alive(self, st):
        if 'alive' not in st.gh:
            st.gh['alive'] = z3.Const('alive!0', z3.ArraySort(Int, Bool))
        return st.gh['alive']

    def bsize(self, st):
        if 'bsize' not in st.gh:
            st.gh['bsize'] = z3.Const('bsize!0', z3.ArraySort(Int, Int))
        return st.gh['bsize']

    def hleaf(self, ety, path):
        t = ety
        for p in path:
            t = self.fieldty(t, p)
        # descend to first scalar
        pp = list(path)
        while t is not None and t.k in ('named', 'struct'):
            pp.append(0)
            t = self.fieldty(t, 0)
        return t, tuple(pp)

    def hcheck(self, st, p, sz=None):
        if not self.safety or self.mute:
            return
        off = 0
        t = p.ety
        for q in p.path:
            off += self.mod.layout(t)[2][q]
            t = self.fieldty(t, q)
        es = self.mod.sizeof(p.ety)
        need = sz if sz is not None else self.mod.sizeof(t)
        self.prove(st, 'heap access inside a live block',
                   z3.And(z3.Select(self.alive(st), p.ref), p.idx >= 0,
                          p.idx * es + (off + need) <= z3.Select(self.bsize(st), p.ref)))

    def hread(self, st, p, ty=None):
        ety = p.ety or ty
        if ety is None:
            raise Unsupported('untyped heap read')
        lt, path = self.hleaf(ety, p.path)
        q = HP(p.ref, p.idx, ety, path)
        self.hcheck(st, q)
        t = z3.Select(z3.Select(self.hmap(st, self.hkey(ety, path)), p.ref), p.idx)
        if lt.k == 'ptr':
            return HP(t)
        if lt.k == 'int':
            st.assume(t >= 0, t < (1 << lt.a))
        elif lt.k in ('float', 'double'):
            st.assume(t >= 0, t < (1 << (32 if lt.k == 'float' else 64)))
        return t

    def hwrite(self, st, p, val, ty=None):
        ety = p.ety or ty
        lt, path = self.hleaf(ety, p.path)
        q = HP(p.ref, p.idx, ety, path)
        self.hcheck(st, q)
        if isinstance(val, Agg):
            v = val
            while isinstance(v, Agg):
                v = v.f[0]
            val = v
        k = self.hkey(ety, path)
        m = self.hmap(st, k)
        st.gh['H:' + k] = z3.Store(m, p.ref, z3.Store(z3.Select(m, p.ref), p.idx, self.to_int(st, val)))

    def to_int(self, st, v):
        """encode a scalar or pointer as an Int term"""
        if z3.is_expr(v):
            if z3.is_bool(v):
                return z3.If(v, iv(1), iv(0))
            return v
        if isinstance(v, Null):
            return iv(0)
        if isinstance(v, HP):
            i = z3.simplify(v.idx)
            if is_c(i) and i.as_long() == 0 and not v.path:
                return v.ref
            raise Unsupported('interior pointer stored')
        if isinstance(v, IntPtr):
            return z3.simplify(v.val + v.off)
        if isinstance(v, Undef):
            return fresh('undef')
        if isinstance(v, Agg):
            x = v
            while isinstance(x, Agg):
                x = x.f[0]
            return self.to_int(st, x)
        raise Unsupported('to_int %r' % (v,))

    # ---- loads / stores with IR types
    def load(self, st, ty, p):
        if isinstance(p, HP):
            if p.ety is None:
                p = HP(p.ref, p.idx, ty, p.path)
            if ty.k in ('named', 'struct', 'array'):
                raise Unsupported('aggregate heap load')
            lt, path = self.hleaf(p.ety, p.path)
            v = self.hread(st, p, ty)
            return self.coerce(st, v, ty, lt)
        if isinstance(p, VT):
            if ty.k == 'int':
                return VBOff(p.obj)
            if self.virtual is None:
                raise Unsupported('virtual dispatch')
            return VSlot(p.obj, p.n)
        if isinstance(p, GlobP):
            return self.lib.load_global(self, st, ty, p)
        if isinstance(p, Null):
            self.prove(st, 'no null pointer dereference', z3.BoolVal(False))
            raise Unsupported('null load')
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        v = self.read(st, p)
        if isinstance(v, AbsV) and ty.k == 'ptr':
            r = self.lib.load_abs(self, st, v, p)
            if r is not None:
                return r
        if ty.k in ('int', 'ptr', 'float', 'double'):
            v = self.first(st, v)
            if isinstance(v, HeapAlias):
                raise Unsupported('alias scalar')
            return self.coerce(st, v, ty, None)
        return v

    def first(self, st, v):
        while True:
            if isinstance(v, TermV):
                v = self.expand(st, v)
            if isinstance(v, Agg):
                if not v.f:
                    return UNDEF
                v = v.f[0]
            else:
                return v

    def coerce(self, st, v, ty, lt):
        """present leaf value v as IR type ty"""
        if isinstance(v, Undef):
            return self.undef_of(ty)
        if ty.k == 'ptr':
            if z3.is_expr(v):
                return IntPtr(v)
            return v
        if ty.k == 'int':
            if isinstance(v, (HP, Ptr, Null, IntPtr)):
                if isinstance(v, IntPtr):
                    return self.to_int(st, v)
                return PInt(v)
            if z3.is_expr(v):
                if z3.is_bool(v):
                    if ty.a == 1:
                        return v
                    return z3.If(v, iv(1), iv(0))
                if ty.a == 1:
                    return v != 0
                if ty.a < 64 and not (lt is not None and lt.k == 'int' and lt.a == ty.a):
                    # narrower view of a wider slot (little endian low part)
                    if not self.entails(st, v < (1 << ty.a)):
                        return v % (1 << ty.a)
                return v
            if isinstance(v, VBOff):
                return v
            if isinstance(v, PInt):
                return v
        if ty.k in ('float', 'double'):
            if z3.is_expr(v) and not z3.is_bool(v):
                if ty.k == 'float' and not self.entails(st, v < (1 << 32)):
                    return v % (1 << 32)
                return v
        raise Unsupported('coerce %r to %r' % (v, ty))

    def undef_of(self, ty):
        if ty.k == 'ptr':
            return UNDEF
        if ty.k == 'int':
            if ty.a == 1:
                return fresh('u', Bool)
            return fresh('undef')
        if ty.k in ('float', 'double'):
            return fresh('undef')
        return UNDEF

    def store(self, st, ty, v, p):
        if isinstance(p, HP):
            if p.ety is None:
                p = HP(p.ref, p.idx, ty, p.path)
            return self.hwrite(st, p, v, ty)
        if isinstance(p, GlobP):
            return self.lib.store_global(self, st, ty, v, p)
        if isinstance(p, Null):
            self.prove(st, 'no null pointer dereference', z3.BoolVal(False))
            raise Unsupported('null store')
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if p.obj not in st.mem:
            raise Unsupported('store to unknown object')
        # descend to first scalar leaf for scalar stores into aggregates
        path = list(p.path)
        if ty.k in ('int', 'ptr', 'float', 'double'):
            cur = st.mem[p.obj]
            for q in path:
                if isinstance(cur, (Undef, type(None))):
                    break
                if isinstance(cur, TermV):
                    cur = self.expand(st, cur)
                if isinstance(q, tuple):
                    cur = self.child(st, cur, q, False)
                else:
                    cur = cur.f[q] if isinstance(cur, Agg) else UNDEF
            while isinstance(cur, (Agg, TermV)):
                if isinstance(cur, TermV):
                    cur = self.expand(st, cur)
                if not cur.f:
                    break
                path.append(0)
                cur = cur.f[0]
        if z3.is_expr(v) and z3.is_bool(v) and not (ty.k == 'int' and ty.a == 1):
            v = z3.If(v, iv(1), iv(0))
        self.write(st, Ptr(p.obj, path), v)

    def new_obj(self, st, name, ty, val=None):
        o = Obj(name, ty)
        st.mem[o] = self.blank(ty) if val is None else val
        return Ptr(o)

    # ---- gep
    def gep(self, st, sty, base, idx):
        first = idx[0]
        rest = idx[1:]
        if isinstance(base, VT):
            if sty.k == 'ptr' and not rest and is_c(first):
                return VT(base.obj, base.n + first.as_long())
            return base
        if isinstance(base, Null):
            return NULL
        if isinstance(base, IntPtr):
            if sty.k == 'int' and sty.a == 8 and not rest:
                return IntPtr(base.val, z3.simplify(base.off + first))
            raise Unsupported('gep on address')
        if isinstance(base, GlobP):
            i0 = first
            if not rest and is_c(i0):
                return GlobP(base.name, (base.off or 0) + i0.as_long())
            return base
        if isinstance(base, Ptr):
            path = list(base.path)
            if isinstance(first, VBOff):
                return Ptr(base.obj, path + ['vbase'])
            if not (is_c(first) and first.as_long() == 0):
                if path and isinstance(path[-1], tuple):
                    path[-1] = ('e', z3.simplify(path[-1][1] + self.sx64(st, first)))
                elif sty.k == 'int' and sty.a == 8 and not rest and is_c(first):
                    return self.canon(st, Ptr(base.obj, path + self.byteoff(base, first.as_long())))
                else:
                    raise Unsupported('pointer arithmetic on object %r' % base)
        elif isinstance(base, HP):
            if base.path:
                if not (is_c(first) and first.as_long() == 0):
                    raise Unsupported('arith on field pointer')
                path = list(base.path)
                ety = base.ety
                idx0 = base.idx
            else:
                ety = sty if base.ety is None or not rest else base.ety
                if base.ety is not None and rest and repr(base.ety) != repr(sty):
                    raise Unsupported('heap block retyped')
                if base.ety is not None and not rest:
                    ety = base.ety
                    if self.mod.sizeof(ety) != self.mod.sizeof(sty):
                        raise Unsupported('heap block retyped')
                idx0 = z3.simplify(base.idx + self.sx64(st, first))
                path = []
        else:
            raise Unsupported('gep on %r' % (base,))
        t = sty
        for i in rest:
            if t.k in ('named', 'struct'):
                j = i.as_long()
                path.append(j)
                t = self.fieldty(t, j)
            elif t.k == 'array':
                path.append(('e', i))
                t = t.b
            else:
                raise Unsupported('gep into %r' % t)
        if isinstance(base, Ptr):
            return self.canon(st, Ptr(base.obj, path))
        return HP(base.ref, idx0, ety, path)

    def byteoff(self, base, off):
        """field path at a constant byte offset (base-class subobjects)"""
        ty = base.obj.ty
        for q in base.path:
            ty = self.fieldty(ty, q) if ty is not None and not isinstance(q, tuple) else None
        path = []
        while off:
            if ty is None or ty.k not in ('named', 'struct'):
                raise Unsupported('byte offset into %r' % base)
            offs = self.mod.layout(ty)[2]
            c = [i for i, o in enumerate(offs) if o <= off]
            if not c:
                raise Unsupported('byte offset')
            i = c[-1]
            path.append(i)
            off -= offs[i]
            ty = self.fieldty(ty, i)
        return path

    def sx64(self, st, e):
        if is_c(e):
            v = e.as_long()
            return iv(v - (1 << 64) if v >= 1 << 63 else v)
        if self.entails(st, e < (1 << 62)):
            return e
        return self.sgn(st, e, 64)

    def canon(self, st, p):
        """&obj.m_head style subobjects that live in the region heap"""
        v = st.mem.get(p.obj)
        for n, q in enumerate(p.path):
            if isinstance(v, HeapAlias):
                return HP(v.ref, iv(0), v.ety, p.path[n:])
            if isinstance(v, Agg) and isinstance(q, int):
                v = v.f[q]
            else:
                return p
        if isinstance(v, HeapAlias):
            return HP(v.ref, iv(0), v.ety, ())
        return p

    # ---- operand evaluation
    def val(self, fr, regs, st, ty, op):
        k = op[0]
        if k == 'reg':
            return regs[op[1]]
        if k == 'int':
            if ty.k == 'int' and ty.a == 1:
                return z3.BoolVal(bool(op[1]))
            return iv(op[1] % (1 << ty.a) if ty.k == 'int' else op[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if ty.k in ('struct', 'named', 'array'):
                return self.blank(ty)
            return self.undef_of(ty)
        if k == 'glob':
            if op[1] in self.mod.funcs or op[1] in self.mod.decls:
                return Fn(op[1])
            if op[1] in self.globobj:
                return Ptr(self.globobj[op[1]])
            return GlobP(op[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'float':
            return self.fconst(ty, op[1])
        if k == 'cgep':
            b = self.val(fr, regs, st, op[2][0][0], op[2][0][1])
            return b if isinstance(b, GlobP) else self.gep(st, op[1], b, [
                self.val(fr, regs, st, t, o) for t, o in op[2][1:]])
        if k == 'agg':
            return Agg(ty, [self.val(fr, regs, st, t, o) for t, o in op[1]])
        raise Unsupported('operand %r' % (op,))

    def zero(self, ty):
        if ty.k == 'int':
            return z3.BoolVal(False) if ty.a == 1 else iv(0)
        if ty.k == 'ptr':
            return NULL
        if ty.k in ('float', 'double'):
            return iv(0)
        if ty.k == 'named':
            fs = self.mod.struct(ty.a)
            return Agg(ty, [self.zero(f) for f in fs])
        if ty.k == 'struct':
            return Agg(ty, [self.zero(f) for f in ty.a])
        if ty.k == 'array':
            if ty.a > 64:
                raise Unsupported('zero array')
            return Agg(ty, [self.zero(ty.b) for _ in range(ty.a)])
        raise Unsupported('zero %r' % ty)

    def fconst(self, ty, txt):
        import struct
        if txt.startswith('0x'):
            bits = int(txt[2:], 16)
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            d = float(txt)
        if ty.k == 'double':
            return iv(struct.unpack('<Q', struct.pack('<d', d))[0])
        return iv(struct.unpack('<I', struct.pack('<f', d))[0])

    # ---- running functions
    def call(self, st, name, args, byname=True):
        """all outcomes of calling IR function `name`"""
        if name.startswith('llvm.'):
            return self.lib.intrinsic(self, st, name, args)
        dem = self.mod.dem.get(name, name)
        for rx, h in (() if LAMBDA.search(dem) else self.contracts):   # a lambda's name starts with its function's
            if rx.match(dem):
                self.contracted.add(dem)
                r = h(self, st, args, dem)
                if r is not NotImplemented:
                    return r
        f = self.mod.funcs.get(name)
        if f is not None and self.is_repo(f):
            return self.run(f, args, st)
        r = self.lib.call(self, st, name, dem, args)
        if r is not NotImplemented:
            return r
        if f is not None and self.lib.may_inline(dem):
            return self.run(f, args, st)
        raise Unsupported('no contract for library function ' + dem)

    def run(self, f, args, st):
        f.parse()
        if self.depth > 40:
            raise Unsupported('inline depth')
        self.inlined.add(self.mod.dem.get(f.name, f.name))
        if len(args) != len(f.params):
            raise Unsupported('arity')
        regs = {n: a for (t, n), a in zip(f.params, args)}
        self.depth += 1
        self.curfn.append(f)
        try:
            outs = []
            self.explore(f, [(st, regs, f.order[0], None)], None, None, outs, None)
            return outs
        finally:
            self.depth -= 1
            self.curfn.pop()

    def explore(self, f, work, region, header, outs, edge):
        """run until outcomes; region: set of blocks of the loop being cut
        (leaving it or re-entering `header` is reported through `edge`)"""
        n = 0
        while work:
            st, regs, b, prev = work.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported('too many paths in ' + f.name)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exceeded')
            if region is not None and prev is not None:
                if b == header:
                    edge('back', st, regs, b, prev)
                    continue
                if b not in region:
                    edge('exit', st, regs, b, prev)
                    continue
            if b in f.loops and not (region is not None and b == header):
                for (kind, *r) in self.loop(f, b, st, regs, prev):
                    if kind == 'out':
                        outs.append(r[0])
                    else:
                        work.append(tuple(r))
                continue
            self.block(f, st, regs, b, prev, work, outs)

    def block(self, f, st, regs, b, prev, work, outs):
        regs = dict(regs)
        instrs = f.blocks[b]
        self._steps(f, st, regs, b, prev, instrs, 0, work, outs)

    def _steps(self, f, st, regs, b, prev, instrs, i, work, outs):
        n = len(instrs)
        while i < n:
            ins = instrs[i]
            op = ins.op
            self.curline = f.loc(ins) or self.curline
            if op in ('call', 'invoke'):
                res = self.do_call(f, st, regs, ins)
                if op == 'invoke':
                    for o in res:
                        r2 = dict(regs) if len(res) > 1 else regs
                        if o.kind == 'ret':
                            if ins.res:
                                r2[ins.res] = o.val
                            work.append((o.st, r2, ins.x[0], b))
                        elif o.kind == 'throw':
                            r2['!exc'] = o.val
                            work.append((o.st, r2, ins.x[1], b))
                        else:
                            outs.append(o)
                    return
                live = []
                for o in res:
                    if o.kind == 'ret':
                        live.append(o)
                    else:
                        outs.append(o)
                if not live:
                    return
                if len(live) == 1:
                    st = live[0].st
                    if ins.res:
                        regs[ins.res] = live[0].val
                    i += 1
                    continue
                for o in live:
                    r2 = dict(regs)
                    if ins.res:
                        r2[ins.res] = o.val
                    self._steps(f, o.st, r2, b, prev, instrs, i + 1, work, outs)
                return
            elif op == 'br':
                if ins.a[0] is None:
                    work.append((st, regs, ins.a[1], b))
                    return
                c = self.val(f, regs, st, ITY(1), ins.a[0])
                c = z3.simplify(c)
                for tgt, cond in ((ins.a[1], c), (ins.a[2], z3.simplify(z3.Not(c)))):
                    if z3.is_false(cond):
                        continue
                    s2 = st.copy()
                    s2.assume(cond)
                    if not z3.is_true(cond) and not self.feasible(s2):
                        continue
                    s2.trail.append((self.curline, str(cond)[:80]))
                    work.append((s2, dict(regs), tgt, b))
                return
            elif op == 'switch':
                v = self.val(f, regs, st, ins.ty, ins.a[0])
                neg = []
                for cv, tgt in ins.a[2]:
                    c = z3.simplify(v == (cv % (1 << ins.ty.a)))
                    neg.append(z3.Not(c))
                    if z3.is_false(c):
                        continue
                    s2 = st.copy()
                    s2.assume(c)
                    if self.feasible(s2):
                        s2.trail.append((self.curline, str(c)[:80]))
                        work.append((s2, dict(regs), tgt, b))
                s2 = st.copy()
                s2.assume(*[z3.simplify(x) for x in neg])
                if self.feasible(s2):
                    work.append((s2, dict(regs), ins.a[1], b))
                return
            elif op == 'ret':
                v = None if ins.a is None else self.val(f, regs, st, ins.ty, ins.a)
                outs.append(Out(st, 'ret', v))
                return
            elif op == 'unreachable':
                return
            elif op == 'resume':
                outs.append(Out(st, 'throw', regs['!exc']))
                return
            elif op == 'landingpad':
                exc = regs['!exc']
                sel = None
                for cl in ins.a:
                    if cl[0] == 'catch' and self.lib.catches(cl[1], exc.typ):
                        sel = iv(self.lib.typeid(cl[1]))
                        break
                if sel is None:
                    if ('cleanup',) in ins.a:
                        sel = iv(0)
                    else:
                        outs.append(Out(st, 'throw', exc))
                        return
                regs[ins.res] = Agg(None, [exc, sel])
                i += 1
                continue
            else:
                self.step(f, st, regs, ins, prev)
                i += 1
        raise Unsupported('fell off block')

    def do_call(self, f, st, regs, ins):
        callee, args = ins.a
        if callee[0] == 'asm':
            if re.match(r'asm[^"]*"\s*"\s*,', ins.x[1]):
                return [Out(st, 'ret', None)]
            raise Unsupported('inline asm')
        if callee[0] == 'reg':
            fv = regs[callee[1]]
            if isinstance(fv, VSlot) and self.virtual is not None:
                return self.virtual(self, st, fv, [self.val(f, regs, st, t, o) for t, o in args])
            if not isinstance(fv, Fn):
                raise Unsupported('indirect call')
            name = fv.name
        else:
            name = callee[1]
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.experimental.noalias')):
            return [Out(st, 'ret', None)]
        vals = [self.val(f, regs, st, t, o) if t.k != 'metadata' else None for t, o in args]
        return self.call(st, name, vals)

    def step(self, f, st, regs, ins, prev):
        op = ins.op
        V_ = lambda t, o: self.val(f, regs, st, t, o)
        if op == 'alloca':
            if ins.a is not None:
                raise Unsupported('variable alloca')
            regs[ins.res] = self.new_obj(st, ins.res, ins.ty)
        elif op == 'load':
            regs[ins.res] = self.load(st, ins.ty, V_(PTR, ins.a))
        elif op == 'store':
            self.store(st, ins.ty, V_(ins.ty, ins.a[0]), V_(PTR, ins.a[1]))
        elif op == 'getelementptr':
            regs[ins.res] = self.gep(st, ins.ty, V_(PTR, ins.a[0]), [V_(t, o) for t, o in ins.a[1]])
        elif op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            regs[ins.res] = self.arith(st, op, ins.ty, V_(ins.ty, ins.a[0]), V_(ins.ty, ins.a[1]))
        elif op == 'icmp':
            regs[ins.res] = self.icmp(st, ins.x, ins.ty, V_(ins.ty, ins.a[0]), V_(ins.ty, ins.a[1]))
        elif op == 'fcmp':
            regs[ins.res] = self.lib.fcmp(ins.x, V_(ins.ty, ins.a[0]), V_(ins.ty, ins.a[1]))
        elif op in ('zext', 'sext', 'trunc'):
            v = V_(ins.a[0], ins.a[1])
            a, b = ins.a[0].a, ins.ty.a
            regs[ins.res] = self.cast(st, op, v, a, b)
        elif op == 'ptrtoint':
            v = V_(ins.a[0], ins.a[1])
            regs[ins.res] = v.val + v.off if isinstance(v, IntPtr) else PInt(v)
        elif op == 'inttoptr':
            v = V_(ins.a[0], ins.a[1])
            regs[ins.res] = v.p if isinstance(v, PInt) else IntPtr(v)
        elif op in ('bitcast', 'freeze'):
            regs[ins.res] = V_(ins.a[0], ins.a[1]) if op == 'bitcast' else V_(ins.ty, ins.a)
        elif op in ('fpext', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
            regs[ins.res] = self.lib.fcast(op, ins.a[0], ins.ty, V_(ins.a[0], ins.a[1]))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            regs[ins.res] = self.lib.farith(op, ins.ty, V_(ins.ty, ins.a[0]), V_(ins.ty, ins.a[1]))
        elif op == 'fneg':
            raise Unsupported('fneg')
        elif op == 'phi':
            for o, lb in ins.a:
                if lb == prev:
                    regs[ins.res] = V_(ins.ty, o)
                    break
            else:
                raise Unsupported('phi')
        elif op == 'select':
            c, a, b = V_(ITY(1), ins.a[0]), V_(ins.ty, ins.a[1]), V_(ins.ty, ins.a[2])
            c = z3.simplify(c)
            if z3.is_true(c):
                regs[ins.res] = a
            elif z3.is_false(c):
                regs[ins.res] = b
            elif z3.is_expr(a) and z3.is_expr(b):
                regs[ins.res] = z3.If(c, a, b)
            else:
                raise Unsupported('select on pointers')
        elif op == 'extractvalue':
            v = V_(ins.ty, ins.a[0])
            for j in ins.a[1]:
                v = v.f[j] if isinstance(v, Agg) else self.child(st, v, j)
            regs[ins.res] = v
        elif op == 'insertvalue':
            v = V_(ins.ty, ins.a[0])
            if isinstance(v, Undef):
                v = self.blank(ins.ty)
            e = self.val(f, regs, st, self._ivty(ins), ins.a[1])

            def put(v, idx):
                if not idx:
                    return e
                fl = list(v.f)
                fl[idx[0]] = put(fl[idx[0]], idx[1:])
                return Agg(v.ty, fl)
            regs[ins.res] = put(v, ins.a[2])
        else:
            raise Unsupported('instruction ' + ins.text)

    def _ivty(self, ins):
        t = ins.ty
        for j in ins.a[2]:
            t = self.fieldty(t, j)
        return t

    def cast(self, st, op, v, a, b):
        if isinstance(v, (PInt, VBOff)):
            if op == 'trunc':
                raise Unsupported('trunc of pointer')
            return v
        if z3.is_bool(v):
            if op == 'zext':
                return z3.If(v, iv(1), iv(0))
            if op == 'sext':
                return z3.If(v, iv((1 << b) - 1), iv(0))
        if op == 'zext':
            return v
        if op == 'sext':
            if is_c(v):
                x = v.as_long()
                return iv((x - (1 << a) if x >= 1 << (a - 1) else x) % (1 << b))
            if self.entails(st, v < (1 << (a - 1))):
                return v
            return z3.If(v >= (1 << (a - 1)), v + ((1 << b) - (1 << a)), v)
        if b == 1:
            s = z3.simplify(v)
            if z3.is_app_of(s, z3.Z3_OP_ITE) and is_c(s.arg(1)) and is_c(s.arg(2)):
                x, y = s.arg(1).as_long() % 2, s.arg(2).as_long() % 2
                if x == 1 and y == 0:
                    return s.arg(0)
                if x == 0 and y == 1:
                    return z3.Not(s.arg(0))
            return (v % 2) == 1
        if is_c(v):
            return iv(v.as_long() % (1 << b))
        if self.entails(st, v < (1 << b)):
            return v
        return v % (1 << b)

    BOP = {}

    def bitop(self, op, n, a, b):
        k = (op, n)
        if k not in self.BOP:
            self.BOP[k] = z3.Function('b%s%d' % (op, n), Int, Int, Int)
        if (a.hash(), a.sexpr()) > (b.hash(), b.sexpr()):      # commutative
            a, b = b, a
        return self.BOP[k](a, b)

    def arith(self, st, op, ty, a, b):
        n = ty.a
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                return self.ptrdiff(st, a.p, b.p)
            if op in ('sdiv', 'udiv') and isinstance(a, PInt):
                raise Unsupported('ptr arith')
            raise Unsupported('pointer integer arithmetic')
        if isinstance(a, PDiff):
            # difference of typed pointers: the compiler divides by the size of the element
            if op == 'sdiv' and z3.is_expr(b) and is_c(b) and b.as_long() > 1:
                return self.norm2(st, a.d, n)
            raise Unsupported('pointer difference')
        if z3.is_bool(a) or z3.is_bool(b):
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op == 'xor':
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if not is_c(a):
            a2 = z3.simplify(a)
            a = a2 if is_c(a2) else a
        if not is_c(b):
            b2 = z3.simplify(b)
            b = b2 if is_c(b2) else b
        if op == 'add':
            if is_c(b) and b.as_long() >= 1 << (n - 1):
                return self.norm2(st, a - ((1 << n) - b.as_long()), n)
            return self.norm(st, a + b, n)
        if op == 'sub':
            return self.norm2(st, a - b, n)
        if op == 'mul':
            return self.norm(st, a * b, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if self.safety:
                self.prove(st, 'divisor is not zero', b != 0)
            if op[0] == 's':
                if isinstance(a, z3.ExprRef) and getattr(a, '_pd', None):
                    pass
                a, b = self.sgn(st, a, n), self.sgn(st, b, n)
                if not (self.entails(st, a >= 0) and self.entails(st, b > 0)):
                    raise Unsupported('signed division')
            if is_c(a) and is_c(b) and b.as_long():
                return iv(a.as_long() // b.as_long() if op.endswith('div') else a.as_long() % b.as_long())
            return a / b if op.endswith('div') else a % b
        if op in ('and', 'or', 'xor'):
            if is_c(a) and is_c(b):
                x, y = a.as_long(), b.as_long()
                return iv(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
            # flag arithmetic on zero-extended booleans
            ba, bb = self.asbool(a), self.asbool(b)
            if ba is not None and bb is not None:
                g = z3.And(ba, bb) if op == 'and' else z3.Or(ba, bb) if op == 'or' else z3.Xor(ba, bb)
                return z3.If(g, iv(1), iv(0))
            if op == 'and':
                for x, y in ((a, b), (b, a)):
                    if is_c(y):
                        m = y.as_long()
                        if m & (m + 1) == 0:
                            return self.norm(st, x, m.bit_length()) if m else iv(0)
                        inv = ((1 << n) - 1) ^ m
                        if inv & (inv + 1) == 0:
                            return x - x % (inv + 1)
                        if m & (m - 1) == 0:
                            return ((x / m) % 2) * m
                        if inv & (inv - 1) == 0:
                            return x - ((x / inv) % 2) * inv
                if a.eq(b):
                    return a
            r = self.bitop(op, n, a, b)
            st.assume(r >= 0, r < (1 << n))
            if op == 'and':
                st.assume(r <= a, r <= b, z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(a == b, r == a))
            if op == 'or':
                st.assume(r >= a, r >= b, z3.Implies(b == 0, r == a), z3.Implies(a == 0, r == b))
            return r
        if op == 'shl' and is_c(b):
            return self.norm(st, a * (1 << b.as_long()), n)
        if op == 'lshr' and is_c(b):
            return a / (1 << b.as_long())
        if op == 'ashr' and is_c(b):
            if self.entails(st, a < (1 << (n - 1))):
                return a / (1 << b.as_long())
            return self.norm(st, self.sgn(st, a, n) / (1 << b.as_long()), n)
        if op == 'shl' and is_c(a):
            if self.safety:
                self.prove(st, 'shift amount is in range', z3.And(b >= 0, b < n))
            r = SHL(a, b, n)
            st.assume(r >= 0, r < (1 << n))
            if a.as_long() & 1:
                st.assume(z3.Implies(b < n, r > 0))
            return r
        raise Unsupported('arith ' + op)

    def asbool(self, e):
        s = z3.simplify(e)
        if is_c(s):
            return z3.BoolVal(bool(s.as_long())) if s.as_long() in (0, 1) else None
        if z3.is_app_of(s, z3.Z3_OP_ITE) and is_c(s.arg(1)) and is_c(s.arg(2)):
            x, y = s.arg(1).as_long(), s.arg(2).as_long()
            if (x, y) == (1, 0):
                return s.arg(0)
            if (x, y) == (0, 1):
                return z3.Not(s.arg(0))
        return None

    def norm2(self, st, e, n):
        e = z3.simplify(e)
        M = 1 << n
        if is_c(e):
            return iv(e.as_long() % M)
        if self.entails(st, e >= 0):
            return e
        return z3.If(e < 0, e + M, e)

    def ptrdiff(self, st, a, b):
        """byte difference; only used through element division"""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and len(a.path) == len(b.path) \
                and a.path and isinstance(a.path[-1], tuple):
            d = a.path[-1][1] - b.path[-1][1]
            return PDiff(z3.simplify(d))
        raise Unsupported('pointer difference')

    def ptr_eq(self, st, a, b):
        if isinstance(a, Ptr):
            a = self.canon(st, a)
        if isinstance(b, Ptr):
            b = self.canon(st, b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return fresh('u', Bool)
        if isinstance(a, Null) and isinstance(b, Null):
            return z3.BoolVal(True)
        if isinstance(a, Null):
            a, b = b, a
        if isinstance(b, Null):
            if isinstance(a, (Ptr, Fn, GlobP)):
                return z3.BoolVal(False)
            if isinstance(a, HP):
                if a.path:
                    return z3.BoolVal(False)
                return z3.simplify(z3.And(a.ref == 0, a.idx == 0))
            if isinstance(a, IntPtr):
                return z3.simplify(a.val + a.off) == 0
        if isinstance(a, HP) and isinstance(b, HP):
            if a.path == b.path:
                return z3.simplify(z3.And(a.ref == b.ref, a.idx == b.idx))
            raise Unsupported('heap pointer compare')
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is not b.obj:
                return z3.BoolVal(False)
            if len(a.path) == len(b.path):
                cs = []
                for x, y in zip(a.path, b.path):
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        cs.append(x[1] == y[1])
                    elif x != y:
                        return z3.BoolVal(False)
                return z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
            raise Unsupported('pointer compare')
        if isinstance(a, (HP,)) and isinstance(b, Ptr) or isinstance(a, Ptr) and isinstance(b, HP):
            return z3.BoolVal(False)
        if isinstance(a, IntPtr) and isinstance(b, IntPtr):
            return a.val + a.off == b.val + b.off
        raise Unsupported('pointer compare %r %r' % (a, b))

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, PInt) and isinstance(b, PInt):
            a, b, ty = a.p, b.p, PTR
        if ty.k == 'ptr' or isinstance(a, V) or isinstance(b, V):
            if isinstance(a, Exc) or isinstance(b, Exc):
                raise Unsupported('exception compare')
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                return e if pred == 'eq' else z3.simplify(z3.Not(e))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.path and b.path and \
                    isinstance(a.path[-1], tuple) and isinstance(b.path[-1], tuple):
                x, y = a.path[-1][1], b.path[-1][1]
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            if isinstance(a, HP) and isinstance(b, HP):
                x, y = a.idx, b.idx
                return z3.And(a.ref == b.ref, {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
            raise Unsupported('pointer order')
        if z3.is_bool(a) or z3.is_bool(b):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            raise Unsupported('bool order')
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    g = self.asbool(x)
                    if g is not None and y.as_long() in (0, 1):
                        r = g if y.as_long() == 1 else z3.Not(g)
                        return z3.simplify(r if pred == 'eq' else z3.Not(r))
            return (a == b) if pred == 'eq' else (a != b)
        if pred[0] == 's':
            a, b = self.sgn(st, a, ty.a), self.sgn(st, b, ty.a)
        p = pred[1:]
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]

    # ---------------------------------------------------------------- loops
    def leaves(self, v, path=()):
        """scalar-ish leaves of a value tree"""
        if isinstance(v, Agg):
            for i, x in enumerate(v.f):
                yield from self.leaves(x, path + (i,))
        else:
            yield path, v

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)):
            return False
        if z3.is_expr(a):
            return a.eq(b)
        if isinstance(a, Agg):
            return len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, (TermV, VecV, ArrV)):
            return a.t.eq(b.t)
        if isinstance(a, AbsV):
            return a.tag == b.tag and a.d.keys() == b.d.keys() and all(self.same(a.d[k], b.d[k]) for k in a.d)
        if isinstance(a, Ptr):
            return a.obj is b.obj and len(a.path) == len(b.path) and all(
                (x[1].eq(y[1]) if isinstance(x, tuple) and isinstance(y, tuple) else x == y)
                for x, y in zip(a.path, b.path))
        if isinstance(a, HP):
            return a.ref.eq(b.ref) and a.idx.eq(b.idx) and a.path == b.path
        if isinstance(a, IntPtr):
            return a.val.eq(b.val) and a.off.eq(b.off)
        if isinstance(a, (Undef, Null)):
            return True
        if isinstance(a, GlobP):
            return a.name == b.name and a.off == b.off
        if isinstance(a, HeapAlias):
            return a.ref.eq(b.ref)
        if isinstance(a, Fn):
            return a.name == b.name
        return a == b

    def havoc(self, st, a, b, name):
        """value standing for 'either a or b or any later iterate' (shape join)"""
        if self.same(a, b):
            return a
        hv = self._hv
        if z3.is_expr(a) and a.get_id() in hv:
            if z3.is_expr(b) and b.sort() == a.sort():
                return a
        if isinstance(a, (TermV, VecV, ArrV)) and a.t.get_id() in hv and type(a) is type(b):
            return a

        def fresh(nm, sort=Int):
            c = _fresh_const(nm, sort)
            hv[c.get_id()] = c
            return c
        if isinstance(a, Undef) and not isinstance(b, Undef):
            return self.havoc_like(st, b, name)
        if isinstance(b, Undef):
            return self.havoc_like(st, a, name) if False else UNDEF
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() == b.sort():
                return fresh(name, a.sort())
            raise Unsupported('join sorts')
        if isinstance(a, TermV) and isinstance(b, Agg):
            a = self.expand(st, a)
        if isinstance(b, TermV) and isinstance(a, Agg):
            b = self.expand(st, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return Agg(a.ty, [self.havoc(st, x, y, name + '.%d' % i) for i, (x, y) in enumerate(zip(a.f, b.f))])
        if isinstance(a, TermV) and isinstance(b, TermV):
            return TermV(a.cls, fresh(name, a.t.sort()))
        if isinstance(a, VecV) and isinstance(b, VecV):
            return VecV(a.kind, fresh(name, a.t.sort()))
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return ArrV(a.n, a.ety, fresh(name, a.t.sort()))
        if isinstance(a, AbsV) and isinstance(b, AbsV) and a.tag == b.tag:
            r = AbsV(a.tag)
            r.d = {k: self.havoc(st, a.d[k], b.d[k], name + '.' + k) for k in a.d}
            return r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and len(a.path) == len(b.path):
            path = []
            for x, y in zip(a.path, b.path):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    path.append(x if x[1].eq(y[1]) or x[1].get_id() in hv else (x[0], fresh(name + '.i', x[1].sort())))
                elif x == y:
                    path.append(x)
                else:
                    raise Unsupported('join pointers')
            return Ptr(a.obj, path)
        if isinstance(a, (HP, Null)) and isinstance(b, (HP, Null)):
            ea, eb = getattr(a, 'ety', None), getattr(b, 'ety', None)
            ra = a.ref if isinstance(a, HP) else iv(0)
            rb = b.ref if isinstance(b, HP) else iv(0)
            ia = a.idx if isinstance(a, HP) else iv(0)
            ib = b.idx if isinstance(b, HP) else iv(0)
            return HP(ra if ra.eq(rb) or ra.get_id() in hv else fresh(name + '.r'),
                      ia if z3.simplify(ia).eq(z3.simplify(ib)) or ia.get_id() in hv else fresh(name + '.i'),
                      ea or eb, a.path if isinstance(a, HP) else b.path)
        if isinstance(a, IntPtr) and isinstance(b, IntPtr):
            return IntPtr(a.val if a.val.eq(b.val) or a.val.get_id() in hv else fresh(name),
                          a.off if a.off.eq(b.off) or a.off.get_id() in hv else fresh(name + 'o'))
        # dead temporaries whose shapes differ: treat as unreadable
        return UNDEF

    def havoc_like(self, st, b, name):
        """entry value undefined: it is only readable after being written"""
        return UNDEF

    _hv = {}

    def join_state(self, st, back, mod, L):
        old, self._hv = self._hv, L.hv
        try:
            return self._join_state(st, back, mod)
        finally:
            self._hv = old

    def _join_state(self, st, back, mod):
        """extend havoc map `mod` ((obj or ghost key) -> value) with what differs"""
        ch = False
        for o in list(st.mem):
            cur = mod.get(o, st.mem[o])
            for s in back:
                if o not in s.mem:
                    raise Unsupported('object vanished')
                v = s.mem[o]
                if not self.same(cur, v):
                    nv = self.havoc(st, cur, v, o.name.strip('%').replace(' ', '_'))
                    if not self.same(nv, cur):
                        cur = nv
                        ch = True
            if o in mod or not self.same(cur, st.mem[o]):
                mod[o] = cur
        keys = set(st.gh)
        for s in back:
            keys |= set(s.gh)
        for k in keys:
            if k in st.gh:
                base = st.gh[k]
            else:
                base = None
            cur = mod.get(('g', k), base)
            for s in back:
                v = s.gh.get(k)
                if v is None:
                    continue
                if cur is None:
                    # ghost created inside the loop: its initial symbolic value
                    cur = self.ghost_init(k, v)
                    if cur is None:
                        cur = v
                if not self.same(cur, v):
                    if not (('g', k) in mod and z3.is_expr(cur) and z3.is_const(cur) and str(cur).startswith('hv_')):
                        cur = fresh('hv_' + str(k), v.sort()) if z3.is_expr(v) else self.havoc(st, cur, v, str(k))
                        ch = True
            if cur is not None and (base is None or not self.same(cur, base)):
                mod[('g', k)] = cur
        return ch

    def ghost_init(self, k, v):
        if not isinstance(k, str):
            return None
        if k.startswith('H:'):
            return z3.Const(k + '!0', self.HS)
        if k in ('alive', 'bsize', 'nextref'):
            return z3.Const(k + '!0', v.sort())
        return None

    def loop(self, f, h, st, regs, prev):
        region = f.loops[h]
        L = Loop()
        L.fn, L.hdr = f, h
        L.parent = self.loopstack[-1] if self.loopstack else None
        L.entry = st
        L.k = fresh('k')
        L.hv = {}
        L.line = self.curline
        # 1. discover what the loop modifies
        mod = {}
        self.mute += 1
        try:
            for rnd in range(12):
                hs = self.headstate(st, mod, L)
                L.head = hs
                self.facts(hs, mod, L)
                back = []
                self.loopstack.append(L)
                try:
                    self.explore(f, [(hs.copy(), dict(regs), h, None)], region, h, [],
                                 lambda kind, s, r, b, p: back.append(s) if kind == 'back' else None)
                finally:
                    self.loopstack.pop()
                if not self.join_state(st, back, mod, L):
                    break
            else:
                raise Unsupported('loop modification set does not stabilise')
        finally:
            self.mute -= 1
        if not back:
            # never iterates twice: plain code
            outs, conts = [], []
            self.explore(f, [(st.copy(), dict(regs), h, None)], region, h, outs,
                         lambda kind, s, r, b, p: conts.append(('go', s, r, b, p)))
            return [('out', o) for o in outs] + conts
        L.mod = mod
        # 2. candidates
        cands = self.candidates(f, L, st, mod, regs, prev)
        hs0 = self.headstate(st, mod, L)
        L.head = hs0
        live = []
        st0 = st.copy()
        for nm, fn in cands:
            try:
                g = fn(L, st0, iv(0))
            except (KeyError, Unsupported, AttributeError, z3.Z3Exception, TypeError):
                continue
            if g is None:
                continue
            if self.pv.prove(st0.pc, g, 2500, fn not in L.generic)[0] == 'proved':
                live.append((nm, fn))
        # 3. Houdini
        rounds = 0
        while True:
            rounds += 1
            hs = self.headstate(st, mod, L)
            L.head = hs
            self.facts(hs, mod, L)
            keep0 = []
            for nm, fn in live:
                try:
                    g = fn(L, hs, L.k)
                except (KeyError, Unsupported, AttributeError, z3.Z3Exception, TypeError):
                    continue
                hs.assume(g)
                keep0.append((nm, fn))
            live = keep0
            back = []
            self.mute += 1
            self.loopstack.append(L)
            try:
                self.explore(f, [(hs.copy(), dict(regs), h, None)], region, h, [],
                             lambda kind, s, r, b, p: back.append(s) if kind == 'back' else None)
            finally:
                self.loopstack.pop()
                self.mute -= 1
            # the havoc shapes must still cover the back-edge states
            drop = set()
            for s in back:
                for j, (nm, fn) in enumerate(live):
                    if j in drop:
                        continue
                    try:
                        s2 = s.copy()
                        g = fn(L, s2, L.k + 1)
                        if self.pv.prove(s2.pc, g, 4000, fn not in L.generic)[0] != 'proved':
                            drop.add(j)
                    except (KeyError, Unsupported, AttributeError, z3.Z3Exception, TypeError) as e:
                        drop.add(j)
            if not drop:
                break
            live = [c for j, c in enumerate(live) if j not in drop]
            if rounds > 15:
                raise Unsupported('invariant inference does not stabilise')
        L.inv = [nm for nm, _ in live]
        if not self.mute:
            self.loops_done.append((self.where(), L.line, len(cands), len(live), [n for n, _ in live]))
            for nm in L.inv:
                self.obligs.append(Oblig('loop invariant inductive: ' + nm, self.where(), L.line, True, 0.0))
        # 4. continue from an arbitrary iteration
        outs, conts = [], []
        self.loopstack.append(L)
        try:
            self.explore(f, [(hs.copy(), dict(regs), h, None)], region, h, outs,
                         lambda kind, s, r, b, p: conts.append(('go', s, r, b, p)) if kind == 'exit' else None)
        finally:
            self.loopstack.pop()
        # a counter bounded by b that leaves the loop at b or beyond: say the equality, which congruence needs
        caps = [g for nm, fn in live if nm.startswith('k <= ') for g in [fn(L, hs, L.k)] if z3.is_le(g)]
        for _, s, _, _, _ in conts:
            for g in caps:
                if not g.arg(0).eq(g.arg(1)) and self.pv.quick(s.pc, g.arg(0) >= g.arg(1), 5000):
                    s.assume(g.arg(0) == g.arg(1))
        return [('out', o) for o in outs] + conts

    def headstate(self, st, mod, L):
        s = st.copy()
        for key, v in mod.items():
            if isinstance(key, Obj):
                s.mem[key] = v
            else:
                s.gh[key[1]] = v
        s.assume(L.k >= 0, mark(L.k))
        return s

    def facts(self, hs, mod, L):
        """type-level facts about havoced leaves (machine ranges, lengths)"""
        for key, v in mod.items():
            if isinstance(key, Obj):
                self._rng(hs, v, key.ty, L.entry.mem.get(key))
        for h in getattr(self, 'ghost_facts', []):
            hs.assume(*h(self, hs, mod))

    def _rng(self, st, v, ty, old):
        if v is old:
            return
        if z3.is_expr(v):
            if z3.is_int(v) and ty is not None:
                if ty.k == 'int':
                    st.assume(v >= 0, v < (1 << ty.a))
                elif ty.k in ('double', 'ptr'):
                    st.assume(v >= 0, v < (1 << 64))
                elif ty.k == 'float':
                    st.assume(v >= 0, v < (1 << 32))
            return
        if isinstance(v, Agg):
            for i, x in enumerate(v.f):
                self._rng(st, x, self.fieldty(ty or v.ty, i) if (ty or v.ty) else None,
                          old.f[i] if isinstance(old, Agg) and i < len(old.f) else None)
        elif isinstance(v, TermV):
            st.assume(*v.cls.facts(v.t))
        elif isinstance(v, VecV):
            st.assume(*v.kind.vfacts(v.t))
        elif isinstance(v, AbsV):
            st.assume(*self.lib.abs_facts(v))

    def get(self, st, o, path):
        v = st.mem[o]
        for p in path:
            if isinstance(v, TermV):
                v = self.expand(st, v)
            if isinstance(p, tuple) and p[0] == 'd':
                v = v.d[p[1]]
            elif isinstance(p, tuple) and p[0] == 'ptridx':
                v = v.path[p[1]][1]
            elif p == 'hpref':
                v = v.ref if isinstance(v, HP) else iv(0)
            elif p == 'hpidx':
                v = v.idx if isinstance(v, HP) else iv(0)
            else:
                v = v.f[p]
        return v

    def modleaves(self, st, mod):
        """[(obj, path, value)] for modified leaves, descending into pointers"""
        out = []
        for key, v in mod.items():
            if not isinstance(key, Obj):
                continue
            old = st.mem.get(key)
            self._ml(key, (), v, old, out)
        return out

    def _ml(self, o, path, v, old, out):
        if v is old:
            return
        if isinstance(v, Agg):
            oldf = old.f if isinstance(old, Agg) and len(old.f) == len(v.f) else [None] * len(v.f)
            for i, x in enumerate(v.f):
                self._ml(o, path + (i,), x, oldf[i], out)
        elif isinstance(v, AbsV):
            for k, x in v.d.items():
                ov = old.d.get(k) if isinstance(old, AbsV) else None
                if (z3.is_expr(x) or isinstance(x, V)) and not (z3.is_expr(x) and z3.is_expr(ov) and x.eq(ov)):
                    out.append((o, path + (('d', k),), x))
        elif isinstance(v, Ptr):
            for i, p in enumerate(v.path):
                if isinstance(p, tuple):
                    out.append((o, path + (('ptridx', i),), p[1]))
        elif isinstance(v, HP):
            out.append((o, path + ('hpref',), v.ref))
            out.append((o, path + ('hpidx',), v.idx))
        elif isinstance(v, (VecV, TermV, ArrV)):
            out.append((o, path, v))
        elif z3.is_expr(v):
            out.append((o, path, v))

    def candidates(self, f, L, st, mod, regs, prev):
        ml = self.modleaves(st, mod)
        L.leaves = ml
        cands = []

        def add(nm, fn):
            cands.append((nm, fn))
        allints = []
        for o, path, v in ml:
            if z3.is_expr(v) and z3.is_int(v):
                nm = '%s%s' % (o.name, ''.join('.%s' % (p,) for p in path))
                try:
                    v0 = self.get(st, o, path)
                except Exception:
                    continue
                if not z3.is_expr(v0):
                    continue
                allints.append((nm, o, path, v0))
                for c in (1, -1):
                    add('%s = start%+d*k' % (nm, c),
                        lambda L, s, k, o=o, path=path, v0=v0, c=c: self.get(s, o, path) == v0 + c * k)
                if path[-1:] == ('hpidx',):
                    add('%s moved only in a block' % nm, lambda L, s, k, o=o, path=path: z3.Or(k == 0, self.get(s, o, path[:-1] + ('hpref',)) != 0))
        L.allints = allints
        # bounds harvested from values in scope
        bounds = self.bounds(st, f, regs, L)
        for nm, o, path, v0 in allints:
            for bn, b in bounds:
                add('%s <= %s' % (nm, bn), lambda L, s, k, o=o, path=path, b=b: self.get(s, o, path) <= b)
        for bn, b in bounds:
            add('k <= %s' % bn, lambda L, s, k, b=b: k <= b)
        L.generic = {fn for _, fn in cands}
        for g in self.loopspecs:
            for c in g(self, L, st, ml):
                cands.append(c)
        return cands

    def bounds(self, st, f, regs, L):
        """integer terms that may bound the loop: lengths of reachable
        sequences and integer locals that the loop does not change"""
        seen, out = set(), []

        def put(n, t):
            t = z3.simplify(t)
            if t.get_id() in seen or is_c(t):
                return
            seen.add(t.get_id())
            out.append((n, t))
        objs = [r.obj for r in regs.values() if isinstance(r, Ptr)]
        for o in objs:
            v = st.mem.get(o)
            if v is None:
                continue
            for path, x in self.leaves(v):
                if z3.is_expr(x) and z3.is_int(x) and o not in L.mod:
                    put('%s%s' % (o.name, path), x)
                elif isinstance(x, VecV) and o not in L.mod:
                    put('|%s|' % o.name, x.kind.seq.len(x.t))
                elif isinstance(x, Ptr):
                    try:
                        self.mute += 1
                        y = self.read(st, x) if not any(isinstance(p, tuple) for p in x.path) else None
                        if y is not None and x.obj not in L.mod:
                            for p2, z in self.leaves(y):
                                if isinstance(z, VecV):
                                    put('|*%s%s|' % (o.name, p2), z.kind.seq.len(z.t))
                        for p in x.path:
                            if isinstance(p, tuple) and o not in L.mod:
                                put('%s@' % o.name, p[1])
                    except Exception:
                        pass
                    finally:
                        self.mute -= 1
        for n, t in getattr(self, 'extra_bounds', []):
            put(n, t)
        return out[:14]


class PDiff(V):
    """element-count pointer difference waiting for its element division"""

    def __init__(self, d):
        self.d = d
