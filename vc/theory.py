"""Logical vocabulary shared by contracts: sequences, records, bytes, maps."""
import re
import z3
from sx import (Int, Bool, iv, fresh, is_c, V, Agg, TermV, VecV, UNDEF, HP, IntPtr, Ptr, Null, Undef, AbsV)
from ir import Unsupported, Ty

MAXLEN = 1 << 31          # container lengths (stated assumption)
U64 = 1 << 64


def forall(vs, body, pats):
    return z3.ForAll(vs, body, patterns=pats)


class Seq:
    """finite sequences over an uninterpreted sort with explicit axioms"""
    all = {}

    def __init__(self, name, elem):
        self.name, self.elem = name, elem
        self.sort = z3.DeclareSort('Seq_' + name)
        S, E = self.sort, elem
        self._len = z3.Function('len_' + name, S, Int)
        self._at = z3.Function('at_' + name, S, Int, E)
        self.empty = z3.Const('empty_' + name, S)
        self._push = z3.Function('push_' + name, S, E, S)
        self._set = z3.Function('set_' + name, S, Int, E, S)
        self._cat = z3.Function('cat_' + name, S, S, S)
        self._take = z3.Function('take_' + name, S, Int, S)
        self._diff = z3.Function('diff_' + name, S, S, Int)
        s, t, i, j, e = z3.Const('s', S), z3.Const('t', S), z3.Int('i'), z3.Int('j'), z3.Const('e', E)
        L, A, P = self._len, self._at, self._push
        self.axioms = [
            forall([s], L(s) >= 0, [L(s)]),
            L(self.empty) == 0,
            forall([s, e], L(P(s, e)) == L(s) + 1, [P(s, e)]),
            forall([s, e], A(P(s, e), L(s)) == e, [P(s, e)]),
            forall([s, e, i], z3.Implies(i != L(s), A(P(s, e), i) == A(s, i)), [A(P(s, e), i)]),
            forall([s, i, e], L(self._set(s, i, e)) == L(s), [self._set(s, i, e)]),
            forall([s, i, e], z3.Implies(z3.And(i >= 0, i < L(s)), A(self._set(s, i, e), i) == e), [self._set(s, i, e)]),
            forall([s, i, e, j], z3.Implies(i != j, A(self._set(s, i, e), j) == A(s, j)), [A(self._set(s, i, e), j)]),
            forall([s, t], L(self._cat(s, t)) == L(s) + L(t), [self._cat(s, t)]),
            forall([s, t, i], z3.Implies(z3.And(i >= 0, i < L(s) + L(t)),
                                        A(self._cat(s, t), i) == z3.If(i < L(s), A(s, i), A(t, i - L(s)))),
                   [A(self._cat(s, t), i)]),
            forall([s], self._cat(s, self.empty) == s, [self._cat(s, self.empty)]),
            forall([s], self._cat(self.empty, s) == s, [self._cat(self.empty, s)]),
            forall([s, t, e], self._cat(s, P(t, e)) == P(self._cat(s, t), e), [self._cat(s, P(t, e))]),
        ]
        Seq.all[name] = self

    def len(self, s):
        return self._len(s)

    def at(self, s, i):
        return self._at(s, i)

    def push(self, s, e):
        return self._push(s, e)

    def set(self, st, s, i, e):
        return self._set(s, i, e)

    def cat(self, s, t):
        return self._cat(s, t)

    def ext(self, s, t):
        """extensionality instance for a goal s == t"""
        d = self._diff(s, t)
        return z3.Implies(z3.And(self._len(s) == self._len(t),
                                 z3.Implies(z3.And(d >= 0, d < self._len(s)), self._at(s, d) == self._at(t, d))),
                          s == t)

    def eqv(self, s, t):
        """element-wise equality as a formula"""
        i = z3.Int('i')
        return z3.And(self._len(s) == self._len(t),
                      forall([i], z3.Implies(z3.And(i >= 0, i < self._len(s)), self._at(s, i) == self._at(t, i)),
                             [self._at(s, i)]))


class Kind:
    """element kind of a vector"""

    def __init__(self, name, seq, cls=None, width=None):
        self.name, self.seq, self.cls, self.width = name, seq, cls, width

    def wrap(self, t):
        if self.cls is None:
            return t
        return self.cls.value(t)

    def unwrap(self, ex, st, v):
        if self.cls is None:
            if z3.is_expr(v):
                return v
            return ex.to_int(st, v)
        return self.cls.term(ex, st, v)

    def facts(self, t):
        if self.width:
            return [t >= 0, t < (1 << self.width)]
        if self.cls is not None:
            return self.cls.facts(t)
        return []

    def vfacts(self, s):
        fs = [self.seq.len(s) >= 0, self.seq.len(s) < MAXLEN]
        if self.width:
            i = z3.Int('i')
            fs.append(forall([i], z3.And(self.seq.at(s, i) >= 0, self.seq.at(s, i) < (1 << self.width)),
                             [self.seq.at(s, i)]))
        return fs


class Cls:
    """a repository class represented by a record term.

    roles: list of (role, membername, kind) with kind 'int:<width>', ('vec', Kind),
    ('fw', Cls), ('union',), 'skip'."""

    def __init__(self, name, roles, sortname=None):
        self.name, self.roles = name, roles
        self.sortname = sortname or name
        self.D = None
        self.irty = None
        self.map = None

    def build(self):
        dt = z3.Datatype(self.sortname)
        fs = []
        for role, _, k in self.roles:
            fs.append((self.sortname + '_' + role, self.rsort(k)))
        dt.declare('mk' + self.sortname, *fs)
        self.D = dt.create()
        self.sort = self.D
        self.mk = self.D.constructor(0)
        self.acc = {role: self.D.accessor(0, i) for i, (role, _, k) in enumerate(self.roles)}

    def rsort(self, k):
        if isinstance(k, str):
            return Int
        if k[0] == 'vec':
            return k[1].seq.sort
        if k[0] == 'fw':
            return k[1].sort
        if k[0] == 'union':
            return Int
        if k[0] == 'term':
            return k[1]
        raise AssertionError(k)

    def __getattr__(self, r):
        acc = self.__dict__.get('acc')
        if acc and r in acc:
            return acc[r]
        raise AttributeError(r)

    # --- layout (member name -> IR field index), taken from this run's layout dump
    def bind(self, mod, layouts):
        ty = Ty('named', 'class.' + self.name)
        fs = mod.struct(ty.a)
        if fs is None:
            raise Unsupported('class %s not found' % self.name)
        offs = mod.layout(ty)[2]
        rec = layouts.get(self.name)
        if rec is None:
            raise Unsupported('no layout for ' + self.name)
        self.irty = ty
        self.nf = len(fs)
        byname = {n: o for n, o in rec}
        self.map = {}
        left_r = []
        used = set()
        for role, mem, k in self.roles:
            if mem in byname:
                self.map[role] = byname[mem]
                used.add(mem)
            else:
                left_r.append(role)
        left_m = [(n, o) for n, o in rec if n not in used and not n.startswith('(')]
        if left_r:
            if len(left_m) != len(left_r):
                raise Unsupported('members of %s changed' % self.name)
            for r, (n, o) in zip(left_r, left_m):
                self.map[r] = o
            left_m = []
        self.extra = [n for n, o in left_m]
        off2i = {}
        for i, o in enumerate(offs):
            off2i.setdefault(o, i)
        self.idx = {}
        for role, mem, k in self.roles:
            if self.map[role] not in off2i:
                raise Unsupported('member offset in %s' % self.name)
            i = off2i[self.map[role]]
            ft = fs[i]
            if isinstance(k, str):
                w = int(k.split(':')[1])
                if not (ft.k == 'int' and ft.a == w):
                    raise Unsupported('member type changed in %s.%s' % (self.name, role))
            self.idx[role] = i
        self.fty = fs

    def unpack(self, ex, st, t):
        f = [ex.blank(x) for x in self.fty]
        for role, mem, k in self.roles:
            x = self.acc[role](t)
            i = self.idx[role]
            if isinstance(k, str):
                f[i] = x
            elif k[0] == 'vec':
                f[i] = VecV(k[1], x)
                st.assume(*k[1].vfacts(x))
            elif k[0] == 'fw':
                f[i] = AbsV('fw', t=x)
            elif k[0] == 'union':
                f[i] = Agg(self.fty[i], [x])
        st.assume(*self.facts(t))
        return f

    def value(self, t):
        return TermV(self, t)

    def term(self, ex, st, v):
        if isinstance(v, TermV):
            return v.t
        if isinstance(v, AbsV) and v.tag == 'fw':
            return v.t
        if isinstance(v, Agg):
            args = []
            for role, mem, k in self.roles:
                x = v.f[self.idx[role]]
                if isinstance(k, str):
                    if isinstance(x, Undef):
                        args.append(fresh('uninit_' + role))
                    else:
                        args.append(ex.to_int(st, x))
                elif k[0] == 'vec':
                    if not isinstance(x, VecV):
                        raise Unsupported('vector member %s is %r' % (role, x))
                    args.append(x.t)
                elif k[0] == 'fw':
                    if isinstance(x, Undef):
                        raise Unsupported('flyweight member undefined')
                    args.append(x.t)
                elif k[0] == 'union':
                    y = ex.first(st, x)
                    if isinstance(y, HP):
                        args.append(ex.lib.blobval(ex, st, y))
                    elif isinstance(y, Undef):
                        args.append(fresh('uninit_' + role))
                    else:
                        args.append(ex.to_int(st, y))
            return self.mk(*args)
        raise Unsupported('term of %r' % (v,))

    def facts(self, t):
        fs = []
        for role, mem, k in self.roles:
            x = self.acc[role](t)
            if isinstance(k, str):
                fs += [x >= 0, x < (1 << int(k.split(':')[1]))]
            elif k[0] == 'union':
                fs += [x >= 0, x < U64]
            elif k[0] == 'vec':
                fs += [k[1].seq.len(x) >= 0, k[1].seq.len(x) < MAXLEN]
        return fs


# --------------------------------------------------------------- instances
StrSort = z3.DeclareSort('Str')
emptystr = z3.Const('emptystr', StrSort)
slen = z3.Function('string_length', StrSort, Int)


class StrCls:
    """std::string as a value"""
    irty = None
    sort = StrSort

    def value(self, t):
        return AbsV('str', t=t)

    def term(self, ex, st, v):
        if isinstance(v, AbsV) and v.tag == 'str':
            return v.t
        raise Unsupported('string value %r' % (v,))

    def facts(self, t):
        return []


STR = StrCls()


class FwCls:
    """flyweight<T> as the value it denotes"""

    def __init__(self, inner):
        self.inner = inner

    @property
    def sort(self):
        return self.inner.sort

    def value(self, t):
        return AbsV('fw', t=t)

    def term(self, ex, st, v):
        if isinstance(v, AbsV) and v.tag == 'fw':
            return v.t
        raise Unsupported('flyweight value %r' % (v,))

    def facts(self, t):
        return self.inner.facts(t)


class VecCls:
    """a vector stored inside a vector"""

    def __init__(self, kind):
        self.kind = kind
        self.sort = kind.seq.sort

    def value(self, t):
        return VecV(self.kind, t)

    def term(self, ex, st, v):
        if isinstance(v, VecV):
            return v.t
        raise Unsupported('vector value %r' % (v,))

    def facts(self, t):
        return self.kind.vfacts(t)[:2]


SU32 = Seq('u32', Int)
SU64 = Seq('u64', Int)
SCHR = Seq('chr', Int)
bytesat = z3.Function('bytesat', Int, Int, Int)      # byte i of the buffer at p
bytesseq = z3.Function('bytesseq', Int, Int, SCHR.sort)  # the n bytes at p
KU32 = Kind('u32', SU32, width=32)
KU64 = Kind('u64', SU64, width=64)
KCHR = Kind('chr', SCHR, width=8)

TBS = Cls('TraceBufferSize', [('addr', 'm_address', 'int:64'), ('size', 'm_size', 'int:64')], 'TBS')
TD = Cls('TypeDescription', [('name', 'm_name_index', 'int:32'), ('format', 'm_format', 'int:32'),
                             ('size', 'm_size', 'int:32')], 'TD')
TVI = Cls('TraceVarInfo', [('value', 'm_value', ('union',)), ('name', 'm_name_index', 'int:32'),
                           ('type', 'm_type_index', 'int:32'), ('format', 'm_format', 'int:32'),
                           ('size', 'm_size', 'int:32'), ('bufsz', 'm_buffer_size', 'int:64'),
                           ('has', 'm_has_buffer_size', 'int:8')], 'TVI')
for c in (TBS, TD, TVI):
    c.build()
STBS = Seq('tbs', TBS.sort)
STD = Seq('td', TD.sort)
STVI = Seq('tvi', TVI.sort)
SSTR = Seq('str', StrSort)
KTBS = Kind('tbs', STBS, TBS)
KTD = Kind('td', STD, TD)
KTVI = Kind('tvi', STVI, FwCls(TVI))
KSTR = Kind('str', SSTR, STR)
TPD = Cls('TracePointData', [('sizes', 'm_sizes', ('vec', KTBS)), ('vars', 'm_vars', ('vec', KTVI)),
                             ('aux', 'm_aux', ('vec', KU64))], 'TPD')
TPD.build()
TP = Cls('TracePoint', [('counter', 'm_counter', 'int:64'), ('stmt', 'm_statement', 'int:64'),
                        ('data', 'm_data', ('fw', TPD))], 'TP')
TP.build()
STP = Seq('tp', TP.sort)
KTP = Kind('tp', STP, TP)
PredSeqSort = None


class PredCls(Cls):
    pass


# Predicate is recursive through its children vector: the sequence sort is
# uninterpreted, so it can be declared first.
SeqPredSort = z3.DeclareSort('Seq_pred_fwd')


def _mk_pred():
    """Predicate terms: an uninterpreted sort with accessor functions"""
    P = z3.DeclareSort('Pred')
    s = Seq('pred', P)
    k = Kind('pred', s)
    return P, s, k


PredSort, SPRED, KPRED = _mk_pred()


class PredClass(Cls):
    def __init__(self):
        Cls.__init__(self, 'Predicate', [('kind', 'm_kind', 'int:32'), ('data', 'm_data', ('union',)),
                                         ('children', 'm_children', ('vec', KPRED)), ('hash', 'm_hash', 'int:64')],
                     'PredR')
        self.sort = PredSort
        self.acc = {'kind': z3.Function('pk', PredSort, Int), 'data': z3.Function('pdata', PredSort, Int),
                    'children': z3.Function('pch', PredSort, SPRED.sort), 'hash': z3.Function('phash', PredSort, Int)}
        self.mk = z3.Function('mkpred', Int, Int, SPRED.sort, Int, PredSort)
        a, b, c, d, p = z3.Int('a'), z3.Int('b'), z3.Const('c', SPRED.sort), z3.Int('d'), z3.Const('p', PredSort)
        t = self.mk(a, b, c, d)
        self.axioms = [forall([a, b, c, d], z3.And(self.acc['kind'](t) == a, self.acc['data'](t) == b,
                                                   self.acc['children'](t) == c, self.acc['hash'](t) == d), [t]),
                       forall([p], self.mk(*[self.acc[r](p) for r in ('kind', 'data', 'children', 'hash')]) == p,
                              [self.acc['kind'](p), self.acc['children'](p)])]


PRED = PredClass()
KPRED.cls = PRED
FV = Cls('FreeVariable', [('types', 'm_allowed_types', ('vec', KU32)), ('hash', 'm_hash', 'int:64')], 'FV')
FV.build()
SFV = Seq('fv', FV.sort)
KFV = Kind('fv', SFV, FV)
KVU32 = Kind('vu32', Seq('vu32', SU32.sort), VecCls(KU32))
TR = Cls('Trace', [('names', 'm_names', ('vec', KSTR)), ('types', 'm_types', ('vec', KTD)),
                   ('points', 'm_points', ('vec', KTP))], 'TR')
TR.build()
STR_ = Seq('tr', TR.sort)
KTR = Kind('tr', STR_, TR)
CLASSES = [TBS, TD, TVI, TPD, TP, PRED, FV, TR]
KINDS = {'unsigned int': KU32, 'unsigned long': KU64, 'char': KCHR, 'TraceBufferSize': KTBS, 'TypeDescription': KTD,
         'FW<TraceVarInfo>': KTVI, 'TracePoint': KTP, 'Predicate': KPRED, 'FreeVariable': KFV, 'Trace': KTR,
         'string': KSTR, 'std::vector<unsigned int>': KVU32}
BASE_AXIOMS = [a for s in Seq.all.values() for a in s.axioms] + PRED.axioms


def parse_layouts(path, wanted):
    """member offsets of the wanted records from clang's -fdump-record-layouts"""
    out = {}
    rx = re.compile(r'^ +(\d+) \| (?:class|struct|union) ([\w:]+)$')
    with open(path) as f:
        lines = iter(f)
        for l in lines:
            m = rx.match(l)
            if not m or m.group(2) not in wanted or m.group(2) in out:
                continue
            mem = []
            for l in lines:
                if '[sizeof' in l:
                    break
                mm = re.match(r'^ +(\d+) \|   (\S.*)$', l.rstrip())
                if mm:
                    body = mm.group(2)
                    if body.startswith('('):
                        mem.append((body, int(mm.group(1))))
                        continue
                    mem.append((body.split()[-1].lstrip('*&'), int(mm.group(1))))
            out[m.group(2)] = mem
    return out
