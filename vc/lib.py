"""Contracts of the library functions the code calls (trusted base).

Every entry here is an assumption about libstdc++ / boost / libc, listed in the
evidence of each check that used it.  Small header-only helpers (iterators,
tuples, functors) are not assumed: their real bodies are inlined.
"""
import re
import z3
import theory as T
import algo
from ir import Unsupported, Ty, PTR
from sx import (Int, Bool, iv, fresh, is_c, V, Agg, TermV, VecV, ArrV, AbsV, UNDEF, Undef, NULL, Null, HP, IntPtr,
                Ptr, Obj, Out, Exc, VT, VBOff, Fn, GlobP, PInt, PDiff, HeapAlias)

_SUBST = [
    ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string'),
    ('boost::flyweights::flyweight<TraceVarInfo, boost::parameter::void_, boost::parameter::void_, '
     'boost::parameter::void_, boost::parameter::void_, boost::parameter::void_>', 'FW_TVI'),
    ('boost::flyweights::flyweight<TracePointData, boost::parameter::void_, boost::parameter::void_, '
     'boost::parameter::void_, boost::parameter::void_, boost::parameter::void_>', 'FW_TPD'),
    ('boost::multiprecision::number<boost::multiprecision::backends::cpp_int_backend<0ul, 0ul, '
     '(boost::multiprecision::cpp_integer_type)1, (boost::multiprecision::cpp_int_check_type)0, '
     'std::allocator<unsigned long long> >, (boost::multiprecision::expression_template_option)1>', 'CPPINT'),
    ('boost::multiprecision::number<boost::multiprecision::backends::cpp_dec_float<50u, int, void>, '
     '(boost::multiprecision::expression_template_option)1>', 'CPPDEC'),
    ('std::basic_istream<char, std::char_traits<char> >', 'istream'),
    ('std::basic_ostream<char, std::char_traits<char> >', 'ostream'),
    ('std::basic_ios<char, std::char_traits<char> >', 'ios'),
]
_RV = re.compile(r'std::vector<((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*?), std::allocator<\1 ?> >')


def short(d):
    for a, b in _SUBST:
        if a in d:
            d = d.replace(a, b)
    while True:
        n = _RV.sub(r'vec<\1>', d)
        if n == d:
            return d
        d = n


KINDS = {'unsigned int': T.KU32, 'unsigned long': T.KU64, 'char': T.KCHR, 'TraceBufferSize': T.KTBS,
         'TypeDescription': T.KTD, 'FW_TVI': T.KTVI, 'TracePoint': T.KTP, 'Predicate': T.KPRED,
         'FreeVariable': T.KFV, 'Trace': T.KTR, 'string': T.KSTR, 'vec<unsigned int>': T.KVU32}

OPAQUE = re.compile(
    r'^(class|struct|union)\.(std::(vector|map|unordered_map|unordered_set|set|__cxx11::basic_string|mutex|'
    r'basic_istream|basic_ostream|basic_ios|__cxx11::basic_stringstream|unique_ptr|mersenne_twister_engine|'
    r'uniform_int_distribution|lock_guard|unique_lock|runtime_error|allocator|__cxx11::basic_istringstream)'
    r'|boost::(flyweights::flyweight|archive::text_[io]archive|multiprecision::number|'
    r'iostreams::(stream_buffer|file_descriptor_source|file_descriptor)))(\.\d+)?$')

INLINE = re.compile(
    r'(^|[ &*])(__gnu_cxx::(__normal_iterator<|operator)|std::(plus|minus|multiplies|divides|less|less_equal|greater|'
    r'greater_equal|equal_to|not_equal_to|tuple|_Tuple_impl|_Head_base|__tuple_compare|pair)<|'
    r'std::(tie|get|__get_helper|max|min|move|forward|make_pair|begin|end|addressof|__addressof|swap|exchange|distance|'
    r'__distance|__iterator_category)<|std::(__get_helper|_Head_base|__tuple_compare)|'
    r'bool std::operator(<|==|!=|>|<=|>=) ?<.*std::tuple<|std::initializer_list<|std::cref<|std::ref<|'
    r'__gnu_cxx::__ops::)')

LT = {}


def ltvec(kind):
    if kind.name not in LT:
        f = z3.Function('ltvec_' + kind.name, kind.seq.sort, kind.seq.sort, Bool)
        LT[kind.name] = f
    return LT[kind.name]


hc = z3.Function('hash_combine', Int, Int, Int)
HASHF = {}


def hashf(name, sort):
    if name not in HASHF:
        HASHF[name] = z3.Function('hash_' + name, sort, Int)
    return HASHF[name]


# equality predicates of element kinds, as their own operator== defines them
EQ = {}


def eqk(kind):
    """formula builder: element equality of a vector kind"""
    if kind.name in EQ:
        return EQ[kind.name]
    if kind.cls is None or kind.name in ('str', 'vu32'):
        return lambda a, b: a == b
    f = z3.Function('eq_' + kind.name, kind.seq.elem, kind.seq.elem, Bool)
    EQ[kind.name] = f
    return f


eqTPDfw = z3.Function('eq_tpd', T.TPD.sort, T.TPD.sort, Bool)
ltTPDfw = z3.Function('lt_tpd', T.TPD.sort, T.TPD.sort, Bool)
memeq = z3.Function('memeq', Int, Int, Int, Bool)      # contents of n bytes at p and q agree
hashbytes = z3.Function('hashbytes', Int, Int, Int)    # hash of n bytes at p


def lib_axioms():
    ax = []
    for k in KINDS.values():
        s, t = z3.Const('s', k.seq.sort), z3.Const('t', k.seq.sort)
        f = ltvec(k)
        ax.append(z3.ForAll([s], z3.Not(f(s, s)), patterns=[f(s, s)]))
    a, b = z3.Const('a', T.TPD.sort), z3.Const('b', T.TPD.sort)
    ax.append(z3.ForAll([a], z3.Not(ltTPDfw(a, a)), patterns=[ltTPDfw(a, a)]))
    p, q, n = z3.Ints('p q n')
    ax.append(z3.ForAll([p, n], memeq(p, p, n), patterns=[memeq(p, p, n)]))
    ax.append(z3.ForAll([p, q, n], z3.Implies(memeq(p, q, n), hashbytes(p, n) == hashbytes(q, n)),
                        patterns=[memeq(p, q, n)]))
    return ax


def one(st, v=None):
    return [Out(st, 'ret', v)]


BASES = {'TraceError': ['std::runtime_error', 'std::exception'],
         'TraceEOFError': ['TraceError', 'std::runtime_error', 'std::exception'],
         'std::length_error': ['std::logic_error', 'std::exception'],
         'std::out_of_range': ['std::logic_error', 'std::exception'],
         'std::bad_alloc': ['std::exception']}


class Lib:
    def __init__(self, mod):
        self.mod = mod
        self.tids = {}
        self.handlers = []       # (regex, fn) extra library contracts
        self.fwobjs = {}
        self.keep = []

    # ------------------------------------------------------------ types
    def blank_named(self, ex, ty):
        if OPAQUE.match(ty.a):
            return UNDEF
        return None

    def may_inline(self, dem):
        return INLINE.search(dem) is not None or 'boost::flyweights::operator<< <' in dem or algo.RX_INLINE.search(dem) is not None or dem.startswith(('std::__invoke', '_ZNSt5tuple', '_ZNSt11_Tuple_impl', '_ZNSt10_Head_base', '_ZNSt4pair'))

    def load_global(self, ex, st, ty, p):
        g = st.gh.get('G:' + p.name)
        if g is not None:
            return g
        raise Unsupported('load of global ' + p.name)

    def store_global(self, ex, st, ty, v, p):
        st.gh.setdefault('gwrites', ())
        raise Unsupported('store to global ' + p.name)

    def load_abs(self, ex, st, v, p):
        if v.tag in ('istream', 'ostream'):
            return VT(p)
        return None

    def abs_facts(self, v):
        fs = []
        if v.tag == 'istream':
            fs += [v.pos >= 0, v.pos <= v.len]
        return fs

    def blobval(self, ex, st, hp):
        if not (is_c(z3.simplify(hp.idx)) and z3.simplify(hp.idx).as_long() == 0 and not hp.path):
            raise Unsupported('interior blob pointer')
        return hp.ref

    # ------------------------------------------------------------ exceptions
    def _tname(self, ti):
        n = ti if isinstance(ti, str) else getattr(ti, 'name', None)
        if n is None:
            return None
        m = re.match(r'_ZTI(.*)$', n)
        if not m:
            return None
        d = self.mod.dem.get(n)
        if d is None:
            import subprocess
            d = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
            self.mod.dem[n] = d
        return d.replace('typeinfo for ', '')

    def catches(self, ti, typ):
        if ti in (None, 'null') or isinstance(ti, Null):
            return True
        t = self._tname(ti[1] if isinstance(ti, tuple) else ti)
        return t == typ or t in BASES.get(typ, [])

    def typeid(self, ti):
        n = ti[1] if isinstance(ti, tuple) else ti
        n = getattr(n, 'name', n)
        if n not in self.tids:
            self.tids[n] = len(self.tids) + 1
        return self.tids[n]

    # ------------------------------------------------------------ floats
    def fcmp(self, pred, a, b):
        f = z3.Function('fcmp_' + pred, Int, Int, Bool)
        return f(a, b)

    def fcast(self, op, a, b, v):
        f = z3.Function('%s_%s_%s' % (op, repr(a), repr(b)), Int, Int)
        if z3.is_bool(v):
            v = z3.If(v, iv(1), iv(0))
        return f(v)

    def farith(self, op, ty, a, b):
        f = z3.Function('%s_%r' % (op, ty), Int, Int, Int)
        return f(a, b)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, ex, st, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return self.memcpy(ex, st, args[0], args[1], args[2])
        if name.startswith('llvm.memset'):
            return self.memset(ex, st, args[0], args[1], args[2])
        if name.startswith('llvm.eh.typeid.for'):
            return one(st, iv(self.typeid(args[0])))
        if name.startswith('llvm.trap'):
            return []
        if name.startswith('llvm.umul.with.overflow'):
            r = args[0] * args[1]
            n = int(name.rsplit('.i', 1)[1])
            ov = z3.simplify(r >= (1 << n))
            return one(st, Agg(None, [ex.norm(st, r, n), ov]))
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stack')):
            return one(st)
        raise Unsupported('intrinsic ' + name)

    def memcpy(self, ex, st, d, s, n):
        if isinstance(d, Ptr) and isinstance(s, Ptr):
            v = ex.read(st, s)
            ex.write(st, d, v)
            return one(st)
        if isinstance(d, Ptr) and isinstance(s, GlobP):
            raise Unsupported('constant array')
        for rx, h in self.handlers:
            if rx == 'memcpy':
                r = h(ex, st, d, s, n)
                if r is not NotImplemented:
                    return r
        if isinstance(d, HP) or isinstance(s, HP):
            return self.hcopy(ex, st, d, s, n)
        raise Unsupported('memcpy %r %r' % (d, s))

    def hcopy(self, ex, st, d, s, n):
        """struct-sized copies to/from typed heap cells"""
        def leafs(ty, path=()):
            if ty.k in ('named', 'struct'):
                fs = ex.mod.struct(ty.a) if ty.k == 'named' else ty.a
                for i, f in enumerate(fs):
                    yield from leafs(f, path + (i,))
            elif ty.k == 'array':
                return
            else:
                yield path, ty

        def tyof(p):
            t = p.ety
            for q in p.path:
                t = ex.fieldty(t, q)
            return t
        src = tyof(s) if isinstance(s, HP) and s.ety is not None else None
        dst = tyof(d) if isinstance(d, HP) and d.ety is not None else None
        if isinstance(s, Ptr):
            v = ex.read(st, s)
            if isinstance(v, TermV):
                v = ex.expand(st, v)
            src = v.ty if isinstance(v, Agg) else None
        if isinstance(d, Ptr):
            dv = ex.read(st, d)
            if isinstance(dv, TermV):
                dv = ex.expand(st, dv)
            dst = dv.ty if isinstance(dv, Agg) else None
        t = src or dst
        if t is None or not is_c(n) or ex.mod.sizeof(t) != n.as_long():
            raise Unsupported('heap memcpy')
        for path, lt in leafs(t):
            x = ex.load(st, lt, HP(s.ref, s.idx, s.ety or t, s.path + path) if isinstance(s, HP)
                        else Ptr(s.obj, s.path + path))
            ex.store(st, lt, x, HP(d.ref, d.idx, d.ety or t, d.path + path) if isinstance(d, HP)
                     else Ptr(d.obj, d.path + path))
        return one(st)

    def memset(self, ex, st, d, c, n):
        if isinstance(d, Ptr) and is_c(c) and c.as_long() == 0:
            v = ex.read(st, d)

            def z(v, ty):
                if isinstance(v, Agg):
                    return Agg(v.ty, [z(x, ex.fieldty(v.ty, i) if v.ty else None) for i, x in enumerate(v.f)])
                if isinstance(v, ArrV):
                    return ArrV(v.n, v.ety, z3.K(Int, iv(0)))
                if ty is not None:
                    return ex.zero(ty)
                return iv(0)
            ty = d.obj.ty
            for q in d.path:
                ty = ex.fieldty(ty, q) if ty is not None and not isinstance(q, tuple) else None
            ex.write(st, d, z(v, ty))
            return one(st)
        raise Unsupported('memset %r' % (d,))

    # ------------------------------------------------------------ calls
    def call(self, ex, st, name, dem, args):
        for rx, h in self.handlers:
            if rx != 'memcpy' and rx.search(dem):
                r = h(ex, st, args, dem)
                if r is not NotImplemented:
                    ex.used_lib[dem] = ex.used_lib.get(dem, 0) + 1
                    return r
        r = self._call(ex, st, name, dem, args)
        if r is not NotImplemented:
            ex.used_lib[dem] = ex.used_lib.get(dem, 0) + 1
        return r

    RV = re.compile(r'^vec<(.*)>::(~?vector|operator\[\]|operator=|[a-z_]+)(<.*>)?\((.*)\)( const)?$')

    def _call(self, ex, st, name, dem, args):
        m = self.RV.match(dem)
        if m:
            el = m.group(1).strip()
            if el in KINDS:
                return self.vec(ex, st, KINDS[el], m.group(2), m.group(4), args, dem)
        if dem.startswith(('std::__new_allocator<', 'std::allocator<')):
            return one(st, args[0] if args else None)
        m = re.match(r'^bool std::operator(==|<|!=)<(.*), std::allocator<.*> ?>\(vec<', dem) or \
            re.match(r'^bool std::operator(==|!=|<) ?<(.*), std::allocator<.*> ?>\(vec<', dem)
        if m:
            el = m.group(2).strip()
            if el in KINDS:
                return self.vcmp(ex, st, KINDS[el], m.group(1), args)
        # --- exceptions
        if name == '__cxa_allocate_exception':
            return one(st, ex.new_obj(st, 'exc', None, UNDEF))
        if name == '__cxa_throw':
            return [Out(st, 'throw', Exc(self._tname(args[1]), args[0]))]
        if name in ('__cxa_free_exception', '__cxa_end_catch'):
            return one(st)
        if name == '__cxa_begin_catch':
            return one(st, args[0])
        if name == '__cxa_rethrow':
            raise Unsupported('rethrow')
        if name == '__clang_call_terminate' or dem == 'std::terminate()':
            return [Out(st, 'abort', 'terminate')]
        if name == '__assert_fail':
            ex.prove(st, 'assertion in the code holds', z3.BoolVal(False))
            return [Out(st, 'abort', 'assert')]
        if dem.startswith(('std::runtime_error::', 'TraceError::TraceError', 'TraceEOFError::TraceEOFError',
                           'TraceError::~', 'TraceEOFError::~')):
            return one(st)
        # --- flyweights
        if dem.startswith(('FW_TVI::', 'FW_TPD::')):
            return self.fw(ex, st, dem, args)
        if dem.startswith('boost::flyweights::operator==(FW_') or dem.startswith('bool boost::flyweights::operator==<'):
            return one(st, self.fweq(ex, st, args[0], args[1]))
        if dem.startswith('bool boost::flyweights::operator!=<') or dem.startswith('boost::flyweights::operator!=('):
            return one(st, z3.Not(self.fweq(ex, st, args[0], args[1])))
        if re.search(r'boost::flyweights::operator< <', dem):
            return one(st, self.fwlt(ex, st, args[0], args[1]))
        # --- hashing
        m = re.match(r'^void boost::hash_combine<(.*)>\(unsigned long&, .*const&\)$', dem)
        if m:
            return self.hash_combine(ex, st, m.group(1).strip(), args)
        m = re.match(r'^boost::hash<(.*)>::operator\(\)\(.*\) const$', dem)
        if m:
            h = self.hashof(ex, st, m.group(1).strip(), args[1])
            return one(st, h)
        if dem.startswith('unsigned long boost::hash_range<char'):
            a, b = args
            if isinstance(a, IntPtr) and isinstance(b, IntPtr):
                n = z3.simplify(b.val + b.off - a.val - a.off)
                return one(st, hashbytes(z3.simplify(a.val + a.off), n))
            raise Unsupported('hash_range')
        if name == 'memcmp':
            a, b, n = args
            if isinstance(a, IntPtr) and isinstance(b, IntPtr):
                r = fresh('memcmp')
                st.assume((r == 0) == memeq(z3.simplify(a.val + a.off), z3.simplify(b.val + b.off), n),
                          r >= 0, r < (1 << 32))
                ex.touch(st, a, n) if hasattr(ex, 'touch') else None
                return one(st, r)
            raise Unsupported('memcmp')
        if re.search(r'std::lexicographical_compare', dem):
            raise Unsupported(dem)
        return NotImplemented

    # ------------------------------------------------------------ vectors
    def vval(self, ex, st, p, kind):
        v = ex.read(st, p)
        if isinstance(v, VecV):
            return v
        raise Unsupported('vector value %r' % (v,))

    def default(self, ex, st, kind):
        """default element; for repository classes the real default constructor is executed"""
        if kind.cls is None:
            return iv(0)
        if kind.name == 'vu32':
            return T.SU32.empty
        if kind.name == 'str':
            return T.emptystr
        if kind.name in ('tp', 'td', 'tbs', 'tr', 'fv', 'pred'):
            cls = kind.cls
            nm = '%s::%s()' % (cls.name, cls.name)
            for n, d in ex.mod.dem.items():
                if d == nm and n in ex.mod.funcs:
                    p = ex.new_obj(st, 'dflt', cls.irty)
                    outs = ex.call(st, n, [p])
                    if len(outs) != 1 or outs[0].kind != 'ret':
                        raise Unsupported('default constructor')
                    return cls.term(ex, outs[0].st, ex.read(outs[0].st, p))
        raise Unsupported('default element of ' + kind.name)

    def filled(self, ex, st, kind, n):
        if is_c(n) and n.as_long() == 0:
            return kind.seq.empty
        d = self.default(ex, st, kind)
        s = fresh('filled', kind.seq.sort)
        i = z3.Int('i')
        st.assume(kind.seq.len(s) == n,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), kind.seq.at(s, i) == d),
                            patterns=[kind.seq.at(s, i)]))
        return s

    def elem(self, ex, st, kind, a):
        """element value passed by reference"""
        if kind.cls is None:
            if isinstance(a, (Ptr, HP)):
                ty = Ty('int', kind.width)
                return ex.load(st, ty, a)
            raise Unsupported('element %r' % (a,))
        v = ex.read(st, a)
        return kind.unwrap(ex, st, v)

    def setlen(self, st, kind, t):
        st.assume(kind.seq.len(t) < T.MAXLEN)

    def vec(self, ex, st, kind, meth, sig, args, dem):
        seq = kind.seq
        p = args[0]
        if meth == 'vector':
            if len(args) == 1:
                ex.write(st, p, VecV(kind, seq.empty))
                return one(st)
            if re.match(r'^unsigned long, std::allocator', sig):
                n = args[1]
                st.assume(n < T.MAXLEN) if not is_c(n) else None
                ex.write(st, p, VecV(kind, self.filled(ex, st, kind, n)))
                return one(st)
            if re.match(r'^unsigned long, .* const&, std::allocator', sig):
                n = args[1]
                if is_c(n) and n.as_long() == 0:
                    ex.write(st, p, VecV(kind, seq.empty))
                    return one(st)
                e = self.elem(ex, st, kind, args[2])
                st.assume(n < T.MAXLEN)
                s = fresh('filled', seq.sort)
                i = z3.Int('i')
                st.assume(seq.len(s) == n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), seq.at(s, i) == e),
                                                    patterns=[seq.at(s, i)]))
                ex.write(st, p, VecV(kind, s))
                return one(st)
            if re.match(r'^vec<.*>( const)?&&?$', sig):
                v = self.vval(ex, st, args[1], kind)
                ex.write(st, p, v)
                if sig.endswith('&&'):
                    ex.write(st, args[1], VecV(kind, seq.empty))
                return one(st)
            for rx, h in self.handlers:
                if rx != 'memcpy' and rx.pattern == 'VECRANGE':
                    return h(ex, st, kind, args, dem)
            return self.vrange(ex, st, kind, args, sig)
        if meth == '~vector':
            return one(st)
        v = None
        if meth in ('size', 'length'):
            v = self.vval(ex, st, p, kind)
            st.assume(*kind.vfacts(v.t)[:2])
            return one(st, seq.len(v.t))
        if meth == 'empty':
            v = self.vval(ex, st, p, kind)
            st.assume(*kind.vfacts(v.t)[:2])
            return one(st, seq.len(v.t) == 0)
        if meth in ('begin', 'cbegin'):
            return one(st, Ptr(p.obj, p.path + (('e', iv(0)),)))
        if meth in ('end', 'cend'):
            v = self.vval(ex, st, p, kind)
            st.assume(*kind.vfacts(v.t)[:2])
            return one(st, Ptr(p.obj, p.path + (('e', seq.len(v.t)),)))
        if meth in ('operator[]',):
            v = self.vval(ex, st, p, kind)
            if ex.safety:
                ex.prove(st, 'vector index in range', z3.And(args[1] >= 0, args[1] < seq.len(v.t)))
            return one(st, Ptr(p.obj, p.path + (('e', args[1]),)))
        if meth == 'at':
            v = self.vval(ex, st, p, kind)
            s2 = st.copy()
            s2.assume(args[1] >= seq.len(v.t))
            st.assume(args[1] < seq.len(v.t))
            r = one(st, Ptr(p.obj, p.path + (('e', args[1]),)))
            if ex.feasible(s2):
                r.append(Out(s2, 'throw', Exc('std::out_of_range')))
            return r
        if meth == 'front':
            v = self.vval(ex, st, p, kind)
            ex.prove(st, 'front of a non-empty vector', seq.len(v.t) > 0)
            return one(st, Ptr(p.obj, p.path + (('e', iv(0)),)))
        if meth == 'back':
            v = self.vval(ex, st, p, kind)
            ex.prove(st, 'back of a non-empty vector', seq.len(v.t) > 0)
            return one(st, Ptr(p.obj, p.path + (('e', z3.simplify(seq.len(v.t) - 1)),)))
        if meth in ('push_back', 'emplace_back'):
            if meth == 'emplace_back' and len(args) != 2:
                raise Unsupported(dem)
            v = self.vval(ex, st, p, kind)
            t = seq.push(v.t, self.elem(ex, st, kind, args[1]))
            self.setlen(st, kind, t)
            ex.write(st, p, VecV(kind, t))
            return one(st)
        if meth in ('reserve', 'shrink_to_fit'):
            return one(st)
        if meth == 'capacity':
            v = self.vval(ex, st, p, kind)
            r = fresh('cap')
            st.assume(r >= seq.len(v.t), r < T.MAXLEN)
            return one(st, r)
        if meth == 'clear':
            ex.write(st, p, VecV(kind, seq.empty))
            return one(st)
        if meth == 'operator=':
            v = self.vval(ex, st, args[1], kind)
            ex.write(st, p, v)
            if '&&' in sig and not (args[1].obj is p.obj):
                ex.write(st, args[1], VecV(kind, seq.empty))
            return one(st, p)
        if meth == 'swap':
            a, b = self.vval(ex, st, p, kind), self.vval(ex, st, args[1], kind)
            ex.write(st, p, b)
            ex.write(st, args[1], a)
            return one(st)
        if meth == 'resize':
            v = self.vval(ex, st, p, kind)
            n = args[1]
            st.assume(n < T.MAXLEN)
            d = self.default(ex, st, kind)
            s = fresh('resized', seq.sort)
            i = z3.Int('i')
            st.assume(seq.len(s) == n,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n),
                                                seq.at(s, i) == z3.If(i < seq.len(v.t), seq.at(v.t, i), d)),
                                patterns=[seq.at(s, i)]))
            ex.write(st, p, VecV(kind, s))
            return one(st)
        raise Unsupported('vector method ' + dem)

    def vrange(self, ex, st, kind, args, sig):
        """vector(first, last): from raw memory or from another vector"""
        a, b = args[1], args[2]
        seq = kind.seq
        s = fresh('range', seq.sort)
        i = z3.Int('i')
        if isinstance(a, IntPtr) and isinstance(b, IntPtr) and kind is T.KCHR:
            n = z3.simplify(b.val + b.off - a.val - a.off)
            by = T.bytesat
            p0 = z3.simplify(a.val + a.off)
            ex.prove(st, 'range of bytes is well formed', n >= 0) if not ex.entails(st, n >= 0) else None
            t = T.bytesseq(p0, n)
            st.assume(seq.len(t) == n)
            ex.write(st, args[0], VecV(kind, t))
            return one(st)
        if isinstance(a, Null) and isinstance(b, Null):
            ex.write(st, args[0], VecV(kind, seq.empty))
            return one(st)
        if isinstance(a, HP) and isinstance(b, HP) and kind.cls is None:
            n = z3.simplify(b.idx - a.idx)
            ety = Ty('int', kind.width)
            m = ex.hmap(st, ex.hkey(ety, ()))
            ex.prove(st, 'copied range lies inside its block',
                     z3.And(a.ref == b.ref, n >= 0,
                            z3.Or(n == 0, z3.And(z3.Select(ex.alive(st), a.ref),
                                                 b.idx * (kind.width // 8) <= z3.Select(ex.bsize(st), a.ref)))))
            st.assume(seq.len(s) == n, n < T.MAXLEN,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n),
                                                seq.at(s, i) == z3.Select(z3.Select(m, a.ref), a.idx + i)),
                                patterns=[seq.at(s, i)]))
            ex.write(st, args[0], VecV(kind, s))
            return one(st)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.path and isinstance(a.path[-1], tuple):
            base = ex.read(st, Ptr(a.obj, a.path[:-1]))
            lo, hi = a.path[-1][1], b.path[-1][1]
            if isinstance(base, VecV) and base.kind is kind:
                n = z3.simplify(hi - lo)
                st.assume(seq.len(s) == n,
                          z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), seq.at(s, i) == seq.at(base.t, lo + i)),
                                    patterns=[seq.at(s, i)]))
                ex.write(st, args[0], VecV(kind, s))
                return one(st)
        raise Unsupported('vector range constructor')

    def vcmp(self, ex, st, kind, op, args):
        a, b = self.vval(ex, st, args[0], kind), self.vval(ex, st, args[1], kind)
        if op == '<':
            return one(st, ltvec(kind)(a.t, b.t))
        e = eqvec(kind, a.t, b.t)
        return one(st, e if op == '==' else z3.Not(e))

    # ------------------------------------------------------------ flyweights
    def fwcls(self, dem):
        return T.TVI if dem.startswith('FW_TVI') else T.TPD

    def fw(self, ex, st, dem, args):
        cls = self.fwcls(dem)
        p = args[0]
        if '::~flyweight' in dem:
            return one(st)
        if '::get() const' in dem or '::operator Trace' in dem:
            v = ex.read(st, p)
            if not (isinstance(v, AbsV) and v.tag == 'fw'):
                raise Unsupported('flyweight value %r' % (v,))
            return one(st, self.fwptr(ex, st, cls, v.t))
        if '::operator=' in dem:
            src = ex.read(st, args[1])
            if isinstance(src, AbsV) and src.tag == 'fw':
                ex.write(st, p, src)
            else:
                ex.write(st, p, AbsV('fw', t=cls.term(ex, st, src)))
            return one(st, p)
        m = re.match(r'^FW_T\w+::flyweight(<.*>)?\((.*)\)$', dem)
        if m:
            sig = m.group(2)
            if not sig:
                t = self.construct(ex, st, cls, [])
                ex.write(st, p, AbsV('fw', t=t))
                return one(st)
            if len(args) == 2:
                src = ex.read(st, args[1])
                if isinstance(src, AbsV) and src.tag == 'fw':
                    ex.write(st, p, src)
                else:
                    ex.write(st, p, AbsV('fw', t=cls.term(ex, st, src)))
                return one(st)
            t = self.construct(ex, st, cls, args[1:])
            ex.write(st, p, AbsV('fw', t=t))
            return one(st)
        raise Unsupported(dem)

    def construct(self, ex, st, cls, args):
        """run the real constructor of the flyweight's value type"""
        want = {(T.TPD, 0): r'^TracePointData::TracePointData\(\)$',
                (T.TPD, 3): r'^TracePointData::TracePointData\(vec<TraceBufferSize> const&, vec<FW_TVI> const&, '
                            r'vec<unsigned long> const&\)$',
                (T.TVI, 0): r'^TraceVarInfo::TraceVarInfo\(\)$',
                (T.TVI, 7): r'^TraceVarInfo::TraceVarInfo\(VarValue, '}.get((cls, len(args)))
        if want is None:
            raise Unsupported('flyweight construction')
        for n, d in ex.mod.dem.items():
            if n in ex.mod.funcs and re.match(want, d):
                f = ex.mod.funcs[n]
                f.parse()
                p = ex.new_obj(st, 'fwtmp', cls.irty)
                av = [p]
                for (ty, nm), a in zip(f.params[1:], args):
                    av.append(a if ty.k == 'ptr' and not self._deref(cls, len(args)) else ex.load(st, ty, a))
                outs = ex.call(st, n, av)
                if len(outs) != 1 or outs[0].kind != 'ret':
                    raise Unsupported('flyweight constructor')
                return cls.term(ex, st, ex.read(outs[0].st, p))
        raise Unsupported('flyweight constructor not found')

    def _deref(self, cls, n):
        return cls is T.TVI and n == 7

    def fwptr(self, ex, st, cls, t):
        k = (cls.name, t.get_id())
        if k not in self.fwobjs:
            self.fwobjs[k] = (Obj('fw_' + cls.name, cls.irty), t)
        o = self.fwobjs[k][0]
        if o not in st.mem:
            st.mem[o] = TermV(cls, t)
        return Ptr(o)

    def fwterm(self, ex, st, p):
        v = ex.read(st, p)
        if isinstance(v, AbsV) and v.tag == 'fw':
            return v.t
        raise Unsupported('flyweight operand')

    def fweq(self, ex, st, a, b):
        x, y = self.fwterm(ex, st, a), self.fwterm(ex, st, b)
        if x.sort() == T.TPD.sort:
            return eqTPDfw(x, y)
        return eqk(T.KTVI)(x, y)

    def fwlt(self, ex, st, a, b):
        x, y = self.fwterm(ex, st, a), self.fwterm(ex, st, b)
        if x.sort() == T.TPD.sort:
            return ltTPDfw(x, y)
        raise Unsupported('flyweight order')

    # ------------------------------------------------------------ hashing
    def hashof(self, ex, st, ty, p):
        if ty in ('unsigned long', 'unsigned int', 'unsigned short', 'unsigned char', 'char', 'type_format',
                  'predicate_kind', 'int', 'long', 'bool'):
            w = {'unsigned long': 64, 'long': 64, 'unsigned short': 16, 'unsigned char': 8, 'char': 8, 'bool': 8}.get(ty, 32)
            return hashf('int', Int)(ex.load(st, Ty('int', w), p))
        if ty == 'FW_TPD':
            return hashf('tpd', T.TPD.sort)(self.fwterm(ex, st, p))
        if ty == 'FW_TVI':
            return hashf('tvi', T.TVI.sort)(self.fwterm(ex, st, p))
        if ty == 'string':
            return hashf('str', T.StrSort)(ex.read(st, p).t)
        if ty == 'Predicate':
            t = T.PRED.term(ex, st, ex.read(st, p))
            return hashf('pred', T.PredSort)(t)
        m = re.match(r'^vec<(.*)>$', ty)
        if m and m.group(1).strip() in KINDS:
            k = KINDS[m.group(1).strip()]
            v = self.vval(ex, st, p, k)
            return hashf('vec_' + k.name, k.seq.sort)(v.t)
        for c in T.CLASSES:
            if c.name == ty:
                return hashf(c.sortname, c.sort)(c.term(ex, st, ex.read(st, p)))
        raise Unsupported('hash of ' + ty)

    def hash_combine(self, ex, st, ty, args):
        old = ex.load(st, Ty('int', 64), args[0])
        h = self.hashof(ex, st, ty, args[1])
        r = hc(old, h)
        st.assume(r >= 0, r < T.U64)
        ex.store(st, Ty('int', 64), r, args[0])
        return one(st)


_EQV = {}


def eqvec(kind, s, t):
    return eqvecf(kind)(s, t)


def eqvecf(kind):
    if kind.name not in _EQV:
        _EQV[kind.name] = z3.Function('eqvec_' + kind.name, kind.seq.sort, kind.seq.sort, Bool)
    return _EQV[kind.name]


def eqvec_axioms():
    """vector equality: same length and element-wise equal, by the element's own =="""
    ax = []
    for k in KINDS.values():
        s, t, i = z3.Const('s', k.seq.sort), z3.Const('t', k.seq.sort), z3.Int('i')
        f, e, q = eqvecf(k), eqk(k), k.seq
        if k.cls is None or k.name in ('str', 'vu32'):
            ax.append(z3.ForAll([s, t], f(s, t) == (s == t), patterns=[f(s, t)]))
            continue
        d = q._diff(s, t)
        ax.append(z3.ForAll([s, t], z3.Implies(f(s, t), q.len(s) == q.len(t)), patterns=[f(s, t)]))
        ax.append(z3.ForAll([s, t, i], z3.Implies(z3.And(f(s, t), i >= 0, i < q.len(s)), e(q.at(s, i), q.at(t, i))),
                            patterns=[z3.MultiPattern(f(s, t), q.at(s, i))]))
        ax.append(z3.ForAll([s, t], z3.Implies(z3.And(q.len(s) == q.len(t), z3.Implies(
            z3.And(d >= 0, d < q.len(s)), e(q.at(s, d), q.at(t, d)))), f(s, t)), patterns=[f(s, t)]))
    return ax
