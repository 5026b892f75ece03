"""Contracts of std::map / std::unordered_map as finite functions.

AbsV('map', mk, dom, val): dom says which keys are present, val what they map to.  For a map whose key equality
is a relation eq other than identity, a lookup finds some present key related to the one asked for."""
import re
import z3
from ir import Unsupported
from sx import Int, Bool, iv, fresh, V, Agg, AbsV, UNDEF, Undef, Ptr, Out


class MapKind:
    """enum=True: iteration visits the keys key(dom, 0..size(dom)-1), each present key once (in no particular order)"""

    def __init__(self, name, rx, K, Vs, key, wrap, unwrap, default, eq=None, keyval=None, enum=False):
        self.enum = enum
        if enum:
            D = z3.ArraySort(K, Bool)
            self.nth, self.rank, self.size = (z3.Function(name + '.nth', D, Int, K), z3.Function(name + '.rank', D, K, Int), z3.Function(name + '.size', D, Int))
            d, i, x = z3.Const('d', D), z3.Int('i'), z3.Const('x', K)
            self.axioms = [
                z3.ForAll([d, i], z3.Implies(z3.And(i >= 0, i < self.size(d)), z3.And(z3.Select(d, self.nth(d, i)), self.rank(d, self.nth(d, i)) == i)), patterns=[self.nth(d, i)]),
                z3.ForAll([d, x], z3.Implies(z3.Select(d, x), z3.And(self.rank(d, x) >= 0, self.rank(d, x) < self.size(d), self.nth(d, self.rank(d, x)) == x)), patterns=[z3.Select(d, x)]),
                z3.ForAll([d], z3.And(self.size(d) >= 0, self.size(d) < 2 ** 62), patterns=[self.size(d)])]
        self.name, self.rx, self.K, self.V = name, re.compile(rx), K, Vs
        self.key, self.wrap, self.unwrap, self.default, self.eq, self.keyval = key, wrap, unwrap, default, eq, keyval

    def sym(self, name):
        return AbsV('map', mk=self, dom=z3.Const(name + '.dom', z3.ArraySort(self.K, Bool)),
                    val=z3.Const(name + '.val', z3.ArraySort(self.K, self.V)))

    def empty(self, ex, st):
        return AbsV('map', mk=self, dom=z3.K(self.K, z3.BoolVal(False)), val=fresh('nomap', z3.ArraySort(self.K, self.V)))


def handlers(mk):
    ret = lambda st, v=None: [Out(st, 'ret', v)]

    def getmap(ex, st, p):
        v = ex.read(st, p)
        if not (isinstance(v, AbsV) and v.tag == 'map' and v.d['mk'] is mk):
            raise Unsupported('map value %r' % (v,))
        return v

    def lookup(ex, st, m, k):
        """[(state, key of the entry or None)]"""
        if mk.eq is None:
            a, b = st, st.copy()
            a.assume(z3.Select(m.dom, k))
            b.assume(z3.Not(z3.Select(m.dom, k)))
            return [(s, x) for s, x in ((a, k), (b, None)) if ex.feasible(s)]
        a, b = st, st.copy()
        k1 = fresh('entry', mk.K)
        a.assume(z3.Select(m.dom, k1), mk.eq(k, k1))
        q = z3.Const('q', mk.K)
        b.assume(z3.ForAll([q], z3.Implies(z3.Select(m.dom, q), z3.Not(mk.eq(k, q))), patterns=[z3.Select(m.dom, q)]))
        b.assume(z3.Not(z3.Select(m.dom, k)))     # eq is reflexive
        return [(s, x) for s, x in ((a, k1), (b, None)) if ex.feasible(s)]

    def h_map(ex, st, args, dem):
        m_ = mk.rx.match(dem)
        rest = dem[m_.end():]
        op = re.match(r'(operator\[\]|operator=|~?\w+)', rest).group(1)
        p = args[0]
        if op.startswith('~'):
            return ret(st)
        if op in ('map', 'unordered_map'):
            if rest.endswith('()'):
                ex.write(st, p, mk.empty(ex, st))
                return ret(st)
            raise Unsupported('map constructor')
        if op == 'clear':
            getmap(ex, st, p)
            ex.write(st, p, mk.empty(ex, st))
            return ret(st)
        m = getmap(ex, st, p)
        if op in ('reserve', 'rehash'):
            return ret(st)
        if op in ('size', 'empty'):
            if mk.enum:
                n = mk.size(m.dom)
            else:
                n = fresh('mapsize')
                st.assume(n >= 0, n < 2 ** 63)
            return ret(st, n if op == 'size' else n == 0)
        if op in ('begin', 'cbegin') and mk.enum:
            return ret(st, AbsV('mappos', p=p, pos=iv(0)))
        if op in ('end', 'cend'):
            return ret(st, AbsV('mapit', p=p, k=None))
        if op == 'find':
            k = mk.key(ex, st, args[1])
            return [Out(s, 'ret', AbsV('mapit', p=p, k=x)) for s, x in lookup(ex, st, m, k)]
        if op == 'count':
            k = mk.key(ex, st, args[1])
            return [Out(s, 'ret', iv(0 if x is None else 1)) for s, x in lookup(ex, st, m, k)]
        if op in ('operator[]', 'at'):
            k = mk.key(ex, st, args[1])
            outs = []
            for s, x in lookup(ex, st, m, k):
                if x is None:
                    if op == 'at':
                        ex.prove(s, 'map::at finds its key', z3.BoolVal(False))
                        continue
                    x = k
                    ex.write(s, p, m.upd(dom=z3.Store(m.dom, k, True), val=z3.Store(m.val, k, mk.default())))
                outs.append(Out(s, 'ret', Ptr(p.obj, p.path + (('m', x),))))
            return outs
        raise Unsupported('map operation ' + op)

    core = mk.rx.pattern.lstrip('^').split('(?=')[0]
    rx_ins = re.compile(r'^(?:std::(?:pair|enable_if)<.* )?(' + core + r')(insert_or_assign|try_emplace|emplace|insert)(<.*>)?\((.*)\)$')

    def split(t):
        out, depth, cur = [], 0, ''
        for c in t:
            depth += (c in '<(') - (c in '>)')
            if c == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        return out + ([cur.strip()] if cur.strip() else [])

    def bare(t):
        return re.sub(r'( const)?(&|&&)?$', '', t).strip()

    def h_ins(ex, st, args, dem):
        m_ = rx_ins.match(dem)
        op, tys = m_.group(2), split(m_.group(4))
        kv = split(re.match(r'std::(?:unordered_)?map<(.*)>::$', m_.group(1)).group(1))[:2]
        p = args[0]
        if len(tys) == 2 and op != 'insert':
            if [bare(t) for t in tys] != kv:
                raise Unsupported('map insertion converts its arguments')
            kp, vp = args[1], args[2]
        elif len(tys) == 1 and op in ('insert', 'emplace') and bare(tys[0]) in ('std::pair<%s const, %s>' % tuple(kv), 'std::pair<%s, %s>' % tuple(kv),
                                                                                 'std::pair<%s const, %s >' % tuple(kv), 'std::pair<%s, %s >' % tuple(kv)):
            kp, vp = (Ptr(args[1].obj, args[1].path + (i,)) for i in (0, 1))
        else:
            raise Unsupported('map insertion ' + op)
        m = getmap(ex, st, p)
        k = mk.key(ex, st, kp)
        v = mk.unwrap(ex, st, ex.read(st, vp))
        outs = []
        for s, x in lookup(ex, st, m, k):
            if x is None:
                ex.write(s, p, m.upd(dom=z3.Store(m.dom, k, True), val=z3.Store(m.val, k, v)))
            elif op == 'insert_or_assign':
                ex.write(s, p, m.upd(val=z3.Store(m.val, x, v)))
            outs.append(Out(s, 'ret', Agg(None, [AbsV('mapit', p=p, k=k if x is None else x), iv(1 if x is None else 0)])))
        return outs

    return [(rx_ins, h_ins), (mk.rx, h_map)]


def iters():
    """iterator operations common to all map kinds"""
    def it(ex, st, p):
        v = ex.read(st, p)
        v = ex.first(st, v)
        if not (isinstance(v, AbsV) and v.tag in ('mapit', 'mappos')):
            raise Unsupported('map iterator %r' % (v,))
        return v

    def pos(ex, st, a):
        if a.tag == 'mappos':
            return a.pos
        m = ex.read(st, a.p)
        if not m.mk.enum:
            raise Unsupported('position in a map')
        return m.mk.size(m.dom) if a.d['k'] is None else m.mk.rank(m.dom, a.d['k'])

    def h_inc(ex, st, args, dem):
        p = args[0]
        a = it(ex, st, p)
        if a.tag != 'mappos' or dem.rstrip().endswith('(int)'):
            raise Unsupported('step of a map iterator')
        m = ex.read(st, a.p)
        ex.prove(st, 'the end iterator is not advanced', a.pos < m.mk.size(m.dom))
        v = ex.read(st, p)
        path = p.path
        while isinstance(v, Agg):
            v, path = v.f[0], path + (0,)
        ex.write(st, Ptr(p.obj, path), a.upd(pos=a.pos + 1))
        return [Out(st, 'ret', p)]

    def h_cmp(ex, st, args, dem):
        a, b = it(ex, st, args[0]), it(ex, st, args[1])
        if 'mappos' in (a.tag, b.tag):
            x, y = pos(ex, st, a), pos(ex, st, b)
            r = x == y
        elif a.d['k'] is None and b.d['k'] is None:
            r = z3.BoolVal(True)
        elif a.d['k'] is None or b.d['k'] is None:
            r = z3.BoolVal(False)
        else:
            r = a.d['k'] == b.d['k']
        return [Out(st, 'ret', z3.Not(r) if '!=' in dem.split('(')[0] else r)]

    def h_deref(ex, st, args, dem):
        a = it(ex, st, args[0])
        if a.tag == 'mappos':
            m = ex.read(st, a.p)
            ex.prove(st, 'dereferenced iterator is not the end', z3.And(a.pos >= 0, a.pos < m.mk.size(m.dom)))
            return [Out(st, 'ret', Ptr(a.p.obj, a.p.path + (('mp', m.mk.nth(m.dom, a.pos)),)))]
        if a.d['k'] is None:
            ex.prove(st, 'dereferenced iterator is not the end', z3.BoolVal(False))
            return []
        return [Out(st, 'ret', Ptr(a.p.obj, a.p.path + (('mp', a.d['k']),)))]
    return [(re.compile(r'^std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator)<.*>::operator\+\+\('), h_inc),
            (re.compile(r'^std::operator(==|!=)\(std::_Rb_tree_(const_)?iterator<|^std::__detail::operator(==|!=)\(std::__detail::_Node_iterator_base<|'
                        r'^std::_Rb_tree_(const_)?iterator<.*::operator(==|!=)\('), h_cmp),
            (re.compile(r'^std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator)<.*>::operator(\*|->)\(\) const$'), h_deref)]
