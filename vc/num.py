"""Contracts of boost::multiprecision numbers (trusted base): cpp_int denotes an integer,
cpp_dec_float_50 a decimal number; the arithmetic itself is boost's."""
import re
import z3
from ir import Unsupported, Ty
from sx import Int, Bool, iv, fresh, is_c, AbsV, UNDEF, Undef, NULL, Null, Ptr, Obj, Out

Dec = z3.DeclareSort('Dec')
dec_int = z3.Function('dec_int', Int, Dec)
dec_f32 = z3.Function('dec_f32', Int, Dec)
dec_f64 = z3.Function('dec_f64', Int, Dec)
dadd, dsub, dmul, ddiv = [z3.Function('dec_' + n, Dec, Dec, Dec) for n in ('add', 'sub', 'mul', 'div')]
dlt, dle, deq = [z3.Function('dec_' + n, Dec, Dec, Bool) for n in ('lt', 'le', 'eq')]

_f, _i, _a, _b = z3.Int('f'), z3.Int('i'), z3.Const('a', Dec), z3.Const('b', Dec)
fpext = z3.Function('fpext_float_double', Int, Int)
AXIOMS = [z3.ForAll([_f], dec_f64(fpext(_f)) == dec_f32(_f), patterns=[fpext(_f)])]

INTOP = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
         '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
         '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
DECOP = {'+': dadd, '-': dsub, '*': dmul, '/': ddiv, '<': dlt, '<=': dle, '>': lambda a, b: dlt(b, a),
         '>=': lambda a, b: dle(b, a), '==': deq, '!=': lambda a, b: z3.Not(deq(a, b))}


def one(st, v=None):
    return [Out(st, 'ret', v)]


def num(ex, st, p, tag):
    v = ex.read(st, p)
    if isinstance(v, AbsV) and v.tag == tag:
        return v.t
    if isinstance(v, AbsV) and v.tag == 'freed':
        ex.prove(st, 'a released number is not used', z3.BoolVal(False))
    if isinstance(v, AbsV) and v.tag in ('cppint', 'cppdec'):
        ex.prove(st, 'a number is used as what it is', z3.BoolVal(False))
    raise Unsupported('number operand %r' % (v,))


TAG = {'CPPINT': 'cppint', 'CPPDEC': 'cppdec'}
RXB = re.compile(r'(?:^|[ >:])boost::multiprecision::operator(==|!=|<=|>=|[-+*/<>]) ?<.*>\((CPPINT|CPPDEC)(?: const&|&&), ((CPPINT|CPPDEC|int|long|unsigned int|unsigned long|long long|unsigned long long))(?: const&|&&)\)$')
RXC = re.compile(r'^(CPPINT|CPPDEC)::number[<(]')
W = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def scalar(ex, st, ty, p):
    v = ex.load(st, Ty('int', W[ty]), p)
    return v if ty.startswith('unsigned') else ex.sgn(st, v, W[ty])


def h_binary(ex, st, args, dem):
    m = RXB.search(dem)
    op, x, y = m.group(1), m.group(2), m.group(3)
    res = None
    if op in '+-*/':
        res, args = args[0], args[1:]
    a = num(ex, st, args[0], TAG[x])
    if y in TAG:
        b, yt = num(ex, st, args[1], TAG[y]), y
    else:
        b, yt = scalar(ex, st, y, args[1]), 'CPPINT'
    if x == 'CPPINT' and yt == 'CPPINT':
        if op == '/':
            raise Unsupported('truncating division')
        r, tag = INTOP[op](a, b), 'cppint'
    else:
        a = dec_int(a) if x == 'CPPINT' else a
        b = dec_int(b) if yt == 'CPPINT' else b
        r, tag = DECOP[op](a, b), 'cppdec'
    if res is None:
        return one(st, r)
    for q, c in zip(args, m.groups()[1:3]):
        if dem.count('&&') and c in TAG and re.search(re.escape(c) + '&&', sigof(dem) or dem):
            ex.write(st, q, AbsV(TAG[c], t=fresh('moved', Int if c == 'CPPINT' else Dec)))      # an operand that may be given up
    ex.write(st, res, AbsV(tag, t=r))
    return one(st)


def sigof(dem):
    """parameter list of a demangled function name"""
    d = 0
    for i, c in enumerate(dem):
        if c == '<':
            d += 1
        elif c == '>' and dem[i - 1] != '-':
            d -= 1
        elif c == '(' and d == 0:
            return dem[i + 1:].rstrip(')') if dem.endswith('()') else dem[i + 1:-1]
    return ''


def h_ctor(ex, st, args, dem):
    cls, sig = dem[:6], sigof(dem)
    tag = TAG[cls]
    if sig == '':
        t = iv(0) if cls == 'CPPINT' else dec_int(iv(0))
        ex.write(st, args[0], AbsV(tag, t=t))
        return one(st)
    if sig.startswith((cls + ' const&', cls + '&&')):
        ex.write(st, args[0], AbsV(tag, t=num(ex, st, args[1], tag)))
        return one(st)
    if sig.startswith('boost::multiprecision::detail::expression<'):
        ex.write(st, args[0], AbsV(tag, t=num(ex, st, args[1], tag)))
        return one(st)
    if cls == 'CPPDEC' and sig.startswith('CPPINT const&'):
        ex.write(st, args[0], AbsV(tag, t=dec_int(num(ex, st, args[1], 'cppint'))))
        return one(st)
    s = re.match(r'^([a-z ]+?)( const&)?(,|$)', sig)
    if s:
        ty = s.group(1)
        if ty in W:
            v = scalar(ex, st, ty, args[1]) if s.group(2) else (
                args[1] if ty.startswith('unsigned') else ex.sgn(st, args[1], W[ty]))
            ex.write(st, args[0], AbsV(tag, t=v if cls == 'CPPINT' else dec_int(v)))
            return one(st)
        if ty in ('float', 'double') and cls == 'CPPDEC':
            v = ex.load(st, Ty(ty), args[1]) if s.group(2) else args[1]
            ex.write(st, args[0], AbsV(tag, t=(dec_f32 if ty == 'float' else dec_f64)(v)))
            return one(st)
    raise Unsupported(dem[:200])


def h_conv(ex, st, args, dem):
    ex.write(st, args[0], AbsV('cppdec', t=dec_int(num(ex, st, args[1], 'cppint'))))
    return one(st)


def h_dtor(ex, st, args, dem):
    num(ex, st, args[0], TAG[dem[:6]])
    return one(st)


def h_new(ex, st, args, dem):
    return one(st, ex.new_obj(st, 'new', None, UNDEF))


def h_delete(ex, st, args, dem):
    p = args[0]
    if isinstance(p, Null):
        return one(st)
    if not isinstance(p, Ptr) or p.path or p.obj.name != 'new':
        raise Unsupported('delete of %r' % (p,))
    v = st.mem.get(p.obj)
    ex.prove(st, 'released once', z3.BoolVal(not (isinstance(v, AbsV) and v.tag == 'freed')))
    st.mem[p.obj] = AbsV('freed')
    return one(st)


HANDLERS = [(RXB, h_binary), (RXC, h_ctor), (re.compile(r'^CPPDEC CPPINT::convert_to<CPPDEC ?>\(\) const$'), h_conv),
            (re.compile(r'^(CPPINT|CPPDEC)::~number\(\)$'), h_dtor), (re.compile(r'^operator new\(unsigned long\)$'), h_new),
            (re.compile(r'^operator delete\(void\*(, unsigned long)?\)$'), h_delete)]
