"""Parser for the textual LLVM IR that clang emits for the real sources.

Only what -O0 clang output uses is understood; anything else raises
Unsupported, which callers treat as 'out of the verifier's reach', never as a
violation.
"""
import re
import subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return {'int': lambda: 'i%d' % self.a, 'ptr': lambda: 'ptr',
                'named': lambda: '%' + self.a, 'array': lambda: '[%d x %r]' % (self.a, self.b),
                'struct': lambda: '{%s}' % ', '.join(map(repr, self.a))}.get(self.k, lambda: self.k)()

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


PTR = Ty('ptr')
VOID = Ty('void')


def I(n):
    return Ty('int', n)


class Tok:
    """character scanner"""

    def __init__(self, s):
        self.s, self.p = s, 0

    def ws(self):
        s, p = self.s, self.p
        while p < len(s) and s[p] in ' \t':
            p += 1
        self.p = p

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.p)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.p):
            self.p += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unsupported('expected %r at %r' % (t, self.s[self.p:self.p + 60]))

    def rx(self, r):
        self.ws()
        m = r.match(self.s, self.p)
        if m:
            self.p = m.end()
            return m
        return None

    def end(self):
        self.ws()
        return self.p >= len(self.s)


R_WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_.]*')
R_NAME = re.compile(r'[%@](?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+))')
R_INT = re.compile(r'-?\d+')
R_HEX = re.compile(r'0x[KMLHR]?[0-9A-Fa-f]+')
R_FLT = re.compile(r'-?\d+\.\d+(?:e[+-]?\d+)?')

PARAM_ATTR = re.compile(
    r'(?:noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|readnone|writeonly|returned|immarg|inreg|nest|'
    r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|sret\([^()]*(?:\([^()]*\))?[^()]*\)|'
    r'byval\([^()]*\)|dead_on_unwind|writable|allocalign|allocptr|swiftself|noundef|nofree)(?=[ ,)]|$)')


class Module:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.types = {}       # name -> list of Ty | None (opaque)
        self.typetext = {}
        self.funcs = {}       # name -> Function (lazy)
        self.decls = {}
        self.globals = {}
        self.di = {}
        self._scan()
        self._demangle()

    def _scan(self):
        pos = 0
        lines = self.text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(1).strip('"')
                self.funcs[name] = Function(self, name, l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%'):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                self.typetext[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!') and 'DI' in l:
                m = re.match(r'!(\d+) = (?:distinct )?!DI(\w+)\((.*)\)$', l)
                if m and m.group(2) in ('Subprogram', 'File', 'Location'):
                    self.di[m.group(1)] = (m.group(2), m.group(3))
            i += 1

    def _demangle(self):
        names = list(self.funcs) + list(self.decls)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        rest = [n for n, d in self.dem.items() if d == n and n.startswith('_Z')]
        if rest:
            out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(rest), capture_output=True, text=True).stdout
            for n, d in zip(rest, out.split('\n')):
                self.dem[n] = d.replace('>>', '> >').replace('>>', '> >')
        self.bydem = {}
        for a, b in self.dem.items():
            self.bydem.setdefault(b, a)

    def struct(self, name):
        if name not in self.types:
            t = self.typetext.get(name)
            if t is None or t == 'opaque':
                self.types[name] = None
            else:
                tk = Tok(t)
                packed = tk.peek('<{')
                ty = self.parse_type(tk)
                self.types[name] = ty.a
        return self.types[name]

    def parse_type(self, t):
        t.ws()
        s = t.s
        c = s[t.p]
        if c == '%':
            m = t.rx(R_NAME)
            return Ty('named', m.group(1) if m.group(1) is not None else m.group(2))
        if c == '[':
            t.eat('[')
            n = int(t.rx(R_INT).group())
            t.need('x')
            e = self.parse_type(t)
            t.need(']')
            return Ty('array', n, e)
        if s.startswith('<{', t.p):
            t.p += 2
            f = self._fields(t, '}>')
            return Ty('struct', f)
        if c == '{':
            t.p += 1
            return Ty('struct', self._fields(t, '}'))
        if c == '<':
            t.p += 1
            n = int(t.rx(R_INT).group())
            t.need('x')
            e = self.parse_type(t)
            t.need('>')
            return Ty('vec', n, e)
        m = t.rx(R_WORD)
        w = m.group()
        if re.fullmatch(r'i\d+', w):
            return Ty('int', int(w[1:]))
        if w in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'token', 'x86_fp80', 'fp128'):
            return Ty(w)
        raise Unsupported('type ' + w)

    def _fields(self, t, close):
        f = []
        if t.eat(close):
            return f
        while True:
            f.append(self.parse_type(t))
            if t.eat(close):
                return f
            t.need(',')

    def sizeof(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        """(size, align, offsets)"""
        k = ty.k
        if k == 'int':
            s = max(1, (ty.a + 7) // 8)
            p = 1
            while p < s:
                p *= 2
            return p, p, None
        if k == 'ptr' or k == 'double':
            return 8, 8, None
        if k == 'float':
            return 4, 4, None
        if k in ('x86_fp80', 'fp128'):
            return 16, 16, None
        if k == 'array':
            s, a, _ = self.layout(ty.b)
            return s * ty.a, a, None
        if k in ('named', 'struct'):
            fs = self.struct(ty.a) if k == 'named' else ty.a
            if fs is None:
                raise Unsupported('sizeof opaque ' + repr(ty))
            off, al, offs = 0, 1, []
            for f in fs:
                s, a, _ = self.layout(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        raise Unsupported('sizeof ' + repr(ty))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'text')

    def __repr__(self):
        return '<%s>' % self.text.strip()


class Function:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self._parsed = False
        self._hdr()

    def _hdr(self):
        h = self.header
        m = re.search(r'!dbg !(\d+)', h)
        self.sub = m.group(1) if m else None
        self._params = None

    @property
    def file(self):
        if not self.sub or self.sub not in self.mod.di:
            return None
        m = re.search(r'file: !(\d+)', self.mod.di[self.sub][1])
        if not m:
            return None
        d = self.mod.di.get(m.group(1))
        if not d:
            return None
        fn = re.search(r'filename: "([^"]*)"', d[1]).group(1)
        dr = re.search(r'directory: "([^"]*)"', d[1])
        if fn.startswith('/') or not dr:
            return fn
        return dr.group(1) + '/' + fn

    @property
    def srcline(self):
        m = re.search(r'line: (\d+)', self.mod.di[self.sub][1]) if self.sub in self.mod.di else None
        return int(m.group(1)) if m else 0

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        mod = self.mod
        h = self.header
        i = h.index('@' + ('"' if ('@"' + self.name) in h else '') + self.name)
        t = Tok(h)
        t.p = i
        t.rx(R_NAME)
        # return type: text before
        pre = h[:i].rstrip()
        self.ret = self._ret_type(pre)
        t.need('(')
        self.params = []
        self.sret = None
        self.vararg = False
        while not t.eat(')'):
            if t.eat('...'):
                self.vararg = True
                t.need(')')
                break
            ty = mod.parse_type(t)
            while True:
                m = t.rx(PARAM_ATTR)
                if not m:
                    break
                if m.group().startswith('sret'):
                    self.sret = len(self.params)
            m = t.rx(R_NAME)
            self.params.append((ty, '%' + (m.group(1) or m.group(2))))
            t.eat(',')
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.body
        n = len(lines)
        j = 0
        while j < n:
            l = lines[j]
            if not l.strip():
                j += 1
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                j += 1
                continue
            if cur is None:
                cur = 'entry'
                self.blocks[cur] = []
                self.order.append(cur)
            # multi-line: switch, landingpad, invoke
            s = l.strip()
            if s.startswith('switch'):
                while ']' not in lines[j]:
                    j += 1
                    s += ' ' + lines[j].strip()
            elif ' landingpad ' in s or ' = invoke ' in s or s.startswith('invoke '):
                while j + 1 < n and lines[j + 1].startswith('          '):
                    j += 1
                    s += ' ' + lines[j].strip()
            self.blocks[cur].append(s)
            j += 1
        for b in self.order:
            self.blocks[b] = [self._instr(s) for s in self.blocks[b]]
        self._cfg()
        return self

    def _ret_type(self, pre):
        # 'define linkonce_odr dso_local noundef nonnull align 8 dereferenceable(16) ptr'
        m = re.search(r'(void|ptr|i\d+|float|double|\{.*\}|%"[^"]*"|%[-\w.$]+|\[\d+ x [^\]]+\])\s*$', pre)
        if not m:
            raise Unsupported('ret type ' + pre)
        return self.mod.parse_type(Tok(m.group(1)))

    # ---- operands: ('reg',name) ('int',n) ('null',) ('undef',) ('glob',name) ('float',txt) ('zero',) ('cexpr',...)
    def _val(self, t, ty):
        t.ws()
        c = t.s[t.p]
        if c == '%':
            m = t.rx(R_NAME)
            return ('reg', '%' + (m.group(1) or m.group(2)))
        if c == '@':
            m = t.rx(R_NAME)
            return ('glob', m.group(1) or m.group(2))
        m = t.rx(R_HEX)
        if m:
            return ('float', m.group())
        m = t.rx(R_FLT)
        if m:
            return ('float', m.group())
        m = t.rx(R_INT)
        if m:
            return ('int', int(m.group()))
        if c in '{[':
            close = '}' if c == '{' else ']'
            t.p += 1
            els = []
            while not t.eat(close):
                ety = self.mod.parse_type(t)
                els.append((ety, self._val(t, ety)))
                t.eat(',')
            return ('agg', els)
        m = t.rx(R_WORD)
        w = m.group() if m else None
        if w == 'true':
            return ('int', 1)
        if w == 'false':
            return ('int', 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'getelementptr':
            t.eat('inbounds')
            t.need('(')
            sty = self.mod.parse_type(t)
            t.need(',')
            ops = self._args_until(t, ')')
            return ('cgep', sty, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast'):
            t.need('(')
            fty = self.mod.parse_type(t)
            v = self._val(t, fty)
            t.need('to')
            tty = self.mod.parse_type(t)
            t.need(')')
            return ('ccast', w, fty, v, tty)
        raise Unsupported('operand %r' % t.s[t.p - 5:t.p + 50])

    def _args_until(self, t, close):
        out = []
        while not t.eat(close):
            t.eat('inrange')
            ty = self.mod.parse_type(t)
            while t.rx(PARAM_ATTR):
                pass
            out.append((ty, self._val(t, ty)))
            t.eat(',')
        return out

    def _tv(self, t):
        ty = self.mod.parse_type(t)
        return ty, self._val(t, ty)

    def _instr(self, s):
        I_ = Instr()
        I_.text = s
        I_.res = None
        I_.ty = None
        I_.a = None
        I_.x = None
        m = re.search(r', !dbg !(\d+)', s)
        I_.line = m.group(1) if m else None
        t = Tok(s)
        m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', s)
        if m:
            I_.res = m.group(1).replace('"', '')
            t.p = m.end()
        w = t.rx(R_WORD).group()
        mod = self.mod
        if w in ('tail', 'notail', 'musttail'):
            w = t.rx(R_WORD).group()
        I_.op = w
        if w == 'alloca':
            t.eat('inalloca')
            I_.ty = mod.parse_type(t)
            I_.a = None
            if t.eat(',') and not t.peek('align'):
                I_.a = self._tv(t)
        elif w == 'load':
            t.eat('atomic')
            t.eat('volatile')
            I_.ty = mod.parse_type(t)
            t.need(',')
            I_.a = self._tv(t)[1]
        elif w == 'store':
            t.eat('atomic')
            t.eat('volatile')
            I_.ty, v = self._tv(t)
            t.need(',')
            I_.a = (v, self._tv(t)[1])
        elif w == 'getelementptr':
            t.eat('inbounds')
            I_.ty = mod.parse_type(t)
            t.need(',')
            base = self._tv(t)
            idx = []
            while t.eat(','):
                if t.peek('!'):
                    break
                idx.append(self._tv(t))
            I_.a = (base[1], idx)
        elif w in ('br',):
            if t.eat('label'):
                m = t.rx(R_NAME)
                I_.a = (None, m.group(1) or m.group(2))
            else:
                ty, v = self._tv(t)
                t.need(',')
                t.need('label')
                m1 = t.rx(R_NAME)
                t.need(',')
                t.need('label')
                m2 = t.rx(R_NAME)
                I_.a = (v, m1.group(1) or m1.group(2), m2.group(1) or m2.group(2))
        elif w == 'switch':
            ty, v = self._tv(t)
            t.need(',')
            t.need('label')
            d = t.rx(R_NAME)
            t.need('[')
            cases = []
            while not t.eat(']'):
                cty, cv = self._tv(t)
                t.need(',')
                t.need('label')
                m = t.rx(R_NAME)
                cases.append((cv[1], m.group(1) or m.group(2)))
            I_.ty = ty
            I_.a = (v, d.group(1) or d.group(2), cases)
        elif w == 'ret':
            if t.eat('void'):
                I_.a = None
            else:
                I_.ty, I_.a = self._tv(t)
        elif w in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                   'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while t.eat('nuw') or t.eat('nsw') or t.eat('exact') or t.eat('disjoint'):
                pass
            I_.ty, a = self._tv(t)
            t.need(',')
            I_.a = (a, self._val(t, I_.ty))
        elif w in ('icmp', 'fcmp'):
            I_.x = t.rx(R_WORD).group()
            I_.ty, a = self._tv(t)
            t.need(',')
            I_.a = (a, self._val(t, I_.ty))
        elif w == 'fneg':
            I_.ty, I_.a = self._tv(t)
        elif w in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'uitofp', 'sitofp',
                   'fptoui', 'fptosi'):
            t.eat('nneg')
            fty, v = self._tv(t)
            t.need('to')
            I_.ty = mod.parse_type(t)
            I_.a = (fty, v)
        elif w == 'phi':
            I_.ty = mod.parse_type(t)
            inc = []
            while t.eat('['):
                v = self._val(t, I_.ty)
                t.need(',')
                m = t.rx(R_NAME)
                t.need(']')
                inc.append((v, m.group(1) or m.group(2)))
                t.eat(',')
            I_.a = inc
        elif w == 'select':
            c = self._tv(t)
            t.need(',')
            a = self._tv(t)
            t.need(',')
            b = self._tv(t)
            I_.ty = a[0]
            I_.a = (c[1], a[1], b[1])
        elif w == 'extractvalue':
            I_.ty, v = self._tv(t)
            idx = []
            while t.eat(','):
                m = t.rx(R_INT)
                if not m:
                    break
                idx.append(int(m.group()))
            I_.a = (v, idx)
        elif w == 'insertvalue':
            I_.ty, v = self._tv(t)
            t.need(',')
            ety, e = self._tv(t)
            idx = []
            while t.eat(','):
                m = t.rx(R_INT)
                if not m:
                    break
                idx.append(int(m.group()))
            I_.a = (v, e, idx)
        elif w in ('call', 'invoke'):
            self._call(t, I_, w)
        elif w == 'landingpad':
            cl = []
            for m in re.finditer(r'(cleanup|catch ptr (null|@"?[-\w.$]+"?)|filter [^\n]*)', s):
                g = m.group(1)
                if g == 'cleanup':
                    cl.append(('cleanup',))
                elif g.startswith('catch'):
                    cl.append(('catch', m.group(2).lstrip('@')))
                else:
                    cl.append(('filter', g))
            I_.a = cl
        elif w == 'resume':
            I_.ty, I_.a = self._tv(t)
        elif w in ('unreachable', 'fence'):
            pass
        elif w == 'freeze':
            I_.ty, I_.a = self._tv(t)
        elif w in ('cmpxchg', 'atomicrmw', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            I_.a = s
        else:
            raise Unsupported('instr ' + s)
        return I_

    def _call(self, t, I_, w):
        mod = self.mod
        # calling conv / ret attrs
        while True:
            if t.rx(PARAM_ATTR):
                continue
            m = re.compile(r'(fastcc|ccc|cc \d+)(?= )').match(t.s, t.p) if False else None
            break
        ty = mod.parse_type(t)
        if t.peek('('):   # function type
            depth = 0
            t.ws()
            while True:
                c = t.s[t.p]
                if c == '(':
                    depth += 1
                if c == ')':
                    depth -= 1
                t.p += 1
                if depth == 0:
                    break
        I_.ty = ty
        t.ws()
        if t.peek('asm'):
            I_.x = ('asm', t.s[t.p:])
            I_.a = (('asm',), [])
            return
        callee = self._val(t, PTR)
        t.need('(')
        args = []
        while not t.eat(')'):
            if t.eat('metadata'):
                # skip metadata argument
                depth = 0
                while True:
                    c = t.s[t.p]
                    if c in '([{':
                        depth += 1
                    if c in ')]}':
                        if depth == 0:
                            break
                        depth -= 1
                    if c == ',' and depth == 0:
                        break
                    t.p += 1
                args.append((Ty('metadata'), ('undef',)))
                t.eat(',')
                continue
            aty = mod.parse_type(t)
            while t.rx(PARAM_ATTR):
                pass
            args.append((aty, self._val(t, aty)))
            t.eat(',')
        I_.a = (callee, args)
        if w == 'invoke':
            m = re.search(r'to label %("[^"]*"|[-\w.$]+) unwind label %("[^"]*"|[-\w.$]+)', t.s[t.p:])
            I_.x = (m.group(1).strip('"'), m.group(2).strip('"'))

    def _cfg(self):
        self.succ = {}
        for b in self.order:
            i = self.blocks[b][-1]
            if i.op == 'br':
                self.succ[b] = [i.a[1]] if i.a[0] is None else [i.a[1], i.a[2]]
            elif i.op == 'switch':
                self.succ[b] = [i.a[1]] + [c[1] for c in i.a[2]]
            elif i.op == 'invoke':
                self.succ[b] = list(i.x)
            else:
                self.succ[b] = []
        self.pred = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators (simple iterative)
        entry = self.order[0]
        reach = []
        seen = set()
        st = [entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            reach.append(b)
            st.extend(self.succ[b])
        dom = {b: set(seen) for b in seen}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in seen or b == entry:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in seen]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        for b in seen:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in seen)
        # irreducible check: skip (clang -O0 output of structured code is reducible)
        self.dom = dom

    def loc(self, instr):
        d = self.mod.di.get(instr.line or '')
        if d and d[0] == 'Location':
            m = re.search(r'line: (\d+)', d[1])
            return int(m.group(1)) if m else 0
        return 0
