"""C16: extract the injected C runtime from the Lisp source and exercise it.

extract() is used by the proof as well: it copies the two string constants
verbatim (undoing only Lisp's \\" and \\\\ escapes and substituting the two
string constants that the declarations splice in)."""
import os
import random
import re
import struct
import subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')


class ExtractError(Exception):
    pass


def _tokens(src, pos):
    """tokens of the form starting at src[pos] == '(' : '(' ')' ('s',str) ('a',atom)"""
    depth, i = 0, pos
    while i < len(src):
        c = src[i]
        if c == '(':
            depth += 1
            yield '('
            i += 1
        elif c == ')':
            depth -= 1
            yield ')'
            i += 1
            if depth == 0:
                return
        elif c == '"':
            j, out = i + 1, []
            while src[j] != '"':
                if src[j] == '\\':
                    j += 1
                out.append(src[j])
                j += 1
            yield ('s', ''.join(out))
            i = j + 1
        elif c == ';':
            i = src.index('\n', i)
        elif c.isspace() or c in "'`,#@":
            i += 1
        else:
            j = i
            while j < len(src) and not src[j].isspace() and src[j] not in '()";':
                j += 1
            yield ('a', src[i:j])
            i = j


def _constants():
    out = {}
    for d, _, fs in sorted(os.walk(REPO)):
        for f in sorted(fs):
            if not f.endswith('.lisp'):
                continue
            src = open(os.path.join(d, f), encoding='utf-8', errors='replace').read()
            for m in re.finditer(r'^\(def(?:const|constant|parameter|var|ine-constant)\s+(\+[^\s()]+\+)', src, re.M):
                out.setdefault(m.group(1), (src, m.start()))
    return out


def value(name, consts, seen=()):
    if name not in consts or name in seen:
        raise ExtractError('constant %s not found' % name)
    toks = list(_tokens(*consts[name]))[3:]          # ( def name ...
    def ev(i):
        t = toks[i]
        if t == '(':
            i += 1
            head = toks[i]
            if head not in (('a', 'concatenate'), ('a', 'format'), ('a', 'strcat'), ('a', 'concat')):
                raise ExtractError('cannot evaluate %r in %s' % (head, name))
            i += 1
            if head == ('a', 'concatenate'):
                i += 1
            if head == ('a', 'format'):
                raise ExtractError('format in ' + name)
            r = ''
            while toks[i] != ')':
                v, i = ev(i)
                r += v
            return r, i + 1
        if t[0] == 's':
            return t[1], i + 1
        return value(t[1], consts, seen + (name,)), i + 1
    return ev(0)[0]


def extract():
    c = _constants()
    return value('+write-trace-forward-declarations+', c), value('+write-trace-implementation+', c)


PRE = r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
'''
MID = r'''
void *__sel_trace_file; void *__sel_trace_file_lock;
static FILE *cur; static long boundary; static int held, locks, nfail; static const char *why = "";
static void bad(const char *w) { if (!nfail++) why = w; }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (m == &L) { if (held) bad("lock taken twice"); held = 1; locks++; if (ftell(cur) != boundary) bad("bytes written outside the lock (before it was taken)"); } return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (m == &L) { if (!held) bad("unlock without lock"); held = 0; boundary = ftell(cur); } return 0; }
static void begin(const char *f) { cur = fopen(f, "w+"); boundary = 0; held = locks = nfail = 0; }
static void point_started(void) { if (!held) bad("lock not held inside a trace point"); }
static void done(int i, int expect) { if (held) bad("lock still held after the last entry"); if (locks != expect) bad("wrong number of lock operations"); if (ftell(cur) != boundary) bad("bytes written outside the lock (after its release)"); fclose(cur); if (nfail) printf("FAIL case %d: %s\n", i, why); }
'''


def _val(r, n):
    c = r.random()
    if c < .3:
        return r.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 63, (1 << 64) - 1]) % (1 << (8 * n))
    return r.getrandbits(8 * n)


def generate(seed, first, count, wdir):
    """C source with `count` programs and the model of what each must encode"""
    body, models = [], []
    for k in range(first, first + count):
        r = random.Random(seed * 1000003 + k)
        nn = r.randint(1, 5)
        names = [bytes(r.randint(1, 255) for _ in range(r.randint(0, 6))) for _ in range(nn)]
        types = []
        for _ in range(r.randint(0, 6)):
            f = r.randint(0, 4)
            types.append((r.randrange(nn), f, {0: r.choice([1, 2, 4, 8]), 1: r.choice([1, 2, 4, 8]), 2: r.choice([4, 8]), 3: 8, 4: 0}[f]))
        m = ['N %d ' % nn + ' '.join('x' + n.hex() for n in names), 'T %d ' % len(types) + ' '.join('%d %d %d' % t for t in types)]
        b = ['static void case%d(void) {' % k, '  begin("%s/o%d");' % (wdir, k),
             '  const char *names[] = {%s};' % ', '.join('"%s"' % ''.join('\\%03o' % c for c in n) for n in names),
             '  __trace_type_description types[] = {%s};' % ', '.join('{%d, (enum __type_format)%d, %d}' % t for t in types + [(0, 0, 0)]),
             '  __write_trace_header(cur, &L, names, %d, types, %d);' % (nn, len(types))]
        np = r.randint(0, 4)
        m.append('P %d' % np)
        pool = [0x1000, 0x2000, r.getrandbits(47)]
        nb = 0
        for _ in range(np):
            stm = _val(r, 8)
            ents = []
            b.append('  __write_trace_id(cur, &L, 0x%xull); point_started();' % stm)
            for _ in range(r.randint(0, 4)):
                kind = r.choice('BVVL')
                if kind == 'B':
                    a, s = r.choice(pool), r.choice([0, 1, 16, r.getrandbits(16), r.getrandbits(60)])
                    b.append('  __write_buffer_size(cur, (void *)0x%xull, 0x%xull);' % (a, s))
                    ents.append('B %d %d' % (a, s))
                elif kind == 'V':
                    ok = [i for i, t in enumerate(types) if t[1] != 4]
                    vs = [r.choice(ok) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20]))] if ok else []
                    args = []
                    for t in vs:
                        nmi, f, sz = r.randrange(nn), types[t][1], types[t][2]
                        v = _val(r, sz)
                        if f == 3 and r.random() < .6:
                            v = r.choice(pool) + r.randint(0, 20)
                        if f == 2:
                            v = struct.unpack('<I' if sz == 4 else '<Q', struct.pack('<f' if sz == 4 else '<d', r.choice([0.0, -0.0, 1.5, -3.25e10, 1e-30, r.uniform(-1e6, 1e6)])))[0]
                            b.append('  union { uint%d_t u; %s f; } u%d = { .u = 0x%xull };' % (8 * sz, 'float' if sz == 4 else 'double', nb, v))
                            arg = 'u%d.f' % nb
                            nb += 1
                        elif f == 3:
                            arg = '(void *)0x%xull' % v
                        else:
                            arg = '(%sint%d_t)0x%xull' % ('u' if f == 0 else '', 8 * sz, v)
                        args.append(', (uint32_t)%d, (uint32_t)%d, (uint32_t)%d, (int)%d, %s' % (nmi, t, sz, f, arg))
                        ents.append('V %d %d x%s' % (nmi, t, v.to_bytes(sz, 'little').hex()))
                    b.append('  __write_trace_variables(cur, %d%s);' % (len(vs), ''.join(args)))
                else:
                    ok = [i for i, t in enumerate(types) if t[1] == 4]
                    vs = [r.choice(ok) for _ in range(r.choice([0, 1, 2, 5]))] if ok else []
                    args = []
                    for t in vs:
                        blob = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 7, 30])))
                        b.append('  static unsigned char b%d[] = {%s};' % (nb, ','.join(map(str, blob + b'\xee'))))
                        nmi = r.randrange(nn)
                        args.append(', (uint32_t)%d, (uint32_t)%d, (uint32_t)%d, (void *)b%d' % (nmi, t, len(blob), nb))
                        ents.append('V %d %d x%s' % (nmi, t, blob.hex()))
                        nb += 1
                    b.append('  __write_trace_blobs(cur, %d%s);' % (len(vs), ''.join(args)))
                b.append('  point_started();')
            b.append('  __write_end_entry(cur, &L);')
            m.append('%d %d ' % (stm, len(ents)) + ' '.join(ents))
        b.append('  done(%d, %d);\n}' % (k, np + 1))
        body.append('\n'.join(b))
        models.append('\n'.join(m) + '\n')
    main = 'int main(void) {\n' + '\n'.join('  case%d();' % k for k in range(first, first + count)) + '\n  return 0;\n}\n'
    return '\n'.join(body) + '\n' + main, models


def run(seed, first, count, wdir, hbin, env):
    """-> (cases run, failure text or None, index)"""
    fwd, impl = extract()
    src, models = generate(seed, first, count, wdir)
    cfile, exe = os.path.join(wdir, 'g%d.c' % first), os.path.join(wdir, 'g%d' % first)
    with open(cfile, 'w', encoding='utf-8') as f:
        f.write(PRE + fwd + impl + MID + src)
    c = subprocess.run(['gcc', '-w', '-O1', cfile, '-o', exe, '-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock', '-lpthread'], capture_output=True, text=True)
    if c.returncode:
        return 0, 'the injected C text does not compile: ' + c.stderr[:1500], first
    p = subprocess.run([exe], capture_output=True, text=True, timeout=120, errors='replace')
    m = re.search(r'FAIL case (\d+): (.*)', p.stdout)
    if m:
        return count, m.group(2), int(m.group(1))
    if p.returncode:
        return count, 'the injected runtime crashed (%d)' % p.returncode, first
    n = 0
    for i, md in enumerate(models):
        mf = os.path.join(wdir, 'm%d' % (first + i))
        of = os.path.join(wdir, 'o%d' % (first + i))
        with open(mf, 'w') as f:
            f.write(md)
        h = subprocess.run([hbin, 'C16', mf, of], capture_output=True, text=True, errors='replace', env=env)
        n += 1
        if h.returncode:
            return n, (h.stdout + h.stderr)[:3000], first + i
        os.unlink(mf)
        os.unlink(of)
    return n, None, None
