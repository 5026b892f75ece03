"""Loading of the real code, task running, result records."""
import os
import re
import subprocess
import sys
import time
import traceback
import z3
import ir
import theory as T
import lib as L
import algo
from ir import Unsupported
from sx import LAMBDA, Exec, Prover, State, Out, Obj, Ptr, TermV, VecV, fresh, iv, Int, Bool, Agg, AbsV, HP, NULL, mark

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
INC = ['-I%s/cffi-interface/trace-db' % REPO, '-I%s/cffi-interface' % REPO]


class BuildError(Exception):
    pass


def compile_ir(outdir):
    """IR and record layouts of the current working tree"""
    ll, rl = os.path.join(outdir, 'tu.ll'), os.path.join(outdir, 'layouts.txt')
    with open(rl, 'w') as f:
        r = subprocess.run(['clang++', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
                            '-fno-discard-value-names', '-S', '-emit-llvm', '-Xclang', '-fdump-record-layouts', '-w']
                           + INC + [os.path.join(HERE, '..', 'tu', 'driver.cpp'), '-o', ll],
                           stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    return ll, rl


class Ctx:
    def __init__(self, ll, rl):
        self.mod = ir.Module(ll)
        self.mod.dem = {k: L.short(v) for k, v in self.mod.dem.items()}
        want = {c.name for c in T.CLASSES} | {'MemoryMap', 'snode', 'PredicateValue', 'EvaluatePredicate', 'TraceDB',
                                               'c_predicate', 'c_free_variable', 'c_trace_point_struct', 'c_trace_var_info_struct'}
        self.layouts = T.parse_layouts(rl, want)
        self.bind_errors = {}
        for c in T.CLASSES:
            try:
                c.bind(self.mod, self.layouts)
            except Unsupported as e:
                self.bind_errors[c.name] = str(e)
        self.bydem = {}
        for n, d in self.mod.dem.items():
            if n in self.mod.funcs:
                self.bydem.setdefault(d, n)
        self.budget = 300

    def cstruct(self, name, **want):
        """field index of each named member of a C struct (want: member -> IR type repr)"""
        ty = ir.Ty('named', 'struct.' + name)
        fs = self.mod.struct(ty.a)
        if fs is None:
            ty = ir.Ty('named', 'class.' + name)
            fs = self.mod.struct(ty.a)
        rec = self.layouts.get(name)
        if fs is None or rec is None:
            raise Unsupported('struct %s not found' % name)
        off2i = {}
        for i, o in enumerate(self.mod.layout(ty)[2]):
            off2i.setdefault(o, i)
        by = {n: off2i.get(o) for n, o in rec}
        out = {}
        for m in want:
            if by.get(m) is None:
                raise Unsupported('member %s.%s not found' % (name, m))
            if want[m] and repr(fs[by[m]]) != want[m]:
                raise Unsupported('type of %s.%s changed' % (name, m))
            out[m] = by[m]
        return ty, out

    def is_repo(self, f):
        return (f.file or '').startswith(REPO + '/')

    def find(self, *rxs):
        """the function with this role in the current tree"""
        for rx in rxs:
            r = re.compile(rx)
            hits = [n for d, n in self.bydem.items() if r.match(d) and not LAMBDA.search(d)]
            if len(hits) == 1:
                return self.mod.funcs[hits[0]]
            if len(hits) > 1:
                raise Unsupported('ambiguous function ' + rx)
        raise Unsupported('function not found: ' + rxs[0])

    def exec(self, axioms=(), timeout=20000):
        ax = list(T.BASE_AXIOMS) + L.lib_axioms() + L.eqvec_axioms() + list(axioms)
        lib = L.Lib(self.mod)
        lib.handlers += algo.HANDLERS
        ex = Exec(self.mod, Prover(ax, timeout), lib, self.is_repo)
        ex.ctx = self
        ex.deadline = time.time() + self.budget
        if self.bind_errors:
            raise Unsupported('; '.join('%s: %s' % x for x in self.bind_errors.items()))
        return ex


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok / failed / unsupported
        self.reason = ''
        self.obligs = []
        self.functions = []
        self.inlined = []
        self.lib = {}
        self.loops = []
        self.solver = 0.0
        self.queries = 0
        self.wall = 0.0
        self.assumptions = []
        self.paths = 0

    def absorb(self, ex):
        self.obligs += [(o.name, o.fn, o.line, o.ok, round(o.t, 3), o.detail, o.backend) for o in ex.obligs]
        self.inlined = sorted(set(self.inlined) | ex.inlined)
        for k, v in ex.used_lib.items():
            self.lib[k] = self.lib.get(k, 0) + v
        self.loops += ex.loops_done
        self.solver += ex.pv.time
        self.queries += ex.pv.n


def run_task(ctx, name, fn, debug=False):
    r = Result(name)
    t0 = time.time()
    try:
        fn(ctx, r)
        if any(not o[3] for o in r.obligs):
            r.status = 'failed'
            odd = [l for l in r.loops if not any('= start+1*k' in n for n in l[4])]
            if odd and not getattr(fn, 'loose', False):
                r.status = 'unsupported'
                r.reason = 'a loop without an ascending counter at %s line %s is outside the invariant templates' % odd[0][:2]
        elif not r.obligs:
            r.status, r.reason = 'unsupported', 'no obligations generated'
    except Unsupported as e:
        r.status, r.reason = 'unsupported', str(e)
        if debug:
            traceback.print_exc()
    except RecursionError:
        r.status, r.reason = 'unsupported', 'recursion limit'
    except Exception as e:
        r.status, r.reason = 'unsupported', 'engine: %r %s' % (e, traceback.format_exc(limit=-3))
        if debug:
            traceback.print_exc()
    r.wall = time.time() - t0
    return r


def sym(cls, name):
    """a symbolic object of a repository class"""
    return z3.Const(name, cls.sort)


def newstate():
    return State()


def put(st, cls, t, name):
    o = Obj(name, cls.irty)
    st.mem[o] = TermV(cls, t)
    st.assume(*cls.facts(t))
    return Ptr(o)


def rets(outs):
    return [o for o in outs if o.kind == 'ret']


def copy_spec(kind):
    """loops that append the elements of one sequence to another"""
    q = kind.seq

    def ls(ex, L_, st0, leaves):
        srcs = []
        for o, v in st0.mem.items():
            if o not in L_.mod and isinstance(v, VecV) and v.kind is kind and not any(v.t.eq(t) for t in srcs):
                srcs.append(v.t)
        for o, path, v in leaves:
            if isinstance(v, VecV) and v.kind is kind:
                e0 = ex.get(st0, o, path).t
                for n, t in enumerate(srcs):
                    def f(L_, s, k, o=o, path=path, t=t, e0=e0):
                        # instances of the definition of take
                        s.assume(q._take(t, 0) == q.empty, z3.Implies(k == q.len(t), q._take(t, k) == t),
                                 z3.Implies(z3.And(k >= 0, k < q.len(t)), q._take(t, k + 1) == q.push(q._take(t, k), q.at(t, k))))
                        return ex.get(s, o, path).t == q.cat(e0, q._take(t, k))
                    yield ('appends sequence %d so far' % n, f)
                    yield ('length of sequence %d bounds the steps' % n, lambda L_, s, k, t=t: k <= q.len(t))
    return ls
