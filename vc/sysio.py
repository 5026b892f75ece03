"""Contracts of the system calls, streams and locks used by the file entry points, and the proofs of openWithTimeout,
read_trace and add_trace (properties C13 and C14)."""
import re
import z3
import ir
import theory as T
import lib as L
from base import *
from ir import Unsupported
from sx import UNDEF, Exc, IntPtr, ArrV, SHL, GlobP, Null, VT, is_c

OPEN = z3.ArraySort(Int, Bool)
FLAGS = z3.ArraySort(Int, Int)
O_NONBLOCK = 2048
OK_FLAGS = 2048 | 0x80000 | 0x100 | 0x8000 | 0x40000      # nonblock, cloexec, noctty, largefile, noatime
TSORT = z3.DeclareSort('TraceValue')
TSEQ = z3.DeclareSort('TraceList')
tpush = z3.Function('list_push', TSEQ, TSORT, TSEQ)
decoded = z3.Function('decoded', Int, Int, TSORT)          # the trace denoted by a file, with a limit on the points
EXC = ['TraceError', 'TraceEOFError', 'std::bad_alloc', 'std::length_error', 'std::runtime_error']
L.BASES.setdefault('std::runtime_error', ['std::exception'])
L.BASES.setdefault('std::logic_error', ['std::exception'])
L.BASES.setdefault('std::ios_base::failure[abi:cxx11]', ['std::system_error', 'std::runtime_error', 'std::exception'])
L.BASES.setdefault('std::bad_array_new_length', ['std::bad_alloc', 'std::exception'])
F = z3.BoolVal(False)
Tr = z3.BoolVal(True)


def i32(e):
    """signed view of an i32 term"""
    return z3.If(e >= 2 ** 31, e - 2 ** 32, e)


def sys_start(ctx):
    ex = ctx.exec()
    ex.lib.handlers[:0] = SYS
    ex.virtual = virtual
    old = ex.lib.load_abs
    ex.lib.load_abs = lambda e, st, v, p: VT(p) if v.tag in ('sbuf', 'in') else old(e, st, v, p)
    st = newstate()
    st.gh.update({'open': z3.Const('open0', OPEN), 'flags': z3.Const('flags0', FLAGS), 'ready': z3.K(Int, F), 'nomem': F,
                  'opened': iv(-1), 'openfail': F, 'waited': iv(0), 'selected': iv(1), 'live': {}, 'T': None})
    return ex, st


def setgh(st, **kw):
    st.gh.update(kw)


# ------------------------------------------------------------------ files
def h_open(ex, st, args, dem):
    fl = z3.simplify(args[1])
    if not is_c(fl):
        raise Unsupported('flags of open')
    fl = fl.as_long()
    ex.prove(st, 'the named file is opened', z3.BoolVal(args[0] is st.gh['filename'] or same_name(args[0], st.gh['filename'])))
    ex.prove(st, 'opening cannot block and changes nothing (read-only, non-blocking)', z3.BoolVal(bool(fl & O_NONBLOCK) and fl & ~OK_FLAGS == 0))
    s1 = st.copy()
    setgh(s1, openfail=Tr)
    outs = [Out(s1, 'ret', iv(2 ** 32 - 1))]
    fd = fresh('fd')
    st.assume(fd >= 0, fd < 2 ** 31, z3.Not(z3.Select(st.gh['open'], fd)))
    x = fresh('fl')
    st.assume(x >= 0, x < 2 ** 31, (x / O_NONBLOCK) % 2 == (1 if fl & O_NONBLOCK else 0))
    setgh(st, open=z3.Store(st.gh['open'], fd, Tr), flags=z3.Store(st.gh['flags'], fd, x), opened=fd)
    outs.append(Out(st, 'ret', fd))
    return outs


def same_name(a, b):
    return isinstance(a, IntPtr) and isinstance(b, IntPtr) and z3.simplify(a.val + a.off).eq(z3.simplify(b.val + b.off))


def h_close(ex, st, args, dem):
    fd = i32(args[0])
    ex.prove(st, 'only an open descriptor is closed', z3.And(fd >= 0, z3.Select(st.gh['open'], fd)))
    setgh(st, open=z3.Store(st.gh['open'], fd, F))
    r = fresh('rc')
    st.assume(z3.Or(r == 0, r == 2 ** 32 - 1))
    return L.one(st, r)


def h_fcntl(ex, st, args, dem):
    fd, cmd = i32(args[0]), z3.simplify(args[1])
    if not is_c(cmd) or cmd.as_long() not in (3, 4):
        raise Unsupported('fcntl command')
    ex.prove(st, 'fcntl works on the open descriptor', z3.And(fd >= 0, z3.Select(st.gh['open'], fd)))
    if cmd.as_long() == 3:
        return L.one(st, z3.Select(st.gh['flags'], fd))
    setgh(st, flags=z3.Store(st.gh['flags'], fd, args[2]))
    return L.one(st, iv(0))


def setof(ex, st, p):
    v = ex.read(st, p)
    while isinstance(v, Agg) and v.f:
        v = v.f[0]
    if not isinstance(v, ArrV):
        raise Unsupported('descriptor set %r' % (v,))
    return v.t


def h_select(ex, st, args, dem):
    n, r, w, e, t = args
    fd = st.gh['opened']
    ex.prove(st, 'the wait is for a descriptor that was opened and fits the set', z3.And(fd >= 0, z3.Select(st.gh['open'], fd), fd < 1024))
    ex.prove(st, 'the wait covers the descriptor', n == fd + 1)
    ex.prove(st, 'the wait is for reading only', z3.BoolVal(isinstance(w, Null) and isinstance(e, Null) and isinstance(r, Ptr)))
    if not isinstance(r, Ptr):
        return []
    a = setof(ex, st, r)
    i = fresh('word')
    ex.prove(st, 'the set is exactly the opened descriptor', z3.Implies(z3.And(i >= 0, i < 16), z3.Select(a, i) == z3.If(
        i == fd / 64, SHL(iv(1), fd % 64, iv(64)), iv(0))))
    ex.prove(st, 'there is one wait', st.gh['waited'] == 0)
    tmo = st.gh['T']
    if isinstance(t, Null):
        ex.prove(st, 'only a zero timeout waits without limit', tmo == 0)
    else:
        sec, usec = ex.read(st, Ptr(t.obj, t.path + (0,))), ex.read(st, Ptr(t.obj, t.path + (1,)))
        ex.prove(st, 'the wait lasts the requested number of seconds', z3.And(tmo != 0, sec == tmo, usec == 0) if z3.is_expr(sec) and z3.is_expr(usec) else F)
    outs = []
    for rv, rdy in ((1, Tr), (0, F), (2 ** 32 - 1, F)):
        s = st.copy()
        setgh(s, waited=iv(1), selected=iv(rv), ready=z3.Store(s.gh['ready'], fd, rdy))
        if rv != 1:
            put_set(ex, s, r, z3.K(Int, iv(0)) if rv == 0 else fresh('set', z3.ArraySort(Int, Int)))
        outs.append(Out(s, 'ret', iv(rv)))
    return outs


def put_set(ex, st, p, arr):
    v = ex.read(st, p)
    path = p.path
    while isinstance(v, Agg):
        v, path = v.f[0], path + (0,)
    ex.write(st, Ptr(p.obj, path), ArrV(v.n, v.ety, arr))


# ------------------------------------------------------------------ streams
def live(st, o):
    return st.gh['live'].get(o, False)


def setlive(st, o, v):
    d = dict(st.gh['live'])
    d[o] = v
    st.gh['live'] = d


def throw(st, typ):
    return Out(st, 'throw', Exc(typ))


def nomem(st):
    s = st.copy()
    setgh(s, nomem=Tr)
    return throw(s, 'std::bad_alloc')


def h_new(ex, st, args, dem):
    outs = [nomem(st)]
    p = ex.new_obj(st, 'new', None, UNDEF)
    setlive(st, p.obj, True)
    outs.append(Out(st, 'ret', p))
    return outs


def h_delete(ex, st, args, dem):
    p = args[0]
    if isinstance(p, Null):
        return L.one(st)
    if not isinstance(p, Ptr) or p.path:
        raise Unsupported('delete of %r' % (p,))
    ex.prove(st, 'memory is released once, by its owner', z3.BoolVal(bool(live(st, p.obj))))
    setlive(st, p.obj, False)
    return L.one(st)


def h_fds_ctor(ex, st, args, dem):
    fd, fl = i32(args[1]), z3.simplify(args[2])
    if not is_c(fl):
        raise Unsupported('flags of the descriptor source')
    ex.prove(st, 'the source is built on the open descriptor', z3.And(fd >= 0, z3.Select(st.gh['open'], fd)))
    ex.write(st, args[0], AbsV('fds', fd=fd, own=z3.BoolVal(bool(fl.as_long() & 1))))
    setlive(st, args[0].obj, 'fds')
    return L.one(st)


def h_fds_dtor(ex, st, args, dem):
    v = ex.read(st, args[0])
    if not isinstance(v, AbsV) or v.tag != 'fds':
        raise Unsupported('descriptor source')
    setlive(st, args[0].obj, False)
    drop(ex, st, v)
    return L.one(st)


def drop(ex, st, v):
    """a handle of the descriptor goes away: the last owner closes it"""
    others = any(k is not None and l for k, l in st.gh['live'].items() if isinstance(st.mem.get(k), AbsV) and st.mem[k].tag in ('fds', 'sbuf'))
    if others:
        return
    setgh(st, open=z3.If(v.own, z3.Store(st.gh['open'], v.fd, F), st.gh['open']))


def h_sbuf_ctor(ex, st, args, dem):
    v = ex.read(st, args[1])
    if not isinstance(v, AbsV) or v.tag != 'fds':
        raise Unsupported('stream buffer on %r' % (v,))
    bad = nomem(st)
    ex.write(st, args[0], AbsV('sbuf', fd=v.fd, own=v.own))
    setlive(st, args[0].obj, 'sbuf')
    return [bad, Out(st, 'ret', None)]


def h_istream_ctor(ex, st, args, dem):
    b = args[1]
    if not isinstance(b, Ptr):
        raise Unsupported('stream on %r' % (b,))
    ex.prove(st, 'the stream reads from a live buffer', z3.BoolVal(live(st, b.obj) == 'sbuf'))
    ex.write(st, args[0], AbsV('in', buf=b))
    setlive(st, args[0].obj, 'in')
    return L.one(st)


def destroy(ex, st, o):
    v = st.mem.get(o)
    if not isinstance(v, AbsV) or v.tag not in ('sbuf', 'in'):
        raise Unsupported('delete of %r' % (v,))
    ok = live(st, o) in ('sbuf', 'in')
    ex.prove(st, 'a stream is deleted once', z3.BoolVal(ok))
    setlive(st, o, False)
    if v.tag == 'sbuf' and ok:
        drop(ex, st, v)


def virtual(ex, st, slot, args):
    """streams have their destructors first in the virtual table: 0 destroys, 1 destroys and frees"""
    p = args[0]
    if slot.n != 1 or not isinstance(p, Ptr) or p.path:
        raise Unsupported('virtual call')
    destroy(ex, st, p.obj)
    return L.one(st)


def h_istream_dtor(ex, st, args, dem):
    destroy(ex, st, args[0].obj)
    return L.one(st)


def h_str(ex, st, args, dem):
    ex.write(st, args[0], AbsV('str', t=fresh('message', T.StrSort)))
    return L.one(st)


RSB = r'boost::iostreams::stream_buffer<boost::iostreams::file_descriptor_source\b.*>'
RUP = r'^std::unique_ptr<(?:%s|istream|Trace), std::default_delete<.*> ?>::' % RSB


def up_ctor(ex, st, args, dem):
    p = args[1] if len(args) > 1 else NULL
    ex.write(st, args[0], AbsV('up', p=p))
    return L.one(st)


def up_val(ex, st, p):
    v = ex.read(st, p)
    if not isinstance(v, AbsV) or v.tag != 'up':
        raise Unsupported('unique_ptr')
    return v.d['p']


def up_del(ex, st, p):
    if isinstance(p, Null):
        return
    v = st.mem.get(p.obj)
    if isinstance(v, AbsV) and v.tag in ('sbuf', 'in'):
        destroy(ex, st, p.obj)
    else:
        ex.prove(st, 'memory is released once, by its owner', z3.BoolVal(bool(live(st, p.obj))))
        setlive(st, p.obj, False)


def up_h(ex, st, args, dem):
    m = re.search(r'>::(~unique_ptr|unique_ptr|get|operator\*|operator->|release|reset|operator bool)(?=\(|<)', re.sub(r'^std::unique_ptr<.*> ?>::', 'X>::', dem))
    if not m:
        return NotImplemented
    k = m.group(1)
    if k == 'unique_ptr':
        if '&&' in dem:
            v = up_val(ex, st, args[1])
            ex.write(st, args[1], AbsV('up', p=NULL))
            ex.write(st, args[0], AbsV('up', p=v))
            return L.one(st)
        return up_ctor(ex, st, args, dem)
    p = up_val(ex, st, args[0])
    if k == '~unique_ptr':
        up_del(ex, st, p)
        return L.one(st)
    if k == 'release':
        ex.write(st, args[0], AbsV('up', p=NULL))
        return L.one(st, p)
    if k == 'reset':
        ex.write(st, args[0], AbsV('up', p=args[1] if len(args) > 1 else NULL))
        up_del(ex, st, p)
        return L.one(st)
    if k == 'operator bool':
        return L.one(st, z3.BoolVal(not isinstance(p, Null)))
    return L.one(st, p)


# ------------------------------------------------------------------ locks and the list
RLG = r'^std::(?:lock_guard|unique_lock)<std::mutex>::'


def themutex(st, mu):
    return isinstance(mu, GlobP) or isinstance(mu, Ptr) and mu.obj is st.gh['db'].obj and mu.path == st.gh['mutex']


def h_lock(ex, st, args, dem):
    mu = args[-1] if '_lock' in dem or 'guard' in dem else args[0]
    ex.prove(st, 'the lock of this database (or of all) is taken', z3.BoolVal(themutex(st, mu)))
    ex.prove(st, 'the lock is not already held', z3.Not(st.gh['locked']))
    setgh(st, locked=Tr)
    return mu


def lg_ctor(ex, st, args, dem):
    if len(args) > 2:
        raise Unsupported('lock with options')
    h_lock(ex, st, args, dem)
    ex.write(st, args[0], AbsV('guard', own=Tr))
    return L.one(st)


def lg_dtor(ex, st, args, dem):
    v = ex.read(st, args[0])
    if not isinstance(v, AbsV) or v.tag != 'guard':
        raise Unsupported('lock guard')
    setgh(st, locked=z3.simplify(z3.And(st.gh['locked'], z3.Not(v.own))))
    return L.one(st)


def ul_op(ex, st, args, dem):
    v = ex.read(st, args[0])
    if not isinstance(v, AbsV) or v.tag != 'guard':
        raise Unsupported('lock guard')
    up = 'unlock' in dem
    ex.prove(st, 'a lock is released by its holder and taken once', v.own if up else z3.Not(v.own))
    setgh(st, locked=F if up else Tr)
    ex.write(st, args[0], AbsV('guard', own=F if up else Tr))
    return L.one(st)


def mu_op(ex, st, args, dem):
    if 'try' in dem:
        raise Unsupported('try_lock')
    if 'unlock' in dem:
        ok = themutex(st, args[0])
        ex.prove(st, 'the lock is released by its holder', z3.And(z3.BoolVal(ok), st.gh['locked']))
        setgh(st, locked=F)
    else:
        h_lock(ex, st, args, dem)
    return L.one(st)


def traces(ex, st, p):
    v = ex.read(st, p)
    if not isinstance(v, AbsV) or v.tag != 'traces':
        raise Unsupported('list of traces')
    return v


def tl_push(ex, st, args, dem):
    v = traces(ex, st, args[0])
    x = ex.read(st, args[1])
    if not isinstance(x, AbsV) or x.tag != 'trace':
        raise Unsupported('element of the list')
    ex.prove(st, 'the list is changed only while its lock is held', st.gh['locked'])
    bad = nomem(st)
    ex.write(st, args[0], AbsV('traces', t=tpush(v.t, x.t)))
    if '&&' in dem:
        ex.write(st, args[1], AbsV('trace', t=fresh('moved', TSORT)))
    return [bad, Out(st, 'ret', None)]


def tl_other(ex, st, args, dem):
    ex.prove(st, 'the list is used only while its lock is held', st.gh['locked'])
    raise Unsupported('operation on the list of traces: ' + dem)


def tr_copy(ex, st, args, dem):
    x = ex.read(st, args[1])
    if not isinstance(x, AbsV) or x.tag != 'trace':
        raise Unsupported('copy of a trace')
    bad = nomem(st)
    ex.write(st, args[0], x)
    if live(st, args[0].obj):
        setlive(st, args[0].obj, 'trace')
    return [bad, Out(st, 'ret', None)]


SYS = [(re.compile(r'^open(64)?$'), h_open), (re.compile(r'^close$'), h_close), (re.compile(r'^fcntl(64)?$'), h_fcntl),
       (re.compile(r'^select$'), h_select), (re.compile(r'^operator new\(unsigned long\)$'), h_new),
       (re.compile(r'^operator delete\(void\*(, unsigned long)?\)$'), h_delete),
       (re.compile(r'^boost::iostreams::file_descriptor_source::file_descriptor_source\(int, boost::iostreams::file_descriptor_flags\)$'), h_fds_ctor),
       (re.compile(r'^boost::iostreams::file_descriptor_source::~file_descriptor_source\(\)$'), h_fds_dtor),
       (re.compile('^' + RSB + r'::stream_buffer\(boost::iostreams::file_descriptor_source( const)?&, long, long\)$'), h_sbuf_ctor),
       (re.compile(r'^istream::basic_istream\(std::basic_streambuf<.*>\*\)$'), h_istream_ctor),
       (re.compile(r'^istream::~basic_istream\(\)$'), h_istream_dtor),
       (re.compile(RUP), up_h),
       (re.compile(r'^string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$'), h_str),
       (re.compile(r'^string std::operator\+'), h_str),
       (re.compile(r'^string::~basic_string\(\)$'), lambda ex, st, a, d: L.one(st)),
       (re.compile(RLG + '(lock_guard|unique_lock)'), lg_ctor), (re.compile(RLG + '~'), lg_dtor), (re.compile(RLG + '(un)?lock'), ul_op),
       (re.compile(r'^std::mutex::'), mu_op),
       (re.compile(r'^(void|.*) ?vec<Trace>::emplace_back<Trace'), tl_push),
       (re.compile(r'^vec<Trace>::push_back\('), tl_push), (re.compile(r'^vec<Trace>::(?!~|vector)'), tl_other)]

RX_OPEN = r'^openWithTimeout\(char const\*, unsigned long\)$'


def fname(st):
    p = IntPtr(z3.Int('filename'))
    st.assume(p.val > 0, p.val < 2 ** 63)
    st.gh['filename'] = p
    return p


def task_open(ctx, r):
    ex, st = sys_start(ctx)
    f = ctx.find(RX_OPEN)
    r.functions.append(ctx.mod.dem[f.name])
    t = z3.Int('timeout')
    st.assume(t >= 0, t < 2 ** 63)
    st.gh['T'] = t
    p = fname(st)
    open0 = st.gh['open']

    def ls(ex, L_, st0, leaves):
        for o, path, v in leaves:
            if isinstance(v, ArrV):
                def zero(L_, s, k, o=o, path=path):
                    a = ex.get(s, o, path)
                    a = a.t if isinstance(a, ArrV) else a
                    j = z3.Int('j')
                    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(a, j) == 0), patterns=[z3.Select(a, j)])
                yield ('cleared so far', zero)
            elif z3.is_expr(v) and z3.is_int(v):
                yield ('at most 16', lambda L_, s, k, o=o, path=path: ex.get(s, o, path) <= 16)
    ex.loopspecs.append(ls)
    outs = ex.run(f, [p, t], st)
    ex.curfn.append(f)
    x = z3.Int('d')
    g = lambda o, k: o.st.gh[k]
    for o in outs:
        r.paths += 1
        s = o.st
        if o.kind == 'ret':
            v = s.mem.get(o.val.obj) if isinstance(o.val, Ptr) and not o.val.path else None
            ok = isinstance(v, AbsV) and v.tag == 'sbuf' and live(s, o.val.obj) == 'sbuf'
            ex.prove(s, 'a normal return gives a stream', z3.BoolVal(ok))
            if not ok:
                continue
            fd = v.fd
            ex.prove(s, 'the stream is on the opened file', z3.And(fd == g(o, 'opened'), fd >= 0))
            ex.prove(s, 'the stream owns its descriptor', v.own)
            ex.prove(s, 'the descriptor is open and no other was opened or closed',
                     z3.ForAll([x], z3.Select(g(o, 'open'), x) == z3.Or(x == fd, z3.Select(open0, x))))
            ex.prove(s, 'data is ready', z3.Select(g(o, 'ready'), fd))
            ex.prove(s, 'blocking mode is restored', (z3.Select(g(o, 'flags'), fd) / O_NONBLOCK) % 2 == 0)
        elif o.kind == 'throw':
            ex.prove(s, 'failure is reported as a trace error', z3.BoolVal(o.val.typ in ('TraceError', 'TraceEOFError', 'std::bad_alloc')))
            ex.prove(s, 'what was opened is closed', z3.ForAll([x], z3.Select(g(o, 'open'), x) == z3.Select(open0, x)))
            ex.prove(s, 'it fails only if the file cannot be opened or no data arrives',
                     z3.Or(g(o, 'nomem'), g(o, 'openfail'), g(o, 'opened') >= 1024, g(o, 'selected') != 1))
        else:
            ex.prove(s, 'opening never ends the program', F)
    if not any(o.kind == 'ret' for o in outs):
        raise Unsupported('no normal return')
    for o in outs:
        if o.kind == 'ret':
            ex.vacuity(o.st, 'opened')
            break
    r.absorb(ex)


# ------------------------------------------------------------------ the entry points
def c_open(ex, st, args, dem):
    """contract of openWithTimeout (proved above)"""
    ex.prove(st, 'the given file is opened', z3.BoolVal(args[0] is st.gh['filename'] or same_name(args[0], st.gh['filename'])))
    ex.prove(st, 'the requested timeout is used', args[1] == st.gh['T'])
    ex.prove(st, 'the file is opened once', z3.And(st.gh['opened'] == -1, z3.Not(st.gh['openfail'])))
    outs = []
    for typ in ('TraceError', 'std::bad_alloc'):
        s = st.copy()
        setgh(s, openfail=Tr)
        outs.append(throw(s, typ))
    fd = fresh('fd')
    st.assume(fd >= 0, fd < 1024, z3.Not(z3.Select(st.gh['open'], fd)))
    setgh(st, open=z3.Store(st.gh['open'], fd, Tr), opened=fd)
    p = ex.new_obj(st, 'buffer', None, AbsV('sbuf', fd=fd, own=Tr))
    setlive(st, p.obj, 'sbuf')
    outs.append(Out(st, 'ret', p))
    return outs


def c_trace(ex, st, args, dem):
    """contract of Trace(istream, limit) (C01, C03)"""
    s_in = st.mem.get(args[1].obj) if isinstance(args[1], Ptr) and not args[1].path else None
    ok = isinstance(s_in, AbsV) and s_in.tag == 'in' and live(st, args[1].obj) == 'in' and live(st, s_in.buf.obj) == 'sbuf'
    ex.prove(st, 'the trace is read from a live stream', z3.BoolVal(bool(ok)))
    if not ok:
        return []
    ex.prove(st, 'the whole file is read as one trace', z3.Not(st.gh['read']))
    if len(args) > 2:
        ex.prove(st, 'the requested limit on the points is used', args[2] == st.gh['max'])
    else:
        ex.prove(st, 'the requested limit on the points is used', st.gh['max'] == 0)
    setgh(st, read=Tr)
    outs = []
    for typ in EXC:
        s = st.copy()
        setgh(s, malformed=Tr)
        outs.append(throw(s, typ))
    if not isinstance(args[0], Ptr) or args[0].path:
        raise Unsupported('trace object')
    ex.write(st, args[0], AbsV('trace', t=decoded(st.gh['opened'], st.gh['max'])))
    if live(st, args[0].obj):
        setlive(st, args[0].obj, 'trace')
    outs.append(Out(st, 'ret', None))
    return outs


def trace_dtor(ex, st, args, dem):
    v = ex.read(st, args[0])
    ex.prove(st, 'only constructed traces are destroyed', z3.BoolVal(isinstance(v, AbsV) and v.tag == 'trace'))
    return L.one(st)


CON = [(re.compile(RX_OPEN), c_open), (re.compile(r'^Trace::Trace\(istream&(, unsigned long)?\)$'), c_trace),
       (re.compile(r'^Trace::~Trace\(\)$'), trace_dtor), (re.compile(r'^Trace::Trace\(Trace( const&|&&)\)$'), tr_copy)]


def entry(ctx, r, rx, nargs):
    ex, st = sys_start(ctx)
    ex.contracts += CON
    f = ctx.find(rx)
    r.functions.append(ctx.mod.dem[f.name])
    t, mx = z3.Int('timeout'), z3.Int('max')
    st.assume(t >= 0, t < 2 ** 32, mx >= 0, mx < 2 ** 64)
    setgh(st, T=t, max=mx, read=F, malformed=F, locked=F, db=Ptr(Obj('none')), mutex=None)
    return ex, st, f, t, mx, fname(st)


def leftovers(ex, o, keep=None):
    bad = [k for k, l in o.st.gh['live'].items() if l and k is not keep]
    ex.prove(o.st, 'every stream that was created is deleted', z3.BoolVal(not bad))
    x = z3.Int('d')
    ex.prove(o.st, 'the file is closed', z3.ForAll([x], z3.Select(o.st.gh['open'], x) == z3.Select(z3.Const('open0', OPEN), x)))


def failed(g):
    return z3.Or(g['nomem'], g['openfail'], g['malformed'])


def task_read(ctx, r):
    ex, st, f, t, mx, p = entry(ctx, r, r'^read_trace$', 3)
    outs = ex.run(f, [p, t, mx], st)
    ex.curfn.append(f)
    good = bad = 0
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'no exception leaves the interface', F)
            continue
        g = o.st.gh
        if isinstance(o.val, Null):
            bad += 1
            ex.prove(o.st, 'null is returned only on a failure', failed(g))
            leftovers(ex, o)
        else:
            good += 1
            v = o.st.mem.get(o.val.obj) if isinstance(o.val, Ptr) and not o.val.path else None
            ok = isinstance(v, AbsV) and v.tag == 'trace' and live(o.st, o.val.obj) == 'trace'
            ex.prove(o.st, 'the result is a live trace', z3.BoolVal(ok))
            if ok:
                ex.prove(o.st, 'the result is the decoded file', z3.And(z3.Not(failed(g)), v.t == decoded(g['opened'], mx)))
                leftovers(ex, o, o.val.obj)
    if (not good or not bad) and all(x.ok for x in ex.obligs):
        raise Unsupported('outcomes of read_trace')
    r.absorb(ex)


def mkdb(ctx, ex, st):
    ty, m = ctx.cstruct('TraceDB', m_traces=None, m_mutex=None)
    fs = [UNDEF] * len(ctx.mod.struct(ty.a))
    t0 = z3.Const('traces', TSEQ)
    fs[m['m_traces']] = AbsV('traces', t=t0)
    fs[m['m_mutex']] = AbsV('mutex')
    p = ex.new_obj(st, 'db', ty, Agg(ty, fs))
    setgh(st, db=p, mutex=(m['m_mutex'],))
    return p, t0, m['m_traces']


def listnow(ex, o, p, i):
    v = ex.read(o.st, Ptr(p.obj, (i,)))
    return v.t if isinstance(v, AbsV) and v.tag == 'traces' else None


def task_addtrace(ctx, r):
    """TraceDB::addTrace"""
    ex, st, f, t, mx, p = entry(ctx, r, r'^TraceDB::addTrace\(Trace const&\)$', 2)
    db, t0, i = mkdb(ctx, ex, st)
    x = z3.Const('x', TSORT)
    outs = ex.run(f, [db, ex.new_obj(st, 'trace', None, AbsV('trace', t=x))], st)
    ex.curfn.append(f)
    for o in outs:
        r.paths += 1
        now = listnow(ex, o, db, i)
        if now is None:
            raise Unsupported('list of traces')
        if o.kind == 'ret':
            ex.prove(o.st, 'the trace is appended after the existing ones', now == tpush(t0, x))
        elif o.kind == 'throw':
            ex.prove(o.st, 'a failed addition changes nothing', z3.And(now == t0, o.st.gh['nomem']))
        else:
            ex.prove(o.st, 'adding never ends the program', F)
        ex.prove(o.st, 'the lock is released', z3.Not(o.st.gh['locked']))
    ex.vacuity(outs[0].st, 'addTrace')
    r.absorb(ex)


def task_add(ctx, r):
    ex, st, f, t, mx, p = entry(ctx, r, r'^add_trace$', 4)
    db, t0, i = mkdb(ctx, ex, st)
    outs = ex.run(f, [db, p, t, mx], st)
    ex.curfn.append(f)
    seen = set()
    for o in outs:
        r.paths += 1
        if o.kind != 'ret':
            ex.prove(o.st, 'no exception leaves the interface', F)
            continue
        g = o.st.gh
        now = listnow(ex, o, db, i)
        if now is None:
            raise Unsupported('list of traces')
        v = o.val
        if z3.is_bool(v):
            v = z3.If(v, iv(1), iv(0))
        v = z3.simplify(v)
        seen.add(str(v))
        ex.prove(o.st, 'the result is 0 or 1', z3.Or(v == 0, v == 1))
        ex.prove(o.st, 'after 1 the decoded trace follows the existing ones', z3.Implies(v == 1, z3.And(z3.Not(failed(g)), now == tpush(t0, decoded(g['opened'], mx)))))
        ex.prove(o.st, 'after 0 the database is as it was', z3.Implies(v == 0, now == t0))
        ex.prove(o.st, '0 is reported only on a failure', z3.Implies(v == 0, failed(g)))
        ex.prove(o.st, 'the lock is released', z3.Not(g['locked']))
        leftovers(ex, o)
    if len(seen) < 2 and all(x.ok for x in ex.obligs):
        raise Unsupported('outcomes of add_trace')
    r.absorb(ex)


# ------------------------------------------------------------------ shared state of decoding
RX_AT = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)')
# library calls that keep hidden static state without synchronisation
UNSAFE = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'setlocale', 'getenv', 'setenv', 'putenv', 'tmpnam', 'srand48', 'drand48', 'lrand48', 'mrand48',
          'basename', 'dirname', 'readdir', 'getpwnam', 'inet_ntoa', 'ecvt', 'fcvt', 'lgamma', 'rand_r', 'hsearch'} - {'rand_r'}


def reach(ctx, roots):
    m, seen, work = ctx.mod, set(), list(roots)
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        f = m.funcs.get(n)
        if f is None:
            continue
        for g in RX_AT.findall('\n'.join(f.body)):
            g = g.strip('"')
            if g in m.funcs or g in m.decls:
                work.append(g)
    return seen


CTOR = {'vec': 'vector', 'string': 'basic_string'}


def short(c):
    return re.sub(r'<.*', '', c).split('::')[-1]


def uses(ctx, f, g):
    """how function f uses the mutable global g: list of (ok, text); Unsupported when it cannot be told"""
    m = ctx.mod
    guarded = ('_ZGV' + g[2:]) in m.globals
    out = []
    for l in f.body:
        if ('@' + g) not in l and ('@"' + g) not in l:
            continue
        if g not in [x.strip('"') for x in RX_AT.findall(l)]:
            continue
        l = re.sub(r', ![a-z]+ !\d+', '', l).strip()
        if '__cxa_guard_' in l or '__cxa_atexit' in l or '__cxa_thread_atexit' in l or 'atomicrmw' in l or 'cmpxchg' in l or ' load atomic ' in l:
            continue
        if re.search(r'= load .*, ptr @', l):
            out.append((True, 'read'))
            continue
        if re.match(r'store .*, ptr @"?' + re.escape(g), l):
            if guarded:
                raise Unsupported('store to the guarded static ' + g)
            out.append((False, 'is written'))
            continue
        c = re.search(r'(?:call|invoke) .*?@("[^"]*"|[-a-zA-Z$._0-9]+)\((.*)\)', l)
        if c:
            name = c.group(1).strip('"')
            dem = m.dem.get(name, name)
            args = [a.strip() for a in split_args(c.group(2))]
            pos = [i for i, a in enumerate(args) if a.endswith('@' + g) or a.endswith('@"%s"' % g)]
            if not pos:
                raise Unsupported('use of ' + g)
            if dem.startswith(('std::atomic<', 'std::__atomic_base<')):
                continue
            if 'std::mutex' in dem:
                raise Unsupported('a lock of its own in ' + f.name)
            mth = re.match(r'^(?:.* )?((?:\w|::|<.*>)+)::(~?\w+|operator.*)\((.*)\)( const)?$', dem)
            ps = split_args(dem[dem.index('(') + 1:dem.rindex(')')]) if '(' in dem else []
            for i in pos:
                k = i - (len(args) - len(ps))
                if k < 0:      # the object itself
                    if dem.endswith(' const'):
                        out.append((True, 'read'))
                    elif mth and guarded and CTOR.get(short(mth.group(1)), short(mth.group(1))) == mth.group(2):
                        out.append((True, 'initialised once'))
                    elif mth:
                        out.append((False, 'is changed by ' + dem))
                    else:
                        raise Unsupported('use of ' + g)
                elif ps[k].strip().endswith(('const&', 'const*')):
                    out.append((True, 'read'))
                elif ps[k].strip().endswith(('&', '*')):
                    out.append((False, 'is handed to ' + dem))
                else:
                    raise Unsupported('use of ' + g)
            continue
        raise Unsupported('use of the shared variable %s in %s' % (m.dem.get(g, g), f.name))
    return out


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        if ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def task_frame(ctx, r):
    """decoding a trace and copying it into the list: the frame of every function reached"""
    ex, st = sys_start(ctx)
    m = ctx.mod
    roots = [ctx.find(r'^Trace::Trace\(istream&, unsigned long\)$').name, ctx.find(RX_OPEN).name, ctx.find(r'^TraceDB::addTrace\(Trace const&\)$').name, ctx.find('^add_trace$').name]
    seen = reach(ctx, roots)
    for n in sorted(seen):
        f = m.funcs.get(n)
        if f is None:
            if n in UNSAFE:
                ex.prove(st, 'no function with hidden shared state is called', F)
            continue
        names = {g.strip('"') for g in RX_AT.findall('\n'.join(f.body))}
        mut = [g for g in names if g in m.globals and re.search(r'(^| )global ', m.globals[g]) and 'thread_local' not in m.globals[g]]
        if ctx.is_repo(f):
            ex.curfn.append(f)
            d = m.dem[f.name]
            r.functions.append(d)
            bad = []
            for g in mut:
                if g.startswith(('_ZSt4c', '_ZGV')) or g == '__dso_handle':
                    continue
                bad += ['%s %s' % (m.dem.get(g, g), t) for ok, t in uses(ctx, f, g) if not ok]
            ex.prove(st, 'touches no shared mutable state' + (': ' + '; '.join(bad) if bad else ''), z3.BoolVal(not bad))
            ex.curfn.pop()
        else:
            for g in mut:
                if 'flyweight_core' in g or 'flyweight' in g:
                    ex.prove(st, 'the pool of shared values is locked', z3.BoolVal('no_locking' not in g))
    if not ex.obligs:
        raise Unsupported('nothing reached')
    r.absorb(ex)
