import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base
import sx
_o=sx.Prover.prove
def pr(self,h,g,timeout=None):
    t0=time.time(); r=_o(self,h,g,timeout); d=time.time()-t0
    if d>float(os.environ.get('SLOW','1e9')): print('   slow %.1f %s %s'%(d,r[0],str(g)[:300].replace('\n',' ')),flush=True)
    return r
sx.Prover.prove=pr
def main():
    pid = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2][0] != '-' else ''
    d = os.environ.get('DEVD', '/tmp/w/dev'); os.makedirs(d, exist_ok=True)
    if '-n' not in sys.argv or not os.path.exists(d + '/tu.ll'):
        base.compile_ir(d)
    ctx = base.Ctx(d + '/tu.ll', d + '/layouts.txt')
    if ctx.bind_errors: print('BIND', ctx.bind_errors)
    m = importlib.import_module('props.' + pid)
    for name, fn, *_ in m.TASKS:
        if pat and pat not in name: continue
        r = base.run_task(ctx, name, fn, True)
        print('%-40s %-11s obl=%d paths=%d wall=%.1f q=%d solver=%.1f %s' % (name, r.status, len(r.obligs), r.paths, r.wall, r.queries, r.solver, r.reason[:300]), flush=True)
        for o in r.obligs:
            if not o[3] or '-v' in sys.argv: print('   ', 'ok ' if o[3] else 'FAIL', o[0], '@', o[1][:60], o[2], o[4], o[5][:int(os.environ.get('DL','800'))] if not o[3] else '')
        if '-l' in sys.argv:
            for l in r.loops: print('   loop', l)
main()
