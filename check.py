#!/usr/bin/env python3-vt
"""check.py ID quick|thorough  -- decide one property on /repo's working tree.

1. compile /repo's sources to LLVM IR, generate and discharge the obligations
   of the property's contracts (vc/props/<id>.py);
2. in parallel, the concrete harness searches for a failing input (bounded
   stand-in, and replay of failures).
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'harness')]
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = 'quick'


def known_findings(pid):
    out = []
    with open(os.path.join(HERE, 'known-findings.jsonl')) as f:
        for l in f:
            l = l.strip()
            if l:
                d = json.loads(l)
                if d['property'] == pid and d['status'] == 'open':
                    out.append(d)
    return out


# ---------------------------------------------------------------- proof
CTX = MOD = None


def _one(i):
    import base
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    name, fn = MOD.TASKS[i][:2]
    return i, base.run_task(CTX, name, fn)


KEEP = []


def _again(a):
    """another attempt at a task, with another numbering of terms and other choices of the solver"""
    import z3
    i, seed = a
    z3.set_param('smt.random_seed', seed)
    z3.set_param('sat.random_seed', seed)
    KEEP.extend(z3.Int('pad%d' % j) + j for j in range(seed * 37))
    return _one(i)


def prove(pid, wdir, log):
    """-> dict(status, results)"""
    global CTX, MOD
    try:
        MOD = importlib.import_module('props.' + pid.lower())
    except ModuleNotFoundError as e:
        if 'props.' not in str(e):
            raise
        return {'status': 'none', 'results': [], 'reason': 'no contracts written for this property'}
    import base
    from ir import Unsupported
    t0 = time.time()
    try:
        ctxf = getattr(MOD, 'context', None)
        if ctxf:
            CTX = ctxf(wdir)
        else:
            ll, rl = base.compile_ir(wdir)
            CTX = base.Ctx(ll, rl)
    except base.BuildError as e:
        return {'status': 'build', 'results': [], 'reason': str(e)}
    except (Unsupported, Exception) as e:
        return {'status': 'unsupported', 'results': [], 'reason': 'front end: %r' % e}
    CTX.budget = 300 if TIER == 'quick' else 700
    CTX.tier = TIER
    tc = time.time() - t0
    order = sorted(range(len(MOD.TASKS)), key=lambda i: -(MOD.TASKS[i][2] if len(MOD.TASKS[i]) > 2 else 1))
    res = [None] * len(MOD.TASKS)
    limit = time.time() + (560 if TIER == 'quick' else 2400)
    pool = mp.get_context('fork').Pool(min(8, len(order)), maxtasksperchild=4)
    try:
        it = pool.imap_unordered(_one, order)
        for _ in order:
            try:
                i, r = it.next(timeout=max(1, limit - time.time()))
                res[i] = r
            except mp.TimeoutError:
                break
    finally:
        pool.terminate()
        pool.join()
    # quantifier instantiation can stop early: an obligation counts as failed only if no attempt discharges it
    bad = [i for i, r in enumerate(res) if r is not None and r.status == 'failed']
    if bad and time.time() + 1.2 * max(res[i].wall for i in bad) < limit:
        pool = mp.get_context('fork').Pool(8, maxtasksperchild=1)
        try:
            jobs = [(i, k) for k in (3, 8, 21) for i in bad][:24]
            it = pool.imap_unordered(_again, jobs)
            for _ in jobs:
                try:
                    i, r = it.next(timeout=max(1, limit - time.time()))
                except mp.TimeoutError:
                    break
                if res[i].status == 'failed' and r.status == 'ok':
                    r.attempts = 2
                    res[i] = r
                    if all(res[j].status == 'ok' for j in bad):
                        break
        finally:
            pool.terminate()
            pool.join()
    out = []
    for i, r in enumerate(res):
        if r is None:
            r = base.Result(MOD.TASKS[i][0])
            r.status, r.reason = 'unsupported', 'time limit'
        out.append(r)
    st = 'proved'
    if any(r.status == 'failed' for r in out):
        st = 'failed'
    elif any(r.status != 'ok' for r in out):
        st = 'incomplete'
    return {'status': st, 'results': out, 'reason': '', 'frontend_s': tc}


# ---------------------------------------------------------------- concrete search
def concrete(pid, wdir, seed, out):
    import run as H
    try:
        secs = {'quick': 25, 'thorough': 400}[TIER]
        t0 = time.time()
        exe, direct = H.build(wdir, '-O0' if TIER == 'quick' else '-O1')
        out['build_s'] = round(time.time() - t0, 1)
        out['exe'], out['direct'] = exe, direct
        if pid == 'C16':
            import c16
            end = time.time() + secs
            k, n = 0, 0
            while time.time() < end:
                try:
                    c, f, idx = c16.run(seed, k, 40, wdir, exe, H.ENV)
                except c16.ExtractError as e:
                    out['error'] = 'extraction: %s' % e
                    break
                n += c
                if f:
                    out['fail'] = {'index': idx, 'text': f, 'rc': 3}
                    break
                k += 40
            out['cases'], out['nontrivial'] = n, n
            out['samples'] = [c16.generate(seed, 0, 1, '/scratch')[0][:600]]
            return
        r = H.search(exe, pid, seed, wdir, secs)
        out.update(cases=r['cases'], nontrivial=r['nontrivial'], fail=r['fail'])
        out['samples'] = [H.sample(exe, pid, seed, wdir, i)[:500] for i in (1, 2)]
        if r['fail']:
            out['fail']['verbose'] = H.sample(exe, pid, seed, wdir, r['fail']['index'])[-6000:]
        elif pid == 'C13':
            ts, _ = H.build(wdir, '-O1', tsan=True)
            r = H.search(ts, pid, seed + 7, wdir, 15 if TIER == 'quick' else 200, procs=4, tag='tsan')
            out['tsan_cases'] = r['cases']
            if r['fail']:
                out['fail'] = r['fail']
    except H.BuildError as e:
        out['error'] = 'build: %s' % e
    except Exception as e:
        import traceback
        out['error'] = traceback.format_exc()


def main():
    global TIER
    pid = sys.argv[1]
    TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    wdir = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    viol = None
    try:
        hout = {'cases': 0, 'nontrivial': 0, 'fail': None}
        th = threading.Thread(target=concrete, args=(pid, wdir, seed, hout))
        # fork the proof workers from a separate process so that the search thread does not interfere
        pr, pw = os.pipe()
        child = os.fork()
        if child == 0:
            os.close(pr)
            import pickle
            try:
                r = prove(pid, wdir, None)
                if r['status'] in ('failed', 'proved', 'incomplete'):
                    r['meta'] = {'claims': getattr(MOD, 'CLAIMS', ''), 'assumptions': getattr(MOD, 'ASSUMPTIONS', []), 'bounded': getattr(MOD, 'BOUNDED', [])}
            except BaseException as e:
                import traceback
                r = {'status': 'unsupported', 'results': [], 'reason': traceback.format_exc()}
            with os.fdopen(pw, 'wb') as f:
                pickle.dump(r, f)
            os._exit(0)
        os.close(pw)
        th.start()
        import pickle
        with os.fdopen(pr, 'rb') as f:
            data = f.read()
        os.waitpid(child, 0)
        proof = pickle.loads(data) if data else {'status': 'unsupported', 'results': [], 'reason': 'prover died'}
        th.join()
        viol = report(pid, seed, t0, proof, hout)
    finally:
        shutil.rmtree(wdir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(1 if viol else 0)


GENERIC = ['LLVM IR produced by clang 18 from the working tree is taken as the meaning of the C++ code (two\'s complement, x86-64 layout)',
           'the contracts listed in trusted_base for the C++ standard library, Boost and libc are assumed, not proved',
           'memory allocation succeeds (no bad_alloc, malloc never returns NULL); sizes stay below 2^62',
           'objects passed by reference are properly constructed and do not alias unless the contract says so']


def report(pid, seed, t0, proof, h):
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rs = proof['results']
    obl = sum(len(r.obligs) for r in rs)
    dis = sum(1 for r in rs for o in r.obligs if o[3])
    bad = [(r.name, o) for r in rs for o in r.obligs if not o[3]]
    unsup = [(r.name, r.reason) for r in rs if r.status == 'unsupported']
    lib = {}
    for r in rs:
        for k, v in r.lib.items():
            lib[k] = lib.get(k, 0) + v
    be = {}
    for r in rs:
        for o in r.obligs:
            be[o[6]] = be.get(o[6], 0) + 1
    replay = os.path.join(HERE, 'replay', pid + '.txt')
    viol = None
    head = 'property %s, tier %s, seed %d, repository %s\n' % (pid, TIER, seed, REPO)
    btxt = ''.join('failed obligation: %s [task %s] in %s line %s\n  verifier output: %s\n' % (o[0], n, o[1], o[2], o[5][:2000]) for n, o in bad[:20])
    if h.get('fail'):
        f = h['fail']
        with open(replay, 'w') as fo:
            fo.write(head + 'failing input found on the real code: case index %s (harness/h.cpp %s, seed %d)\n%s\n---- input ----\n%s\n---- proof ----\n%s' % (f['index'], pid, seed, f['text'], f.get('verbose', ''), btxt))
        viol = 'VIOLATION property=%s replay=%s' % (pid, replay)
    elif bad:
        with open(replay, 'w') as fo:
            fo.write(head + btxt + '\nno failing input found in %d concrete cases\n' % h['cases'])
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)
    elif proof['status'] == 'build' and h.get('error'):
        print('ERROR: the working tree does not compile:\n' + proof['reason'][:2000])
    meta = proof.get('meta', {})
    level = 'proof' if rs else 'exploration'
    cov = {
        'evaluations': h['cases'], 'distinct_nontrivial': h['nontrivial'] or h['cases'],
        'rule': 'bounded stand-in: random cases from (seed, index); non-trivial as counted by the generator (harness/h.cpp)',
        'samples': h.get('samples', []),
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'python3-vt check.py %s %s' % (pid, TIER),
        'trusted_base': sorted('%s (used %d times)' % kv for kv in lib.items()),
        'backends': be, 'solver_seconds': round(sum(r.solver for r in rs), 2), 'solver_queries': sum(r.queries for r in rs),
        'proof_status': proof['status'], 'proof_reason': proof.get('reason', ''),
        'functions_under_contract': sorted({f for r in rs for f in r.functions}),
        'functions_verified_inline': sorted({f for r in rs for f in r.inlined}),
        'loops': [str(l) for r in rs for l in r.loops][:200],
        'tasks': [{'task': r.name, 'status': r.status, 'reason': r.reason[:500], 'obligations': len(r.obligs), 'paths': r.paths, 'attempts': getattr(r, 'attempts', 1), 'wall_s': round(r.wall, 2)} for r in rs],
        'failed_obligations': ['%s: %s' % (n, o[0]) for n, o in bad][:50],
        'proof_claims': meta.get('claims', ''),
        'bounded_parts': meta.get('bounded', []) + (['%s: %s' % u for u in unsup] if unsup else []),
        'concrete_search': {k: v for k, v in h.items() if k in ('cases', 'nontrivial', 'build_s', 'error', 'tsan_cases', 'direct')},
    }
    ev = {'property': pid, 'tier': TIER, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': GENERIC + list(meta.get('assumptions', [])), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    print('%s %s: proof %s, %d/%d obligations discharged in %d tasks%s; %d concrete cases%s; %.0f s' % (
        pid, TIER, proof['status'], dis, obl, len(rs), ' (%d not within reach: bounded)' % len(unsup) if unsup else '', h['cases'], ' (search unavailable: %s)' % h['error'][:300] if h.get('error') else '', time.time() - t0))
    for n, why in unsup:
        print('  bounded stand-in for %s: %s' % (n, why[:200].replace('\n', ' ')))
    for n, o in bad[:5]:
        print('  failed obligation: %s [%s] at %s:%s' % (o[0], n, o[1][:80], o[2]))
    if h.get('fail'):
        m = re.search(r'FAIL .*|ERROR: AddressSanitizer.*|runtime error.*|WARNING: ThreadSanitizer.*', h['fail']['text'])
        print('  failing input: case %s: %s' % (h['fail']['index'], (m.group(0) if m else h['fail']['text'][-300:])[:500]))
    if viol:
        print(viol)
    return viol


if __name__ == '__main__':
    main()
