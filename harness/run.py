"""Concrete witness search: builds the harness from /repo's working tree and
runs it in shards.  Bounded; reported as such."""
import os
import re
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SAN = ['-fsanitize=address,bounds,null,integer-divide-by-zero,signed-integer-overflow,return,unreachable',
       '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern']
LIBS = ['-lboost_iostreams', '-lboost_system', '-lboost_serialization', '-lpthread']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:hard_rss_limit_mb=6000',
           UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66')


class BuildError(Exception):
    pass


def build(outdir, opt='-O0', tsan=False):
    exe = os.path.join(outdir, 'h_tsan' if tsan else 'h')
    san = ['-fsanitize=thread'] if tsan else SAN
    err = ''
    for defs in (['-DDIRECT', '-DWRAP'], ['-DWRAP']):
        r = subprocess.run(['clang++', '-std=c++11', '-w', opt, '-gline-tables-only'] + san + defs +
                           ['-Wl,--wrap=open,--wrap=open64,--wrap=close,--wrap=select',
                            '-I%s/cffi-interface' % REPO, '-I%s/cffi-interface/trace-db' % REPO,
                            os.path.join(HERE, 'h.cpp'), '-o', exe] + LIBS, capture_output=True, text=True)
        if r.returncode == 0:
            return exe, '-DDIRECT' in defs
        err = r.stderr
    raise BuildError(err[:3000])


def _prog(path):
    try:
        with open(path, 'rb') as f:
            return struct.unpack('<QQQ', f.read(24))
    except Exception:
        return (0, 0, 0)


def search(exe, prop, seed, outdir, seconds, procs=8, count=10 ** 9, tag=''):
    """-> dict(cases, nontrivial, fail=None or dict(index, text))"""
    ps = []
    for k in range(procs):
        sd = os.path.join(outdir, 's%s%d' % (tag, k))
        os.makedirs(sd, exist_ok=True)
        pf = os.path.join(outdir, 'p%s%d' % (tag, k))
        lf = open(os.path.join(outdir, 'l%s%d' % (tag, k)), 'wb')
        ps.append((subprocess.Popen([exe, prop, str(seed), str(k), str(procs), str(count), str(seconds), pf, sd], stdout=lf, stderr=subprocess.STDOUT, env=ENV), pf, lf.name, k))
    fail, cases, nt = None, 0, 0
    end = time.time() + seconds + 240
    for p, pf, lf, k in ps:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        idx, done, n = _prog(pf)
        cases += done
        nt += n
        if rc not in (0,):
            txt = open(lf, 'rb').read().decode('utf-8', 'replace')
            if rc == 66 and 'ThreadSanitizer' not in txt:
                continue
            if tag == 'tsan' and 'WARNING: ThreadSanitizer: data race' not in txt and 'FAIL' not in txt:
                continue                       # the sanitizer could not run here
            if fail is None or idx < fail['index']:
                fail = {'index': idx, 'rc': rc, 'text': txt[-6000:] if len(txt) > 6000 else txt}
    return {'cases': cases, 'nontrivial': nt, 'fail': fail}


def sample(exe, prop, seed, outdir, idx):
    sd = os.path.join(outdir, 'sv')
    os.makedirs(sd, exist_ok=True)
    try:
        p = subprocess.run([exe, prop, str(seed), str(idx), '1', '1', '30', os.path.join(outdir, 'pv'), sd, '-v'], capture_output=True, timeout=150, env=ENV)
        return (p.stdout + p.stderr).decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'did not finish'
