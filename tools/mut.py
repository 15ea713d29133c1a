#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy and runs the checker.
mut.py FILE...  where FILE defines M = [(name, expect, [(file, old, new), ...]), ...]; expect is a property id, or
'' for an edit that keeps the behaviour (every check must stay quiet), or '?' for don't care."""
import sys, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
def run(job):
    i, name, exp, edits = job
    W = os.environ.get('WORK','/tmp/mw')+'/%d' % i
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('.git', 'results', '*.png'))
    try:
        for ed in edits:
            k = ed[0] if ed[0].startswith('@') else None
            f, old, new = ed[1:] if k else ed
            p = os.path.join(W, f); s = open(p).read()
            if k:
                ps = s.split(old); n = int(k[1:])
                if len(ps) <= n: return name, exp, 'BADEDIT %s x%d' % (f, len(ps) - 1), ''
                open(p, 'w').write(old.join(ps[:n]) + new + old.join(ps[n:])); continue
            if s.count(old) != 1: return name, exp, 'BADEDIT %s x%d' % (f, s.count(old)), ''
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GO111MODULE='on', GOCACHE='/root/.cache/go-build')
        b = subprocess.run(['go', 'build', './...'], cwd=W, capture_output=True, text=True, env=env)
        if b.returncode: return name, exp, 'NOBUILD', b.stderr[:400]
        V = W + '.v'; os.makedirs(V, exist_ok=True); shutil.copy('/verif/known_findings.json', V)
        o = subprocess.run([os.environ.get('BIN','/verif/bin/gospncheck'), '-repo', W, '-verif', V, '-prop', os.environ.get('PROP', 'all')], capture_output=True, text=True)
        if o.returncode not in (0,1): return name, exp, 'CRASH', o.stderr[:600]
        o = o.stdout
        v = [l.split()[1].split('=')[1] for l in o.splitlines() if l.startswith('VIOLATION')]
        det = [l[:260] for l in o.splitlines() if ': [C' in l or ': [P' in l]
        return name, exp, v, det
    finally:
        shutil.rmtree(W, ignore_errors=True); shutil.rmtree(W + '.v', ignore_errors=True)
jobs = []
sel = os.environ.get('SEL', '')
for f in sys.argv[1:]:
    d = {}; exec(open(f).read(), d)
    for m in d['M']:
        if sel in m[0]: jobs.append((len(jobs), *m))
bad = 0
with ThreadPoolExecutor(6) as ex:
    for name, exp, v, det in ex.map(run, jobs):
        if isinstance(v, str): print('??', name, v, det); bad += 1; continue
        ok = (exp == '?') or (exp == '' and not v) or (exp and exp in v)
        if not ok: bad += 1
        print('ok ' if ok else '!! ', name, 'expect', exp or 'quiet', 'got', v)
        if not ok or os.environ.get('SHOW'):
            for l in (det or [])[:6]: print('      ', l)
print(len(jobs), 'run,', bad, 'bad')
