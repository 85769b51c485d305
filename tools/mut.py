#!/usr/bin/env python3
"""debug aid: mut.py VARIANTS.py [NAME…]: apply source variants to scratch copies of /repo, run checks.
VARIANTS.py defines V = {name: ([(file, old, new), …], [checks], expect)}; expect 'quiet' or 'alarm'."""
import sys, os, subprocess, shutil, runpy, fcntl
from concurrent.futures import ThreadPoolExecutor
ns = runpy.run_path(sys.argv[1])
V = ns['V']
names = sys.argv[2:] or list(V)
if len(names) == 1 and names[0] not in V: names = [n for n in V if n.startswith(names[0])]
only = os.environ.get('CHECKS', '').split()


def one(n):
    edits, checks, expect = V[n][:3]
    base = '/tmp/mut/' + n
    d = base + '/repo'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('cd /repo && git ls-files -z | xargs -0 cp --parents -t %s; cp Cargo.lock %s/' % (d, d), shell=True)
    out = []
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old not in s:
            return '%s EDIT DOES NOT APPLY %s %s' % (n, f, old[:60])
        open(p, 'w').write(s.replace(old, new, 1))
    with open('/tmp/mut.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = subprocess.run(['/verif/facts.sh', base + '/facts'], env=dict(os.environ, REPO=d), capture_output=True, text=True)
    if r.returncode:
        return '%s DOES NOT COMPILE %s' % (n, ' | '.join(l for l in r.stderr.split('\n') if l.startswith('error') or '-->' in l and 'error' in r.stderr)[:300])
    for c in only or checks:
        r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, FX_FACTS=base + '/facts/fix_rs.json', FX_EVIDENCE=base), capture_output=True, text=True, cwd='/verif')
        res = {0: 'quiet', 1: 'alarm'}.get(r.returncode, 'ERROR')
        exp = expect.get(c, 'quiet') if isinstance(expect, dict) else expect
        out.append('%-4s %s %s: %s (expected %s)' % ('ok' if res == exp else 'BAD', n, c, res, exp))
        if res != 'quiet':
            out.append('\n'.join('      ' + l[:260] for l in (r.stdout + r.stderr[-800:]).split('\n')[:int(os.environ.get('LINES_OUT', 2))]))
    if not os.environ.get('KEEP'):
        shutil.rmtree(base, ignore_errors=True)
    return '\n'.join(out)


with ThreadPoolExecutor(int(os.environ.get('JOBS', 7))) as ex:
    for r in ex.map(one, names):
        if not (os.environ.get('BADONLY') and r.startswith('ok') and 'BAD' not in r):
            print(r, flush=True)
