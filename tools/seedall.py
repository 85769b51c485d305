#!/usr/bin/env python3
"""run all checks against every planted bug (scratch copies) and record which ones report it in tools/seed_results.json"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
d = '/verif/seeded'
ids = sorted(f[:-3].upper() for f in os.listdir('/verif/rules') if f[0] == 'c' and f[1:3].isdigit())
out = json.load(open('/verif/tools/seed_results.json')) if os.path.exists('/verif/tools/seed_results.json') else {}
names = sys.argv[1:] or sorted(os.listdir(d))
for n in names:
    base = '/tmp/seedall/' + n
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/repo')
    subprocess.run('cd /repo && git ls-files -z | xargs -0 cp --parents -t %s/repo; cp Cargo.lock %s/repo/; cd %s/repo && patch -sp1 < %s/%s/patch.diff' % (base, base, base, d, n), shell=True, check=True)
    subprocess.run(['flock', '/tmp/mut.lock', '/verif/facts.sh', base + '/facts'], env=dict(os.environ, REPO=base + '/repo'), capture_output=True, check=True)
    def one(c):
        r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, FX_FACTS=base + '/facts/fix_rs.json', FX_EVIDENCE=base), capture_output=True, text=True)
        return c if r.returncode == 1 else '%s!%d' % (c, r.returncode) if r.returncode else None
    with ThreadPoolExecutor(8) as ex:
        out[n] = [c for c in ex.map(one, ids) if c]
    own = json.load(open('%s/%s/meta.json' % (d, n)))['property']
    print(n, own, 'CAUGHT' if own in out[n] else 'MISSED', out[n], flush=True)
    shutil.rmtree(base, ignore_errors=True)
    json.dump(out, open('/verif/tools/seed_results.json', 'w'), indent=0)
out = {n: out[n] for n in sorted(out) if os.path.isdir(d + '/' + n)}
json.dump(out, open('/verif/tools/seed_results.json', 'w'), indent=0)
