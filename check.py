#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from the current source of /repo."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('FX_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def get_facts():
    out = os.path.join(HERE, '.cache', 'facts.%d' % os.getpid())
    if os.environ.get('FX_FACTS'):
        return os.environ['FX_FACTS'], None
    os.makedirs(os.path.join(HERE, '.cache'), exist_ok=True)
    lock = open(os.path.join(HERE, '.cache', 'lock'), 'w')
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run([os.path.join(HERE, 'facts.sh'), out], capture_output=True, text=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    f = os.path.join(out, 'fix_rs.json')
    if r.returncode != 0 or not os.path.exists(f):
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
        sys.exit(2)
    return f, out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    facts, tmp = get_facts()
    from rules.base import Check, Stop
    c = Check(pid, facts, tier)
    mod = importlib.import_module('rules.' + pid.lower())
    import signal

    def late(*a):
        raise TimeoutError('analysis budget exceeded')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('FX_BUDGET', '780')))
    try:
        mod.check(c)
    except Stop:
        pass
    except Exception as e:
        # fail closed: what the analysis cannot interpret is not shown to satisfy the property
        traceback.print_exc()
        c.bad('analysis', 'the source cannot be analysed: %s: %s' % (type(e).__name__, str(e)[:300]), '')
    finally:
        signal.alarm(0)
        if tmp:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    known = {}
    for line in open(os.path.join(HERE, 'known-findings.jsonl')):
        line = line.strip()
        if line.startswith('{'):
            k = json.loads(line)
            if k.get('status') == 'known' and k['property'] == pid:
                known[k['key']] = k
    viol, hits = [], []
    for key, good, msg, where in c.obs:
        if good:
            continue
        if key in known:
            if key not in hits:
                hits.append(key)
        else:
            viol.append({'key': key, 'message': msg, 'where': where})
    os.makedirs(EVID, exist_ok=True)
    keys = {}
    for key, good, msg, where in c.obs:
        keys.setdefault(key, []).append(good)
    cov = {
        'explanation': mod.__doc__.strip(),
        'rule': c.rule or mod.__doc__.strip().split('\n')[0],
        'obligations': len(c.obs),
        'discharged': sum(1 for o in c.obs if o[1]),
        'distinct_obligations': len(keys),
        'checker_cmd': 'python3 check.py %s' % pid,
        'trusted_base': ['rustc nightly type checker and MIR construction', 'driver/ fact extraction',
                         'fx/engine.py abstract interpreter', 'fx/models.py transfer functions of library calls'],
        'entries': c.entries,
        'functions_analysed': len(c.analysed),
        'functions': sorted(c.analysed),
        'abstract_steps': c.steps,
        'counts': c.counts,
        'obligation_keys': sorted(keys),
        'uninterpreted_calls': c.unmodelled,
        'known_findings': hits,
        'samples': c.samples or [{'key': o[0], 'ok': o[1], 'where': o[3]} for o in c.obs[:8]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
          'coverage': cov, 'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    if viol:
        rp = os.path.join(EVID, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1)
        seen = set()
        for v in viol:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            print('  %s: %s [%s]' % (v['key'], v['message'], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('%s: %d obligations discharged, %d functions, %s, %.1fs' % (pid, cov['discharged'], len(c.analysed), c.counts, ev['wall_s']))


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
