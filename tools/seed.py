#!/usr/bin/env python3
"""seed.py [-n] SPEC.py [NAME…]: build planted bugs into /verif/seeded and confirm them in a scratch copy.
SPEC.py defines S = {name: dict(prop, needs, breaks, edits=[(file, old, new)], into=file, test=rust code of a test module)}."""
import json, os, runpy, shutil, subprocess, sys
DEMO = '''#!/bin/bash
# Compiles the current tree of the repository (cwd) in a scratch copy with the test module beside this script
# appended to %(into)s, and runs it. Exit 0: the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/bin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir "$W/r" && cp -a "$REPO"/Cargo.toml "$REPO"/build "$REPO"/resources "$REPO"/src "$W/r/" || exit 9
[ -e "$REPO/Cargo.lock" ] && cp -a "$REPO/Cargo.lock" "$W/r/"
export CARGO_TARGET_DIR="$W/target"
[ -d "$REPO/target" ] && cp -a "$REPO/target" "$W/target"
[ -n "$DEMO_TARGET" ] && export CARGO_TARGET_DIR="$DEMO_TARGET"
cat "$HERE/demo_test.rs" >> "$W/r/%(into)s"
touch "$W/r/src/main.rs"
cd "$W/r" || exit 9
timeout 250 cargo test --offline planted_demo > "$W/log" 2>&1
R=$?
tail -n 15 "$W/log"
grep -q "test result: ok. [1-9]" "$W/log" || [ $R != 0 ] || R=8
exit $R
'''
dry = '-n' in sys.argv
args = [a for a in sys.argv[1:] if a != '-n']
S = runpy.run_path(args[0])['S']
names = args[1:] or list(S)
W = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
tests = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if False else None
for n in names:
    s = S[n]
    d = '/verif/seeded/' + n
    sh('rm -rf /tmp/seedw/r; mkdir -p /tmp/seedw/r'); sh('cd /repo && cp -a .git build Cargo.toml Cargo.lock resources src .gitignore rustfmt.toml /tmp/seedw/r/')
    sh('cd /tmp/seedw/r && git checkout -q -- .')
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO % {'into': s['into']})
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.rs', 'w').write('\n#[cfg(test)]\nmod planted_demo {\n' + s['test'].strip('\n') + '\n}\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, DEMO_TARGET='/tmp/seedw/target')
    r0 = sh('bash %s/demo.sh' % d, cwd=W + '/r', env=env)
    ok = True
    for f, old, new in s['edits']:
        p = W + '/r/' + f
        t = open(p).read()
        if t.count(old) < 1: print(n, 'EDIT DOES NOT APPLY', old[:50]); ok = False; break
        open(p, 'w').write(t.replace(old, new, 1))
    if not ok: continue
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W + '/r').stdout)
    base = sh("git diff -U0 | grep '^@@' | wc -l", cwd=W + '/r').stdout
    r1 = sh('bash %s/demo.sh' % d, cwd=W + '/r', env=env)
    t = sh('CARGO_TARGET_DIR=/tmp/seedw/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_NET_OFFLINE=true cargo test --offline -- --skip session_schedule::schedule_tests:: 2>&1 | grep "test result"', cwd=W + '/r')
    f = sh('FX_TARGET=/tmp/seedft REPO=/tmp/seedw/r /verif/facts.sh /tmp/seedw/facts')
    c = sh('FX_FACTS=/tmp/seedw/facts/fix_rs.json python3 /verif/check.py %s' % s['prop'], cwd='/verif')
    print('%-28s demo clean %d patched %d | tests %s| check %s: %d %s' % (n, r0.returncode, r1.returncode, t.stdout.strip()[13:45], s['prop'], c.returncode, 'CAUGHT' if c.returncode == 1 else 'MISSED'))
    if r0.returncode: print(r0.stdout[-1200:])
    if not r1.returncode: print('   patched demo passes')
    if f.returncode: print('   facts failed', f.stderr[-500:])
    print('     ', (c.stdout + c.stderr[-300:]).split('\n')[0][:200])
