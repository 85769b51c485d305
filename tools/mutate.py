#!/usr/bin/env python3
"""mutation testing: small textual changes of /repo's non-test source; those that build and pass the tests are checked.
mutate.py FILE(suffix)… -> tools/mutants.jsonl lines {id, file, line, old, new, caught, missed}; WORKERS, MAX, SEED from the environment"""
import sys, os, re, subprocess, shutil, json, random, threading, queue
CH = {'session_schedule': 'C20 C26 C12', 'session_settings': 'C12 C13 C18 C20 C23 C32 C33', 'session_id': 'C14 C01 C13 C23 C18', 'session_and_state': 'C23 C18 C15 C16 C03 C31 C33',
      'network': 'C03 C11 C12 C13 C15 C16 C17 C18 C19 C22 C29 C31 C24 C33 C23', 'acceptor': 'C15 C17 C18 C19 C22 C29', 'message': 'C01 C02 C03 C04 C05 C06 C07 C21 C24 C25 C16 C31', 'data_dictionary': 'C08 C09 C10 C11 C03 C05',
      'quickfix_errors': 'C06 C10 C13 C12', 'types': 'C29', 'session/mod': 'C12 C13 C20 C23 C26', 'application': 'C16', 'main': 'C22'}
RULES = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|(?! *\{)(?! *\w*\()', '&&'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'), (r'\bis_ok\(\)', 'is_err()'), (r'\bis_err\(\)', 'is_ok()'),
         (r'(?<![\w.])!(?=[a-z(])', ''), (r'(?<=if )(?=[a-z])(?!let)', '!'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'\bbreak;', ''), (r'\bcontinue;', ''), (r'pop_front', 'pop_back'), (r'push_front', 'push_back'),
         (r'push_back', 'push_front'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\.min\(', '.max('), (r'\.is_empty\(\)', '.is_empty() == false'),
         (r'\.unwrap_or_default\(\)', '.unwrap()'), (r'eq_ignore_ascii_case', 'eq'), (r'\.trim\(\)', ''), (r'starts_with', 'ends_with'), (r'\bany\(', 'all('), (r'\ball\(', 'any('), (r'\.rev\(\)', ''),
         (r'\.cloned\(\)', '.cloned().filter(|_| false)'), (r'Some\((\w+)\)(?!.*=>)(?!.* = )', 'None'), (r'\?;', '.ok();'), (r'\bstart_', 'end_'), (r'\bend_', 'start_'), (r'sender', 'target'), (r'target', 'sender'), (r'\bsubid', 'locationid'),
         (r'header', 'body'), (r'body', 'header'), (r'trailer', 'body'), (r'SENDER', 'TARGET'), (r'TARGET', 'SENDER'), (r'_ON_LOGON', '_ON_LOGOUT'), (r'_SUBID', '_LOCATIONID'), (r'\binsert\(', 'get('), (r'fields', 'groups'), (r'group', 'component'), (r'\bor_else', 'and_then')]


def mutants(f):
    src = open('/repo/' + f).read()
    cut = src.find('#[cfg(test)]')
    body = src[:cut] if cut >= 0 else src
    pos = 0
    for no, line in enumerate(body.split('\n'), 1):
        start, pos = pos, pos + len(line) + 1
        code = line.split('//')[0]
        s = code.strip()
        if not s or s.startswith(('#', 'use ', 'pub use', 'mod ', 'println!', 'struct', 'pub struct')):
            continue
        for a, b in RULES:
            for m in re.finditer(a, code):
                if 'fn ' in code:
                    continue
                yield no, start + m.start(), m.group(0), b
        for m in re.finditer(r'(?<![\w.#"])(\d+)(?![\w.])', code):
            yield no, start + m.start(), m.group(0), str(int(m.group(0)) + 1)
        for m in re.finditer(r'"([^"]*)"', code):
            if m.group(1) and 'println' not in code and 'panic' not in code and 'expect' not in code:
                yield no, start + m.start(), m.group(0), '"' + m.group(1)[:-1] + '"'
        for m in re.finditer(r"b?'(\\?.)'", code):
            yield no, start + m.start(), m.group(0), ('b' if m.group(0)[0] == 'b' else '') + ("'x'" if m.group(1) != 'x' else "'y'")
        if re.match(r'[\w.:&*!()]+.*;$', s) and not s.startswith(('let ', 'use ', 'const', 'static', 'type ', 'pub ')):
            yield no, start + code.index(s), s, ''
        if s.startswith('if ') and s.endswith('{') and 'let' not in s:
            c = s[3:-1].strip()
            for v in ('true', 'false'):
                yield no, start + code.index(c), c, v


def work(w, q, out, lock):
    base = '/tmp/mutate/w%d' % w
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/repo')
    repo = base + '/repo'
    subprocess.run('cd /repo && git ls-files -z | xargs -0 cp --parents -t %s; cp Cargo.lock %s/; cp -a /verif/.cache/target %s/ft' % (repo, repo, base), shell=True)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=base + '/t', CARGO_TERM_COLOR='never')
    tests = json.load(open('/opt/vp/BASELINE.json'))
    while True:
        try:
            i, f, no, off, old, new = q.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(repo, f)
        src = open('/repo/' + f).read()
        open(p, 'w').write(src[:off] + new + src[off + len(old):])
        rec = {'id': i, 'file': f, 'line': no, 'old': old, 'new': new, 'text': src[src.rfind('\n', 0, off) + 1:src.find('\n', off)].strip()}
        try:
            r = subprocess.run(['timeout', '120', 'cargo', 'test', '--offline', '-q', '--', '--skip', 'session_schedule::schedule_tests::'], cwd=repo, env=env, capture_output=True, text=True)
            if r.returncode:
                rec['status'] = 'no build' if 'could not compile' in r.stderr else 'killed'
            else:
                r = subprocess.run(['/verif/facts.sh', base + '/facts'], env=dict(os.environ, REPO=repo, FX_TARGET=base + '/ft'), capture_output=True, text=True)
                if r.returncode:
                    rec['status'] = 'facts'
                else:
                    rec['status'] = 'alive'
                    rec['caught'], rec['missed'] = [], []
                    key = next(v for k, v in CH.items() if k in f)
                    for c in key.split():
                        if not os.path.exists('/verif/rules/%s.py' % c.lower()):
                            continue
                        r = subprocess.run(['nice', sys.executable, '/verif/check.py', c], env=dict(os.environ, FX_FACTS=base + '/facts/fix_rs.json', FX_EVIDENCE=base), capture_output=True, text=True)
                        rec['caught' if r.returncode == 1 else 'missed'].append(c)
                        if r.returncode not in (0, 1):
                            rec['odd'] = c
                        if r.returncode == 1:
                            break
        finally:
            open(p, 'w').write(src)
        with lock:
            out.write(json.dumps(rec) + '\n')
            out.flush()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    fs = [f for f in subprocess.run('cd /repo && git ls-files src', shell=True, capture_output=True, text=True).stdout.split() if any(a in f for a in sys.argv[1:])]
    todo = [(f,) + m for f in fs for m in mutants(f)]
    random.Random(int(os.environ.get('SEED', '1'))).shuffle(todo)
    todo = todo[:int(os.environ.get('MAX', '100000'))]
    path = os.environ.get('OUT', '/tmp/mutants.jsonl')
    done = set()
    if os.path.exists(path):
        for l in open(path):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['old'], d['new'], d['id'].split(':')[-1]))
    q = queue.Queue()
    n = 0
    for f, no, off, old, new in todo:
        if (f, no, old, new, str(off)) not in done:
            q.put(('%s:%d:%d' % (f, no, off), f, no, off, old, new))
            n += 1
    print(n, 'mutants')
    lock = threading.Lock()
    out = open(path, 'a')
    ts = [threading.Thread(target=work, args=(w, q, out, lock)) for w in range(int(os.environ.get('WORKERS', '6')))]
    [t.start() for t in ts]
    [t.join() for t in ts]
