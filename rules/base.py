"""Shared machinery of the property checkers: obligations, case analysis of terms, queries."""
import json
import os
import time
from fx.engine import Engine, Budget, OPT, RES, NONE, some, ok, err, ev_list
from fx.terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


LOADER = ('data_dictionary::DataDictionary::from_xml', '<data_dictionary::DataDictionary as std::str::FromStr>::from_str')


class Stop(Exception):
    """the rest of the check makes no sense (missing anchor)"""


class Check:
    def __init__(self, pid, facts, tier):
        self.pid, self.facts_path, self.tier = pid, facts, tier
        self.obs = []          # (key, ok, message, where)
        self.entries = []
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.analysed = set()
        self.steps = 0
        self.unmodelled = {}
        self.t0 = time.time()
        self.rule = ''

    # -- engine ------------------------------------------------------------------------------------
    def engine(self, cut=True, opaque=()):
        E = Engine(self.facts_path)
        E.cutscc = cut
        E.opaque |= set(opaque)
        return E

    def run(self, E, body, args=None, facts=None, env=None, label=None):
        av, tr = E.run(body, args, facts, env)
        self.note(E, label or body['id'], tr)
        return av, tr

    def note(self, E, label, tr):
        self.entries.append({'entry': label, 'paths': len(tr)})
        self.analysed |= E.analysed
        self.count('paths', len(tr))
        self.steps += E.steps
        E.steps = 0
        for k, v in E.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        E.unmodelled = {}

    def anchor(self, E, name):
        b = E.find(name)
        self.ob('anchor:' + name, b is not None, 'function %s not found (or not unique)' % name)
        if b is None:
            raise Stop(name)
        return b

    # -- obligations ---------------------------------------------------------------------------------
    def ob(self, key, good, msg='', where=''):
        self.obs.append((key, bool(good), msg, where))
        return bool(good)

    def bad(self, key, msg, where=''):
        return self.ob(key, False, msg, where)

    def floor(self, what, n, least):
        self.count(what, n)
        self.ob('floor:' + what, n >= least, 'only %d instances of "%s" found, at least %d confirmed by hand' % (n, what, least))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


# ---- terms ---------------------------------------------------------------------------------------------
def first_ite(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'ite':
                return x
            if x[0] in ('srch', 'it') or x[0] == 'app' and len(x) > 1 and x[1] in ('foundmap', 'found', 'sorted', 'coll'):
                continue
            st.extend(y for y in reversed(x) if isinstance(y, tuple))
    return None


def atom_of(E, facts, c):
    if c[0] in ('not',):
        return atom_of(E, facts, c[1])
    if c[0] in ('and', 'or'):
        for x in c[1:]:
            if E.truth(facts, x) is None:
                return atom_of(E, facts, x)
    if c[0] == 'ite':
        for x in c[1:]:
            if E.truth(facts, x) is None:
                return atom_of(E, facts, x)
    return c


def cases(E, facts, term, limit=4096):
    """all consistent (facts, if-free term) leaves of a term"""
    out = []
    wl = [(facts, term)]
    while wl:
        f, t = wl.pop()
        t = simp(E, f, t)
        i = first_ite(t)
        if i is None:
            out.append((f, t))
            if len(out) > limit:
                raise Budget('too many cases')
            continue
        a = atom_of(E, f, i[1])
        for b in (True, False):
            f2 = dict(f)
            if E.add_fact(f2, a, b):
                wl.append((f2, t))
    return out


def simp(E, facts, t, d=0):
    """resolve the if-then-else terms that the facts decide, anywhere in the term"""
    if not isinstance(t, tuple) or not t or d > 40:
        return t
    if t[0] == 'ite':
        c = E.truth(facts, t[1])
        if c is not None:
            return simp(E, facts, t[2] if c else t[3], d + 1)
        if first_ite(t[1]) is not None:
            k = simp(E, facts, t[1], d + 1)
            if k != t[1]:
                return simp(E, facts, mk_ite(k, t[2], t[3]), d + 1)
        return mk_ite(t[1], simp(E, facts, t[2], d + 1), simp(E, facts, t[3], d + 1))
    if t[0] in ('srch', 'it') or t[0] == 'app' and len(t) > 1 and t[1] in ('foundmap', 'found', 'sorted', 'coll'):
        return t
    r = tuple(simp(E, facts, x, d + 1) if isinstance(x, tuple) else x for x in t)
    if r[0] == 'app' and r[1] == 'at' and len(r) == 4 and r[2][0] == 'app' and r[2][1] == 'upd':
        e = E.truth(facts, mk_eq(r[2][3], r[3]))
        if e is not None:
            return r[2][4] if e else simp(E, facts, ('app', 'at', r[2][2], r[3]), d + 1)
    if r != t and r[0] == 'fld':
        return E.getfield(r[1], r[2])
    if r != t and r[0] == 'app' and r[1] == 'cat':
        return cat(*r[2:])
    return r


def field(E, v, name):
    """field of a struct value by (Adt suffix.)name"""
    if v[0] == 'ite':
        return mk_ite(v[1], field(E, v[2], name), field(E, v[3], name))
    adt = v[1] if v[0] == 'adt' else None
    if adt is None:
        ty = E.tyhint.get(v)
        adt = E.strip(ty)[1] if ty else None
    a = E.adts.get(adt)
    if a is None:
        return None
    for f in a['v'][0]['f']:
        if f['n'] == name:
            return E.getfield(v, '%s.0.%s' % (adt, name), E.ty(f['ty']) if f.get('ty') is not None else None)
    return None


def all_events(tr, depth=0):
    """events of a trace, including those inside loops: (event, enclosing trace list)"""
    for e in tr.events:
        yield e, tr
        if e.kind == 'loop':
            for t in e.x['iters'] + e.x['exits']:
                yield from all_events(t, depth + 1)


def uniq_events(traces):
    seen = set()
    for t in traces:
        for e, tr in all_events(t):
            if id(e) not in seen:
                seen.add(id(e))
                yield e, tr


def strip_lines(s):
    return s


def run_tasks(c, E):
    """analyse the bodies of all tasks and threads spawned by what was run so far, transitively:
    list of (name, body id, origin function, traces)"""
    from fx.engine import Trace
    out, seen, i = [], set(), 0
    E.task_traces = {}
    while i < len(E.tasks):
        name, f, st, stack = E.tasks[i]
        i += 1
        body = f[1] if f[0] == 'clo' else show(f)
        key = (body, repr(E.deep(st, f)))
        if key in seen:
            continue
        seen.add(key)
        s = st.copy()
        s.ev = None
        E.recorders, E.loopmarks, E.stack = [], [], list(stack[-1:])
        if f[0] != 'clo':
            out.append((name, body, stack[-1] if stack else '?', None))
            continue
        b = E.bodies.get(f[1])
        args = [('sym', 'cx', 0)] if b and b['argc'] == 2 else []
        outs = E.call_value(s, f, args, None, '?')
        tr = [Trace('ret' if o[0] == 'ok' else o[0], ev_list(o[1].ev), o[1].facts, o[1], E.deep(o[1], o[2]) if o[0] == 'ok' else None) for o in outs]
        c.note(E, body, tr)
        E.task_traces[repr(E.deep(st, f))] = (name, body, tr)
        out.append((name, body, stack[-1] if stack else '?', tr))
    return out


def refuted(E, facts, assumptions):
    """the facts rule out that all assumptions (term, truth value) hold together"""
    f2 = dict(facts)
    for t, b in assumptions:
        v = E.truth(f2, t)
        if v is not None:
            if v != b:
                return True
            continue
        if not E.add_fact(f2, t, b):
            return True
    for g, v in facts.items():
        if g[0] in ('or', 'and', 'not'):
            f3 = {k: x for k, x in f2.items() if k != g}
            t = E.truth(f3, g)
            if t is not None and t != v:
                return True
    return False
