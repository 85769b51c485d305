"""Bounded allocation: over every path of the functions that handle received text (and of the tasks that read it), each size of
an allocation and each bound of a counted loop is computed. A size is tainted when a number parsed from the text occurs in it
(directly, converted or in arithmetic). A tainted size must be provably at most the length of received data on that path."""
from .base import *
from .linear import loop_counters, range_len
from .c05 import uncast

ENTRIES = ['Message::from_str', 'Message::get_session_id', 'Message::get_reverse_session_id', 'Session::verify']


def tainted(t):
    return any(y[0] == 'app' and y[1] in ('parse', 'char_num', 'from_bytes') or y[0] == 'app' and y[1] == 'at' and False for y in subterms(t))


def bounded(E, facts, n):
    """n is at most a length of received data"""
    ls = set()
    for f in list(facts):
        for y in subterms(f):
            if y[0] == 'app' and y[1] == 'len':
                ls.add(y)
    n2 = uncast(n)
    for l in ls:
        for x in (n, n2):
            if E.prove_pos(facts, add(sub(l, x), I(1))):
                return True
    return False


def check(c):
    c.rule = 'a number parsed from the text is used as a size or loop bound only below a check against a length'
    E = c.engine(opaque=LOADER)
    todo = [c.anchor(E, x) for x in ENTRIES]
    firsts = {b['id'] for b in todo}
    seen, units = set(), []
    while todo:
        b = todo.pop(0)
        if b['id'] in seen:
            continue
        seen.add(b['id'])
        av, trs = c.run(E, b)
        units.append((b['id'], trs))
        for e, tr in uniq_events(trs):
            if e.kind == 'rec' and e.name in E.bodies:
                todo.append(E.bodies[e.name])
    E.opaque |= firsts
    c.run(E, c.anchor(E, 'start_accepting_connections'))
    for name, body, origin, trs in run_tasks(c, E):
        units.append((body, trs or []))
    c.floor('functions and tasks', len(units), 7)
    loops = set()
    for name, trs in units:
        for e, tr in uniq_events(trs):
            if e.kind == 'alloc':
                c.count('allocations with a computed size')
                n = simp(E, e.facts, e.args[0])
                c.ob('%s:%s' % (name, e.name), not tainted(n) or bounded(E, e.facts, n),
                     'the size %s of an allocation comes from the text and is not checked against the data received' % show(n)[:100], e.sp)
            elif e.kind == 'loop' and e.x['id'] not in loops:
                loops.add(e.x['id'])
                c.count('loops')
                for t in e.x['iters']:
                    for f, v in t.facts.items():
                        if f[0] == 'more' and v is True and e.facts.get(f) is not True:
                            for y in subterms(f[1]):
                                r = range_len(y) if y[0] == 'app' and y[1] == 'range' else y[3] if y[0] == 'app' and y[1] == 'repeat' else None
                                if r is not None:
                                    check_bound(c, E, name, e, r)
                for g, n in loop_counters(E, e.x['id']):
                    check_bound(c, E, name, e, n)
                for t in e.x['iters']:
                    for f, v in t.facts.items():
                        # a loop guard that compares with a number of the text
                        if f[0] in ('pos', 'eq') and e.facts.get(f) is None and any(y[0] == 'lv' and y[1] == e.x['id'] for y in subterms(f)) and tainted(f) \
                                and not any(g[0] == 'more' and b is True and e.facts.get(g) is not True for g, b in t.facts.items()) \
                                and not any(ev.kind == 'pop' for ev in t.events):
                            c.ob('%s:loop guard' % name, any(bounded(E, e.facts, y) for y in subterms(f) if tainted(y)),
                                 'a loop runs as often as a number of the text says', e.sp)
            for a in e.args if e.kind in ('call', 'format') else ():
                pass
        for t in trs:
            for y in all_terms(E, t):
                if y[0] == 'app' and y[1] in ('pad', 'repeat', 'resized') and len(y) > 3 and tainted(y[3]):
                    c.ob('%s:%s' % (name, y[1]), bounded(E, t.facts, y[3]), 'a length %s comes from the text' % show(y[3])[:80])
    c.ob('allocations', True)
    c.floor('loops', c.counts.pop('loops', 0), 8)


def all_terms(E, t):
    if t.val is not None and isinstance(t.val, tuple):
        yield from subterms(t.val)


def check_bound(c, E, name, e, n):
    n = simp(E, e.facts, n)
    c.ob('%s:loop bound' % name, not tainted(n) or bounded(E, e.facts, n),
         'a loop runs %s times, a number of the text that is not checked against the data received' % show(n)[:100], e.sp)
    if tainted(n):
        c.count('checked bounds from the text')
