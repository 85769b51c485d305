"""No panic from network input: over every path of the public message functions, of the receiver thread, of every task the
acceptor spawns, and of the recursive helpers they use (each from an arbitrary state), no panic site is reachable. A panic
path is discharged only when it is infeasible: an index is below the length of its sequence by loop induction, or
the path contradicts an invariant of every loaded dictionary (members of a message are also in the field order), which the
dictionary loader is shown to establish."""
from .base import *
from .linear import prove_below, seq_len
from .dd import order_invariant, contradicts_dictionary

ENTRIES = ['Message::from_str', 'Message::get_session_id', 'Message::get_reverse_session_id', 'Session::verify',
           'Session::sync_send_to_target']


def discharged(E, tr, e):
    if contradicts_dictionary(E, tr.facts):
        return 'dictionary'
    if e.name == 'index' and len(e.args) == 2:
        m, i = e.args
        n = seq_len(E, tr.st, m, tr.facts, tr.facts)
        if n is not None and prove_below(E, tr, i, n):
            return 'index'
    return None


def check(c):
    c.rule = 'no feasible path from a network-facing entry point reaches a panic'
    E = c.engine(opaque=LOADER)
    todo = [c.anchor(E, x) for x in ENTRIES]
    for i, b in sorted(E.bodies.items()):
        if i.endswith('as application::Application>::from_app'):
            todo.append(b)
    firsts = list(todo)
    seen = set()
    sites = []
    rec = E.recursive()

    def collect(name, trs):
        for e, tr in uniq_events(trs):
            if e.kind == 'rec' and e.name not in seen and e.name in E.bodies:
                todo.append(E.bodies[e.name])
        for t in trs:
            if t.kind == 'panic':
                sites.append((name, t))

    def drain():
        while todo:
            b = todo.pop(0)
            if b['id'] in seen:
                continue
            seen.add(b['id'])
            av, trs = c.run(E, b)
            collect(b['id'], trs)
    lookup = E.find('extract_field_value')
    if lookup is not None:      # on its own first, so that its paths do not multiply in its callers
        todo.insert(0, lookup)
        firsts.append(lookup)
    while todo:
        b = todo.pop(0)
        if b['id'] not in seen:
            seen.add(b['id'])
            collect(b['id'], c.run(E, b)[1])
            if b is lookup:
                E.opaque.add(b['id'])
    E.opaque |= {b['id'] for b in firsts}      # analysed above for every argument
    start = c.anchor(E, 'start_accepting_connections')
    c.run(E, start)
    n = 0
    tasks = run_tasks(c, E)
    for name, body, origin, trs in tasks:
        c.ob('task:%s:analysed' % body, trs is not None, 'the body of the task spawned in %s is not known' % origin)
        collect(body, trs or [])
        n += 1
        for e, tr in uniq_events(trs or []):
            if e.kind == 'spawn' and name.startswith('thread') and not e.name.startswith('thread'):
                c.bad('task:%s:runtime' % body, 'spawns an asynchronous task from a thread without a runtime, which panics', e.sp)
    drain()
    c.floor('threads and tasks handling traffic', len({t[1] for t in tasks}), 4)
    c.floor('functions analysed', len(c.analysed), 30)
    used = set()
    for name, t in sites:
        e = t.events[-1]
        why = discharged(E, t, e)
        if why:
            used.add(why)
            c.count('infeasible panic paths (%s)' % why)
        where = e.x[-1] if isinstance(e.x, (tuple, list)) and e.x else e.fn
        c.ob('%s:%s in %s' % (name, e.name, where), why is not None,
             'a received text can reach %s on %s' % (e.name, ', '.join(show(a)[:80] for a in e.args)), e.sp)
    c.ob('entries:no panic', True)
    if 'dictionary' in used:
        order_invariant(c, E)
