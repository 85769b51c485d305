"""Lock scopes: the session table hands out references that hold a shard lock until they are dropped. The analysis tracks every such
reference from its creation to its drop (drop elaboration of the compiler's own MIR), over all paths of every function and task
that can reach the table, and iteration over the table as one long reference. At every point where one is alive, no
further table access, application callback, queue or socket operation, blocking call or suspension point is executed, directly or in a
function called there."""
from .net import *
from .c22 import blocking


def callback(e):
    return e.kind == 'call' and ('application::Application::' in e.name)


def effect(E, e, locking):
    """what makes this event forbidden under a table reference"""
    if e.kind == 'lock':
        return 'accesses the table again (%s)' % e.name
    if e.kind == 'await':
        return 'suspends at %s' % e.name
    if callback(e):
        return 'calls the application (%s)' % e.name
    if e.kind in ('call', 'rec'):
        if op(e) or blocking(e):
            return 'executes %s' % e.name
        if e.name in locking:
            return 'calls %s, which %s' % (e.name, locking[e.name])
    return None


def table_iteration(E, t, loop):
    for k, v in t.facts.items():
        if k[0] == 'more' and v is True and k not in (loop.facts or ()):
            ty = E.tyhint.get(k[1])
            ty = E.strip(ty) if ty else None
            if ty and 'DashMap' in repr(ty)[:80] or any(x in repr(E.tyhint.get(k[1]))[:200] for x in ('dashmap::DashMap',)):
                return True
    return False


def check(c):
    c.rule = 'no forbidden effect while a reference into the table is alive'
    E0 = c.engine(opaque=LOADER)
    # functions taken as opaque below: what they do on their own
    locking = {}
    E0.opaque |= {i for i in E0.bodies if i == '<message::Message as std::fmt::Display>::fmt'}
    held = accesses = 0
    own = [c.anchor(E0, n) for n in (SEND, VERIFY)]
    for b in own:
        trs = c.run(E0, b)[1]
        for e, t in uniq_events(trs):
            w = effect(E0, e, {})
            if w:
                locking[b['id']] = w
        h, a = scopes(c, E0, b['id'], trs, locking)
        held += h
        accesses += a
    c.ob('send:uses the table', any(b['id'] in locking for b in own), 'sending to a session no longer uses the table')
    E, av, start, tasks = wiring(c, opaque=(PARSE, VERIFY, SEND, REVERSE, FORWARD))
    for name, trs in [('start_accepting_connections', start)] + [(b, t) for n, b, o, t in tasks]:
        h, a = scopes(c, E, name, trs, locking)
        held += h
        accesses += a
    # every other function that can touch the table
    seen = {b['id'] for b in own}
    for i, b in sorted(E.bodies.items()):
        if i in seen or '{closure' in i or not touches(E, b):
            continue
        E3 = c.engine(opaque=LOADER)
        E3.opaque |= E.opaque
        trs = c.run(E3, E3.bodies[i])[1]
        h, a = scopes(c, E3, i, trs, locking)
        held += h
        accesses += a
        c.count('further functions that touch the table')
    c.floor('accesses to the table', accesses, 4)
    c.floor('points with a live reference looked at', held, 1)


def touches(E, b):
    r = repr([E.ty(l) if isinstance(l, int) else l for l in b.get('locals', [])])
    return 'network::SessionMap' in r or 'dashmap' in r or any('SessionMap' in repr(E.ty(l.get('ty'))) or 'dashmap' in repr(E.ty(l.get('ty'))) for l in b['locals'] if isinstance(l, dict))


def scopes(c, E, name, trs, locking):
    held = acc = 0
    for kind, t, loop in segments(trs):
        inside = loop is not None and kind == 'iter' and table_iteration(E, t, loop)
        if inside:
            c.count('iterations over the table')
        evs = [e for e, tr in all_events(t)] if inside else t.events
        for e in evs:
            if e.kind == 'lock':
                acc += 1
            if not e.guards and not inside:
                continue
            if inside and e.guards == () and e.kind == 'loop':
                continue
            held += 1
            w = effect(E, e, locking)
            c.ob('scope:%s:%s' % (name.split('::')[-1] if '{' not in name else name, e.kind + ' ' + tail(e.name)), w is None,
                 'while a reference into the session table is held, %s %s' % (e.fn, w), e.sp)
    return held, acc
