"""Service of connections: every path through one round of the loops of each accepting task is enumerated. A round that accepted a connection starts exactly
one reader and one writer task that own a half of exactly that connection, the writer with a subscription of its own made in that round; it
waits for nothing else and does not listen anew. The task never ends and never panics, whatever binding and accepting answer."""
from .net import *


def is_accept(e):
    return e.kind in ('await', 'call') and tail(e.name).split('::')[-1] in ('accept', 'poll_accept') and 'Listener' in e.name


def is_bind(e):
    return e.kind in ('await', 'call') and tail(e.name) in ('TcpListener::bind', 'TcpSocket::bind', 'TcpSocket::listen', 'TcpListener::from_std')


def accepted(E, facts, name):
    """results of accepting that are known to be a connection"""
    return {k[1] for k, v in facts.items() if k[0] == 'is' and (k[2] == 0) == v and k[1] in name}


def mentions_term(t, x):
    return any(y == x for y in subterms(t))


def spawned(E, events):
    """spawn events, with those of the spawned tasks themselves: (event, task)"""
    todo, seen = [e for e in events if e.kind == 'spawn'], set()
    while todo:
        e = todo.pop(0)
        x = E.task_traces.get(repr(e.x[1]))
        yield e, x
        if x and repr(e.x[1]) not in seen:
            seen.add(repr(e.x[1]))
            todo += [e2 for e2, t2 in uniq_events(x[2] or []) if e2.kind == 'spawn']


def check(c):
    c.rule = 'each accepted connection gets one reader and one writer of its own, and accepting goes on'
    E, av, start, tasks = wiring(c)
    n = 0
    for name, body, origin, trs in tasks:
        names = {e.res for e, t in uniq_events(trs) if is_accept(e)}
        if not names:
            if has(trs, is_bind):
                c.bad('listener:accepts', 'a task listens on an address and accepts no connections', body)
            continue
        c.sample({'task': body, 'origin': origin})
        for t in trs:
            last = t.events[-1].sp if t.events else body
            c.ob('accepting:never panics', t.kind != 'panic', 'the accepting task can panic', last)
            c.ob('accepting:never ends', t.kind != 'ret', 'the accepting task can end', last)
        for kind, t, loop in segments(trs):
            if t.kind == 'panic':
                c.bad('accepting:never panics', 'the accepting task can panic', t.events[-1].sp if t.events else body)
            if kind != 'iter' or not any(is_accept(e) for e, _ in uniq_events([t])):
                continue
            before = accepted(E, loop.facts or {}, names)
            new = accepted(E, t.facts, names) - before
            if not new:
                # the round must be one in which accepting failed or was not reached
                known = all(E.truth(t.facts, ('is', e.res, 0)) is False or E.truth(t.facts, ('is', e.res, 1)) is True for e in t.events if is_accept(e))
                c.ob('round:accepting checked', known, 'an accepted connection may be dropped', loop.sp)
                continue
            n += 1
            round_(c, E, t, loop, new)
    c.floor('rounds that accept a connection', n, 1)


def round_(c, E, t, loop, new):
    where = loop.sp
    c.ob('round:one connection', len(new) == 1, '%d connections are accepted before the first is served' % len(new), where)
    A = next(iter(new))
    events = list(t.events)
    for e in t.events:
        if e.kind == 'loop':
            for x in e.x['exits']:
                if A in {y.res for y in x.events if is_accept(y)}:
                    events += x.events
    readers, writers = [], []
    for e, x in spawned(E, events):
        mine = mentions_term(e.x[1], A)
        trs = x[2] if x else []
        if has(trs, lambda y: op(y) == 'read'):
            readers.append((e, mine))
        if has(trs, lambda y: op(y) == 'write'):
            writers.append((e, mine, x))
    for what, xs in (('reader', readers), ('writer', writers)):
        c.ob('round:one ' + what, len(xs) == 1, 'an accepted connection gets %d %ss' % (len(xs), what), where)
        c.ob('round:%s of the connection' % what, all(x[1] for x in xs), 'the %s does not serve the accepted connection' % what, where)
    subs = [e.res for e in events if e.kind == 'call' and tail(e.name) == 'Sender::subscribe']
    for e, mine, x in writers:
        own = any(mentions_term(e.x[1], s) for s in subs) or has(x[2], lambda y: y.kind == 'call' and tail(y.name) == 'Sender::subscribe')
        c.ob('writer:own subscription', own, 'the writer shares its queue with other connections', where)
    for e in events:
        if e.kind == 'await' or e.kind == 'call' and op(e) in ('read', 'write'):
            c.ob('round:keeps listening', not is_bind(e), 'listens anew after each connection; others that arrived are refused', e.sp)
            c.ob('round:waits for connections only', is_accept(e) or is_bind(e), 'accepting waits for %s' % tail(e.name), e.sp)
    c.ob('round:keeps listening', not any(is_bind(e) for e in events), 'listens anew after each connection; others that arrived are refused', where)
