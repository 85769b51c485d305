"""The writer, as a typestate of each task that takes messages from a connection's send queue: idle, message taken, written, failed,
closed. It is followed along every path and round every loop (rules/auto.py). A message that was taken is written before another is
taken: one awaited write of the whole of exactly that message to the connection's own write half; nothing is taken after the queue
was closed or a write may have failed, and the task stops only then, so a receiver that fell behind goes on. Sending is checked
from its side too: a message for a session that has a sender is put on it exactly once as its printed form, on every path."""
from .net import *
from .auto import Follow


def is_recv(e):
    return op(e) == 'recv' and 'broadcast' in e.name


def check(c):
    c.rule = 'each message taken from the queue is written whole, once, before the next'
    E, av, start, tasks = wiring(c)
    for name, body, origin, trs in tasks:
        if not has(trs, is_recv):
            continue
        W = Writer(c, E, body, loop_origins(E, trs))
        W.fol = Follow(E, W)
        W.fol.follow(trs, ('idle',))
        c.sample({'task': body, 'origin': origin})
    c.floor('messages taken', c.counts.get('messages taken', 0), 1)
    c.floor('messages written', c.counts.get('messages written', 0), 1)
    sending(c)


def loop_origins(E, trs):
    out = {}
    for e, t in uniq_events(trs):
        if e.kind == 'loop':
            for lv, (o, p, init) in e.x['lvs'].items():
                out[lv] = E.deep(e.x['pre'], init)
    return out


def origin_of(t, origins):
    for _ in range(50):
        if t in origins and origins[t] != t:
            t = origins[t]
        else:
            return t
    return t


class Writer:
    """states: idle; took (a message may have been taken); has (one was); wrote (not known yet whether it failed); failed; closed;
    unsure (a flush may have failed)"""

    def __init__(self, c, E, body, origins):
        self.c, self.E, self.body, self.origins, self.met = c, E, body, origins, set()

    def count(self, what, e, t):
        if (id(e), id(t)) not in self.met:
            self.met.add((id(e), id(t)))
            self.c.count(what)

    def settle(self, i, t):
        a, E, known = i.abs, self.E, self.fol.known
        if a[0] == 'took':
            k = known(i, t, a[1].res, 0)
            if k is True:
                return ('has', a[1])
            if k is False or known(i, t, a[1].res, 1) is True:
                end = known(i, t, E.getfield(a[1].res, RES + '.1.0'), 0)
                return a if end is None else ('closed',) if end else ('idle',)
        elif a[0] == 'wrote':
            k = known(i, t, a[1].res, 0)
            return a if k is None else ('idle',) if k else ('failed',)
        elif a[0] == 'flushed':
            return ('idle',) if known(i, t, a[1].res, 0) is True else ('unsure',)
        return a

    def enter(self, i, le, t):
        return i

    def back(self, i, le, t):
        return i

    def step(self, i, e, t):
        c, E = self.c, self.E
        if is_recv(e):
            a = self.settle(i, t)
            self.count('messages taken', e, t)
            q = origin_of(e.args[0], self.origins)
            c.ob('writer:own queue', q[0] == 'app' and 'subscribe' in str(q[1]) or 'broadcast' in repr(q)[:400], 'takes messages from %s' % show(q)[:80], e.sp)
            c.ob('writer:one message at a time', a[0] not in ('took', 'has'), 'a message is taken before the one before it is written', e.sp)
            c.ob('writer:stops at the end of the queue', a[0] != 'closed', 'goes on although the queue is closed', e.sp)
            c.ob('writer:stops after a failed write', a[0] not in ('failed', 'wrote'), 'goes on after a write that may have failed', e.sp)
            return ('took', e)
        if op(e) != 'write':
            return None
        a = self.settle(i, t)
        if tail(e.name).endswith(('flush', 'shutdown')):
            return ('flushed', e) if a[0] in ('idle', 'unsure') else None
        self.count('messages written', e, t)
        c.ob('write:whole', tail(e.name).endswith('write_all'), '%s may write only a part' % e.name, e.sp)
        c.ob('write:awaited', e.kind == 'await', 'the write is not waited for', e.sp)
        c.ob('write:every message', a[0] not in ('wrote', 'idle', 'unsure', 'failed', 'closed'), 'writes something that was not taken from the queue, or writes it again', e.sp)
        if a[0] == 'has' or a[0] == 'took':
            c.ob('writer:only what was taken', a[0] == 'has', 'writes although nothing may have been taken', e.sp)
            msg = E.getfield(a[1].res, RES + '.0.0')
            got = e.args[1] if i.own else self.fol.norm(i, e.args[1])
            c.ob('write:the message', simp(E, t.facts, got) == simp(E, t.facts, msg), 'writes %s instead of the message taken' % show(e.args[1])[:80], e.sp)
        o = origin_of(e.args[0], self.origins)
        while o[0] == 'fld':
            o = o[1]
        own = o[0] == 'app' and 'into_split' in str(o[1])
        n = [id(x) for x in t.events].index(id(e))
        flushed = any(op(x) == 'write' and tail(x.name).endswith('flush') and x.kind == 'await' for x in t.events[n + 1:])
        c.ob('write:to the connection', own or flushed and 'into_split' in repr(o), 'writes to %s' % show(o)[:80], e.sp)
        return ('wrote', e)

    def end(self, i, t):
        c, a = self.c, self.settle(i, t)
        c.count('ways to stop')
        if t.kind == 'panic':
            c.bad('writer:no panic', 'the writer can panic', self.body)
        elif t.kind != 'diverge':
            c.ob('write:every message', a[0] != 'has', 'stops without writing the message it took', self.body)
            c.ob('writer:goes on after falling behind', a[0] not in ('idle', 'took'), 'stops although messages may follow', self.body)
            c.ob('writer:stops only after a failure', a[0] != 'wrote', 'stops although the message was written', self.body)


def sending(c):
    E = c.engine(opaque=LOADER)
    E.opaque |= {i for i in E.bodies if i == '<message::Message as std::fmt::Display>::fmt'}
    b = c.anchor(E, SEND)
    av, trs = c.run(E, b)
    tx = fields_of(E, '::Session', lambda ty: mentions(ty, 'broadcast::Sender'))
    sender_of = lambda x: x[0] == 'fld' and x[2] in tx and x[1][0] == 'fld' and x[1][1][:2] == ('app', 'get') and x[1][1][3] == sid
    sid = E.deep(trs[0].st, E.v(trs[0].st, av[0]))
    msg = E.deep(trs[0].st, E.v(trs[0].st, av[2]))
    n = 0
    for t in trs:
        if t.kind != 'ret':
            c.bad('send:returns', 'sending a message may not return', b['span'])
            continue
        sends = [e for e in t.events if op(e) == 'send']
        loops = [e for e in t.events if e.kind == 'loop']
        for e, tr in uniq_events([t]):
            if op(e) == 'send' and e not in sends:
                c.bad('send:once', 'a message is sent in a loop', e.sp)
        # the sender of the session: an optional field of the entry under the given id
        present = [k for k, v in t.facts.items() if v is True and k[0] == 'is' and k[2] == 1 and sender_of(k[1])]
        for e in sends:
            n += 1
            c.ob('send:the message', e.args[-1] == ('app', 'text', msg), 'sends %s instead of the message' % show(e.args[-1])[:80], e.sp)
            c.ob('send:own sender', e.args[0][0] == 'fld' and sender_of(e.args[0][1]), 'sends to %s' % show(e.args[0])[:80], e.sp)
        c.ob('send:every message', len(sends) == (1 if present else 0), '%d sends to a session that has %s sender' % (len(sends), 'a' if present else 'no'), b['span'])
    c.floor('sends', n, 1)
