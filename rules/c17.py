"""Framing, as a typestate of the read buffer: the checker follows, along every path of the reader task and round every loop
(rules/auto.py), the value the buffer must have (the bytes read since the last message was handed on) and what the last read gave.
It is empty at the start; a read appends exactly the bytes read up to the field delimiter; handing on requires that the value sent is
exactly the buffer, that the bytes of the last read start with 10= and that the buffer ends with the delimiter (all facts of the path
on which they were read), and empties it. Nothing more is read after a complete message, a failed read, the end of the stream or a
refused send, and the task stops only after one of the last three."""
from .net import *
from .auto import Follow
from .compose import assume

SOHB = ('int', 1)
TAG = S('10=')
NOTHING = ('arr', ())


def is_read(e):
    return op(e) == 'read'


def is_send(e):
    return op(e) == 'send' and 'mpsc' in e.name


class Reader:
    """state: (bytes pending, last), last being None, ('read', event, bytes pending after it, bytes it gave) with the latter two None
    when the read failed, or ('sent', event)"""

    def __init__(self, c, E, body):
        self.c, self.E, self.body = c, E, body
        self.objs, self.met = set(), set()

    def count(self, what, e, t):
        if (id(e), id(t)) not in self.met:
            self.met.add((id(e), id(t)))
            self.c.count(what)

    def settle(self, i, t):
        return i.abs

    def enter(self, i, le, t):
        return self.at_head(i, le, lambda o, p, init: self.E.deep(le.x['pre'], init), 'enter')

    def back(self, i, le, t):
        return self.at_head(i, le, lambda o, p, init: simp(self.E, t.facts, self.E.deep(t.st, self.E.read(t.st, o, p))), 'back')

    def at_head(self, i, le, value, how):
        """the pending bytes in terms of the loop's variables"""
        pend, last = i.abs
        if pend is None or pend == NOTHING:
            return i
        for lv, (o, p, init) in le.x['lvs'].items():
            if not p and pend in (value(o, p, init), self.fol.norm(i, value(o, p, init), True)):
                i.vals.pop(lv, None)
                i.abs = (lv, last)
                return i
        # a buffer that the loop does not change keeps what it has
        if how == 'enter' and not any(o in self.objs for o, p, init in le.x['lvs'].values()):
            return i
        if any(o in self.objs for o, p, init in le.x['lvs'].values()) or how == 'back' and any(x[0] == 'app' and x[1] == 'readinto' for x in subterms(pend)):
            self.c.bad('loop:keeps what is pending', 'the buffer does not hold %s any more when the loop goes round' % show(pend)[:80], le.sp)
        return i

    def step(self, i, e, t):
        c, E = self.c, self.E
        if is_read(e):
            self.count('reads followed', e, t)
            if not tail(e.name).endswith('read_until'):
                c.bad('read:kind', 'reads with %s, which the rule does not know' % e.name, e.sp)
                return (None, None)
            pend, last = i.abs
            self.may_go_on(i, t, last, e)
            c.ob('read:delimiter', e.args[1] == SOHB, 'a field is read up to %s' % show(e.args[1]), e.sp)
            if pend is not None:
                # into the buffer, or into an empty one whose contents must then get to the buffer
                own = e.args[2] == NOTHING
                c.ob('read:appends to what is pending', own or e.args[2] == pend or self.fol.norm(i, e.args[2]) == pend,
                     'reads after %s, while %s is pending' % (show(e.args[2])[:80], show(pend)[:80]), e.sp)
                if own and E.truth(t.facts, ('is', e.res, 0)) is True:
                    now = ('app', 'readinto', pend, e.args[1], e.data)
                    return (now, ('read', e, now, e.data))
            if len(e.raw) > 2 and e.raw[2][0] == 'ref':
                self.objs.add(e.raw[2][1])
            if E.truth(t.facts, ('is', e.res, 0)) is not True:
                return (pend, ('read', e, None, None))
            now = ('app', 'readinto', e.args[2], e.args[1], e.data)
            return (now, ('read', e, now, e.data))
        if is_send(e):
            self.count('messages handed on', e, t)
            pend, last = i.abs
            v = e.args[-1]
            good = pend is not None and any(x in (('app', 'lossy', pend), ('app', 'utf8', pend), pend) for x in (v, self.fol.norm(i, v)))
            c.ob('send:exactly the pending bytes', good, 'hands on %s while %s was read' % (show(v)[:80], show(pend)[:80] if pend else '?'), e.sp)
            c.ob('send:complete message', self.complete(i, t, last), 'hands on bytes that do not end with a terminated checksum field', e.sp)
            return (NOTHING, ('sent', e))
        return None

    def may_go_on(self, i, t, last, e):
        c = self.c
        if last is None:
            return
        if last[0] == 'sent':
            c.ob('loop:goes on after a closed queue', self.fol.known(i, t, last[1].res, 0) is not False, 'reading goes on although nobody receives', e.sp)
        elif last[3] is None:
            c.bad('loop:goes on after a failed read', 'a failed read is repeated', e.sp)
        else:
            c.ob('loop:stops at the end of the stream', self.some(i, t, last), 'reading goes on although the stream may have ended', e.sp)
            c.ob('loop:complete message is handed on', self.starts(i, t, last) is False or self.ended(i, t, last) is False,
                 'a terminated checksum field does not end the message', e.sp)

    def facts(self, i, t):
        return t.facts if i.own else i.facts

    def complete(self, i, t, last):
        return last is not None and last[0] == 'read' and last[3] is not None and self.ended(i, t, last) is True and self.starts(i, t, last) is True

    def names(self, last):
        """the bytes of the last read, and a buffer of their own that holds them"""
        return (last[3], ('app', 'readinto', NOTHING, last[1].args[1], last[3]))

    def starts(self, i, t, last):
        """the bytes of the last read start with the checksum tag"""
        for chunk in self.names(last):
            x = self.starts_with(i, t, chunk)
            if x is not None:
                return x
        return None

    def starts_with(self, i, t, chunk):
        E, f = self.E, self.facts(i, t)
        x = E.truth(f, ('pre', chunk, TAG))
        if x is not None:
            return x
        enough = pos(sub(('app', 'len', chunk), I(2)))
        for tag in (TAG, ('arr', tuple(('int', ord(x)) for x in '10='))):
            first = mk_eq(('app', 'slice', chunk, ('int', 0), ('int', 3)), tag)
            x = E.truth(f, first)
            if x is not None:
                return x
            if assume(E, f, [(enough, True), (first, True)]) is None:
                return False
        long = E.truth(f, enough)
        same = [E.truth(f, mk_eq(('app', 'at', chunk, I(k)) if k else ('app', 'front', chunk), ('int', ord(ch)))) for k, ch in enumerate('10=')]
        if long is False or False in same:
            return False
        return True if long is True and all(same) else None

    def ended(self, i, t, last, chunk_only=False):
        """the last byte read is the delimiter"""
        E, f = self.E, self.facts(i, t)
        look = [(f, x) for x in self.names(last)] + ([] if chunk_only else [(f, last[2])])
        if not chunk_only and not i.own and i.abs[0] is not None and i.abs[0] != NOTHING:
            look.append((t.facts, i.abs[0]))
        for g, v in look:
            x = E.truth(g, mk_eq(('app', 'back', v), SOHB))
            if x is None:
                x = E.truth(g, ('suf', v, S('\x01')))
            if x is not None:
                return x
        return None

    def empty(self, i, t, last):
        E, f, chunk = self.E, self.facts(i, t), last[3]
        x = E.truth(f, mk_eq(('app', 'len', chunk), ('int', 0)))
        if x is None:
            x = E.truth(f, pos(('app', 'len', chunk)))
            x = None if x is None else not x
        return x

    def some(self, i, t, last):
        """the last read gave something"""
        return self.empty(i, t, last) is False or self.ended(i, t, last, True) is True or self.starts(i, t, last) is True

    def over(self, i, t):
        """the stream ended or failed, or the queue was closed"""
        E, last = self.E, i.abs[1]
        if last is None:
            return False
        if last[0] == 'sent':
            return self.fol.known(i, t, last[1].res, 0) is False
        if last[3] is None:
            return self.fol.known(i, t, last[1].res, 0) is False
        if self.empty(i, t, last) is True or self.ended(i, t, last) is False:
            return True
        return any(assume(E, self.facts(i, t), [(mk_eq(('app', 'len', last[3]), ('int', 0)), False), (mk_eq(('app', 'back', x), SOHB), True)]) is None
                   for x in (last[2],) + self.names(last))

    def end(self, i, t):
        c = self.c
        c.count('ways to stop')
        if t.kind == 'panic':
            c.bad('reader:no panic', 'the reader can panic', self.body)
        elif t.kind != 'diverge':
            last = i.abs[1]
            c.ob('loop:complete message is handed on', not self.complete(i, t, last), 'a complete message is not handed on', self.body)
            c.ob('exit:only at the end of the stream, a failure or a closed queue', self.over(i, t), 'reading stops although the stream goes on', self.body)


def check(c):
    c.rule = 'the buffer holds exactly the bytes since the last message and is handed on at a terminated checksum field'
    E, av, start, tasks = wiring(c)
    n = 0
    for name, body, origin, trs in tasks:
        if not has(trs, is_read):
            continue
        n += 1
        R = Reader(c, E, body)
        for e, t in uniq_events(trs):
            if is_read(e) and len(e.raw) > 2 and e.raw[2][0] == 'ref':
                R.objs.add(e.raw[2][1])
        R.fol = Follow(E, R)
        R.fol.follow(trs, (NOTHING, None))
        c.sample({'task': body, 'origin': origin})
    c.floor('reader tasks', n, 1)
    c.floor('reads followed', c.counts.get('reads followed', 0), 1)
    c.floor('messages handed on', c.counts.get('messages handed on', 0), 1)
