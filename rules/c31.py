"""Messages the library originates: the value given to the sending function is, on every path of every task, a message whose last two changes are the
body length and, after it, the checksum, and whose header by then has the fields every message must have; the sending time is the clock's
reading in UTC in the protocol's format, set in field 52 of the header and nowhere else."""
from .net import *

LEN, SUM, TIME = 'Message::set_body_len', 'Message::set_checksum', 'Message::set_sending_time'
MUST = (8, 35, 34, 49, 56, 52)


def last_change(t):
    return tail(t[2][1]) if t[:2] == ('app', 'mut') else None


def check(c):
    c.rule = 'messages of the library are complete, and length and checksum are set last, in this order'
    E, av, start, tasks = wiring(c, (PARSE, VERIFY, SEND, REVERSE, FORWARD, LEN, SUM))
    sending_time(c)
    n, seen = 0, set()
    send = E.find(SEND)
    for name, body, origin, trs in tasks:
        for e, t in uniq_events(trs):
            if e.kind != 'call' or send is None or e.name != send['id']:
                continue
            m = e.args[-1]
            x = m
            while x[:2] == ('app', 'mut'):
                x = x[4]
            if x[0] != 'adt' or m in seen:
                continue
            seen.add(m)
            n += 1
            done = last_change(m) == SUM and last_change(m[4]) == LEN
            c.ob('reply:length, then checksum, last', done, 'the last changes of the message are %s and %s' % (last_change(m), last_change(m[4]) if m[:2] == ('app', 'mut') else None), e.sp)
            x = m[4][4] if done else x
            heads = [E.getfield(x, f) for f in fields_of(E, 'message::Message', lambda ty: True) if f.endswith('.header')]
            have = {y[3]: y[4] for h in heads for y in subterms(h) if y[:2] == ('app', 'ins') and len(y) == 5 and y[3][0] == 'int'}
            for tag in MUST:
                c.ob('reply:field %d' % tag, I(tag) in have, 'the message has no field %d in its header' % tag, e.sp)
                v = have.get(I(tag))
                texts = [y for y in (v[3] if v is not None and v[0] == 'adt' else (v,)) if y is not None and y[0] == 'str']
                c.ob('reply:value of field %d' % tag, all(y[1] and '\x01' not in y[1] for y in texts), 'field %d of the message has no proper value' % tag, e.sp)
            if I(52) in have:
                c.ob('reply:sending time', is_time(have[I(52)]), 'the sending time of the message is %s' % show(have[I(52)])[:100], e.sp)
    c.floor('messages of the library', n, 1)


def is_time(fld):
    for y in subterms(fld):
        if y[:2] == ('app', 'text') and y[2][0] == 'app' and str(y[2][1]).endswith('::format') and y[2][3][0] == 'str':
            now = y[2][2]
            while now[0] == 'app' and str(now[1]).split('::')[-1] in ('naive_utc', 'clone'):
                now = now[2]
            return now[0] == 'sym' and str(now[1]).endswith('Utc::now') and y[2][3][1].replace('%T', '%H:%M:%S').replace('%F', '%Y-%m-%d') == '%Y%m%d-%H:%M:%S%.3f'
    return False


def sending_time(c):
    E = c.engine()
    b = c.anchor(E, TIME)
    av, trs = c.run(E, b)
    me0 = E.deep(trs[0].st, E.v(trs[0].st, av[0])) if trs else None
    head = [f for f in fields_of(E, 'message::Message', lambda ty: True) if f.endswith('.header')]
    for t in trs:
        c.ob('time:returns', t.kind == 'ret', 'setting the sending time may fail', b['span'])
        ups = [e for e in t.events if e.kind in ('insert', 'remove', 'clear', 'push', 'take')]
        c.ob('time:one field', len(ups) == 1 and ups[0].kind == 'insert' and ups[0].args[1] == I(52), 'sets other fields than the sending time', b['span'])
        for e in ups:
            c.ob('time:value', is_time(e.args[2]) and I(52) in e.args[2][3], 'sets %s' % show(e.args[2])[:120], e.sp)
            c.ob('time:header', any(h.split('.')[-1] in show(e.args[0]) for h in head), 'sets the sending time in %s' % show(e.args[0])[:80], e.sp)
    c.floor('ways to set the sending time', len(trs), 1)
