"""The receiver: every path through one iteration of the loop that takes received texts is enumerated (all inputs and all
session tables are symbolic). On each path, a call of the application callback must be preceded by a parse of exactly the
text taken in this iteration, with the dictionary of the session table's entry under the reversed identity of that text, that
succeeded on this path, and by a verification of the parsed message that succeeded; its identity argument must be that reversed
identity. Paths that leave the loop must be those on which the queue has ended, and a path on which both steps succeeded
must call the application exactly once."""
from .net import *


def check(c):
    c.rule = 'the callback runs exactly with the message parsed and verified in the same iteration'
    E, av, start, tasks = wiring(c)
    global DDF
    DDF = fields_of(E, '::Session', lambda ty: mentions(ty, 'DataDictionary'))
    app = lambda e: e.kind == 'call' and e.name.endswith('::from_app')
    inloop = set()
    nrecv = ncall = 0
    for name, body, origin, trs in tasks:
        recv = lambda e: op(e) == 'recv' and 'broadcast' not in e.name
        if not has(trs, lambda e: recv(e) or app(e)):
            continue
        for kind, t, loop in segments(trs):
            if t.kind == 'panic':
                c.bad('receiver:goes on', 'a received text can end the thread that handles them: ' + show(t.events[-1].args)[:80] if t.events else '', body)
            rs = [e for e in t.events if recv(e)]
            apps = [e for e in t.events if app(e)]
            if kind == 'trace' or not rs:
                continue
            inloop |= {id(e) for e in apps}
            nrecv += 1
            ncall += len(apps)
            segment(c, E, t, kind, rs, apps, recv)
        c.ob('receiver:one thread', len([1 for k, t, l in segments(trs) if k == 'trace']) >= 1)
        c.sample({'task': body, 'origin': origin, 'kind': name})
    bodies = {b for n, b, o, trs in tasks if has(trs, app)}
    c.ob('callback:one place', len(bodies) == 1, 'the application is called from %s' % sorted(bodies))
    for name, body, origin, trs in tasks + [('', 'start', '', start)]:
        for e, t in uniq_events(trs):
            if app(e) and id(e) not in inloop and not any(x for x in t.events if op(x) == 'recv'):
                c.bad('callback:outside the receiver', 'the application is called without a received text', e.sp)
    c.floor('paths of the receive loop', nrecv, 3)
    c.floor('paths that call the application', ncall, 1)
    # nothing else calls it
    for n in (PARSE, VERIFY, SEND):
        E2 = c.engine(opaque=LOADER)
        for e, t in uniq_events(c.run(E2, c.anchor(E2, n))[1]):
            if app(e):
                c.bad('callback:outside the receiver', '%s calls the application' % n, e.sp)


def segment(c, E, t, kind, rs, apps, recv):
    where = rs[0].sp
    f = t.facts
    c.ob('receiver:one text at a time', len(rs) == 1, 'two texts are taken before the first is handled', where)
    r = rs[0].res
    got = E.truth(f, ('is', r, 1))
    if kind == 'exit':
        c.ob('receiver:goes on', got is False, 'the handling of received texts stops although there may be more', where)
    if got is not True:
        c.ob('callback:with a text', not apps, 'the application is called without a received text', where)
        return
    text = E.getfield(r, OPT + '.1.0')
    parses = [e for e in t.events if e.kind == 'call' and e.name.endswith(PARSE)]
    verifies = [e for e in t.events if e.kind == 'call' and e.name.endswith(VERIFY)]
    ids = [e for e in t.events if e.kind == 'call' and e.name.endswith(REVERSE) and e.args[0] == text]
    own = {e.res for e in ids}
    okparse = [e for e in parses if e.args[0] == text and E.truth(f, ('is', e.res, 0)) is True]
    for e in parses:
        c.ob('parse:own text', e.args[0] == text, 'parses %s instead of the received text' % show(e.args[0])[:80], e.sp)
        d = e.args[1]
        m = [x for x in subterms(d) if isinstance(x, tuple) and x and x[0] == 'app' and x[1] == 'get']
        good = d[0] == 'fld' and d[2] in DDF and d[1][0] == 'fld' and d[1][1][:2] == ('app', 'get') and d[1][1][3] in own
        c.ob('parse:dictionary of its session', good, 'parses with %s' % show(d)[:120], e.sp)
    msgs = [E.getfield(e.res, RES + '.0.0') for e in okparse]
    okver = [e for e in verifies if e.args[0] in msgs and E.truth(f, ('is', e.res, 0)) is True]
    evs = t.events
    for e in apps:
        args = e.args[1:] if len(e.args) == 4 else e.args
        sid, table, msg = args
        c.ob('callback:parsed message', msg in msgs, 'the application gets %s, which is not a message parsed from the received text' % show(msg)[:100], e.sp)
        before = [x for x in evs[:index(evs, e)]]
        c.ob('callback:verified', any(v.args[0] == msg and v in before for v in okver), 'the application gets a message that was not verified before', e.sp)
        c.ob('callback:own session', sid in own, 'the application gets the session %s' % show(sid)[:100], e.sp)
        good = all(part_of(p.args[1][1][1][2], table) for p in okparse if p.args[1][0] == 'fld' and p.args[1][1][0] == 'fld' and p.args[1][1][1][:2] == ('app', 'get'))
        c.ob('callback:session table', good, 'the application gets another session table', e.sp)
    c.ob('callback:once', len(apps) <= 1, 'the application gets one received text twice', where)
    c.count('paths of one received text')
    if okver:
        c.ob('callback:every message', len(apps) == 1, 'a message that was parsed and verified is not given to the application', where)
    elif okparse and not verifies:
        c.bad('callback:every message', 'a parsed message is not verified', where)
    elif not parses:
        # then there is no session
        gets = [k for k, v in f.items() if v is False and k[0] == 'is' and k[1][:2] == ('app', 'get') and k[2] == 1 and k[1][3] in own]
        c.ob('parse:every text', bool(gets), 'a received text is not parsed although its session exists', where)


def index(evs, e):
    for i, x in enumerate(evs):
        if x is e:
            return i
    return -1
