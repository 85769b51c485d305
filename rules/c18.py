"""Wiring of the acceptors, decided on the paths of starting them and on what the spawned tasks use. (1) Grouping: the loop over all
sessions adds each session, unconditionally, to the group of exactly the address made of its own configured accept port;
(2) the loop over the groups creates, on every path, one send queue, starts exactly one acceptor task that binds the
group's address, subscribes its connections to that queue and feeds the one receiver, and before that gives the queue to every session of
the group; (3) neither loop leaves out an element or ends early. The group container is treated as a symbolic map: loop induction
over its only writer shows that a session found in the group of an address has that address."""
from .net import *
from .dd import map_ops
from .settings import *

PORT = S('socket_accept_port')


def channel_of(t):
    """the channel a sender or receiver value belongs to, and which end"""
    while t[0] == 'app' and len(t) == 3 and 'clone' in str(t[1]).lower():
        t = t[2]
    if t[0] == 'fld' and t[1][0] == 'sym' and t[1][1].endswith('channel'):
        return t[1], t[2]
    return None, None


def check(c):
    c.rule = 'each session gets the queue of the acceptor of its own port, before that acceptor starts'
    E, av, trs, tasks = wiring(c)
    rets = [t for t in trs if t.kind == 'ret']
    c.ob('start:returns', bool(rets), 'starting the acceptor never returns')
    for t in trs:
        if t.kind == 'panic':
            c.ob('start:panic only without a usable port', portless(E, t), 'starting can panic although the configuration is valid: %s' % show(t.events[-1].args)[:100], t.events[-1].sp)
    for t in rets:
        wired(c, E, t)
    c.floor('acceptors wired', c.counts.get('acceptors wired', 0), 1)
    c.floor('grouping paths', c.counts.get('grouping paths', 0), 1)


def portless(E, t):
    """on this path some session has no port that can be parsed, neither its own nor a default one"""
    subs = [x for k in t.facts for x in subterms(k) if isinstance(x, tuple) and x]
    maps = {x[2] for x in subs if x[:2] == ('app', 'get') and x[2][0] == 'fld' and 'Properties.0.' in x[2][2]}
    for m in maps:
        S_ = Settings(E, m[1])
        if not S_.good or S_.map != m:
            continue
        for sid in {x[3] for x in subs if x[:3] == ('app', 'get', m)} - {S_.default}:
            own, dflt = val(m, sid), val(m, S_.default)
            fine = False
            for sec, more in ((own, [(has_key(m, sid), True)]), (dflt, [(has_key(m, sid), True), (has_key(own, PORT), False), (has_key(m, S_.default), True)])):
                f = assume(E, t.facts, more + [(has_key(sec, PORT), True)])
                for x in [x for x in subs if x[:3] == ('app', 'parse', S('u16'))]:
                    f = assume(E, f, [(('is', ('app', 'parse', S('u16'), x[3]), 0), True)])
                f = assume(E, f, [(('is', ('app', 'parse', S('u16'), val(sec, PORT)), 0), True)])
                if f is not None:
                    f = normal(E, f)
                fine = fine or f is not None
            if not fine:
                return True
    return False


def acceptor_task(E, ev):
    """traces of a spawned task that binds an address, or None"""
    x = E.task_traces.get(repr(ev.x[1]))
    if x is None:
        return None
    binds = [e for e, t in uniq_events(x[2]) if e.kind in ('await', 'call') and tail(e.name) in ('TcpListener::bind', 'TcpSocket::bind')]
    return (x, binds) if binds else None


def receives(E, ev):
    x = E.task_traces.get(repr(ev.x[1]))
    if x is None:
        return None
    es = [e for e, t in uniq_events(x[2]) if op(e) == 'recv' and 'mpsc' in e.name]
    return (x, es) if es else None


def tasks_of(E, trs):
    """the tasks spawned on these paths, and by those tasks"""
    out, todo = {}, [trs]
    while todo:
        for e, tr in uniq_events(todo.pop()):
            if e.kind == 'spawn' and repr(e.x[1]) not in out:
                x = E.task_traces.get(repr(e.x[1]))
                if x and x[2]:
                    out[repr(e.x[1])] = x
                    todo.append(x[2])
    return list(out.values())


def wired(c, E, t):
    recv = [(e, receives(E, e)) for e, tr in uniq_events([t]) if e.kind == 'spawn' and receives(E, e)]
    c.ob('receiver:one', len(recv) == 1 and recv[0][0] in t.events, '%d receivers are started' % len(recv))
    if not recv:
        return
    rx = None
    for lp, tr in uniq_events(recv[0][1][0][2]):
        if lp.kind == 'loop':
            for lv, (o, p, init) in lp.x['lvs'].items():
                if channel_of(E.deep(lp.x['pre'], init))[0]:
                    rx = channel_of(E.deep(lp.x['pre'], init))[0]
    if rx is None:
        for e in recv[0][1][1]:
            rx = channel_of(e.args[0])[0] or rx
    c.ob('receiver:queue', rx is not None, 'the queue the receiver takes from is not known')
    tables = [e.args[0] for e, tr in uniq_events(recv[0][1][0][2]) if e.kind == 'lock']
    n = 0
    for le in [e for e in t.events if e.kind == 'loop']:
        its = [(it, s) for it in le.x['iters'] for s in [[e for e, tr in uniq_events([it]) if e.kind == 'spawn' and acceptor_task(E, e)]]]
        if not any(s for it, s in its):
            continue
        n += 1
        src = None
        for it, spawns in its:
            src = group_iteration(c, E, it, le, spawns, rx, tables) or src
        for x in le.x['exits']:
            c.ob('acceptors:every address', any(k[0] == 'more' and v is False and k not in le.facts for k, v in x.facts.items()), 'the loop that starts the acceptors can end early', le.sp)
        if src is not None:
            grouping(c, E, t, le, src, tables)
    c.ob('acceptors:started', n == 1, '%d loops start acceptors' % n)
    direct = [e for e in t.events if e.kind == 'spawn' and acceptor_task(E, e)]
    c.ob('acceptors:only per address', not direct, 'an acceptor is started outside the loop over the addresses')


def new_more(it, le):
    """the element this iteration is about: (source, id)"""
    pre = le.facts or {}
    m = [k for k, v in it.facts.items() if k[0] == 'more' and v is True and k not in pre]
    return (m[0][1], m[0][2]) if m else None


def group_iteration(c, E, it, le, spawns, rx, tables):
    """one address: returns (collection of groups, path of the members inside a group)"""
    where = le.sp
    el = new_more(it, le)
    if el is None:
        c.bad('acceptors:loop', 'the loop that starts the acceptors does not go over a collection', where)
        return None
    if not spawns:
        c.bad('acceptors:one per address', 'an address gets no acceptor on some path', where)
        return None
    c.ob('acceptors:one per address', len(spawns) == 1 and spawns[0] in it.events, '%d acceptors are started for one address' % len(spawns), where)
    M, i = el
    key = ('elk', M, i)
    (name, body, ttr), binds = acceptor_task(E, spawns[0])
    c.count('acceptors wired')
    c.ob('acceptor:asynchronous task', not name.startswith('thread'), 'an acceptor is not started on the runtime', spawns[0].sp)
    for b in binds:
        c.ob('acceptor:own address', b.args[-1] in (key, ('el', M, i)) or b.args[-1] == address_of_group(E, M, i), 'listens on %s' % show(b.args[-1])[:80], b.sp)
    subs = [e for ts in [ttr] + [x[2] for x in tasks_of(E, ttr)] for e, tr in uniq_events(ts) if e.kind == 'call' and tail(e.name) == 'Sender::subscribe']
    chans = {channel_of(e.args[0])[0] for e in subs}
    c.ob('acceptor:one queue', len(chans) == 1 and None not in chans, 'connections take messages from %s' % [show(x)[:40] if x else '?' for x in chans], spawns[0].sp)
    ch = next(iter(chans)) if len(chans) == 1 else None
    made = [e for e in it.events if e.kind == 'call' and e.res == ch]
    c.ob('acceptor:own queue', bool(made), 'acceptors share one queue', spawns[0].sp)
    # what the connections hand on goes to the receiver
    fed = set()
    for x in tasks_of(E, ttr):
        for e2, tr2 in uniq_events(x[2]):
            if op(e2) == 'send' and 'mpsc' in e2.name:
                fed.add(channel_of(e2.args[0])[0])
    c.ob('acceptor:feeds the receiver', fed == {rx}, 'received texts go to %s' % [show(x)[:40] if x else '?' for x in fed], spawns[0].sp)
    # the sessions of the address get the sender before
    pos = [id(x) for x in it.events].index(id(spawns[0])) if spawns[0] in it.events else len(it.events)
    path = None
    given = False
    for e in it.events[:pos]:
        if e.kind != 'loop':
            continue
        mods = [x for x, tr in uniq_events(e.x['iters']) if x.kind == 'modify' and x.name == 'DashMap']
        if not mods:
            continue
        for j in e.x['iters']:
            inner = new_more(j, e)
            if inner is None:
                c.bad('sessions:loop', 'the loop that hands out senders does not go over a collection', e.sp)
                continue
            sid = (('elk',) + inner, ('el',) + inner)
            ms = [x for x in j.events if x.kind == 'modify']
            for x in ms:
                c.ob('session:member of the address', x.args[1] in sid, 'gives the sender to %s' % show(x.args[1])[:80], x.sp)
                c.ob('session:table of the receiver', x.args[0] in tables, 'sets the sender in another table', x.sp)
                snd = [y for y in set(subterms(x.args[2])) if isinstance(y, tuple) and y and y[0] == 'fld' and channel_of(y)[0]]
                now = [y for y in snd]
                c.ob('session:sender of its acceptor', {channel_of(y)[0] for y in now} == {ch} and present(E, x.facts, x.args[2], now), 'gives a session %s' % [show(y)[:60] for y in now], x.sp)
            absent = [k for k, v in j.facts.items() if v is False and k[0] == 'is' and k[2] == 1 and k[1][:2] == ('app', 'get') and k[1][2] in tables and k[1][3] in sid]
            c.ob('session:every member', len(ms) == 1 or bool(absent), 'a session of the address gets no sender on some path', e.sp)
            path = project(inner[0], M, i)
        for x in e.x['exits']:
            c.ob('session:loop to the end', any(k[0] == 'more' and v is False and k not in e.facts for k, v in x.facts.items()), 'the loop that hands out senders can end early', e.sp)
        given = True
        c.ob('session:members of the group', path is not None, 'the loop that hands out senders does not go over the group of the address', e.sp)
    late = [x for e in it.events[pos:] for x in ([e] if e.kind != 'loop' else [y for y, tr in uniq_events(e.x['iters'])]) if x.kind == 'modify']
    c.ob('session:before the acceptor starts', given and not late, 'sessions get their sender only after the acceptor was started' if late else 'sessions get no sender', where)
    return (M, path) if path is not None else None


def present(E, facts, sess, senders):
    """the field for the sender holds it"""
    fs = fields_of(E, '::Session', lambda ty: mentions(ty, 'broadcast::Sender'))
    return any(simp(E, facts, E.getfield(sess, f)) == some(s) for f in fs for s in senders)


def project(t, M, i):
    """path of fields from an element of M to t, or None"""
    path = ()
    while t[0] == 'fld':
        path = (t[2],) + path
        t = t[1]
    if t in (('elv', M, ('elk', M, i)), ('el', M, i)) or t[:2] == ('elv', M):
        return path
    if t[:2] == ('app', 'get') and t[2] == M:
        return path
    return None


def address_of_group(E, M, i):
    return ('fld', ('elv', M, ('elk', M, i)), next(iter(fields_of(E, '::SocketDescriptor', lambda ty: mentions(ty, 'SocketAddr') and not mentions(ty, 'HashMap'))), '?'))


def lookup_port(E, t, sid):
    """t is the port parsed from the setting of the session (its own or else the default one)"""
    if t[0] != 'fld' or t[1][:2] != ('app', 'parse'):
        return False
    src = t[1][3]
    leaves = []

    def walk(x):
        if x[0] == 'ite':
            walk(x[2])
            walk(x[3])
        else:
            leaves.append(x)
    walk(src)
    ok_ = bool(leaves)
    own = False
    for x in leaves:
        g = x[1] if x[0] == 'fld' else x
        if not (x[0] == 'fld' and g[:2] == ('app', 'get') and g[3] == PORT):
            return False
        sec = g[2]
        if sec[0] == 'fld' and sec[1][:2] == ('app', 'get') and sec[1][3] == sid:
            own = True
        elif 'default' not in show(sec[1][3] if sec[0] == 'fld' and sec[1][:2] == ('app', 'get') else sec):
            return False
    return ok_


def grouping(c, E, t, le, src, tables):
    M, path = src
    writers = [e for e, tr in uniq_events([t]) if e.kind == 'loop' and M in e.x['lvs']]
    if not writers:
        c.bad('groups:built', 'the groups of sessions are not built in a loop of the same function', le.sp)
        return
    w = writers[0]
    o, p, init = w.x['lvs'][M]
    c.ob('groups:start empty', E.deep(w.x['pre'], init) == ('app', 'emptymap'), 'the groups do not start empty', w.sp)
    for x in w.x['exits']:
        if x.kind == 'panic':
            continue
        pan = x.events and x.events[-1].kind == 'panic'
        c.ob('groups:every session', pan or any(k[0] == 'more' and v is False and k not in w.facts for k, v in x.facts.items()), 'the loop over the sessions can end early', w.sp)
    all_sessions = False
    for (v, facts), it in zip(E.recvals[M][1], w.x['iters']):
        c.count('grouping paths')
        el = new_more(it, w)
        if el is None:
            c.bad('groups:loop', 'the groups are not built over a collection', w.sp)
            continue
        S_, i = el
        sid = ('elk', S_, i)
        all_sessions = sessions_source(c, E, t, S_, tables)
        ops = map_ops(v, M)
        keys = {k for o_, k, v_ in ops or []}
        good = ops is not None and len(keys) == 1
        c.ob('groups:one address per session', good, 'a session is added to %s groups' % (len(keys) if ops is not None else '?'), w.sp)
        if not good:
            continue
        A = next(iter(keys))
        port = [x for x in set(subterms(A)) if isinstance(x, tuple) and lookup_port(E, x, sid)] if isinstance(A, tuple) else []
        c.ob('groups:address of the own port', len(port) >= 1 and address_text(A, port[0]), 'a session is grouped under %s' % show(A)[:160], w.sp)
        val = ops[0][2]
        c.ob('groups:adds the session', adds(E, facts, val, M, A, sid, path), 'the group becomes %s' % show(val)[:160], w.sp)
    c.ob('groups:all sessions', all_sessions, 'the groups are not built from all sessions of the table', w.sp)


def address_text(A, port):
    for x in subterms(A):
        if isinstance(x, tuple) and len(x) > 3 and x[:2] == ('app', 'parse') and 'SocketAddr' in repr(x[2]):
            y = x[3]
            return y == ('app', 'cat', S('127.0.0.1:'), ('app', 'dec', port))
    return sorted(addr_parts(A, port)) == ['ip', 'port']


def addr_parts(x, port):
    """what an address value is made of"""
    if x == port:
        return ['port']
    if x == S('127.0.0.1') or x[0] == 'int' and x[1] == 0x7f000001 or 'LOCALHOST' in str(x[1]) or x[0] == 'arr' and x[1] == (I(127), I(0), I(0), I(1)):
        return ['ip']
    if x[0] == 'app' and str(x[1]).startswith('Ipv4Addr') and x[2:6] == (I(127), I(0), I(0), I(1)):
        return ['ip']
    if x[0] == 'fld':
        return addr_parts(x[1], port)
    if x[:2] == ('app', 'parse'):
        return addr_parts(x[3], port) if 'Addr' in x[2][1] else ['?']
    if x[0] == 'app' and x[1] in ('from', 'into') and len(x) > 3 and x[2][0] == 'str':
        return addr_parts(x[3], port) if 'Addr' in x[2][1] else ['?']
    if x[0] == 'app' and (str(x[1]).split('::')[0] in ('SocketAddr', 'SocketAddrV4', 'IpAddr', 'From', 'Into')):
        return [z for y in x[2:] for z in (addr_parts(y, port) if isinstance(y, tuple) else [])]
    if x[0] == 'adt' and 'net::' in x[1] or x[0] == 'tup':
        return [z for y in (x[3] if x[0] == 'adt' else x[1]) for z in addr_parts(y, port)]
    return ['?']


def adds(E, facts, val, M, A, sid, path):
    """the members at PATH of the group are those before plus this session"""
    cont = val
    for f in path:
        cont = E.getfield(cont, f)
    base = ('fld', ('app', 'get', M, A), OPT + '.1.0')
    for f in path:
        base = E.getfield(base, f)
    while True:
        if cont[0] == 'app' and cont[1] == 'ins' and cont[3] == sid:
            cont = cont[2]
        elif cont[0] == 'sins' and cont[2] == sid:
            cont = cont[1]
        elif cont[0] == 'app' and cont[1] in ('push', 'sins') and cont[3] == sid:
            cont = cont[2]
        elif cont[0] == 'arr' and cont[1] == (sid,):
            cont = ('arr', ())
        else:
            return False
        there = E.truth(facts, ('is', ('app', 'get', M, A), 1))
        if cont == base and there is not False:
            return True
        if cont in (('app', 'emptymap'), ('arr', ())):
            return there is False


def sessions_source(c, E, t, S_, tables):
    """the collection holds every session of the table"""
    if S_ in tables:
        return True
    for e, tr in uniq_events([t]):
        if e.kind == 'loop' and S_ in e.x['lvs']:
            o, p, init = e.x['lvs'][S_]
            if E.deep(e.x['pre'], init) not in (('app', 'emptymap'), ('arr', ())):
                return False
            for it in e.x['iters']:
                el = new_more(it, e)
                if el is None or el[0] not in tables:
                    return False
                ins = [x for x in it.events if x.kind in ('insert', 'push')]
                if not any(('elk',) + el in x.args or any(('elk',) + el in subterms(a) for a in x.args) for x in ins):
                    return False
            return bool(e.x['iters']) and all(any(k[0] == 'more' and v is False for k, v in x.facts.items()) for x in e.x['exits'])
    return False
