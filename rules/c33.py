"""Creation of an acceptor: run once for each connection type a loaded configuration can have. No path panics; the connection type, the settings
and the application are the given ones; and the session table is followed back to the loop that fills it: by loop induction it holds, for every
section of the settings but the default one and for no other id, the session made of exactly these settings for that id."""
from .net import *
from .compose import *
from .settings import *
from .dd import map_ops

MAKE = 'Session::with_settings'


def check(c):
    c.rule = 'the table of a new acceptor holds exactly one session per configured session id, made from its settings'
    E = c.engine(opaque=LOADER)
    make = c.anchor(E, MAKE)
    E.opaque.add(make['id'])
    b = c.anchor(E, 'SocketAcceptor::<A>::new')
    av, trs = c.run(E, b)
    st0 = trs[0].st
    args = [E.deep(st0, E.v(st0, a)) for a in av]
    props = next((a for a, l in zip(args, b['locals'][1:]) if mentions(E.ty(l['ty']), 'Properties')), None)
    app = next((a for a, l in zip(args, b['locals'][1:]) if E.ty(l['ty'])[0] == 'param'), None)
    if not c.ob('anchor:arguments', props is not None, 'an acceptor is no longer made from settings'):
        return
    S_ = Settings(E, props)
    c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
    if not S_.good:
        return
    sec = val(S_.map, S_.default)
    ct = val(sec, S('connection_type'))
    n = 0
    for text, variant in (('acceptor', 'ACCEPTOR'), ('initiator', 'INITIATOR')):
        given = assume(E, {}, [(has_key(S_.map, S_.default), True), (has_key(sec, S('connection_type')), True), (mk_eq(ct, S(text)), True)])
        av, trs = E.run(b, None, given)
        c.note(E, '%s with connection type %s' % (b['id'], text), trs)
        for t in trs:
            where = t.events[-1].sp if t.events else b['span']
            if not c.ob('new:never panics', t.kind == 'ret', 'creating an acceptor of loaded settings can panic (connection type %s)' % text, where):
                continue
            n += 1
            v = E.deep(t.st, t.val)
            for f in fields_of(E, '::SocketAcceptor', lambda ty: ty[0] == 'adt' and ty[1].endswith('ConnectionType')):
                bad = [x for g, x in cases(E, t.facts, E.getfield(v, f)) if not is_variant(E, x, variant) and normal(E, g) is not None]
                c.ob('new:connection type', not bad, 'the connection type %s is taken as %s' % (text, show(bad[0])[:60] if bad else ''), b['span'])
            for f in fields_of(E, '::SocketAcceptor', lambda ty: ty[0] == 'adt' and ty[1].endswith('::Properties')):
                c.ob('new:settings kept', E.getfield(v, f) == props, 'the acceptor works with other settings', b['span'])
            if app is not None:
                c.ob('new:application kept', any(x == app for x in subterms(v)), 'the acceptor works with another application', b['span'])
            tables = []
            for f in fields_of(E, '::SocketAcceptor', lambda ty: mentions(ty, 'SessionMap') or mentions(ty, 'DashMap')):
                x = E.getfield(v, f)
                inner = fields_of(E, '::SessionMap', lambda ty: mentions(ty, 'DashMap')) if x[0] == 'adt' else []
                tables += [E.getfield(x, g) for g in inner] or [x]
            c.ob('anchor:session table', len(tables) == 1, '%d session tables' % len(tables), b['span'])
            for m in tables:
                filled(c, E, t, m, props, S_)
    c.floor('ways to create an acceptor', n, 2)
    c.floor('rounds that make a session', c.counts.get('rounds that make a session', 0), 1)


def is_variant(E, x, variant):
    if x[0] != 'adt' or x[1] not in E.adts:
        return False
    vs = E.adts[x[1]]['v']
    return x[2] < len(vs) and vs[x[2]]['n'].upper() == variant


def loop_of(t, lv):
    return next((e for e, tr in uniq_events([t]) if e.kind == 'loop' and lv in e.x['lvs']), None)


def member(it, le):
    pre = le.facts or {}
    m = [k for k, v in it.facts.items() if k[0] == 'more' and v is True and k not in pre]
    return (m[0][1], m[0][2]) if len(m) == 1 else None


def source(c, E, t, src, S_, seen=()):
    """what going over SRC gives: 'all' the ids of sections, 'sessions' (all but the default one), or None"""
    if src == S_.map:
        return 'all'
    if src[0] == 'app' and src[1] in ('keys', 'clone', 'sorted') and len(src) > 2:
        return source(c, E, t, src[2], S_, seen)
    le = loop_of(t, src)
    if le is None or src in seen:
        return None
    o, p, init = le.x['lvs'][src]
    if E.deep(le.x['pre'], init) not in (('app', 'emptymap'), ('arr', ())) or not to_end(c, le):
        return None
    kinds = set()
    for (v, facts), it in zip(E.recvals[src][1], le.x['iters']):
        el = member(it, le)
        if el is None:
            return None
        kind = source(c, E, t, el[0], S_, seen + (src,))
        if kind is None:
            return None
        kinds.add('sessions')
        got = v in (('app', 'push', src, x) for x in ids(el)) or v in (('app', 'sins', src, x) for x in ids(el)) or v in (('sins', src, x) for x in ids(el))
        d = default(E, it.facts, el, S_, kind)
        if got and d is not False or not got and not (v == src and d is True):
            return None
    return 'sessions' if kinds else None


def ids(el):
    return (('elk',) + el, ('el',) + el, ('fld', ('el',) + el, 'T.0.0'))


def default(E, facts, el, S_, kind):
    """is the id of this round that of the default section?"""
    if kind == 'sessions':
        return False
    for x in ids(el):
        r = E.truth(facts, mk_eq(x, S_.default))
        if r is not None:
            return r
    return None


def to_end(c, le):
    return bool(le.x['exits']) and all(x.kind == 'panic' or any(k[0] == 'more' and v is False and k not in (le.facts or {}) for k, v in x.facts.items()) for x in le.x['exits'])


def made(E, x, sid, props):
    return x[0] == 'app' and tail(str(x[1])) == MAKE and x[2:4] == (sid, props)


def filled(c, E, t, m, props, S_):
    le = loop_of(t, m)
    inserts = None
    if le is None:
        # a shared table is filled by inserting into it
        loops = [e for e in t.events if e.kind == 'loop' and any(x.kind == 'insert' and x.args[0] == m for x, tr in uniq_events(e.x['iters']))]
        if m == ('app', 'emptymap') and len(loops) == 1:
            le = loops[0]
            inserts = [[x for x, tr in uniq_events([it]) if x.kind == 'insert' and x.args[0] == m] for it in le.x['iters']]
            direct = all(x in it.events for xs, it in zip(inserts, le.x['iters']) for x in xs)
            c.ob('table:once per session', direct, 'sessions are inserted in an inner loop', le.sp)
            for e in t.events:
                c.ob('table:nothing else', e is le or e.kind not in ('insert', 'remove', 'modify', 'clear') or e.args[0] != m, 'the table is changed otherwise', e.sp)
    if not c.ob('table:made in a loop', le is not None, 'the session table is not filled from the sections of the settings: %s' % show(m)[:80]):
        return
    if inserts is None:
        o, p, init = le.x['lvs'][m]
        c.ob('table:starts empty', E.deep(le.x['pre'], init) == ('app', 'emptymap'), 'the session table does not start empty', le.sp)
    c.ob('table:every session', to_end(c, le), 'the loop over the sessions can end early', le.sp)
    for j, it in enumerate(le.x['iters']):
        el = member(it, le)
        kind = source(c, E, t, el[0], S_) if el else None
        if not c.ob('table:from the settings', kind is not None, 'sessions are not made from all sections of the settings', le.sp):
            continue
        d = default(E, it.facts, el, S_, kind)
        if inserts is None:
            v = E.recvals[m][1][j][0]
            ops = map_ops(v, m)
            if not c.ob('table:only grows', ops is not None and all(o_ == 'put' or d is True for o_, k, x in ops), 'the table becomes %s' % show(v)[:100], le.sp):
                continue
            puts = [(k, x) for o_, k, x in ops]
        else:
            puts = [(e.args[1], e.args[2]) for e in inserts[j]]
        c.ob('table:default section is no session', not (d is not False and puts), 'a session is made for the default section', le.sp)
        if d is True:
            continue
        if not puts and any(E.truth(it.facts, ('is', ('app', 'get', m, x), 1)) is True for x in ids(el)):
            continue        # there already: entered in an earlier round, so as required
        c.count('rounds that make a session')
        c.ob('table:session of every id', len(puts) == 1, '%d sessions are entered for a configured session' % len(puts), le.sp)
        for k, x in puts:
            c.ob('table:own id', k in ids(el), 'a session is entered under %s' % show(k)[:80], le.sp)
            c.ob('table:own session', any(made(E, x, i, props) for i in ids(el)), 'what is entered is %s' % show(x)[:80], le.sp)
