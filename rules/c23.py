"""Provenance of every parameter: the session built from settings and the identity built from two sections are executed
symbolically; each field of the result, in every case of presence of the settings, must be exactly the value of the setting of its own
name (own section first, then the default section) or its documented default. A panic is accepted only where the setting found
does not parse, or where one of the three settings an identity cannot do without is in neither section."""
from .settings import *

SID = (('begin_string', 'begin_string', True), ('sender_compid', 'sender_comp_id', True), ('target_compid', 'target_comp_id', True),
       ('sender_subid', 'sender_sub_id', False), ('sender_locationid', 'sender_location_id', False),
       ('target_subid', 'target_sub_id', False), ('target_locationid', 'target_location_id', False))
FLAGS = (('logon', 'reset_on_logon'), ('logout', 'reset_on_logout'), ('disconnect', 'reset_on_disconnect'))


def check(c):
    c.rule = 'every parameter has the value of the setting of its name, or its default'
    session(c)
    identity(c)
    c.floor('parameters', c.counts.get('parameters', 0), 12)


def session(c):
    E = c.engine(opaque=LOADER)
    b = c.anchor(E, 'Session::with_settings')
    av, trs = c.run(E, b)
    st0 = trs[0].st
    sid, props = [E.deep(st0, E.v(st0, a)) for a in av]
    S_ = Settings(E, props)
    c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
    if not S_.good:
        return
    parsed = lambda ty: (lambda x: E.getfield(('app', 'parse', S(ty), x), RES + '.0.0'))
    want = {}
    hb = fields_of(E, '::Session', lambda ty: ty in (('prim', 'u32'), ('prim', 'u64'), ('prim', 'u16')))
    c.ob('anchor:heartbeat', len(hb) == 1, 'no single numeric field for the heartbeat interval')
    for f in hb:
        ty = [E.ty(x['ty'])[1] for n, a in E.adts.items() if f.startswith(n + '.0.') for x in a['v'][0]['f'] if f.endswith('.' + x['n'])][0]
        want[f] = ('heartbeat interval', S_.tree(sid, S('heartbeat_interval'), parsed(ty), ('int', 30)))
    bools = fields_of(E, '::Session', lambda ty: ty == ('prim', 'bool'))
    for word, name in FLAGS:
        fs = [f for f in bools if word in f.rsplit('.', 1)[1]]
        c.ob('anchor:' + name, len(fs) == 1, 'no single flag for ' + name)
        for f in fs:
            want[f] = (name, S_.tree(sid, S(name), parsed('bool'), T))
    path = S_.tree(sid, S('data_dictionary'), lambda x: x, S('resources/FIX43.xml'))
    n = 0
    for t in trs:
        if t.kind != 'ret':
            last = t.events[-1]
            f = [k for k, v in t.facts.items() if v is False and k[0] == 'is' and k[1][:2] == ('app', 'parse')]
            c.ob('session:panic only for an unparsable setting', t.kind == 'panic' and bool(f), 'building a session can panic although its settings are fine', last.sp)
            continue
        n += 1
        v = E.deep(t.st, t.val)
        for f, (what, w) in want.items():
            bad, k = compare(E, t.facts, [(E.getfield(v, f), w)])
            for g, i, a, x in bad[:2]:
                c.bad('session:' + what, 'is %s instead of %s' % (show(a)[:120], show(x)[:120]), b['span'])
            c.ob('session:' + what, not bad)
            c.count('values compared', k)
        loads = [e for e, tr in uniq_events([t]) if e.kind == 'call' and e.name in LOADER]
        c.ob('session:dictionary loaded once', len(loads) == 1, '%d dictionaries are loaded for a session' % len(loads), b['span'])
        for e in loads:
            bad, k = compare(E, t.facts, [(strparse(E, e.args[0]), path)])
            for g, i, a, x in bad[:2]:
                c.bad('session:dictionary path', 'is %s instead of %s' % (show(a)[:120], show(x)[:120]), e.sp)
            c.ob('session:dictionary path', not bad)
            dd = fields_of(E, '::Session', lambda ty: mentions(ty, 'DataDictionary'))
            c.ob('session:own dictionary', any(E.getfield(v, f) == e.res for f in dd), 'the dictionary loaded is not the one of the session', e.sp)
        ids = fields_of(E, '::Session', lambda ty: ty[0] == 'adt' and ty[1].endswith('SessionId'))
        c.ob('session:identity', any(E.getfield(v, f) == sid for f in ids), 'the session gets another identity', b['span'])
    c.count('parameters', len(want) + 1)
    c.floor('ways to build a session', n, 1)


def strparse(E, t):
    """parsing a text as text gives that text"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ite':
        return mk_ite(t[1], strparse(E, t[2]), strparse(E, t[3]))
    if t[0] == 'fld' and t[1][:2] == ('app', 'parse') and 'String' in repr(t[1][2]):
        return t[1][3]
    return t


def identity(c):
    E = c.engine()
    b = c.anchor(E, 'SessionId::from_map')
    av, trs = c.run(E, b)
    st0 = trs[0].st
    own, dft = [E.deep(st0, E.v(st0, a)) for a in av]

    def tree(name, found, absent):
        return mk_ite(has_key(own, name), found(val(own, name)), mk_ite(has_key(dft, name), found(val(dft, name)), absent))
    n = 0
    idt = [k for k in E.adts if k.endswith('::SessionId') and E.adts[k].get('local')]
    c.ob('anchor:SessionId', len(idt) == 1)
    if not idt:
        return
    for t in trs:
        if t.kind != 'ret':
            gone = [x for f, x, must in SID if must and E.truth(t.facts, has_key(own, S(x))) is False and E.truth(t.facts, has_key(dft, S(x))) is False]
            ites = any(must and all(simp(E, g, l) == ('no',) for g, l in cases(E, t.facts, tree(S(x), lambda v: ('yes',), ('no',))) if normal(E, g) is not None) for f, x, must in SID)
            c.ob('identity:panic only without a mandatory setting', bool(gone) or ites, 'deriving an identity can panic although its settings are there', t.events[-1].sp)
            continue
        n += 1
        v = E.deep(t.st, t.val)
        for f, x, must in SID:
            name = '%s.0.%s' % (idt[0], f)
            got = E.getfield(v, name)
            if must:
                w = tree(S(x), lambda y: y, ('absent',))
            else:
                w = tree(S(x), lambda y: mk_ite(mk_eq(y, S('')), NONE, some(y)), NONE)
            bad, k = compare(E, t.facts, [(got, w)])
            for g, i, a, z in bad[:2]:
                c.bad('identity:' + x, 'is %s instead of %s' % (show(a)[:120], show(z)[:120]), b['span'])
            c.ob('identity:' + x, not bad)
            c.count('values compared', k)
    c.count('parameters', len(SID))
    c.floor('ways to build an identity', n, 1)
