"""Provenance of the parts of a schedule from the settings, in every case of presence, and path analysis of the test for session
time: its result on every path without weekdays must be the formula start <= local time of day <= end of the one reading of the
clock, converted to the configured zone; conversions through the date of today and naive or zoned forms are brought to one normal form.
Operations that have no result for some instants (a local time that does not exist or is ambiguous) are panics reachable on the path."""
from .settings import *

UTC = ('UTC', 'Etc__UTC', 'UCT', 'Etc__UCT', 'Universal', 'Etc__Universal', 'Zulu', 'Etc__Zulu', 'GMT', 'Etc__GMT', 'GMT0', 'Greenwich', 'Etc__Greenwich', 'Etc__GMT0')


def fields(c, E):
    adt = [n for n, a in E.adts.items() if n.endswith('::SessionSchedule') and a.get('local')]
    c.ob('anchor:SessionSchedule', len(adt) == 1, 'no single schedule type')
    if len(adt) != 1:
        raise Stop('SessionSchedule')
    out = {}
    for f in E.adts[adt[0]]['v'][0]['f']:
        ty, n = E.ty(f['ty']), '%s.0.%s' % (adt[0], f['n'])
        day = mentions(ty, 'Weekday')
        if mentions(ty, 'NaiveTime') or day:
            for w in ('start', 'end'):
                if w in f['n']:
                    out[w + ('_day' if day else '_time')] = n
        elif mentions(ty, 'Tz'):
            out['zone'] = n
        elif ty == ('prim', 'bool'):
            out['always'] = n
    c.ob('anchor:schedule fields', len(out) == 6, 'a schedule no longer consists of two times, two optional days, a zone and a flag')
    if len(out) != 6:
        raise Stop('fields')
    return out


def check(c):
    c.rule = 'schedules have what is configured, and the test for session time is its formula on every path'
    E = c.engine(opaque=LOADER)
    fs = fields(c, E)
    create(c, E, fs)
    E = c.engine(opaque=LOADER)
    moment(c, E, fs)


def create(c, E, fs):
    b = c.anchor(E, 'SessionSchedule::create_schedule')
    av, trs = c.run(E, b)
    st0 = trs[0].st
    args = [E.deep(st0, E.v(st0, a)) for a in av]
    S_ = Settings(E, args[1])
    c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
    if not S_.good:
        return
    there = lambda n: S_.tree(args[0], S(n), lambda x: T, F)
    utc = ('utc',)
    parsed = lambda ty: (lambda x: some(E.getfield(('app', 'parse', S(ty), x), RES + '.0.0')))
    tys = sorted({x[2][1] for t in trs for k in t.facts for x in subterms(k) if x[:2] == ('app', 'parse') and len(x) == 4})
    pick = lambda w: next((t for t in tys if w in t), w)
    want = {k: S_.tree(args[0], S(k), parsed(pick('NaiveTime' if 'time' in k else 'Weekday')), NONE) for k in ('start_time', 'end_time', 'start_day', 'end_day')}
    zone = S_.tree(args[0], S('default_timezone'), lambda x: E.getfield(('app', 'parse', S(pick('Tz')), x), RES + '.0.0'), utc)
    n = 0
    for t in trs:
        if t.kind != 'ret':
            last = t.events[-1]
            if t.kind == 'panic' and any(v is False and k[0] == 'is' and k[1][:2] == ('app', 'parse') for k, v in t.facts.items()):
                continue
            subs = {x for k in t.facts for x in subterms(k) if isinstance(x, tuple) and x[:2] == ('app', 'parse') and len(x) == 4}
            f = assume(E, t.facts, [(('is', x, 0), True) for x in subs])
            if t.kind == 'panic' and (f is None or normal(E, f) is None):
                continue
            # any other refusal needs one of the three reasons
            why = mk_ite(there('start_time'), mk_ite(there('end_time'), F, T), mk_ite(there('end_time'), T, mk_or(there('start_day'), there('end_day'))))
            why = mk_or(why, mk_ite(there('start_day'), mk_ite(there('end_day'), F, T), there('end_day')))
            okc = all(x == S('reason') or normal(E, g) is None or normal(E, normal(E, g)) is None for g, x in cases(E, t.facts, mk_ite(why, S('reason'), S('none'))))
            c.ob('create:refused for a reason', t.kind == 'panic' and okc, 'a proper schedule can be refused', last.sp)
            continue
        n += 1
        v = E.deep(t.st, t.val)
        none = lambda x: mk_ite(is_some(x), F, T)
        both = {k: want[k] for k in ('start_time', 'end_time')}
        for g, leaf in cases(E, t.facts, ('tup', tuple(want[k] for k in ('start_time', 'end_time', 'start_day', 'end_day')) + (zone,)), 20000):
            g = normal(E, g)
            if g is None:
                continue
            st, en, sd, ed, z = [simp(E, g, x) for x in leaf[1]]
            c.count('cases compared')
            c.ob('create:both times or none', (st == NONE) == (en == NONE), 'a schedule with only one of the two times is accepted', b['span'])
            if st == NONE:
                c.ob('create:no days without times', sd == NONE and ed == NONE, 'weekdays without times are accepted', b['span'])
            got = {k: simp(E, g, E.getfield(v, fs[k])) for k in fs}
            c.ob('create:always in session without times', got['always'] == (T if st == NONE else F), 'the schedule is%s always in session although it has %s times' % (' not' if st == NONE else '', 'no' if st == NONE else ''), b['span'])
            if st != NONE and en != NONE:
                c.ob('create:start time', got['start_time'] == st[3][0], 'the start time is %s' % show(got['start_time'])[:120], b['span'])
                c.ob('create:end time', got['end_time'] == en[3][0], 'the end time is %s' % show(got['end_time'])[:120], b['span'])
            for k, x in (('start_day', sd), ('end_day', ed)):
                c.ob('create:' + k, got[k] == x or eta(E, g, got[k], x), 'the %s is %s' % (k, show(got[k])[:120]), b['span'])
            okz = got['zone'] == z if z != utc else got['zone'][0] == 'adt' and E.adts[got['zone'][1]]['v'][got['zone'][2]]['n'] in UTC
            c.ob('create:zone', okz, 'the time zone is %s' % show(got['zone'])[:120], b['span'])
    c.floor('ways to create a schedule', n, 2)


def is_some(x):
    return F if x == NONE else T if x[0] == 'adt' else ('is', x, 1)


def name(t):
    return t[1].rsplit('::', 1)[1] if t[0] == 'app' and isinstance(t[1], str) and '::' in t[1] else None


def canon(t):
    """one form for the same instant, date and time of day"""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return tuple(canon(x) for x in t) if isinstance(t, tuple) else t
    t = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    n = name(t)
    if n in ('from_utc_datetime', 'with_timezone'):
        tz, x = (t[2], t[3]) if n == 'from_utc_datetime' else (t[3], t[2])
        while name(x) in ('naive_utc', 'clone'):
            x = x[2]
        return ('app', 'local', tz, x)
    if n == 'naive_local':
        return t[2]
    if n in ('date', 'date_naive') and t[2][0] == 'app':
        return ('app', 'dateof', t[2])
    if n == 'time' and t[2][0] == 'app':
        return ('app', 'timeof', t[2])
    if n == 'and_time':
        return ('app', 'at', t[2], t[3])
    if t[0] == 'fld' and t[1][:2] == ('app', 'at'):
        return t[1]
    if t[0] == 'lt':
        a, b = t[1], t[2]
        for x, y, mk in ((a, b, lambda p, q: ('lt', p, q)), (b, a, lambda p, q: ('lt', q, p))):
            if x[:2] == ('app', 'at') and x[2] == ('app', 'dateof', y):
                return mk(x[3], ('app', 'timeof', y))
    return t


def moment(c, E, fs):
    b = c.anchor(E, 'SessionSchedule::is_session_time')
    av, trs = c.run(E, b)
    st0 = trs[0].st
    me = E.deep(st0, E.v(st0, av[0]))
    g = {k: E.getfield(me, f) for k, f in fs.items()}
    clocks = {x for t in trs for y in list(t.facts) + [t.val or ()] for x in subterms(y) if x[0] == 'sym' and str(x[1]).endswith('Utc::now')}
    c.ob('moment:one clock reading', len(clocks) == 1, 'the clock (in UTC) is read %d times' % len(clocks), b['span'])
    if len(clocks) != 1:
        return
    now = ('app', 'timeof', ('app', 'local', g['zone'], clocks.pop()))
    inside = mk_ite(('lt', now, g['start_time']), F, mk_ite(('lt', g['end_time'], now), F, T))
    days = mk_or(('is', g['start_day'], 1), ('is', g['end_day'], 1))
    n = 0
    for t in trs:
        facts = {}
        for k, v in t.facts.items():
            k2 = canon(k)
            if E.truth(facts, k2) is None:
                E.add_fact(facts, k2, v)
        val = canon(E.deep(t.st, t.val)) if t.kind == 'ret' else T
        is_ = lambda x: mk_ite(val, mk_ite(x, ('same',), ('differs',)), mk_ite(x, ('differs',), ('same',)))
        for f, leaf in cases(E, facts, mk_ite(g['always'], is_(T), mk_ite(days, ('anything',), is_(inside)))):
            if leaf == ('anything',) or normal(E, f) is None:
                continue
            n += 1
            c.ob('moment:always an answer', t.kind == 'ret', 'asking for the session time can panic', t.events[-1].sp if t.events else b['span'])
            if t.kind == 'ret':
                c.ob('moment:formula', leaf == ('same',), 'answers %s where the schedule does not' % show(val)[:150], b['span'])
    c.floor('cases of the formula', n, 3)

