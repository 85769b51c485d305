"""The test for session time of weekly schedules, decided by partial evaluation: for each start day, end day and weekday of today the
function is followed with these three known and the date, the two times, the zone and the instant unknown. Dates become a number of days
from today, their weekdays and comparisons are then known, loops end after the number of rounds they need, and what is left is the
condition on the time of day, compared with the weekly window's."""
from .c20 import *
from fx import models as M

DAY = 'chrono::Weekday'
ROUNDS = 12


def day(i):
    return ('adt', DAY, i % 7, ())


def number(t):
    return t[1] if t[0] == 'int' else None


class Calendar:
    """models of chrono's dates for a known weekday of today"""
    def __init__(self, E, zone, today):
        self.E, self.zone, self.today = E, zone, today
        ms = dict(E.models)
        for n, f in (('weekday', self.weekday), ('pred', self.step), ('succ', self.step), ('pred_opt', self.step), ('succ_opt', self.step),
                     ('num_days_from_monday', self.num), ('num_days_from_sunday', self.num), ('number_from_monday', self.num),
                     ('number_from_sunday', self.num), ('days_since', self.since), ('num_days', self.numdays), ('days', self.days), ('weeks', self.days)):
            ms['*::' + n] = self.guard(ms.get('*::' + n), f)
        for n in ('eq', 'ne'):
            ms['PartialEq::' + n] = self.guard(ms['PartialEq::' + n], lambda c, n=n.title(): self.same(c, n))
        E.compare = lambda op, a, b, isint: self.compare(op, a, b, isint)
        for n in [k for k in ms if k.split('::')[-1] in ('add', 'sub', 'signed_duration_since', 'checked_add_signed', 'checked_sub_signed')] + ['*::signed_duration_since', '*::add', '*::sub',
                  '*::checked_add_signed', '*::checked_sub_signed', '*::checked_add_days', '*::checked_sub_days']:
            ms[n] = self.guard(ms.get(n), self.arith)
        for n in ('NaiveDate::pred', 'NaiveDate::succ'):
            if n in ms:
                ms[n] = self.guard(ms[n], self.step)
        for n in ('AddAssign::add_assign', 'SubAssign::sub_assign', '*::add_assign', '*::sub_assign'):
            ms[n] = self.guard(ms.get(n), self.assign)
        E.models = ms

    def guard(self, old, f):
        def m(c):
            r = f(c)
            if r is not None:
                return r
            r = old(c) if old is not None else None
            return r
        return m

    def date(self, t):
        """days from today of a date, None if not a date in terms of today"""
        t = canon(t)
        if t[:2] == ('app', 'dateplus'):
            return t[2][1]
        if t[:2] == ('app', 'dateof'):
            m = self.moment(t[2])
            return m[0] if m else None
        return None

    def moment(self, t):
        """(days from today, time of day) of a date and time"""
        t = canon(t)
        if t[:2] == ('app', 'local') and t[2] == self.zone:
            return 0, ('app', 'timeof', t)
        if t[:2] == ('app', 'at'):
            k = self.date(t[2])
            x = t[3]
            if x[:2] == ('app', 'timeof') and x[2][:2] == ('app', 'at'):
                x = x[2][3]
            return None if k is None else (k, x)
        if t[:2] == ('app', 'momentplus'):
            k = self.moment(t[3])
            return None if k is None else (k[0] + t[2][1], k[1])
        return None

    def days_of(self, t):
        m = self.date(t)
        if m is None:
            m = self.moment(t)
            m = m and m[0]
        return m

    def weekday(self, c):
        k = self.days_of(c.d(0))
        return None if k is None else c.ret(day(self.today + k))

    def plus(self, x, n):
        if self.date(x) is not None:
            return ('app', 'dateplus', I(self.date(x) + n))
        m = self.moment(x)
        if m is not None:
            return ('app', 'at', ('app', 'dateplus', I(m[0] + n)), m[1])
        return None

    def step(self, c):
        x, n = c.d(0), c.nm.split('::')[-1]
        by = -1 if n.startswith('pred') else 1
        if x[0] == 'adt' and x[1] == DAY:
            return c.ret(day(x[2] + by))
        r = self.plus(x, by)
        if r is None:
            return None
        return c.ret(some(r) if n.endswith('_opt') else r)

    def num(self, c):
        x, n = c.d(0), c.nm.split('::')[-1]
        if x[0] != 'adt' or x[1] != DAY:
            return None
        k = (x[2] + (1 if 'sunday' in n else 0)) % 7
        return c.ret(I(k + (1 if n.startswith('number') else 0)))

    def since(self, c):
        a, b = c.d(0), c.d(1)
        return c.ret(I((a[2] - b[2]) % 7)) if a[0] == b[0] == 'adt' else None

    def days(self, c):
        x = c.d(0)
        if 'Duration' not in repr(c.dty) and 'TimeDelta' not in repr(c.dty) or x[0] != 'int':
            return None
        return c.ret(('app', 'days', I(x[1] * (7 if c.nm.endswith('weeks') else 1))))

    def assign(self, c):
        b = c.d(1)
        r = self.plus(c.d(0), -b[2][1] if 'sub' in c.nm else b[2][1]) if b[:2] == ('app', 'days') else None
        a = M.loc(c)
        if r is None or a is None:
            return None
        st = c.st.copy()
        c.E.write(st, a[1], a[2], r)
        return c.ret(UNIT, st)

    def numdays(self, c):
        x = c.d(0)
        return c.ret(x[2]) if x[:2] == ('app', 'days') else None

    def arith(self, c):
        n = c.nm.split('::')[-1]
        a, b = c.d(0), c.d(1)
        if b[:2] == ('app', 'chrono::Days::new') and b[2][0] == 'int':
            b = ('app', 'days', b[2])
        if b[:2] == ('app', 'days'):
            r = self.plus(a, -b[2][1] if 'sub' in n else b[2][1])
            return None if r is None else c.ret(some(r) if n.startswith('checked') else r)
        if n in ('sub', 'signed_duration_since'):
            x, y = self.date(a), self.date(b)
            return None if x is None or y is None else c.ret(('app', 'days', I(x - y)))
        return None

    def same(self, c, op):
        a, b = c.d(0), c.d(1)
        known = [self.days_of(a), self.days_of(b)]
        return None if None in known else c.ret(self.compare(op, a, b, False))

    def compare(self, op, a, b, isint):
        if not isint:
            x, y = self.date(a), self.date(b)
            if x is None or y is None:
                ma, mb = self.moment(a), self.moment(b)
                if ma and mb:
                    x, y = ma[0], mb[0]
                    if x == y:
                        a, b = ma[1], mb[1]
                        x = None
            if x is not None and y is not None:
                return T if {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op] else F
        return type(self.E).compare(self.E, op, a, b, isint)


def check(c):
    c.rule = 'for every pair of weekdays and every weekday of today the answer is that of the weekly window on every path'
    E = c.engine(opaque=LOADER)
    fs = fields(c, E)
    both_days(c, E, fs)
    E = c.engine(opaque=LOADER)
    E.unroll_n = ROUNDS
    b = c.anchor(E, 'SessionSchedule::is_session_time')
    adt = next(iter(fs.values())).rsplit('.', 2)[0]
    names = [f['n'] for f in E.adts[adt]['v'][0]['f']]
    short = {f.rsplit('.', 1)[1]: k for k, f in fs.items()}
    c.ob('anchor:weekdays', DAY in E.adts and len(E.adts[DAY]['v']) == 7, 'the weekdays are not chrono\'s')
    if len(names) != len(fs) or DAY not in E.adts:
        c.bad('anchor:parts of a schedule', 'a schedule has parts the rule does not know')
        return
    from fx.engine import St
    base = E.models
    sym = {k: ('sym', k, 0) for k in ('start_time', 'end_time', 'zone')}
    for f in E.adts[adt]['v'][0]['f']:
        if short[f['n']] in sym:
            E.tyhint[sym[short[f['n']]]] = E.ty(f['ty'])
    n = 0
    for ws in range(7):
        for we in range(7):
            for today in range(7):
                E.models = base
                cal = Calendar(E, sym['zone'], today)
                v = dict(sym, start_day=some(day(ws)), end_day=some(day(we)), always=F)
                me = ('adt', adt, 0, tuple(v[short[k]] for k in names))
                _, trs = run(E, b, me)
                if not n:
                    c.note(E, b['id'], trs)
                n += 1
                one(c, E, b, cal, trs, ws, we, today, sym)
    c.floor('combinations of weekdays', n, 343)


def run(E, b, me):
    from fx.engine import St, Trace, ev_list
    st = St({}, {}, None, None, {})
    E.stack, E.recorders, E.loopmarks = [], [], []
    a = ('ref', E.new_obj(st, me, 'self', ('adt', me[1], ())), ())
    outs = E.inline(b, {}, st, [a], b['span'])
    return a, [Trace('ret' if o[0] == 'ok' else o[0], ev_list(o[1].ev), o[1].facts, o[1], E.deep(o[1], o[2]) if o[0] == 'ok' else None) for o in outs]


def one(c, E, b, cal, trs, ws, we, today, sym):
    clocks = {x for t in trs for y in list(t.facts) + [t.val or ()] for x in subterms(y) if x[0] == 'sym' and str(x[1]).endswith('Utc::now')}
    c.ob('one clock reading', len(clocks) <= 1, 'the clock is read %d times for one answer' % len(clocks), b['span'])
    d, ln = (today - ws) % 7, (we - ws) % 7
    if len(clocks) > 1:
        return
    now = ('app', 'timeof', ('app', 'local', sym['zone'], clocks.pop())) if clocks else None
    early, late = ('lt', now, sym['start_time']), ('lt', sym['end_time'], now)
    if ln == 0:
        want = mk_ite(early, F, mk_ite(late, F, T)) if d == 0 else F
    else:
        want = mk_ite(early, F, T) if d == 0 else T if d < ln else mk_ite(late, F, T) if d == ln else F
    what = 'on the %s of %s to %s' % tuple(E.adts[DAY]['v'][i]['n'] for i in (today, ws, we))
    c.ob('always an answer', any(t.kind == 'ret' for t in trs), 'no answer ' + what, b['span'])
    for t in trs:
        facts = {}
        for k, v in t.facts.items():
            k2 = canon(k)
            if E.truth(facts, k2) is None:
                E.add_fact(facts, k2, v)
        if normal(E, facts) is None:
            continue
        where = t.events[-1].sp if t.events else b['span']
        c.ob('never panics', t.kind != 'panic', 'asking for the session time can panic ' + what, where)
        c.ob('ends', t.kind in ('ret', 'panic') and not any(e.kind == 'loop' for e in t.events), 'the search for a weekday does not end within %d steps %s' % (ROUNDS, what), where)
        if t.kind != 'ret':
            continue
        val = canon(E.deep(t.st, t.val))
        if now is None and want not in (T, F):
            c.bad('formula', 'the answer does not depend on the time of day ' + what, b['span'])
            continue
        for f, leaf in cases(E, facts, mk_ite(val, mk_ite(want, ('same',), ('in session outside the window',)), mk_ite(want, ('not in session within the window',), ('same',)))):
            if normal(E, f) is not None:
                c.count('cases compared')
                c.ob('formula', leaf == ('same',), '%s %s' % (leaf[0], what), b['span'])


def both_days(c, E, fs):
    """created schedules have both configured weekdays or none"""
    b = c.anchor(E, 'SessionSchedule::create_schedule')
    av, trs = c.run(E, b)
    args = [E.deep(trs[0].st, E.v(trs[0].st, a)) for a in av]
    S_ = Settings(E, args[1])
    c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
    if not S_.good:
        return
    n = 0
    tree = lambda k: S_.tree(args[0], S(k), lambda x: some(('text', x)), NONE)
    for t in trs:
        if t.kind != 'ret':
            continue
        v = E.deep(t.st, t.val)
        for g, leaf in cases(E, t.facts, ('tup', (tree('start_day'), tree('end_day'))), 20000):
            if normal(E, g) is None:
                continue
            n += 1
            for k, x in zip(('start_day', 'end_day'), leaf[1]):
                got = simp(E, g, E.getfield(v, fs[k]))
                gs = E.truth(g, is_some(got))
                good = got == NONE or gs is False if x == NONE else gs is not False and got != NONE and any(y[:2] == ('app', 'parse') and y[3] == x[3][0][1] for y in subterms(got))
                c.ob('create:' + k, good, 'the %s of the schedule is not the configured one' % k.replace('_', ' '), b['span'])
            c.ob('create:both days or none', (leaf[1][0] == NONE) == (leaf[1][1] == NONE), 'a schedule with only one of the two weekdays is accepted', b['span'])
    c.floor('ways to create a schedule', n, 2)
