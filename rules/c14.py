"""Session identities: an identity built from arbitrary components is split into all cases of its optional parts; its components
must be those given (empty optional ones absent) and its printed form the required concatenation in each case. Equality is
analysed on two arbitrary identities: when it answers true every component must be equal, it answers true for an identity and
itself, and everything fed to the hasher is then the same for both. No other function may construct or change an identity."""
from .base import *
from .compose import *

SID = 'session::session_id::SessionId'
OPTS = ('sender_subid', 'sender_locationid', 'target_subid', 'target_locationid')
ORDER = ('begin_string', 'sender_compid', 'sender_subid', 'sender_locationid', 'target_compid', 'target_subid', 'target_locationid')
SP = OPT + '.1.0'


def printed(v):
    bs, s, ss, sl, t, ts, tl = v
    out = [bs, S(':'), s]
    for o in (ss, sl):
        if o != NONE:
            out += [S('/'), o[3][0]]
    out += [S('->'), t]
    for o in (ts, tl):
        if o != NONE:
            out += [S('/'), o[3][0]]
    return cat(*out)


def check(c):
    c.rule = 'case enumeration of the built identity; implication between equality, components and hash inputs'
    E = c.engine()
    b = c.anchor(E, 'SessionIdBuilder::build')
    av, trs = c.run(E, b)
    blt = E.v(trs[0].st, av[0])
    disp = E.bodies.get('<%s as std::fmt::Display>::fmt' % SID)
    if not c.ob('anchor:Display for SessionId', disp is not None, 'SessionId cannot be printed'):
        raise Stop()
    rets = [t for t in trs if t.kind == 'ret']
    c.floor('ways to build an identity', len(rets), 1)
    used = set(E.analysed)
    determined = None
    seen = {n: set() for n in OPTS}
    for t in rets:
        for f0, res in cases(E, t.facts, t.val):
            c.ob('build:ok', res[0] == 'adt' and res[1] == RES and res[2] == 0, 'a builder with all mandatory parts may fail to build', b['span'])
        sid = E.getfield(t.val, RES + '.0.0')
        st = t.st.copy()
        root = ('ref', E.new_obj(st, sid, 'sid', ('adt', SID, ())), ())
        base = Step(st)
        vals = []
        for n in ORDER:
            r = call(c, E, base, SID + '::' + n, [root], 'build')
            c.ob('getter:' + n, len(r) == 1, 'getter %s branches' % n)
            vals.append(E.deep(r[0].st, r[0].val))
            src = E.getfield(blt, 'session::session_id::SessionIdBuilder.0.' + n)
            p = E.getfield(src, SP)
            want = p
            if n in OPTS:
                q = E.getfield(p, SP)
                want = mk_ite(mk_and(('is', src, 1), ('is', p, 1)), mk_ite(mk_eq(q, S('')), NONE, some(q)), NONE)
            for f, leaf in cases(E, t.facts, ('tup', (vals[-1], want))):
                x, y = leaf[1]
                if n in OPTS:
                    seen[n].add(y == NONE)
                c.count('component cases')
                c.ob('build:' + n, x == y, '%s of a built identity is %s where %s was given' % (n, show(x)[:80], show(y)[:80]), b['span'])
        o = E.new_obj(base.st, S(''), 'fmtbuf')
        E.recorders, E.loopmarks, E.stack = [], [], []
        outs = E.inline(disp, {}, base.st.copy(), [root, ('ref', o, ())], disp['span'])
        for out in outs:
            if not c.ob('print:returns', out[0] == 'ok', 'printing an identity may fail', disp['span']):
                continue
            text = E.read(out[1], o)
            for f, leaf in cases(E, out[1].facts, ('tup', tuple(vals) + (text,))):
                c.count('printed cases')
                c.ob('print:form', simp(E, f, leaf[1][-1]) == printed(leaf[1][:-1]),
                     'an identity is printed as %s instead of %s' % (show(leaf[1][-1])[:160], show(printed(leaf[1][:-1]))[:160]), b['span'])
        # the fields that always hold the printed form
        adt = E.adts[SID]
        good = set()
        for fl in adt['v'][0]['f']:
            k = '%s.0.%s' % (SID, fl['n'])
            v = E.getfield(sid, k)
            if v[0] in ('app', 'ite', 'str') and all(simp(E, f, leaf[1][-1]) == printed(leaf[1][:-1]) for f, leaf in cases(E, t.facts, ('tup', tuple(vals) + (v,)))):
                good.add(k)
        determined = good if determined is None else determined & good
    for n in OPTS:
        c.ob('build:%s both' % n, seen[n] == {True, False}, '%s is never present or never absent' % n, b['span'])
    # equality and hash
    eqb = [x for i, x in E.bodies.items() if i == '<%s as std::cmp::PartialEq>::eq' % SID]
    hb = [x for i, x in E.bodies.items() if i == '<%s as std::hash::Hash>::hash' % SID]
    if not c.ob('anchor:Eq and Hash', len(eqb) == 1 and len(hb) == 1, 'SessionId is not comparable and hashable'):
        raise Stop()
    ne = [x for i, x in E.bodies.items() if i == '<%s as std::cmp::PartialEq>::ne' % SID]
    c.ob('eq:ne', not ne, 'inequality of identities is defined separately')
    av, trs = c.run(E, eqb[0])
    a, bb = E.v(trs[0].st, av[0]), E.v(trs[0].st, av[1])

    def comp(x, n):
        return E.getfield(x, '%s.0.%s' % (SID, n))

    def hashed(x):
        st = trs[0].st.copy()
        st.ev, st.facts = None, {}
        r = ('ref', E.new_obj(st, x, 'h', ('adt', SID, ())), ())
        E.recorders, E.loopmarks, E.stack = [], [], []
        return E.inline(hb[0], {}, st, [r, ('ref', E.new_obj(st, ('sym', 'hasher', 0), 'hasher'), ())], hb[0]['span'])
    ha, hbv = hashed(a), hashed(bb)
    n = 0
    for t in trs:
        if not c.ob('eq:returns', t.kind == 'ret', 'comparing identities may fail', eqb[0]['span']):
            continue
        # equal -> every component equal
        f = dict(t.facts)
        if not E.add_fact(f, t.val, True):
            continue
        n += 1
        for name in ORDER:
            c.ob('eq:' + name, E.truth(f, mk_eq(comp(a, name), comp(bb, name))) is True,
                 'two identities can be equal although their %s differ' % name, eqb[0]['span'])
        for x in ha:
            for y in hbv:
                g = assume(E, f, list(x[1].facts.items()) + list(y[1].facts.items()))
                if g is None:
                    continue
                # what each hashes
                ex = [E.deep(x[1], e.args[0]) for e in ev_list(x[1].ev) if e.kind == 'hash']
                ey = [E.deep(y[1], e.args[0]) for e in ev_list(y[1].ev) if e.kind == 'hash']
                same_ = len(ex) == len(ey) and x[0] == y[0] == 'ok'
                for p, q in zip(ex, ey):
                    c.count('hash inputs compared')
                    if E.truth(g, mk_eq(p, q)) is True or p[0] == 'fld' and q[0] == 'fld' and p[2] == q[2] and p[1] == a and q[1] == bb and p[2] in determined:
                        continue
                    same_ = False
                c.ob('hash:agrees with eq', same_, 'two equal identities can be hashed differently', hb[0]['span'])
                c.ob('hash:anything', ex, 'identities are hashed without any of their parts', hb[0]['span'])
    c.floor('ways of being equal', n, 1)
    # same components -> equal: compare an identity with itself
    r = ('ref', E.new_obj(trs[0].st, a, 'same', ('adt', SID, ())), ())
    _, trs2 = c.run(E, eqb[0], [av[0], av[0]])
    st = trs[0].st.copy()
    E.recorders, E.loopmarks, E.stack = [], [], []
    for o in E.inline(eqb[0], {}, st, [av[0], av[0]], eqb[0]['span']):
        for f, leaf in cases(E, o[1].facts, ('ite', o[2], ('int', 1), ('int', 0)) if o[0] == 'ok' else NONE):
            c.ob('eq:reflexive', leaf == I(1), 'an identity may differ from itself', eqb[0]['span'])
    # nobody else makes or changes identities
    own = used | {eqb[0]['id'], hb[0]['id']}
    for i, body in E.bodies.items():
        if i in own or i.startswith('<%s as std::clone::Clone>' % SID):
            continue
        for bl in body['blocks']:
            for s in bl['s']:
                if s['k'] != 'assign':
                    continue
                c.count('assignments scanned')
                r = s['r']
                if r['k'] == 'agg' and r['ak'] == 'adt' and r['n'] == SID:
                    c.bad('made elsewhere:' + i, 'an identity is put together without the builder, so its printed form and hash may not fit its components', s.get('sp', ''))
                for p in ([s['p']] if s['p'][1] else []) + ([r['p']] if r['k'] == 'ref' and r['m'] and r['p'][1] else []):
                    ty = E.strip(E.ty(body['locals'][p[0]]['ty']))
                    if ty[0] == 'adt' and ty[1] == SID and any(isinstance(x, list) and x[0] == 'f' for x in p[1]):
                        c.bad('changed elsewhere:' + i, 'a part of an identity is changed after it was built', s.get('sp', ''))
