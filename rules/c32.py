"""No needless refusal: every path of the configuration loader that ends in a panic is shown to be impossible, or to have found one of
the listed defects. The state of the loop over the lines is known at each step up to whether a default section was read (the induction of
the acceptance rule), so each refusing path is examined in both states; a refusal because of a session must contradict the
requirements on a session identity other than the default one."""
from .c13 import *
from . import c13


def check(c):
    c.rule = 'a refused configuration has one of the defects for which it may be refused'
    E = c.engine(opaque=LOADER)
    fm = c.anchor(E, 'SessionId::from_map')
    b = c.anchor(E, 'Properties::from_str')
    identity(c, fm)
    E.opaque.add(fm['id'])
    av, trs = c.run(E, b)
    text = E.deep(trs[0].st, E.v(trs[0].st, av[0]))
    goodts = [t for t in trs if t.kind == 'ret']
    c.floor('accepting paths', len(goodts), 1)
    c.floor('refusing paths', sum(t.kind == 'panic' for t in trs), 1)
    ctx = []
    for t in goodts:
        S_ = Settings(E, E.deep(t.st, t.val))
        c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
        if S_.good:
            r = sections(Quiet(c), E, t, S_, b, text, fm)
            c.ob('loop:understood', bool(r and r[3]), 'the loop over the lines is not understood', b['span'])
            if r and r[3]:
                ctx.append((S_, r))
    src = ('app', 'lines', text)
    for t in trs:
        if t.kind != 'panic':
            continue
        cands = [x for x in ctx if mentions_term(t.facts, x[1][0])] or ctx[:1]
        why = [w for w in (justified(E, t, S_, r, src, fm) for S_, r in cands)]
        sp = ([e.sp for e in t.events if e.kind == 'panic'] or [b['span']])[-1]
        if why and all(isinstance(w, str) for w in why):
            c.ob('refusal:' + why[0], True, '')
        else:
            bad = next((w for w in why if not isinstance(w, str)), ('unknown', {}))
            c.bad('refusal:' + bad[0], 'a configuration without any of the listed defects is refused', sp)
        c.count('refusing paths')


class Quiet:
    """the checks of the acceptance rule are reported by that rule"""
    def __init__(self, c):
        self.c = c

    def ob(self, *a):
        return True

    bad = floor = count = sample = ob


def mentions_term(facts, m):
    return any(x == m for k in facts for x in subterms(k))


def refold(E, t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('srch', 'it'):
        return t
    r = tuple(refold(E, x) for x in t)
    if r[0] == 'fld':
        return E.getfield(r[1], r[2])
    if r[0] == 'is' and r[1][0] == 'adt':
        return T if r[1][2] == r[2] else F
    if r[:3] == ('app', 'get', EMPTYM):
        return NONE
    if r[0] == 'ite':
        return mk_ite(*r[1:])
    return r


def state(E, facts, sub, extra=()):
    """the facts with loop values replaced, or None if they contradict"""
    f = {}
    for k, v in list(facts.items()) + list(extra):
        for old, new in sub.items():
            k = put(k, old, new)
        k = refold(E, k)
        x = E.truth(f, k)
        if x is not None:
            if x != v:
                return None
        elif not E.add_fact(f, k, v):
            return None
    return normal(E, f)


def justified(E, t, S_, r, src, fm):
    m, rows, lvs, good = r
    consts = {}
    key = {}
    for lv in lvs:
        vs = {r_[2][lv] for r_ in rows if r_[0] == 'default'}
        if lv != m and len(vs) == 1 and all(r_[2][lv] == lv for r_ in rows if r_[0] != 'default') and not any(x[0] == 'lv' for x in subterms(next(iter(vs)))):
            consts[lv] = next(iter(vs))
    keys = {r_[3][3] for r_ in rows if r_[0] == 'default'}
    reasons = []
    for seen in (False, True):
        sub = consts if seen else {**{lv: E.recvals[lv][0] for lv in consts}, m: EMPTYM}
        extra = [(('is', ('app', 'get', m, k), 1), True) for k in keys] if seen else []
        ps = [(p(lv), seen) for p, lv in good]
        f = state(E, t.facts, sub, extra + ps)
        if f is None:
            continue
        w = defect(E, t, f, S_, m, sub, seen, src, fm)
        if w is None:
            return ('default section %s' % ('read' if seen else 'not read'), f)
        reasons.append(w)
    return reasons[0] if reasons else 'impossible'


def defect(E, t, f, S_, m, sub, seen, src, fm):
    lines = {x for k in f for x in subterms(k) if x[:2] == ('el', src)}
    ended = any(k[0] == 'more' and k[1] == src and v is False for k, v in f.items())
    for el in lines:
        L = ('app', 'trim', el)
        opens, closes, dflt = (E.truth(f, x) for x in (('pre', L, S('[')), ('suf', L, S(']')), ('ctn', L, S('Default'))))
        if opens and closes is False:
            return 'unclosed header'
        if opens and closes and dflt and seen:
            return 'second default section'
        if opens and closes and dflt is False and not seen:
            return 'session before default'
        if opens is False and E.truth(f, mk_eq(L, S(''))) is False and (E.truth(f, ('ctn', L, S('='))) is False or E.truth(f, ('ctn', el, S('='))) is False):
            return 'setting without equals sign'
    if ended and not seen:
        return 'no default section'
    for e, _ in uniq_events([t]):
        if e.kind == 'call' and e.name == fm['id']:
            k = simp(E, f, refold(E, functools.reduce(lambda y, o: put(y, o, sub[o]), sub, e.res)))
            if E.truth(f, ('is', ('app', 'get', m, k), 1)) is True:
                return 'same session id twice'
    if not ended:
        return None
    # what is required of the connection and of every session
    re_ = lambda x: functools.reduce(lambda y, o: put(y, o, sub[o]), sub, x)
    D = refold(E, re_(S_.default))
    conn = lambda words: mk_ite(has_key(val(m, D), S(NAMES['conn'])), functools.reduce(mk_or, [mk_eq(val(val(m, D), S(NAMES['conn'])), S(w)) for w in words]), F)
    if all_refuted(E, f, [conn(CONN)]):
        return 'connection type'
    ks = {k[2] for k, v in f.items() if k[0] == 'more' and v is True and k[1] == m}
    cands = [(('elk', m, k), f) for k in ks]
    for k, v in f.items():
        if k[0] == 'srch' and k[2] == m and k[1] in ('any', 'all') and v is (k[1] == 'any'):
            w = ('sym', 'anykey', 0)
            g = dict(f)
            body = put(k[3], ('bvar', bound_of(k[3])), w)
            if body is not None and E.add_fact(g, simp(E, g, body), v):
                cands.append((w, g))
    for k, g in cands:
        g = dict(g)
        if E.truth(g, mk_eq(k, D)) is not False:
            # the default section is not a session
            h = dict(g)
            if E.add_fact(h, mk_eq(k, D), True) and not all_refuted(E, state(E, h, {k: D}) or None, [conn(CONN)]):
                continue
        u16 = lambda x: ('is', ('app', 'parse', S('u16'), x), 0)
        yes = lambda x: T
        anyof = lambda words: (lambda x: functools.reduce(mk_or, [mk_eq(x, S(w)) for w in words]))
        S2 = Settings.__new__(Settings)
        S2.E, S2.map, S2.default, S2.good = E, m, D, True
        tree = lambda n, p: S2.tree(k, S(NAMES[n]), p, F)
        both = [tree('begin', anyof(BEGIN)), tree('sender', yes), tree('target', yes)]
        base = [mk_not(mk_eq(k, D)), has_key(m, k)]
        if all_refuted(E, g, base + [conn(CONN[:1]), tree('port', u16)] + both) and all_refuted(E, g, base + [conn(CONN[1:]), tree('host', yes), tree('cport', u16)] + both):
            return 'session requirement'
    return None


def all_refuted(E, f, terms):
    """the terms cannot all hold"""
    work = [f]
    for t in terms:
        nxt = []
        for g in work:
            if g is None:
                continue
            for h, leaf in cases(E, g, t, 20000):
                if leaf == F or E.truth(h, leaf) is False:
                    continue
                h = dict(h)
                if leaf != T and not E.add_fact(h, leaf, True):
                    continue
                h = normal(E, h)
                if h is not None:
                    nxt.append(h)
        work = nxt
        if not work:
            return True
        if len(work) > 3000:
            raise Budget('too many cases')
    return not any(consistent(E, g) for g in work)


def identity(c, fm):
    """an identity is refused only without begin string or company ids"""
    E = c.engine(opaque=LOADER)
    av, trs = c.run(E, fm)
    own, dft = (E.deep(trs[0].st, E.v(trs[0].st, a)) for a in av[:2])
    need = [mk_or(has_key(own, S(NAMES[n])), has_key(dft, S(NAMES[n]))) for n in ('begin', 'sender', 'target')]
    c.floor('identities', sum(t.kind == 'ret' for t in trs), 1)
    for t in trs:
        if t.kind == 'ret':
            continue
        sp = ([e.sp for e in t.events if e.kind == 'panic'] or [fm['span']])[-1]
        c.ob('identity:refused', all_refuted(E, t.facts, need), 'a session with begin string and company ids is refused', sp)
