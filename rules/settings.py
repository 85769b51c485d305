"""Settings as symbolic maps: what a lookup of a setting must give, as a decision tree over the presence of sections and settings."""
from .net import *
from .compose import assume

PROPS = 'session::session_settings::Properties'


def has_key(m, k):
    return ('is', ('app', 'get', m, k), 1)


def val(m, k):
    return ('fld', ('app', 'get', m, k), OPT + '.1.0')


class Settings:
    """the sections of a settings value"""
    def __init__(self, E, props):
        self.E = E
        maps = fields_of(E, '::Properties', lambda ty: mentions(ty, 'HashMap'))
        ids = fields_of(E, '::Properties', lambda ty: mentions(ty, 'SessionId') and not mentions(ty, 'HashMap'))
        self.good = len(maps) == 1 and len(ids) == 1
        if self.good:
            self.map = E.getfield(props, next(iter(maps)))
            self.default = E.getfield(props, next(iter(ids)))

    def tree(self, sid, name, found, absent, own=True, default=True):
        """value tree: FOUND(text) where the setting is found"""
        out = absent
        for s, on in ((self.default, default), (sid, own)):
            if on:
                sec = val(self.map, s)
                out = mk_ite(has_key(self.map, s), mk_ite(has_key(sec, name), found(val(sec, name)), out), out)
        return out


def normal(E, facts):
    """facts with their if-then-else parts resolved, or None if they contradict each other"""
    f = dict(facts)
    for k, v in facts.items():
        k2 = simp(E, facts, k)
        if k2 != k:
            t = E.truth(f, k2)
            if t is not None and t != v:
                return None
            if t is None and not E.add_fact(f, k2, v):
                return None
    return f


def consistent(E, facts, left=None):
    """whether the facts can hold together, as far as splitting their disjunctions tells"""
    left = left if left is not None else [400]
    left[0] -= 1
    f = normal(E, facts)
    if f is None or left[0] < 0:
        return f is not None
    for k, v in f.items():
        if k[0] != ('and' if v is False else 'or') or any(E.truth(f, x) is (k[0] == 'or') for x in k[1:]):
            continue
        open_ = [x for x in k[1:] if E.truth(f, x) is None]
        if not open_:
            return False
        for b in (True, False):
            g = dict(f)
            if E.add_fact(g, open_[0], b):
                g = {simp(E, {a: w for a, w in g.items() if a != q}, q) if q[0] in ('and', 'or') else q: r for q, r in g.items()}
                if all(q not in (T, F) or r is (q == T) for q, r in g.items()) and consistent(E, {q: r for q, r in g.items() if q not in (T, F)}, left):
                    return True
        return False
    return True


def compare(E, facts, pairs, limit=20000):
    """consistent cases in which a value differs from its decision tree: list of (facts, index, got, want)"""
    bad = []
    n = 0
    for i, (got, want) in enumerate(pairs):
        for g, leaf in cases(E, facts, ('tup', (got, want)), limit):
            n += 1
            a, b = leaf[1]
            if a != b and normal(E, g) is not None:
                g2 = normal(E, g)
                a, b = simp(E, g2, a), simp(E, g2, b)
                if a != b and not eta(E, g2, a, b) and consistent(E, g2):
                    bad.append((g2, i, a, b))
    return bad, n


def eta(E, facts, a, b):
    """an optional value given as a term, compared with what it is known to be"""
    if a == NONE or a[0] == 'adt' and a[1] == OPT:
        if not (b == NONE or b[0] == 'adt' and b[1] == OPT):
            a, b = b, a
    if b == NONE:
        return E.truth(facts, ('is', a, 1)) is False
    if b[0] == 'adt' and b[1] == OPT and b[2] == 1:
        return E.truth(facts, ('is', a, 1)) is True and simp(E, facts, E.getfield(a, OPT + '.1.0')) == b[3][0]
    return False
