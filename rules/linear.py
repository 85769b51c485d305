"""Arithmetic facts that hold at a point by induction over the loops passed before it."""
from .base import *
from fx.models import mk_len


def seq_len(E, st, t, facts, exits, d=0):
    """the length of a sequence term, following the loops that built it"""
    if d > 20:
        return None
    if t[0] == 'arr':
        return I(len(t[1]))
    if t[0] == 'app' and t[1] == 'emptymap':
        return I(0)
    if t[0] == 'app' and t[1] in ('upd',):
        return seq_len(E, st, t[2], facts, exits, d + 1)
    if t[0] == 'els':
        return seq_len(E, st, t[1], facts, exits, d + 1)
    if t[0] == 'app' and t[1] in ('push', 'pushf'):
        n = seq_len(E, st, t[2], facts, exits, d + 1)
        return None if n is None else add(n, I(1))
    if t[0] == 'app' and t[1] == 'coll' and t[2][0] == 'it':
        n = it_len(E, t[2])
        if n is not None:
            return n
    if t in E.recvals:
        init, backs = E.recvals[t]
        vals = []
        for v, f in backs:
            vals += [x for _, x in cases(E, f, v)]
        ks = set(grows(v, t) for v in vals)
        n = seq_len(E, st, init, facts, exits, d + 1)
        if n is None or None in ks:
            return None
        if ks <= {0}:
            return n
        if ks == {1}:
            # one per iteration of a loop that runs over a counted range and is left only when it is used up
            m = [x for x in loop_counters(E, t[1])]
            m = [x for x in m if exits.get(x[0]) is False]
            if m:
                return add(n, m[0][1])
        return None
    return mk_len(E, st, t)


def it_len(E, it):
    k = it[1]
    if k == 'range':
        return range_len(('app', 'range', it[2], S(it[3])))
    if k in ('map', 'enumerate', 'rev', 'copied', 'cloned') and it[2][0] == 'it':
        return it_len(E, it[2])
    if k == 'seq' and it[2][0] == 'app' and it[2][1] == 'repeat':
        return it[2][3]
    return None


def range_len(s):
    if s[0] == 'app' and s[1] == 'range' and s[2][0] == 'tup':
        n = sub(s[2][1][1], s[2][1][0])
        return add(n, I(1)) if s[3][1] == 'RangeInclusive' else n
    if s[0] == 'tup' and len(s[1]) == 2:
        return sub(s[1][1], s[1][0])
    return None


def loop_counters(E, lid):
    """(source, id) and length of what a loop takes one item of in every iteration"""
    le = E.loopevs.get(lid)
    if le is None:
        return []
    common = None
    for t in le.x['iters']:
        m = {f[1:] for f, v in t.facts.items() if f[0] == 'more' and v is True and le.facts.get(f) is not True}
        common = m if common is None else common & m
    out = []
    for src, i in common or ():
        s = src
        while s[0] == 'it' and s[1] in ('range',):
            s = s[2]
        n = range_len(s)
        if n is not None:
            out.append((('more', src, i), n))
    for lv, (init, backs) in E.recvals.items():
        if lv[1] != lid or not backs:
            continue
        step = {sub(v, lv) for v, f in backs}
        if len(step) != 1 or list(step)[0] not in (I(1), I(-1)):
            continue
        k = list(step)[0][1]
        gs = None
        for t in le.x['iters']:
            mine = {f for f, v in t.facts.items() if f[0] == 'pos' and v is True and le.facts.get(f) is not True}
            gs = mine if gs is None else gs & mine
        for g in gs or ():
            rest = add(g[1], lv) if k == 1 else sub(g[1], lv)
            if lv not in list(subterms_of(rest)):
                n = subst_eq(g[1], lv, init)
                if E.nonneg(n):
                    out.append((g, n))
    return out


def subst_eq(t, a, b):
    return add(sub(t, a), b) if a in list(subterms_of(t)) and a not in list(subterms_of(sub(t, a))) else add(add(t, a), mul(I(-1), b))


def grows(v, t):
    n = 0
    for _ in range(30):
        if v == t:
            return n
        if v[0] == 'app' and v[1] in ('push', 'pushf'):
            n += 1
            v = v[2]
        elif v[0] == 'app' and v[1] == 'upd' or v[0] == 'els':
            v = v[2] if v[0] == 'app' else v[1]
        else:
            return None
    return None


def disjunctive(E, x):
    """for a loop variable x with a constant start: the bounds B with 'x = start or x < B' at the loop head"""
    init, backs = E.recvals[x]
    if init[0] != 'int':
        return
    cand = None
    for v, f in backs:
        if v == x or v == init:
            continue
        mine = set()
        for g, b in f.items():
            if g[0] != 'pos':
                continue
            l = g[1] if b else sub(I(1), g[1])
            bound = add(l, v)      # l = bound - v
            if not any(y[0] == 'lv' and y[1] == x[1] for y in subterms_of(bound)):
                mine.add(bound)
        cand = mine if cand is None else cand & mine
    for b in cand or ():
        yield b


def prove_below(E, tr, i, n):
    """i < n on this path"""
    facts = dict(tr.facts)
    xs = set()

    def casts(t):
        for y in subterms_of(t):
            if y[0] == 'app' and y[1] == 'cast' and y[2][1] in ('i32', 'i64', 'isize', 'i16', 'i8') and E.nonneg(y[3]):
                xs.add(y)
    for f, v in list(facts.items()):
        if f[0] in ('pos', 'eq'):
            casts(f)
    casts(i)
    casts(n)
    for x in [y for y in subterms_of(i) if y in E.recvals]:
        init = E.recvals[x][0]
        if init[0] == 'int' and E.truth(facts, pos(sub(x, init))) is True:
            for b in disjunctive(E, x):
                E.add_fact(facts, pos(sub(b, x)), True)
                casts(b)
    for x in xs:     # a signed view of an unsigned number never exceeds it
        E.add_fact(facts, pos(add(sub(x[3], x), I(1))), True)
    return E.prove_pos(facts, sub(n, i))


def subterms_of(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def elements(E, st, t, facts, d=0):
    """terms that stand for every element a sequence can have, or None"""
    if d > 20:
        return None
    if t[0] == 'arr':
        return list(t[1])
    if t[0] == 'app' and t[1] == 'repeat':
        return [t[2]]
    if t[0] == 'app' and t[1] == 'push':
        r = elements(E, st, t[2], facts, d + 1)
        return None if r is None else r + [t[3]]
    if t[0] == 'app' and t[1] == 'coll' and t[2][0] == 'it' and t[2][1] == 'map':
        s = st.copy()
        E.recorders, E.loopmarks, E.stack = [], [], []
        outs = E.call_value(s, t[2][3], [('sym', 'any', 0)], None, '?')
        return [E.deep(o[1], o[2]) for o in outs] if outs and all(o[0] == 'ok' for o in outs) else None
    if t in E.recvals:
        init, backs = E.recvals[t]
        r = elements(E, st, init, facts, d + 1)
        if r is None:
            return None
        out, rounds = list(r), set()
        for v, f in backs:
            if v == t:
                rounds.add(None)
            elif v[0] == 'app' and v[1] == 'push' and v[2] == t:
                out.append(v[3])
                rounds.add(None)
            elif v[0] == 'app' and v[1] == 'upd' and v[2] == t and v[3][:2] == ('app', 'ix') and v[3][2][:2] in (('el', init), ('el', t)):
                # the element the loop is at is changed
                out += [simp(E, f, put_in(E, v[4], v[3][2], e)) for e in r]
                rounds.add(v[3][2])
            else:
                return None
        if None not in rounds and rounds and all(x[1] == init and any(
                f[:2] == ('more', init) and b is False for f, b in facts.items()) for x in rounds):
            out = out[len(r):]      # every element was changed
        return out
    return None


def put_in(E, t, x, e):
    """a term with E in the place of X, whose parts are looked up"""
    if t == x:
        return e
    if not isinstance(t, tuple):
        return t
    r = tuple(put_in(E, y, x, e) for y in t)
    return E.getfield(r[1], r[2]) if r != t and r[:1] == ('fld',) else r
