"""Composition: run one function after another on the same symbolic state and compare what they give."""
from .base import *


class Step:
    def __init__(self, st, val=None):
        self.st, self.val = st, val


def call(c, E, step, fn, args, key):
    """outcomes of calling FN in the state of STEP: list of Steps; anything but a normal return is an obligation that fails"""
    b = fn if isinstance(fn, dict) else c.anchor(E, fn)
    E.recorders, E.loopmarks, E.stack = [], [], []
    out = []
    for o in E.inline(b, {}, step.st.copy(), list(args), b['span']):
        if o[0] == 'ok':
            out.append(Step(o[1], o[2]))
        else:
            c.bad(key + ':returns', '%s may not return (%s)' % (b['id'], o[0]), b['span'])
    c.analysed |= E.analysed
    c.count('calls composed')
    c.steps += E.steps
    E.steps = 0
    return out


def merged(E, fa, fb):
    """facts of both, or None if they contradict each other"""
    f = dict(fa)
    for k, v in fb.items():
        t = E.truth(f, k)
        if t is not None:
            if t != v:
                return None
            continue
        if not E.add_fact(f, k, v):
            return None
    return f


def assume(E, facts, more):
    """facts with more (term, truth) pairs, simplified, or None if they contradict"""
    if facts is None:
        return None
    f = dict(facts)
    for t, v in more:
        t = simp(E, f, t)
        x = E.truth(f, t)
        if x is not None:
            if x != v:
                return None
            continue
        if not E.add_fact(f, t, v):
            return None
    return f


def same(E, fa, a, fb, b, equal=None, given=()):
    """None, or the difference between two values in a case that their path conditions and the given facts allow; False if these exclude each other"""
    f = assume(E, assume(E, {}, given), [(k, v) for d in (fa, fb) for k, v in d.items()])
    if f is None:
        return False
    for g, leaf in cases(E, f, ('tup', (a, b))):
        x, y = leaf[1]
        if x != y and not (equal and equal(E, g, x, y)):
            return 'gives %s instead of %s' % (show(x)[:90], show(y)[:90])
    return None
