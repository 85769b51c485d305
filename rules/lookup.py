"""Recognising `the value of the first field TAG of a raw message` as a term, however it is computed."""
from fx.terms import *
from fx.engine import OPT, NONE

SOH = '\x01'


def canon(t):
    """tag=value tests written with split_once become prefix tests"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    if t[0] in ('and', 'or'):
        t = (mk_and if t[0] == 'and' else mk_or)(t[1], t[2])
        if t[0] == 'and':
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if a[0] == 'ctn' and a[2] == S('=') and b[0] == 'eq':
                    for x, y in ((b[1], b[2]), (b[2], b[1])):
                        if x == ('app', 'before', a[1], S('=')) and y[0] == 'str' and '=' not in y[1]:
                            return ('pre', a[1], S(y[1] + '='))
    if t[0] == 'app' and t[1] == 'split_terminator':
        t = ('app', 'split') + t[2:]
    return t


def fields_of(msg):
    return ('app', 'split', msg, S(SOH))


def any_term(msg, tag):
    return ('srch', 'any', fields_of(msg), ('pre', ('bvar', 0), S(tag + '=')))


def present(facts, msg, tag):
    """True/False/None: does msg have a field TAG, according to the facts"""
    want = any_term(msg, tag)
    for f, v in facts.items():
        g = canon(f)
        if g == want:
            return v
    # an element of the field sequence with that prefix
    for f, v in facts.items():
        if v is True:
            g = canon(f)
            if g[0] == 'pre' and g[2] == S(tag + '=') and g[1][0] == 'el' and g[1][1] == fields_of(msg):
                return True
    # split_once facts, recorded separately
    for f, v in facts.items():
        if v is True and f[0] == 'eq':
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if y == S(tag) and x[0] == 'app' and x[1] == 'before' and x[3] == S('=') and facts.get(('ctn', x[2], S('='))):
                    g = canon(x[2])
                    if g[0] == 'el' and g[1] == fields_of(msg):
                        return True
    return None


def is_value(facts, t, msg, tag):
    """t is the value of field TAG of msg, given that it is present"""
    t = canon(t)
    p = ('pre', ('bvar', 0), S(tag + '='))

    def is_found(x, whole):
        if x[0] != 'app' or x[1] != 'foundmap' or x[2] != fields_of(msg):
            return False
        b = x[3]
        if not (b[0] == 'ite' and b[1] == p and b[3] == NONE and b[2][0] == 'adt' and b[2][2] == 1):
            return False
        return b[2][3][0] == ('bvar', 0) if whole else is_rest(b[2][3][0], ('bvar', 0), tag)
    if is_found(t, False):
        return True
    if t[0] == 'app' and t[1] in ('drop', 'after'):
        x = t[2]
        if x[0] == 'el' and x[1] == fields_of(msg) or is_found(x, True):
            return is_rest(t, x, tag)
    if t[0] == 'fld':
        # component of a found (tag, value) pair
        x = t[1]
        if x[0] == 'app' and x[1] == 'foundmap' and x[3][0] == 'ite' and x[3][2][0] == 'adt' and x[3][2][3][0][0] == 'tup':
            i = int(t[2].rsplit('.', 1)[1])
            b = x[3]
            return is_found(x[:3] + (('ite', b[1], ('adt', OPT, 1, (b[2][3][0][1][i],)), b[3]),), False)
    return False


def is_rest(t, el, tag):
    return t == ('app', 'drop', el, S(tag + '=')) or t == ('app', 'after', el, S('='))


def check_lookup(E, facts, t, msg, tag, optional, some_empty_ok=False):
    """t (if-free, under facts) is: value if the field is there; otherwise empty/None.  -> problem or None"""
    p = present(facts, msg, tag)
    if t[0] == 'adt' and t[1] == OPT:
        if t[2] == 0:
            if p is False or p is True and any(v is True and f[0] == 'eq' and S('') in f[1:] and
                                               any(is_value(facts, x, msg, tag) for x in f[1:] if x[0] in ('app', 'fld')) for f, v in facts.items()):
                return None
            return 'reported absent although field %s may be present' % tag
        t = t[3][0]
        if not is_value(facts, t, msg, tag):
            return 'is not the value of field %s but %s' % (tag, show(t)[:120])
        return None if p is True else 'field %s not known to be present' % tag
    if optional:
        return 'not an optional value: %s' % show(t)[:80]
    if t == S(''):
        return None if p is False else 'empty although field %s may be present' % tag
    if is_value(facts, t, msg, tag):
        return None if p is not False else 'field %s not present' % tag
    return 'is not the value of field %s but %s' % (tag, show(t)[:160])
