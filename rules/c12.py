"""Each of the lookup functions is executed symbolically for any settings, session and name; its result, on every path and in every
case of presence of the sections and settings, is compared with the precedence rule (own section, then default section where the
lookup has a fallback, then absent) and with the parse of exactly the text found. A panic is accepted only where the text found
does not parse."""
from .settings import *

FUNCS = [('Properties::get_property', 'text', True, False), ('Properties::get_config', 'result', True, False),
         ('Properties::get_or_default_config', 'result', True, True), ('Properties::get_optional_config', 'option', True, True),
         ('Properties::get_default_config', 'result', False, True)]


def check(c):
    c.rule = 'every lookup equals its precedence rule in all cases of presence'
    E = c.engine()
    cases_ = 0
    errs = [a for n, a in E.adts.items() if n.endswith('::ConfigErr') and a.get('local')]
    c.ob('anchor:ConfigErr', len(errs) == 1, 'the error type of the lookups is gone')
    if not errs:
        return
    names = {v['n']: i for i, v in enumerate(errs[0]['v'])}
    for fn, kind, own, default in FUNCS:
        b = c.anchor(E, fn)
        av, trs = c.run(E, b)
        me = E.deep(trs[0].st, E.v(trs[0].st, av[0]))
        args = [E.deep(trs[0].st, E.v(trs[0].st, a)) for a in av[1:]]
        sid, name = (args[0], args[1]) if own else (None, args[0])
        S_ = Settings(E, me)
        c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
        if not S_.good:
            return
        P_ = lambda x: ('app', 'parse', S('F'), x)
        for t in trs:
            if t.kind not in ('ret', 'panic'):
                c.bad(fn + ':returns', 'may not return', b['span'])
                continue
            want = tree(E, S_, sid, name, kind, own, default, names)
            if t.kind == 'panic':
                w = tree(E, S_, sid, name, 'parses', own, default, names)
                for g, leaf in cases(E, t.facts, w):
                    g = normal(E, g)
                    cases_ += 1
                    if g is None:
                        continue
                    x = simp(E, g, leaf)
                    okp = x[0] == 'is' and E.truth(g, x) is False
                    c.ob(fn + ':panic only for an unparsable text', kind == 'option' and okp, 'can panic although the setting is %s' % ('absent' if x == ('absent',) else 'fine'), t.events[-1].sp)
                continue
            got = E.deep(t.st, t.val)
            bad, n = compare(E, t.facts, [(shape(E, got, kind), want)])
            cases_ += n
            for g, i, a, w in bad[:3]:
                c.ob('%s:%s' % (fn, say(w)), False, 'gives %s instead of %s' % (show(a)[:110], show(w)[:110]), b['span'])
            c.ob(fn + ':value', not bad, 'differs from the precedence rule', b['span'])
        c.sample({'lookup': fn, 'own section': own, 'default section': default})
    c.floor('lookups', len(FUNCS), 5)
    c.floor('cases compared', cases_, 15)


def say(w):
    if w[0] == 'adt':
        return {OPT: 'option', RES: 'result'}.get(w[1], 'value') + str(w[2])
    return 'value'


def shape(E, t, kind):
    """error payloads that carry the parser's own message are not compared"""
    if t[0] == 'ite':
        return mk_ite(t[1], shape(E, t[2], kind), shape(E, t[3], kind))
    if t[0] == 'adt' and t[1] == RES and t[2] == 1:
        e = t[3][0]
        if e[0] == 'adt' and E.adts.get(e[1]) and E.adts[e[1]]['v'][e[2]]['n'] == 'ParseError':
            return err(('parseerror',))
        if e[0] == 'adt' and E.adts.get(e[1]) and E.adts[e[1]]['v'][e[2]]['n'] == 'NotFound':
            return err(('notfound', e[3][0]))
    return t


def tree(E, S_, sid, name, kind, own, default, names):
    P_ = lambda x: ('app', 'parse', S('F'), x)
    pv = lambda x: E.getfield(P_(x), RES + '.0.0')
    if kind == 'text':
        return S_.tree(sid, name, some, NONE, own, default)
    if kind == 'parses':
        return S_.tree(sid, name, lambda x: ('is', P_(x), 0), ('absent',), own, default)
    if kind == 'option':
        return S_.tree(sid, name, lambda x: mk_ite(('is', P_(x), 0), some(pv(x)), ('panics',)), NONE, own, default)
    return S_.tree(sid, name, lambda x: mk_ite(('is', P_(x), 0), ok(pv(x)), err(('parseerror',))), err(('notfound', name)), own, default)
