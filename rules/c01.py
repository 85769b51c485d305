"""Identity of an inbound message: every component of the session id that the two public derivations
(same direction, reverse direction) return is, on every path, exactly the value of its FIX tag in the raw
message, looked up at field starts only; an absent field gives an empty / absent component."""
from .base import *
from .lookup import check_lookup

DIRECT = [('begin_string', '8', False), ('sender_compid', '49', False), ('sender_subid', '50', True),
          ('sender_locationid', '142', True), ('target_compid', '56', False), ('target_subid', '57', True),
          ('target_locationid', '143', True)]
SWAP = {'49': '56', '50': '57', '142': '143', '56': '49', '57': '50', '143': '142', '8': '8'}


def check(c):
    c.rule = 'term of each session id field, split into all its cases, equals the anchored lookup of the tag'
    E = c.engine()
    for fn, m in (('Message::get_session_id', lambda t: t), ('Message::get_reverse_session_id', lambda t: SWAP[t])):
        b = c.anchor(E, fn)
        av, trs = c.run(E, b)
        msg = E.v(trs[0].st, av[0])
        rets = [t for t in trs if t.kind == 'ret']
        c.floor('%s return paths' % fn, len(rets), 1)
        seen = {}
        for t in rets:
            for name, tag, opt in DIRECT:
                v = field(E, t.val, name)
                if v is None:
                    c.bad('%s:%s:no such field' % (fn, name), 'the returned value has no %s' % name, b['span'])
                    continue
                for facts, leaf in cases(E, t.facts, v):
                    why = check_lookup(E, facts, leaf, msg, m(tag), opt)
                    seen.setdefault(name, set()).add(leaf == S('') or leaf == NONE)
                    c.ob('%s:%s' % (fn, name), why is None, '%s of the derived session id %s' % (name, why), b['span'])
                    c.count('component cases')
                    if why is None:
                        c.sample('%s.%s <- tag %s: %s' % (fn, name, m(tag), show(leaf)[:140]))
            q = field(E, t.val, 'session_qualifier')
            for facts, leaf in cases(E, t.facts, q if q is not None else NONE):
                c.ob('%s:qualifier' % fn, leaf == NONE, 'session qualifier of a derived id is %s' % show(leaf), b['span'])
        for name, tag, opt in DIRECT:
            c.ob('%s:%s:both cases' % (fn, name), seen.get(name) == {True, False},
                 '%s is not derived for both present and absent fields' % name, b['span'])
