"""Progress of the message parser: every loop reachable from the parser entry either takes one item of a finite sequence per
iteration (an iterator over the text, a counted range) or its iterations that continue remove at least one field net from the
field queue; recursive parsers return a queue that is a suffix of the one they got, and recursive calls are only made after
at least one field was removed. So the number of steps is bounded by the number of fields."""
from .parser import *
from .linear import loop_counters


def net(fl, links, own):
    """fields removed for sure by a chain of queue operations; None if fields are added that were not just taken"""
    n = 0
    bal, recs = balance(links)
    for x, k in bal.items():
        if k < 0:
            return None
        n += k
    return n


def check_loop(c, m, name, fl, lid, L):
    E = m.E
    ev = L.ev
    c.count('loops')
    if not ev.x['iters']:
        return
    # one item of a finite source per iteration
    common = None
    for t in ev.x['iters']:
        mine = {f for f, v in t.facts.items() if f[0] == 'more' and v is True and ev.facts.get(f) is not True}
        common = mine if common is None else common & mine
    if common and not any(any(y[0] == 'app' and y[1] in ('forever', 'from', 'cycle') for y in subterms(f)) for f in common):
        c.count('loops over a finite sequence')
        return
    if any(g[0][0] == 'pos' for g in loop_counters(E, lid)):
        c.count('counted loops')
        return
    good = bool(L.q) and len(L.iters) > 0
    for it in L.iters:
        got_ = 0
        for lv in L.q:
            links, base = fl.chain(simp(E, it.facts, E.recvals[lv][1][it.i][0]), 'queue', lv, it.facts)
            n = net(fl, links, lv)
            if base == lv and n is not None and n >= 1:
                got_ += 1
            elif base != lv or n is None:
                got_ = -100
        good &= got_ >= 1
    c.ob('%s:loop makes progress' % name, good,
         'an iteration of this loop may continue without having removed a field of the text, so the loop may never end', ev.sp)
    c.count('loops over the field queue')


def check(c):
    c.rule = 'each continuing iteration removes at least one field; recursion only after a removal; recursive parsers only remove'
    m = Model(c)
    E = m.E
    runs = [('Message::from_str', m.entry, m.av, m.traces, m.fl)] + [(n,) + m.recs[n] for n in sorted(m.recs)]
    for name, body, av, trs, fl in runs:
        ps = m.params(body)
        for lid, L in sorted(loops_of(fl, trs).items()):
            check_loop(c, m, name, fl, lid, L)
        for e, tr in uniq_events(trs):
            if e.kind == 'rec':
                b2 = m.recs.get(e.name)
                p2 = m.params(b2[0]) if b2 else {}
                if not c.ob('%s:%s:queue' % (name, e.name), 'queue' in p2, 'a recursive function that does not work on the field queue', e.sp):
                    continue
                links, o = fl.chain(simp(E, tr.facts, e.args[p2['queue']]), 'queue', None, tr.facts)
                n = 0
                for l in links:       # straight code since the last loop head
                    if l[0] == 'loop':
                        break
                    k = net(fl, [l], None)
                    n = -100 if k is None else n + k
                c.ob('%s:recursion after progress' % name, n >= 1, 'a recursive call is made without having removed a field before', e.sp)
                c.count('recursive calls')
        if name in m.recs and 'queue' in ps:
            for t in trs:
                if t.kind != 'ret':
                    continue
                for f, v in cases(E, t.facts, t.val):
                    if v[0] == 'adt' and v[2] != 0:
                        continue
                    q = simp(E, f, E.deep(t.st, av[ps['queue']]))
                    links, o = fl.chain(q, 'queue', None, f)
                    bal, recs = balance(links)
                    c.ob('%s:only removes' % name, o[0] == 'sym' and all(k >= 0 for k in bal.values()),
                         'the recursive parser may give back more fields than it was given', body['span'])
    c.floor('loops', c.counts.pop('loops', 0), 3)
    c.floor('recursive calls', c.counts.pop('recursive calls', 0), 4)
