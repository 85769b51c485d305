"""Order of serialised fields: the text a message prints as is decomposed into the pieces appended along every path, which must be
the fields of header, body and trailer flattened, in this order, each as tag=value and delimiter. The flattening function is
decomposed the same way: it must append, for every field of the section in the section's field order, the field and then, exactly
when the section has a group for its tag, the flattening of every instance in order; its recursive calls are used inductively.
The field orders that messages and group instances get are collected from every path that creates or changes one."""
from .base import *
from .compose import *
from .flat import *
from .linear import elements
from fx.engine import St, Trace
from .parser import FM, FIELDS, GROUP, ORDER, DDT, Model, group_info, loops_of, new_instance

GI = 'data_dictionary::GroupInfo'

MSG = 'message::Message.0.'
GF = 'message::Group.0.fields'
GD = 'message::Group.0.delim'
BIG = 1 << 32


def recs_of(evs):
    out = {}
    for e in evs:
        if e.kind == 'rec':
            new = dict(e.x or ())
            src = [a for i, a in enumerate(e.args) if i not in new]
            for n in list(new.values()) + ([e.res] if e.res is not None else []):
                out[n] = (src, [a for i, a in enumerate(e.args) if i in new], e)
    return out


def unwrap(t):
    """a sequence inside single-field wrappers"""
    while t[0] == 'adt' and len(t[3]) == 1:
        t = t[3][0]
    return t


class Pieces:
    def __init__(self, E, recs):
        self.E, self.recs = E, recs

    def of(self, t, base, facts, dep=0):
        """pieces appended to BASE to give the sequence or text T, or None"""
        E = self.E
        t = unwrap(simp(E, facts, t))
        if dep > 20:
            return None
        if t == base or t == unwrap(base) or t[0] == 'fld' and t[1] == base:
            return []
        if t in (S(''), ('arr', ())):
            return [] if base in (S(''), ('arr', ())) else None
        if t[0] == 'fld' and (t[1] in self.recs or t[1] in E.recvals):
            t = t[1]
        if t in self.recs:
            src, acc, e = self.recs[t]
            if len(src) != 1:
                return None
            if not acc:
                return [('rec', src[0])]        # only as the whole
            if len(acc) != 1:
                return None
            p = self.of(acc[0], base, facts, dep + 1)
            return None if p is None else p + [('rec', src[0])]
        if t in E.recvals:
            init, its = E.recvals[t]
            p = self.of(init, base, facts, dep + 1)
            if p is None:
                return None
            body = []
            for v, f in its:
                for g, leaf in cases(E, f, v):
                    q = self.of(leaf, t, g, dep + 1)
                    if q is None:
                        return None
                    body.append((g, q))
            copied = {seq_of({k: v[:2] for k, v in self.recs.items()}, q[0][1][1]) if len(q) == 1 and q[0][0] == 'item' and q[0][1][0] == 'el' else None
                      for g, q in body}
            if len(copied) == 1 and None not in copied:
                return p + [('rec', copied.pop())]       # element by element
            return p + [('loop', t, body)]
        if t[0] == 'app' and t[1] == 'push' and len(t) == 4:
            p = self.of(t[2], base, facts, dep + 1)
            return None if p is None else p + [('item', t[3])]
        if t[0] == 'arr':
            return [('item', x) for x in t[1]] if base == ('arr', ()) else None
        if t[0] == 'app' and t[1] == 'cat':
            p = self.of(t[2], base, facts, dep + 1)
            rest = t[3:]
            if p is None and base == S(''):
                p, rest = [], t[2:]
            if p is None:
                return None
            text = []
            for x in rest:
                if x in E.recvals:
                    if text:
                        p.append(('item', cat(*text)))
                        text = []
                    q = self.of(x, S(''), facts, dep + 1)
                    if q is None:
                        return None
                    p += q
                else:
                    text.append(x)
            if text:
                p.append(('item', cat(*text)))
            return p
        if t[0] == 'app' and t[1] in ('extend', 'append', 'chain') and len(t) == 4:
            p = self.of(t[2], base, facts, dep + 1)
            s = seq_of({k: v[:2] for k, v in self.recs.items()}, t[3])
            return None if p is None or s is None else p + [('rec', s)]
        return None


def key_ok(E, lam, order, tag):
    """the sort key of an element puts the tags of the order first, in that order"""
    lo = hi = None
    n = 0
    for f, leaf in cases(E, {}, lam):
        n += 1
        s = [(k, v) for k, v in f.items() if k[0] == 'srch']
        if len(s) != 1:
            return False
        k, v = s[0]
        if k[1] != 'any' or k[2] != order:
            return False
        e = k[3]
        if not (e[0] == 'eq' and len(e) == 3 and tag in e[1:] and any(x[0] == 'bvar' for x in e[1:])):
            return False
        if v:
            lo = leaf
            want = ('app', 'idx', order, k)
        else:
            hi = leaf
    if n != 2 or lo is None or hi is None:
        return False
    if lo[0] == 'tup' and hi[0] == 'tup':
        if lo[1][0] == F and hi[1][0] == T:
            return lo[1][1] == want
        lo, hi = lo[1][0], hi[1][0]
    if lo[0] == 'adt' and lo[1] == hi[1]:
        return False
    return lo == want and (hi[0] == 'int' and hi[1] >= BIG or hi == ('app', 'len', order))


def check_flatten(c, E, b):
    """the recursive flattening function"""
    av, trs = c.run(E, b)
    sec = acc = None
    base = ('arr', ())
    for i, a in enumerate(av):
        t = E.ty(b['locals'][i + 1]['ty'])
        if E.strip(t)[:2] == ('adt', FM):
            sec = ('sym',) + entry(b, i) if sec is None else ()
        elif t[0] == 'ref' and t[1]:
            acc, base = a if acc is None else (), ('sym',) + entry(b, i)
    key = 'flatten'
    if not c.ob(key + ':signature', sec and acc != (), 'the flattening function does not take one section and one accumulator', b['span']):
        raise Stop()
    evs = [e for e, _ in uniq_events(trs)]
    recs = recs_of(evs)
    P = Pieces(E, recs)
    order = E.getfield(sec, ORDER)
    unordered = mk_eq(('app', 'len', order), I(0))
    fields, groups = E.getfield(sec, FIELDS), E.getfield(sec, GROUP)
    n = 0
    for t in trs:
        if not c.ob(key + ':returns', t.kind == 'ret', 'flattening may not return (%s)' % t.kind, b['span']):
            continue
        final = t.val if acc is None else E.deep(t.st, E.read(t.st, acc[1], acc[2]))
        for f, leaf in cases(E, t.facts, final):
            p = P.of(leaf, base, f)
            if not c.ob(key + ':sequence', p is not None, 'the sequence of fields is not understood: %s' % show(leaf)[:160], b['span']):
                continue
            loops = [x for x in p if x[0] == 'loop']
            if not c.ob(key + ':one pass', len(p) == 1 and len(loops) == 1, 'appends %s instead of one pass over the fields' % [x[0] for x in p], b['span']):
                continue
            for g, q in loops[0][2]:
                n += 1
                iteration(c, E, key, g, q, sec, order, unordered, fields, groups, b['span'])
    c.floor('flattening iterations', n, 2)
    for e in evs:
        if e.kind == 'loop':
            for x in e.x['exits']:
                left = [k for k, v in x.facts.items() if k[0] == 'more' and v is True and e.facts.get(k) is not True]
                c.ob(key + ':complete', not left, 'flattening may stop before the last field', b['span'])


def iteration(c, E, key, g, q, sec, order, unordered, fields, groups, where):
    # whose turn it is
    src = None
    for k, v in g.items():
        if k[0] == 'more' and v is True:
            s = k[1]
            el = ('el', s, k[2])
            if s[0] == 'app' and s[1] == 'sorted' and vals_of(s[2]) == fields:
                src = (el, s)
            elif s == fields:
                el = ('elv', fields, ('elk', fields, k[2]))
                src = (el, None)
            elif vals_of(s) == fields:
                src = (el, None)
    if not c.ob(key + ':source', src is not None, 'a pass that does not run over the fields of the section', where):
        return
    el, s = src
    if s is None:
        c.ob(key + ':ordered', E.truth(g, unordered) is True, 'fields of a section with a field order are emitted in hash order', where)
    else:
        c.ob(key + ':ordered', key_ok(E, s[3], order, ('fld', ('bvar', 0), TAG)), 'fields are sorted by %s' % show(s[3])[:160], where)
    c.ob(key + ':field', q[:1] == [('item', el)] and ('item', el) not in q[1:], 'a field is not appended exactly once', where)
    grp = ('app', 'get', groups, tag_of(el))
    has = E.truth(g, ('is', grp, 1))
    if not c.ob(key + ':group lookup', has is not None, 'a field is emitted without looking for a group of its tag', where):
        return
    if not has:
        c.ob(key + ':no group', len(q) == 1, 'a field without group is followed by %s' % [x[0] for x in q[1:]], where)
        return
    insts = E.getfield(('fld', grp, OPT + '.1.0'), GF)
    good = len(q) == 2 and q[1][0] == 'loop' and q[1][2]
    if not c.ob(key + ':group', good, 'a count field is followed by %s instead of the instances' % [x[0] for x in q[1:]], where):
        return
    for h, r in q[1][2]:
        m = [(k[1], k[2]) for k, v in h.items() if k[0] == 'more' and v is True and g.get(k) is not True]
        okk = len(m) == 1 and len(r) == 1 and r[0][0] == 'rec'
        if okk:
            x = ('el', m[0][0], m[0][1])
            okk = m[0][0] == insts and r[0][1] == x or counting(m[0][0], insts) and r[0][1] == ('app', 'at', insts, x)
        c.ob(key + ':instances', okk, 'the instances of a group are not emitted in order, each once', where)


def counting(s, insts):
    if not (s[0] == 'app' and s[1] == 'range' and s[2][0] == 'tup' and s[3] == S('Range') and s[2][1][0] == I(0)):
        return False
    n = s[2][1][1]
    if n[0] == 'app' and n[1] == 'cast' and n[2][1] in ('u32', 'u64', 'usize'):
        n = n[3]            # more than 2^32 instances do not fit into memory
    return n == ('app', 'len', insts)


def vals_of(t):
    """the map whose values a sequence holds"""
    while t[0] == 'app' and t[1] == 'coll' or t[0] == 'it' and t[1] == 'vals':
        if t[0] == 'it':
            return t[2]
        t = t[2]
    return None


def printed(c, E, ty):
    """(state, text) of every way to print an arbitrary TY"""
    db = E.bodies.get('<%s as std::fmt::Display>::fmt' % ty)
    if not c.ob('anchor:Display for ' + ty, db is not None, '%s cannot be printed' % ty):
        return None, [], ''
    st = St({}, {}, None, None, {})
    v = ('sym', 'printed', 0)
    E.tyhint[v] = ('adt', ty, ())
    o = E.new_obj(st, S(''), 'fmtbuf')
    r = ('ref', E.new_obj(st, v, 'printed', ('adt', ty, ())), ())
    E.recorders, E.loopmarks, E.stack = [], [], []
    out = []
    for x in E.inline(db, {}, st, [r, ('ref', o, ())], db['span']):
        if c.ob('print:returns', x[0] == 'ok', 'printing may fail', db['span']):
            out.append((x[1], E.read(x[1], o)))
    c.analysed |= E.analysed
    return v, out, db['span']


def check(c):
    c.rule = 'decomposition of emitted sequences per path; induction over the recursive flattening'
    # -- text ------------------------------------------------------------------------------------------
    E = c.engine()
    flat = set()
    for ty, secs in (('message::Message', ('header', 'body', 'trailer')), (FM, None)):
        v, outs, where = printed(c, E, ty)
        want = [E.getfield(v, MSG + s) for s in secs] if secs and v else [v]
        key = 'print:' + ty.split('::')[-1]
        c.floor('ways to print a ' + ty.split('::')[-1], len(outs), 1)
        for st, text in outs:
            evs = all_ev([Trace('ret', ev_list(st.ev), st.facts, st)])
            recs = recs_of(evs)
            flat |= {r[2].name for r in recs.values()}
            P = Pieces(E, recs)
            for f, leaf in cases(E, st.facts, text):
                p = P.of(leaf, S(''), f)
                if not c.ob(key + ':sequence', p is not None, 'the printed text is not understood: %s' % show(leaf)[:160], where):
                    continue
                got = []
                for x in p:
                    s = piece_section(E, x, recs)
                    c.ob(key + ':pieces', s is not None, 'prints something else than every field of a section as tag=value<SOH>', where)
                    got.append(s)
                c.ob(key + ':order', got == want, 'prints %s instead of %s' % ([show(x)[:60] if x else '?' for x in got], [show(x)[:60] for x in want]), where)
                for e in evs:
                    if e.kind == 'loop':
                        for x in e.x['exits']:
                            left = [k for k, w in x.facts.items() if k[0] == 'more' and w is True and e.facts.get(k) is not True]
                            c.ob(key + ':complete', not left, 'printing may stop before the last field', where)
    if c.ob('flatten:one', len(flat) == 1, 'sections are flattened by %s' % sorted(flat)):
        E = c.engine(cut=False)
        check_flatten(c, E, E.bodies[flat.pop()])
    # -- field orders ----------------------------------------------------------------------------------
    orders(c)


def piece_section(E, x, recs):
    """the section a printed piece is the complete flattening of"""
    if x[0] != 'loop' or not x[2]:
        return None
    sec = set()
    for g, q in x[2]:
        act = [(seq_of({k: r[:2] for k, r in recs.items()}, k[1]), ('el', k[1], k[2])) for k, v in g.items() if k[0] == 'more' and v is True]
        act = [a for a in act if a[0] is not None]
        if len(act) != 1 or q != [('item', text_of(act[0][1]))]:
            return None
        sec.add(act[0][0])
    return sec.pop() if len(sec) == 1 else None


def chain_of(t):
    ch = []
    while t[0] == 'fld':
        ch.append(t[2])
        t = t[1]
    return t, ch[::-1]


def project(E, v, ch):
    for k in ch:
        v = E.getfield(v, k)
    return v


class Orders:
    """resolves where a field order comes from through loops and recursive calls that leave it alone"""

    def __init__(self, E, recs):
        self.E = E
        self.new = {}
        for n, (src, acc, e) in recs.items():
            for i, x in e.x or ():
                if x == n:
                    self.new[n] = (e.args[i], e.name)
        self.lemmas = set()

    def of(self, t, stop=()):
        E = self.E
        for _ in range(30):
            x, ch = chain_of(t)
            if t in stop:
                return t
            if x in self.new:
                self.lemmas.add(self.new[x][1])
                t = project(E, self.new[x][0], ch)
            elif x in E.recvals and x not in [chain_of(y)[0] for y in stop]:
                init, its = E.recvals[x]
                for v, f in its:
                    for g, leaf in cases(E, f, v):
                        if self.of(project(E, leaf, ch), stop + (t,)) != t:
                            return t
                t = project(E, init, ch)
            else:
                break
        return t


def listed(o):
    return [x[1] for x in o[1]] if o[0] == 'arr' and all(x[0] == 'int' for x in o[1]) else None


def head_tail(c, key, h, t, where):
    h, t = listed(h), listed(t)
    c.ob(key + ':header order', h is not None and h[:3] == [8, 9, 35] and len(set(h)) == len(h), '%s: the header order is %s' % (key, h), where)
    c.ob(key + ':trailer order', t is not None and t[-1:] == [10] and set(t) == {93, 89, 10} and len(t) == 3, '%s: the trailer order is %s' % (key, t), where)


def orders(c):
    E = c.engine()
    for name in ('Message::new', 'message::test_logon'):
        b = c.anchor(E, name)
        av, trs = c.run(E, b)
        for t in trs:
            R = Orders(E, recs_of(all_ev([t])))
            head_tail(c, name, *[R.of(E.getfield(E.getfield(t.val, MSG + s), ORDER)) for s in ('header', 'trailer')], b['span'])
    # groups built by a setter
    b = c.anchor(E, 'FieldMap::set_group')
    av, trs = c.run(E, b)
    delim = None
    for i in range(b['argc']):
        if b['locals'][i + 1].get('n') and E.ty(b['locals'][i + 1]['ty']) == ('prim', 'u32'):
            delim = E.v(trs[0].st, av[i])        # the last number is the delimiter (C24 decides the roles)
    for t in trs:
        if t.kind != 'ret':
            continue
        grp = E.deep(t.st, t.val)
        d = E.getfield(grp, GD)
        c.ob('set_group:delimiter', d == delim, 'set_group gives the group the delimiter %s' % show(d)[:60], b['span'])
        c.ob('set_group:instances', every(E, t.st, E.getfield(grp, GF), t.facts, lambda x: first(E.getfield(x, ORDER)) == d),
             'an instance of a group set by the caller does not start with the delimiter', b['span'])
        c.count('group setters')
    # parsed messages
    m = Model(c)
    E = m.E
    n = 0
    lem = set()
    for t, f, msg in m.accepted(m.traces):
        if not c.ob('parsed:message', msg is not None, 'the accepted message is not known', m.entry['span']):
            continue
        n += 1
        R = Orders(E, recs_of(all_ev(m.traces)))
        head_tail(c, 'parsed', *[R.of(E.getfield(E.getfield(msg, MSG + s), ORDER)) for s in ('header', 'trailer')], m.entry['span'])
        lem |= R.lemmas
    c.floor('accepted messages', n, 1)
    for name, (body, av, trs, fl) in m.recs.items():
        ps = m.params(body)
        recs = recs_of(all_ev(trs))
        if not c.ob('%s:roles' % name, {'fm', 'item', 'dd', 'key'} <= set(ps), 'not a group parser', body['span']):
            continue
        gis = set()
        for t in trs:
            item, dd, key = [E.deep(t.st, av[ps[k]]) for k in ('item', 'dd', 'key')]
            gis.add(group_info(dd, key, tag_of(item)))
            if t.kind == 'ret':
                R = Orders(E, recs)
                fm = simp(E, t.facts, E.deep(t.st, av[ps['fm']]))
                o = R.of(E.getfield(fm, ORDER))
                c.ob('%s:keeps section order' % name, o == E.getfield(('sym', *entry(body, ps['fm'])), ORDER), 'the field order of the section is changed by a group in it', body['span'])
        seen = set()
        mine = {e.x['id'] for e in all_ev(trs) if e.kind == 'loop'}
        vals = [v for lv, (i, its) in E.recvals.items() if lv[1] in mine for v in [i] + [x for x, g in its]]
        vals += [E.deep(t.st, v) for t in trs for v in t.st.mem.values()]
        for v in vals:
            for x in subterms(v):
                if x[0] == 'adt' and x[1] == FM and len(x) == 4 and x not in seen:
                    seen.add(x)
                    o = E.getfield(x, ORDER)
                    good = o[0] == 'fld' and o[2] == ORDER or any(instance_order(o, gi) for gi in gis)
                    c.ob('%s:instance order' % name, good, 'an instance of a parsed group gets the field order %s' % show(o)[-100:], body['span'])
        c.floor('group instances changed by ' + name, len(seen), 2)
        started(c, m, name, body, trs, fl, gis, recs)


def started(c, m, name, body, trs, fl, gis, recs):
    """an instance has the dictionary's field order from its first field on"""
    E = m.E
    R = Orders(E, recs)
    good = lambda o: any(dictionary_order(o, gi) for gi in gis)
    n = 0
    for lid, L in loops_of(fl, trs).items():
        num = new_instance(E, L)
        if num is None:
            continue
        for it in L.iters:
            if not num[2][it.i]:
                continue
            for k, x in it.insts:
                n += 1
                o = simp(E, it.facts, R.of(simp(E, it.facts, E.getfield(x, ORDER))))
                okc = good(o)
                if not okc:
                    lvs = [y for y in subterms(o) if y in E.recvals and y in L.insts]
                    okc = bool(lvs) and all(every(E, trs[0].st, E.recvals[y][0], it.facts, lambda v: good(E.getfield(v, ORDER))) for y in lvs)
                c.ob('%s:started with order' % name, okc, 'the fields of an instance of a parsed group are not in the order of the dictionary: %s' % show(o)[-90:], body['span'])
    c.floor('instances started by ' + name, n, 1)


def dictionary_order(o, gi):
    dd = ('fld', gi, GI + '.0.data_dictionary')
    while o[0] == 'app' and o[1] == 'coll' or o[0] == 'it' and o[1] in ('set', 'seq') and o[3] is None:
        o = o[2]
    return o == ('fld', dd, DDT + '.0.fields_order')


def instance_order(o, gi):
    d = ('fld', gi, GI + '.0.delimiter')
    if first(o) == d:
        return True
    return dictionary_order(o, gi)


def first(o):
    return o[1][0] if o[0] == 'arr' and o[1] else None


def entry(body, i):
    return (body['locals'][i + 1].get('n') or 'a%d' % (i + 1), 0)


def all_ev(trs):
    return [e for e, _ in uniq_events(trs)]


def every(E, st, t, facts, good):
    """every element of an instance sequence"""
    els = elements(E, st, t, facts)
    return els is not None and all(good(x) for x in els)
