"""Linear use of received fields: over every accepting path of the message parser, every field taken from the text goes into the
field queue once, every field taken from the queue is put into exactly one section (or group instance) under its own tag with
its own value, and only where no field with that tag is. Decided per loop iteration: the items removed from the queue by the
iteration's state change must equal the items its section updates place; the facts of the path must imply that the dictionary
lists the field for that section and that the tag is not present (or, in a group instance, comes later in the field order than
every plain field before it). Recursive group parsers are checked against the same contract from an arbitrary state."""
from .parser import *
from .compose import assume
from .settings import normal

RANK = {'header': 0, 'body': 1, 'trailer': 2}


def match(E, it, item_params=()):
    """pair taken items with placements: (unplaced items, unmatched placements, pairs)"""
    taken = Counter(it.taken)
    for x in item_params:
        taken[x] += 1
    pairs, extra = [], []
    for p in it.puts:
        for x in taken:
            if taken[x] > 0 and (same_item(E, p.val, x) or count_field(E, p.val, x)) and p.key == tag_of(E, x):
                taken[x] -= 1
                pairs.append((x, p))
                break
        else:
            extra.append(p)
    return taken, extra, pairs


def count_field(E, val, x):
    """the stored count of a group: the number the field's value parses to, written in decimal"""
    if tag_of(E, val) != tag_of(E, x):
        return False
    v = val_of(E, val)
    return v[0] == 'app' and v[1] == 'dec' and any(y[0] == 'app' and y[1] == 'parse' and y[3] == val_of(E, x) for y in subterms(v))


def absent(E, facts, p, key):
    """the map the field is placed into has no field with that tag"""
    g = ('app', 'get', p.before, key)
    return E.truth(facts, ('is', g, 1)) is False or E.truth(facts, ('has', p.before, key)) is False


def check_source(c, m):
    """the text is split at the delimiter and every piece becomes one field of the queue"""
    E, fl = m.E, m.fl
    n = 0
    text = None
    for i, l in enumerate(m.entry['locals'][1:m.entry['argc'] + 1]):
        if E.strip(E.ty(l['ty'])) == ('prim', 'str'):
            text = E.deep(m.traces[0].st, m.av[i])
    for lid, L in m.loops.items():
        for lv in L.q:
            if all(op == 'push' for it in L.iters for op in [o[0] for o in fl.walk(simp(E, it.facts, E.recvals[lv][1][it.i][0]))[0]]) and \
                    any(m_ < 0 for it in L.iters for m_ in it.taken.values()):
                n += 1
                m.source[lv] = lid
                for it in L.iters:
                    src = [f for f, v in it.facts.items() if f[0] == 'more' and v is True and L.ev.facts.get(f) is not True]
                    good = False
                    for f in src:
                        el = ('el', f[1], f[2])
                        s = f[1]
                        if s[0] == 'app' and s[1] in ('split_terminator', 'split') and s[2] == text and s[3] == S('\x01'):
                            good = it.taken and list(it.taken.values()) == [-1] and is_field_of(E, list(it.taken)[0], el)
                            if s[1] == 'split' and not it.taken and E.truth(it.facts, mk_eq(el, S(''))) is True:
                                good = True     # nothing between two delimiters
                    c.ob('split:every piece becomes a field', good,
                         'a piece of the text is not stored as exactly one field with the tag before and the value after its first "="', L.ev.sp)
                c.ob('split:starts empty', E.recvals[lv][0] == ('arr', ()), 'the queue holds other fields before the text is split', L.ev.sp)
    c.floor('loops that split the text', n, 1)


def is_field_of(E, x, el):
    t, v = tag_of(E, x), val_of(E, x)
    pt = ('app', 'parse', S('u32'), ('app', 'before', el, S('=')))
    return t == ('fld', pt, OKP) and v == ('app', 'after', el, S('='))


def check_recs(c, m, fn, it, sect, fl, where, dd_of):
    """recursive group parser calls: field, section and success; -> items handed over"""
    E = m.E
    items = []
    for e in it.recs:
        body = m.recs.get(e.name)
        c.ob('%s:group parser known' % fn, body is not None, 'the recursive call of %s is not known' % e.name, e.sp)
        if body is None:
            continue
        ps = m.params(body[0])
        c.ob('%s:%s:roles' % (fn, e.name), {'queue', 'fm', 'item'} <= set(ps), 'the group parser does not take a queue, a field and a section', e.sp)
        if not {'queue', 'fm', 'item'} <= set(ps):
            continue
        c.ob('%s:group failure is a rejection' % fn, E.truth(it.facts, ('is', e.res, 0)) is True,
             'an error of the group parser does not reject the message', e.sp)
        items.append((e.args[ps['item']], e, e.args[ps['fm']], e.args[ps['queue']]))
    return items


def check_loop(c, m, fn, fl, L, secname, dd, inner):
    E = m.E
    where = L.ev.sp
    num = new_instance(E, L) if L.insts else None
    for it in L.iters:
        for s in it.lost:
            c.bad('%s:%s' % (fn, s), 'in a loop iteration %s: fields in it are lost' % s, where)
        items = check_recs(c, m, fn, it, secname, fl, where, dd)
        taken, extra, pairs = match(E, it)
        for x, e, fm, q in items:
            c.ob('%s:group count field comes from the queue' % fn, taken.get(x, 0) > 0,
                 'the group parser gets a field that was not just taken from the queue', e.sp)
            taken[x] = taken.get(x, 0) - 1
        for x, n in taken.items():
            c.ob('%s:field is kept' % fn, n <= 0, 'a field taken from the text is dropped by an iteration that continues: it is not put into any section', where)
            c.ob('%s:field is kept once' % fn, n >= 0, 'a field is used twice or put back while it is also kept', where)
        for p in extra:
            c.bad('%s:foreign field' % fn, 'a value that is not the field just taken (tag and value) is stored: %s -> %s' % (show(p.key)[:60], show(p.val)[:80]), where)
        for op, k in it.others:
            c.bad('%s:%s' % (fn, op), 'fields already stored are changed or removed (%s %s)' % (op, show(k)[:60] if k else ''), where)
        for x, p in pairs:
            sec = secname(p.base if p.inst is None else None)
            k = tag_of(E, x)
            if p.inst is None:
                c.ob('%s:%s:no duplicate' % (fn, sec), absent(E, it.facts, p, k),
                     'a field is stored without making sure that its tag is not there yet', where)
                section_facts(c, E, fn, it.facts, sec, dd, k, where)
            else:
                instance_rules(c, E, fn, L, it, num, x, p, where)
            c.count('field placements')
        for x, e, fm, q in items:
            if not inner:
                sec = secname(fm_base(fl, fm))
                section_facts(c, E, fn, it.facts, sec, dd, tag_of(E, x), where)
            else:
                c.ob('%s:nested group in the current instance' % fn, in_instance(E, fl, L, it, num, e, fm),
                     'a nested group is not put into the current instance', e.sp)
            c.count('group placements')


def fm_base(fl, fm):
    links, b = fl.chain(fl.proj(fm, 'fields'), 'fields')
    for l in links:
        if l[0] == 'loop':
            return l[1]
    x = fl.unproj(b, 'fields')
    return x if x is not None else b


def in_instance(E, fl, L, it, num, e, fm):
    return num is not None and len(it.insts) >= 1 and any(any(y == v for y in subterms(x)) for k, x in it.insts for i, v in e.x)


def section_facts(c, E, fn, facts, sec, dd, k, where):
    h, t = listed(dd, S('header'), k), listed(dd, S('trailer'), k)
    if sec == 'header':
        good = E.truth(facts, h) is True
    elif sec == 'trailer':
        good = E.truth(facts, t) is True
    elif sec == 'body':
        good = E.truth(facts, h) is False and E.truth(facts, t) is False
    else:
        good = False
    c.ob('%s:%s:section' % (fn, sec), good, 'a field is stored in the %s although the dictionary does not place it there' % (sec or 'an unknown section'), where)


def later(E, f, o, P):
    """position o comes after the remembered one (None remembers no position, and every position comes after it)"""
    t = E.truth(f, pos(sub(o, P)))
    if t is None and any(x[1] == OPT for x in E.recvals.get(P, ((),))[:1] if x[:1] == ('adt',)):
        v = E.getfield(P, OPT + '.1.0')
        g = assume(E, f, [(('is', P, 1), True)])
        g = g and normal(E, g)
        t = None if g is None else E.truth(g, pos(sub(o, v)))
        if g is None:
            return True
        if t is False and E.truth(f, ('is', P, 1)) is not True:
            return None
    return t


def order_var(E, L, num, where=None):
    """the variable that remembers the position of the last plain field, as (variable, {iteration: position term})"""
    C, k, new = num
    for P in L.lvs:
        if P == C or kind_of(E, P):
            continue
        init, backs = E.recvals[P]
        if len(backs) != len(L.iters):
            continue
        offs, good = {}, True
        for it, (v, f) in zip(L.iters, backs):
            v = simp(E, f, v)
            if new[it.i]:
                good &= v[0] == 'int' and v[1] <= 0 or v == NONE
            elif v == P:
                pass
            else:
                if v[0] == 'adt' and v[1] == OPT and v[2] == 1:
                    v = v[3][0]
                offs[it.i] = v
                good &= any(y[0] == 'app' and y[1] == 'idx' for y in subterms(v)) and later(E, f, v, P) is True
        if good and offs:
            return P, offs
    return None


def instance_rules(c, E, fn, L, it, num, x, p, where):
    k = tag_of(E, x)
    if num is None:
        c.bad('%s:instances' % fn, 'the instances of a group are not filled one after the other', where)
        return
    C, kk, new = num
    idx = add(simp(E, it.facts, E.recvals[C][1][it.i][0]), kk)
    c.ob('%s:current instance' % fn, p.inst == idx, 'a field is put into an instance that is not the current one', where)
    if new[it.i]:
        return        # an instance that holds nothing yet
    ov = order_var(E, L, num)
    ok_ = absent(E, it.facts, p, k)
    if not ok_ and ov is not None and it.i in ov[1]:
        o = ov[1][it.i]
        ok_ = any(y == k for y in subterms(o))
    c.ob('%s:no duplicate in instance' % fn, ok_,
         'a field is stored in a group instance without making sure that its tag is not there yet', where)


def check_accept(c, m):
    """accepting paths of the entry"""
    E, fl = m.E, m.fl
    n = 0
    m.sections = {}
    for t, f, msg in m.accepted(m.traces):
        n += 1
        if not c.ob('accept:result', msg is not None and msg[0] == 'adt', 'the accepted message is not a message value built here'):
            continue
        dd = m.ddterm(t)
        straight = Counter()
        used = set()
        for sec in RANK:
            fm = field(E, msg, sec)
            if not c.ob('accept:%s' % sec, fm is not None, 'the message has no %s' % sec):
                continue
            links, origin = fl.chain(fl.proj(simp(E, f, fm), 'fields'), 'fields', None, f)
            c.ob('accept:%s starts empty' % sec, origin == ('app', 'emptymap'), 'the %s of an accepted message does not start empty: %s' % (sec, show(origin)[:80]))
            for l in links:
                if l[0] == 'loop':
                    m.sections.setdefault(l[1], set()).add(sec)
                    used.add(l[1])
                elif l[0] == 'ops':
                    for op, x, k, before in l[1]:
                        straight[(op, show(k)[:40] if k else None)] += 1
        for s, k in straight.items():
            c.bad('accept:straight', 'a field is stored outside the loops over the text: %s %s' % s)
        fq = final_queue(E, fl, t, f)
        if not c.ob('accept:queue', fq is not None, 'the queue of fields is not found on an accepting path'):
            continue
        v, links, origin = fq
        c.ob('accept:everything used', E.truth(f, mk_eq(mk_len_(E, t, v), I(0))) is True,
             'a text is accepted while fields of it are still unread', E.bodies[m.entry['id']]['span'] if False else '')
        left, recs = balance(links)
        c.ob('accept:nothing dropped between loops', not left and not recs, 'fields are taken from the queue and dropped between the section parsers')
        c.ob('accept:queue starts empty', origin == ('arr', ()), 'the queue of fields does not come from the text')
        inq = [l[1] for l in links if l[0] == 'loop']
        rank = 3
        for e in t.events:
            if e.kind == 'loop':
                L = m.loops[e.x['id']]
                for lv in L.q:
                    c.ob('accept:one queue', lv in inq or lv in m.source or not any(it.taken or it.recs for it in L.iters),
                         'a loop reads fields from a queue that is a copy', e.sp)
                for lv in L.secs:
                    if kind_of(E, lv) in ('fm', 'fields'):
                        ch = any(simp(E, it.facts, E.recvals[lv][1][it.i][0]) != lv for it in L.iters)
                        c.ob('accept:section reaches the message', not ch or lv in used, 'fields are stored in a section that is not part of the result', e.sp)
        for lv in inq:      # newest first
            L = m.loops.get(lv[1])
            ss = set()
            for s in (L.secs if L else ()):
                ss |= m.sections.get(s, set()) if any(simp(E, it.facts, E.recvals[s][1][it.i][0]) != s for it in L.iters) else set()
            if ss:
                lo, hi = min(RANK[s] for s in ss), max(RANK[s] for s in ss)
                c.ob('accept:section order', lo == hi and hi < rank, 'header, body and trailer are not read one after the other', L.ev.sp)
                rank = lo
    c.floor('accepting paths', n, 1)


def mk_len_(E, t, v):
    from fx.models import mk_len
    return mk_len(E, t.st, v)


def check_rec(c, m, name):
    """a recursive group parser: what it takes ends up in the section it is given"""
    E = m.E
    body, av, trs, fl = m.recs[name]
    ps = m.params(body)
    if not {'queue', 'fm', 'item'} <= set(ps):
        return
    loops = loops_of(fl, trs)
    n = 0
    bases = {}
    for t, f, r in m.accepted(trs):
        n += 1
        item = E.deep(t.st, av[ps['item']])
        fm = simp(E, f, E.deep(t.st, av[ps['fm']]))
        it = Iter()
        it.facts, it.puts, it.others, it.lost, it.taken, it.insts, it.recs = f, [], [], [], Counter(), [], []
        links, origin = puts_in(fl, fl.proj(fm, 'fields'), 'fields', None, it.puts, it.others, f)
        q, ql, qo = (lambda v: (v,) + fl.chain(v, 'queue', None, f))(simp(E, f, E.deep(t.st, av[ps['queue']])))
        left, recs = balance(ql)
        it.taken = left
        c.ob('%s:queue kept' % name, qo == E.deep(E_init(E), av[ps['queue']]) if False else qo[0] == 'sym', 'the group parser replaces the queue')
        taken, extra, pairs = match(E, it, [item])
        for x, k in taken.items():
            c.ob('%s:count field and last field are kept' % name, k == 0,
                 'a field taken from the text is lost, or used twice, when the group parser returns', body['span'])
        for p in extra:
            c.bad('%s:foreign field' % name, 'a value that is not the count field is stored next to a group: %s -> %s' % (show(p.key)[:60], show(p.val)[:80]), body['span'])
        for op, k in it.others:
            c.bad('%s:%s' % (name, op), 'fields already stored are changed or removed', body['span'])
        for x, p in pairs:
            c.ob('%s:no duplicate count' % name, absent(E, f, p, tag_of(E, x)),
                 'a group is stored without making sure that its count field is not there yet', body['span'])
        # the instances that the loops fill are those of the group that is stored
        gl, go = fl.chain(fl.proj(fm, 'groups'), 'groups', None, f)
        vecs = set()
        for l in gl:
            if l[0] == 'ops':
                for op, x, k, before in l[1][:1]:
                    if op in ('ins', 'upd') and k == tag_of(E, item):
                        v = E.getfield(x, GR + '.0.fields')
                        for l2 in fl.chain(v, 'insts', None, f)[0]:
                            if l2[0] == 'loop':
                                vecs.add(l2[1])
        for e in t.events:
            if e.kind == 'loop' and e.x['id'] in loops:
                for lv in loops[e.x['id']].insts:
                    if any(it2.insts for it2 in loops[e.x['id']].iters):
                        c.ob('%s:instances reach the message' % name, lv in vecs, 'the instances that are filled are not those of the stored group', e.sp)
    c.floor('accepting paths of %s' % name, n, 1)
    dd = None
    for t in trs:
        if 'dd' in ps:
            dd = E.deep(t.st, av[ps['dd']])
            break
    for lid, L in loops.items():
        if L.moves_fields() and L.q:
            check_loop(c, m, name, fl, L, lambda b: None, dd, True)
            c.count('loops that move fields')


def E_init(E):
    return None


def check(c):
    c.rule = 'the fields an iteration takes from the queue are exactly those it puts into a section, each under its own tag where that tag is absent'
    m = Model(c)
    E = m.E
    m.source = {}
    m.loops = loops_of(m.fl, m.traces)
    ps = m.params(m.entry)
    if not c.ob('entry:dictionary', 'dd' in ps, 'the parser does not take a dictionary'):
        return
    m.ddterm = lambda t: E.deep(t.st, m.av[ps['dd']])
    check_source(c, m)
    check_accept(c, m)
    dd = m.ddterm(m.traces[0])
    for lid, L in sorted(m.loops.items()):
        if L.moves_fields() and L.q and not any(lv in m.source for lv in L.q):
            def secname(b):
                ss = m.sections.get(b) or set()
                return list(ss)[0] if len(ss) == 1 else None
            check_loop(c, m, 'Message::from_str', m.fl, L, secname, dd, False)
            c.count('loops that move fields')
    for name in sorted(m.recs):
        check_rec(c, m, name)
    c.floor('field placements', c.counts.pop('field placements', 0), 5)
    c.floor('group placements', c.counts.pop('group placements', 0), 4)
