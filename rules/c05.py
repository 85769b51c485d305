"""Structure of repeating groups: the fill loop of every recursive group parser is checked by induction. Rules: the group comes
from the dictionary entry of the message type and count tag; its instances are created empty, as many as the count declares; an
iteration starts a new instance exactly when its field is the declared delimiter, and otherwise needs a current one; member
groups go to the recursive parser with the group's own dictionary and the current instance, plain members only in strictly
increasing dictionary order; the loop is left only at a field that is no member; and acceptance requires that the number of
instances started equals the count. Section parsers must hand every count field to the group parser, with the right type."""
from .parser import *
from .c04 import check_recs, fm_base, order_var, match, count_field, check_accept, check_source
from .linear import seq_len, elements

GI = 'data_dictionary::GroupInfo'


def gi_field(E, gi, name):
    a = E.adts.get(GI)
    for f in a['v'][0]['f'] if a else ():
        if f['n'] == name:
            return E.getfield(gi, '%s.0.%s' % (GI, name))
    return None


def fresh_elems(E, fl, st, t, facts):
    """every element of an instance sequence is an empty field map"""
    def empty(x):
        return E.getfield(x, FIELDS) == ('app', 'emptymap') and E.getfield(x, GROUP) == ('app', 'emptymap')
    els = elements(E, st, t, facts)
    return els is not None and all(empty(x) for x in els)


def eq_mod_cast(E, facts, a, b):
    """a = b is known, whatever widths they are compared in"""
    for f, v in facts.items():
        if v is True and f[0] == 'eq':
            if same_mod_cast(f[1], a, f[2], b) or same_mod_cast(f[2], a, f[1], b):
                return True
    return E.truth(facts, mk_eq(a, b)) is True


def uncast(t):
    """drop the integer width conversions inside a term"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'app' and t[1] == 'cast':
        return uncast(t[3])
    if t[0] == 'lin':
        r = I(t[1])
        for x, k in t[2]:
            r = add(r, mul(I(k), uncast(x)))
        return r
    return t


WIDE = ('i32', 'u32', 'i64', 'u64', 'isize', 'usize', 'i128', 'u128')


def casts_ok(t):
    return all(not (y[0] == 'app' and y[1] == 'cast') or y[2][1] in WIDE for y in subterms(t))


def same_mod_cast(x, a, y, b):
    if not (casts_ok(x) and casts_ok(y)):
        return False
    return sub(uncast(x), uncast(y)) == sub(uncast(a), uncast(b))


def check_group_parser(c, m, name):
    E = m.E
    body, av, trs, fl = m.recs[name]
    ps = m.params(body)
    if not c.ob('%s:roles' % name, {'queue', 'fm', 'item', 'dd', 'key'} <= set(ps),
                'the group parser does not take a queue, a section, a count field, a message type and a dictionary', body['span']):
        return
    loops = loops_of(fl, trs)
    n = 0
    fill = {}
    for t, f, r in m.accepted(trs):
        n += 1
        item, dd, key = [E.deep(t.st, av[ps[k]]) for k in ('item', 'dd', 'key')]
        fm = simp(E, f, E.deep(t.st, av[ps['fm']]))
        tag = tag_of(E, item)
        gi = group_info(dd, key, tag)
        delim, gdd = gi_field(E, gi, 'delimiter'), gi_field(E, gi, 'data_dictionary')
        pt = ('app', 'parse', S('u32'), val_of(E, item))
        declared = E.getfield(pt, OKP)
        c.ob('%s:declared group' % name, E.truth(f, is_group(dd, key, tag)) is True,
             'a group is accepted although the dictionary declares none for that tag and message type', body['span'])
        c.ob('%s:count is a number' % name, E.truth(f, ('is', pt, 0)) is True, 'a group is accepted whose count field is not a number', body['span'])
        links, origin = fl.chain(fl.proj(fm, 'groups'), 'groups', None, f)
        top = links[0][1][0] if links and links[0][0] == 'ops' else None
        if not c.ob('%s:group stored' % name, top is not None and top[0] in ('ins', 'upd') and top[2] == tag,
                    'the group is not stored under the tag of its count field', body['span']):
            continue
        g = top[1]
        for part, want in (('delim', delim), ('tag', tag), ('value', declared)):
            c.ob('%s:group %s' % (name, part), E.getfield(g, '%s.0.%s' % (GR, part)) == want,
                 'the stored group has %s %s instead of %s' % (part, show(E.getfield(g, '%s.0.%s' % (GR, part)))[:60], show(want)[-60:]), body['span'])
        vec = E.getfield(g, GR + '.0.fields')
        vl, vo = fl.chain(vec, 'insts', None, f)
        lvs = [l[1] for l in vl if l[0] == 'loop']
        filler = [lv for lv in lvs if lv[1] in loops and any(it.taken or it.recs for it in loops[lv[1]].iters)]
        if not c.ob('%s:instances filled by one loop' % name, len(filler) == 1 and vl and vl[0][:2] == ('loop', filler[0]),
                    'the instances of the stored group are not those filled from the queue', body['span']):
            continue
        lv = filler[0]
        L = loops[lv[1]]
        G0 = E.recvals[lv][0]
        ln = seq_len(E, t.st, G0, f, f)
        c.ob('%s:as many instances as declared' % name, ln is not None and uncast(ln) == declared,
             'the group gets %s instances, the count field declares %s' % (show(ln)[:60] if ln else 'an unknown number of', show(declared)[:60]), body['span'])
        c.ob('%s:instances start empty' % name, fresh_elems(E, fl, t.st, G0, f), 'the instances of a group do not start empty', body['span'])
        num = new_instance(E, L)
        if not c.ob('%s:instances in order' % name, num is not None, 'the fill loop does not number the instances one after the other', L.ev.sp):
            continue
        C, k, new = num
        c.ob('%s:count matches' % name, eq_mod_cast(E, f, add(add(C, k), I(1)), declared),
             'a group is accepted although the number of its instances is not the declared one', body['span'])
        # the field that ended the group is no member of it
        q = simp(E, f, E.deep(t.st, av[ps['queue']]))
        left = mk_len_(E, t, q)
        if E.truth(f, mk_eq(left, I(0))) is not True and E.truth(f, pos(left)) is not False:
            x = q[3] if q[0] == 'app' and q[1] == 'pushf' else ('app', 'front', q)
            xt = tag_of(E, x)
            ends = E.truth(f, mk_eq(xt, delim)) is False and E.truth(f, listed(gdd, key, xt)) is False and E.truth(f, is_group(gdd, key, xt)) is False
            c.ob('%s:ends at a foreign field' % name, ends, 'a group ends although the next field belongs to it', body['span'])
        fill[lv[1]] = (L, num, dd, key, delim, gdd)
    c.floor('accepting paths of %s' % name, n, 1)
    for lid, (L, num, dd, key, delim, gdd) in fill.items():
        check_fill(c, m, name, fl, L, num, key, delim, gdd)


def mk_len_(E, t, v):
    from fx.models import mk_len
    return mk_len(E, t.st, v)


def check_fill(c, m, name, fl, L, num, key, delim, gdd):
    E = m.E
    C, k, new = num
    w = L.ev.sp
    ov = order_var(E, L, num)
    order = table(gdd, 'fields_order')
    for it in L.iters:
        f = it.facts
        xs = [x for x, v in it.taken.items() if v > 0]
        if not c.ob('%s:one field per iteration' % name, len(xs) == 1 and it.taken[xs[0]] == 1, 'the fill loop does not handle its fields one by one', w):
            continue
        x = xs[0]
        xt = tag_of(E, x)
        isd = E.truth(f, mk_eq(xt, delim))
        c.count('ways through the fill loop')
        if new[it.i]:
            c.ob('%s:new instance at delimiter' % name, isd is True, 'an instance is started by a field that is not the delimiter', w)
        else:
            c.ob('%s:delimiter starts an instance' % name, isd is False, 'the delimiter does not start a new instance', w)
            c.ob('%s:instance begins with delimiter' % name, E.truth(f, pos(add(add(C, k), I(1)))) is True,
                 'a member field is accepted before the first delimiter', w)
        grp = E.truth(f, is_group(gdd, key, xt))
        if it.recs:
            for e in it.recs:
                b2 = m.recs.get(e.name)
                p2 = m.params(b2[0]) if b2 else {}
                if {'dd', 'key', 'fm', 'item'} <= set(p2):
                    c.ob('%s:nested dictionary' % name, e.args[p2['dd']] == gdd and e.args[p2['key']] == key,
                         'a nested group is parsed with another dictionary or message type than its enclosing group has', e.sp)
                    c.ob('%s:nested count field' % name, e.args[p2['item']] == x, 'a nested group is parsed from another field', e.sp)
                    c.ob('%s:nested group is declared' % name, grp is True, 'a field is parsed as a nested group that is not declared as one', e.sp)
                    idx = add(simp(E, f, E.recvals[C][1][it.i][0]), k)
                    at_ = [p for p, v in it.insts if p == idx]
                    c.ob('%s:nested group in the current instance' % name, bool(at_) and any(y == v for p, z in it.insts for y in subterms(z) for i, v in e.x),
                         'a nested group does not end up in the current instance', e.sp)
        else:
            c.ob('%s:groups are parsed as groups' % name, grp is False, 'the count field of a nested group is taken as a plain field', w)
            if not new[it.i]:
                c.ob('%s:member' % name, E.truth(f, listed(gdd, key, xt)) is True, 'a field that is no member of the group is accepted in it', w)
                good = ov is not None and it.i in ov[1]
                if good:
                    o = ov[1][it.i]
                    ix = [y for y in subterms(o) if y[0] == 'app' and y[1] == 'idx']
                    good = any(any(z == order for z in subterms(y)) and any(z == xt for z in subterms(y)) for y in ix)
                c.ob('%s:strict order' % name, good, 'plain members of an instance are accepted out of the dictionary order (or repeated)', w)


def check_sections(c, m):
    """header and body hand every count field to the group parser"""
    E, fl = m.E, m.fl
    ps = m.params(m.entry)
    dd = E.deep(m.traces[0].st, m.av[ps['dd']])
    for lid, L in sorted(m.loops.items()):
        if not (L.moves_fields() and L.q) or any(lv in m.source for lv in L.q):
            continue
        for it in L.iters:
            for e in it.recs:
                b2 = m.recs.get(e.name)
                p2 = m.params(b2[0]) if b2 else {}
                if not {'dd', 'key', 'fm', 'item'} <= set(p2):
                    continue
                sec = m.sections.get(fm_base(fl, e.args[p2['fm']])) or set()
                key = e.args[p2['key']]
                c.ob('sections:dictionary of groups', e.args[p2['dd']] == dd, 'a group is parsed with another dictionary', e.sp)
                c.ob('sections:type of groups', good_key(m, sec, key, it.facts), 'a group in the %s is looked up for %s' % ('/'.join(sorted(sec)), show(key)[:80]), e.sp)
                c.count('group parser calls')
            taken, extra, pairs = match(E, it)
            for x, p in pairs:
                sec = m.sections.get(p.base) or set()
                if 'trailer' in sec:
                    continue
                ks = keys_tested(E, it.facts, dd, tag_of(E, x))
                c.ob('sections:count fields are groups', any(good_key(m, sec, k2, it.facts) for k2 in ks),
                     'a field is stored as plain field of the %s without making sure that it is not the count of a group' % '/'.join(sorted(sec)), L.ev.sp)
                c.count('plain placements')
    c.floor('group parser calls', c.counts.pop('group parser calls', 0), 2)
    c.floor('plain placements', c.counts.pop('plain placements', 0), 2)


def keys_tested(E, facts, dd, tag):
    g = table(dd, 'groups')
    ks = set()
    for f in facts:
        for y in subterms(f):
            if y[0] == 'app' and y[1] == 'get' and y[2] == g:
                ks.add(y[3])
    return [k for k in ks if E.truth(facts, is_group(dd, k, tag)) is False]


def good_key(m, sec, key, facts):
    E, fl = m.E, m.fl
    if sec == {'header'}:
        return key == S('header')
    if sec == {'body'}:
        if key[0] == 'fld' and key[2] == VALUE:
            y = key[1]
            if y[0] == 'fld' and y[1][0] == 'app' and y[1][1] == 'get' and y[1][3] == I(35):
                links, o = fl.chain(y[1][2], 'fields')
                for l in links:
                    if l[0] == 'loop':
                        return m.sections.get(l[1]) == {'header'}
            return E.truth(facts, mk_eq(tag_of(E, y), I(35))) is True
    return False


def check(c):
    c.rule = 'inductive structure of the group fill loop: delimiter <=> new instance, members in order, as many instances as declared'
    m = Model(c)
    m.source = {}
    m.loops = loops_of(m.fl, m.traces)
    ps = m.params(m.entry)
    m.ddterm = lambda t: m.E.deep(t.st, m.av[ps['dd']])
    from . import base
    quiet = base.Check(c.pid, c.facts_path, c.tier)       # sections are named here, judged by C04
    check_source(quiet, m)
    check_accept(quiet, m)
    check_sections(c, m)
    for name in sorted(m.recs):
        check_group_parser(c, m, name)
    c.floor('ways through the fill loop', c.counts.pop('ways through the fill loop', 0), 4)
