"""Justified rejections: every rejecting path of the message parser (and of the recursive group parsers) is enumerated with the
facts that hold on it; the reason it returns must be implied by those facts, per the table below. Accepting paths must rule the
malformed starts and pieces out. Every named rejection constructor is evaluated and must yield the reason it is named after."""
from .parser import *
from .c04 import check_source, check_accept, later
from .c05 import gi_field, uncast
from . import base

ERR = 'quickfix_errors::SessionRejectError'
NAMES = {'invalid_tag_err': 'InvalidTag', 'required_tag_missing_err': 'RequiredTagMissing', 'undefined_tag_err': 'UndefinedTag',
         'tag_without_value_err': 'TagSpecifiedWithoutValue', 'value_out_of_range_err': 'ValueOutOfRange',
         'incorrect_data_format_err': 'IncorrectDataFormatForValue', 'decryption_err': 'DecryptionProblem',
         'signature_err': 'SignatureProblem', 'comp_id_err': 'CompIdProblem',
         'sending_time_accuracy_err': 'SendingTimeAccuracyProblem', 'invalid_msg_type_err': 'InvalidMessageType',
         'invalid_body_len_err': 'InvalidBodyLength', 'invalid_checksum': 'InvalidChecksum',
         'tag_not_defined_for_msg': 'TagNotDefinedForMsgType', 'xml_validation_err': 'XmlValidationError',
         'tag_appear_more_than_once': 'TagAppearsMoreThanOnce', 'tag_specified_out_of_order': 'TagSpecifiedOutOfOrder',
         'repeating_grp_out_of_order': 'RepeatingGroupsOutOfOrder',
         'incorrect_num_in_grp_count': 'IncorrectNumInGroupCountForRepeatingGroup',
         'non_data_field_contains_soh': 'NonDataFieldIncludeSOHChar'}
START = (8, 9, 35)


def reason(E, v):
    """variant name of a rejection value"""
    if v[0] != 'adt' or v[1] != ERR:
        return None
    k = v[3][0]
    a = E.adts.get(k[1]) if k[0] == 'adt' else None
    return a['v'][k[2]]['n'] if a else None


def elements(facts):
    out = set()
    for f in facts:
        for y in subterms(f):
            if y[0] == 'el':
                out.add(y)
    return out


def items(E, facts):
    """fields of the queue that the facts speak about"""
    out = set()
    for f in facts:
        for y in subterms(f):
            if y[0] == 'fld' and y[2] in (TAG, VALUE):
                out.add(y[1])
            if y[0] == 'app' and y[1] in ('front', 'at', 'back'):
                out.add(y)
    return out


def queue_of(E, x):
    """the queue variable a taken field comes from"""
    if x[0] == 'app' and x[1] in ('front', 'at', 'back'):
        t = x[2]
        while t[0] == 'app' and t[1] in ('tail', 'init'):
            t = t[2]
        return t
    return None


class Why:
    def __init__(self, c, m):
        self.c, self.m, self.E = c, m, m.E

    def section_of_item(self, x):
        """sections that the loop the field was taken in fills"""
        q = queue_of(self.E, x)
        if q is None or q[0] != 'lv':
            return set()
        L = self.m.loops.get(q[1])
        out = set()
        for s in (L.secs if L else ()):
            out |= self.m.sections.get(s, set())
        return out

    def wrong_start(self, f, rawq):
        """the text does not start with 8, 9, 35"""
        E = self.E
        for q in rawq:
            n = ('app', 'len', q)
            good = [(pos(sub(n, I(i))), True) for i in range(len(START))]
            good += [(mk_eq(tag_of(E, ('app', 'front', q) if i == 0 else ('app', 'at', q, I(i))), I(t)), True) for i, t in enumerate(START)]
            if refuted(E, f, good):
                return True
        return False

    def entry(self, kind, f, dd):
        E, m = self.E, self.m
        els = elements(f)
        xs = items(E, f)
        if kind == 'InvalidTag':
            return any(E.truth(f, ('ctn', e, S('='))) is False or
                       E.truth(f, ('is', ('app', 'parse', S('u32'), ('app', 'before', e, S('='))), 0)) is False for e in els)
        if kind == 'TagSpecifiedWithoutValue':
            return any(E.truth(f, mk_eq(('app', 'after', e, S('=')), S(''))) is True for e in els)
        if kind == 'TagSpecifiedOutOfOrder':
            if self.wrong_start(f, list(m.source)):
                return True
            for x in xs:
                s = self.section_of_item(x)
                k = tag_of(E, x)
                h, t = E.truth(f, listed(dd, S('header'), k)), E.truth(f, listed(dd, S('trailer'), k))
                if s and 'header' not in s and h is True:
                    return True
                if 'trailer' in s and t is False:
                    return True
            return False
        if kind == 'TagAppearsMoreThanOnce':
            for x in xs:
                s = self.section_of_item(x)
                for mp in maps_with(E, f, tag_of(E, x)):
                    links, o = m.fl.chain(mp, 'fields')
                    for l in links:
                        if l[0] == 'loop':
                            if s and m.sections.get(l[1]) == s:
                                return True
                            break
            return False
        if kind == 'RequiredTagMissing':
            for g, v in f.items():
                if g[0] == 'is' and g[2] == 1 and v is False and g[1][0] == 'app' and g[1][1] == 'get' and g[1][3] == I(35):
                    return True
        return False

    def group(self, kind, f, t, g):
        E = self.E
        item, dd, key, q0 = g['item'], g['dd'], g['key'], g['queue']
        tag = tag_of(E, item)
        pt = ('app', 'parse', S('u32'), val_of(E, item))
        declared = E.getfield(pt, OKP)
        gi = group_info(dd, key, tag)
        delim, gdd = gi_field(E, gi, 'delimiter'), gi_field(E, gi, 'data_dictionary')
        if kind == 'TagNotDefinedForMsgType':
            return E.truth(f, is_group(dd, key, tag)) is False
        if kind == 'IncorrectDataFormatForValue':
            return E.truth(f, ('is', pt, 0)) is False
        if kind == 'TagAppearsMoreThanOnce':
            return any(mp == g['fields'] for mp in maps_with(E, f, tag))
        xs = [x for x in items(E, f) if queue_of(E, x) is not None]
        if kind == 'IncorrectNumInGroupCountForRepeatingGroup':
            n = ('app', 'len', q0)
            if E.prove_pos(f, sub(uncast(declared), n)):
                return True
            for L, (C, k, new) in g['fills']:
                c1 = add(add(C, k), I(1))
                for h, v in f.items():
                    if h[0] == 'eq' and v is False and sub(uncast(h[1]), uncast(h[2])) in (sub(c1, declared), sub(declared, c1)):
                        return True
                # a delimiter when all declared instances are there
                for h, v in f.items():
                    if h[0] == 'pos':
                        d = uncast(h[1])
                        if (v is False and d == sub(declared, c1)) or (v is True and d == add(sub(c1, declared), I(1))):
                            if any(E.truth(f, mk_eq(tag_of(E, x), delim)) is True for x in xs):
                                return True
                for y in subterms_all(f):
                    if y[0] == 'app' and y[1] == 'len' and kind_of(E, y[2]) == 'insts' and E.truth(f, pos(sub(y, c1))) is False:
                        if any(E.truth(f, mk_eq(tag_of(E, x), delim)) is True for x in xs):
                            return True
            return False
        if kind == 'RequiredTagMissing':
            for L, (C, k, new) in g['fills']:
                if E.truth(f, pos(add(add(C, k), I(1)))) is False:
                    for x in xs:
                        if E.truth(f, mk_eq(tag_of(E, x), delim)) is False and \
                                (E.truth(f, listed(gdd, key, tag_of(E, x))) is True or E.truth(f, is_group(gdd, key, tag_of(E, x))) is True):
                            return True
            return False
        if kind == 'RepeatingGroupsOutOfOrder':
            for L, num in g['fills']:
                ov = order_var_(E, L, num)
                if ov is None:
                    continue
                P, offs = ov
                for o in offs.values():
                    if later(E, f, o, P) is False:
                        return True
            return False
        return False


def order_var_(E, L, num):
    from .c04 import order_var
    return order_var(E, L, num)


def subterms_all(f):
    for g in f:
        yield from subterms(g)


def maps_with(E, f, k):
    """field maps known to hold that tag"""
    for g, v in f.items():
        if v is True and g[0] == 'is' and g[2] == 1 and g[1][0] == 'app' and g[1][1] == 'get' and g[1][3] == k:
            yield g[1][2]
        elif v is True and g[0] == 'has' and g[2] == k:
            yield g[1]


def propagated(E, v, recs):
    return v[0] == 'fld' and v[2] == RES + '.1.0' and v[1] in recs


def check(c):
    c.rule = 'the facts on a rejecting path imply the condition of the reason it returns'
    m = Model(c)
    E = m.E
    m.source = {}
    m.loops = loops_of(m.fl, m.traces)
    ps = m.params(m.entry)
    if not c.ob('entry:dictionary', 'dd' in ps, 'the parser does not take a dictionary'):
        return
    m.ddterm = lambda t: E.deep(t.st, m.av[ps['dd']])
    quiet = base.Check(c.pid, c.facts_path, c.tier)
    check_source(quiet, m)
    check_accept(quiet, m)
    why = Why(c, m)
    rejects = Counter()

    def reasons(name, t, recs):
        for f, v in cases(E, t.facts, t.val):
            if v[0] == 'adt' and v[1] == RES and v[2] == 1:
                yield f, v[3][0]
            elif v[0] != 'adt':
                if E.truth(f, ('is', v, 0)) is True:
                    continue
                if v in recs:       # the result of a recursive call returned as it is
                    rejects['propagated'] += 1
                    continue
                yield f, v

    def judge(name, t, recs, justified, sp):
        for f, v in reasons(name, t, recs):
            if propagated(E, v, recs):
                rejects['propagated'] += 1
                continue
            k = reason(E, v)
            if not c.ob('%s:reason' % name, k is not None, 'a rejection whose reason is not known: %s' % show(v)[:100], sp):
                continue
            rejects[k] += 1
            c.ob('%s:%s is justified' % (name, k), justified(k, f),
                 'a text can be rejected as %s although what is wrong with it is something else (or nothing)%s' % (k, last_fact(f)), sp)

    recres = {e.res for e, tr in uniq_events(m.traces) if e.kind == 'rec'}
    for t in m.traces:
        if t.kind == 'ret':
            dd = m.ddterm(t)
            judge('Message::from_str', t, recres, lambda k, f: why.entry(k, f, dd), m.entry['span'])
    for name in sorted(m.recs):
        body, av, trs, fl = m.recs[name]
        p2 = m.params(body)
        if not c.ob('%s:roles' % name, {'queue', 'fm', 'item', 'dd', 'key'} <= set(p2), 'the group parser does not take the expected parameters', body['span']):
            continue
        loops = loops_of(fl, trs)
        fills = []
        for L in loops.values():
            if L.q and any(it.taken for it in L.iters):
                num = new_instance(E, L)
                if num is not None:
                    fills.append((L, num))
        rr = {e.res for e, tr in uniq_events(trs) if e.kind == 'rec'}
        s0 = None
        for t in trs:
            if t.kind != 'ret':
                continue
            g = {k: E.deep(t.st, av[p2[k]]) for k in ('item', 'dd', 'key')}
            q, o = fl.chain(E.deep(t.st, av[p2['queue']]), 'queue')
            fo = fl.chain(fl.proj(E.deep(t.st, av[p2['fm']]), 'fields'), 'fields')[1]
            g.update(queue=o, fields=fo, fills=fills)
            judge(name, t, rr, lambda k, f: why.group(k, f, t, g), body['span'])
    # what an accepted text must look like
    for t, f, msg in m.accepted(m.traces):
        good = False
        for q in m.source:
            good |= all(E.truth(f, mk_eq(tag_of(E, ('app', 'front', q) if i == 0 else ('app', 'at', q, I(i))), I(tg))) is True for i, tg in enumerate(START))
        c.ob('accept:start', good, 'a text is accepted that does not start with the fields 8, 9 and 35', m.entry['span'])
    for lv, lid in m.source.items():
        L = m.loops[lid]
        for it in L.iters:
            els = elements(it.facts)
            ok_ = any(E.truth(it.facts, mk_eq(('app', 'after', e, S('=')), S(''))) is False and
                      E.truth(it.facts, ('is', ('app', 'parse', S('u32'), ('app', 'before', e, S('='))), 0)) is True for e in els)
            c.ob('accept:pieces', ok_, 'a field without a number as tag or without a value is let through', L.ev.sp)
    src = E.loopevs.get(list(m.source.values())[0]) if m.source else None
    for lid in m.source.values():
        for it in m.loops[lid].iters:
            for g in it.facts:
                if g[0] == 'more' and g[1][0] == 'app' and g[1][1] == 'split':
                    if not any(E.truth(it2.facts, mk_eq(('el', g[1], g[2]), S(''))) is True for it2 in m.loops[lid].iters):
                        c.bad('accept:last delimiter', 'the delimiter at the end of a well formed text makes it rejected', m.loops[lid].ev.sp)
    for k in ('InvalidTag', 'TagSpecifiedWithoutValue', 'TagSpecifiedOutOfOrder', 'TagAppearsMoreThanOnce', 'IncorrectDataFormatForValue',
              'IncorrectNumInGroupCountForRepeatingGroup', 'RequiredTagMissing', 'RepeatingGroupsOutOfOrder'):
        c.ob('reasons:%s is given' % k, rejects[k] > 0, 'no path of the parser rejects a text as %s any more' % k, m.entry['span'])
    c.counts['rejecting paths'] = sum(rejects.values())
    # constructors
    n = 0
    for i, b in sorted(E.bodies.items()):
        if 'SessionRejectError' in i and i.rsplit('::', 1)[-1] in NAMES and b['argc'] == 0:
            n += 1
            want = NAMES[i.rsplit('::', 1)[-1]]
            av, trs = c.run(E, b)
            for t in trs:
                c.ob('constructor:%s' % i.rsplit('::', 1)[-1], t.kind == 'ret' and reason(E, t.val) == want,
                     '%s yields %s' % (i, reason(E, t.val) if t.kind == 'ret' else t.kind), b['span'])
    c.floor('rejection constructors', n, 15)


def last_fact(f):
    k = list(f.items())[-1] if f else None
    return ' (last condition: %s%s)' % ('' if k[1] else 'not ', show(k[0])[:120]) if k else ''
