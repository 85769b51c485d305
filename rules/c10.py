"""C10: a malformed dictionary is reported as an error, never a panic or a partial load."""
from .loader import *

XE = 'quickfix_errors::XmlError'
# attributes an element of a kind must have
NEEDS = {'root': ('type', 'major', 'minor'), 'field': ('name', 'number', 'type'), 'value': ('enum',), 'component': ('name',),
         'message': ('name', 'msgcat', 'msgtype'), 'member': ('name', 'required'), 'group': ('name',)}


class Errors:
    def __init__(self, c):
        self.c, self.L = c, Loader(c)
        self.E = self.L.E
        self.L.find_kinds()
        self.names = [v['n'] for v in self.E.adts[XE]['v']] if XE in self.E.adts else []

    def kind_of(self, n, facts, fn):
        """what an element of the dictionary file is"""
        L, E = self.L, self.E
        if n[:2] == ('app', 'Document::root_element'):
            return 'root'
        if fn in L.roles and n == L.roles[fn][1]['node']:
            return 'group' if L.kinds.get(fn) == 'group' else None
        src = n[1] if n[0] == 'el' else n[2] if n[:2] == ('app', 'foundmap') else None
        if src is None or src[:2] != ('app', 'children'):
            return None
        up = src[2]
        sec = L.section(up, facts, fn)
        if sec in ('fields', 'components', 'messages'):
            return {'fields': 'field', 'components': 'component', 'messages': 'message'}[sec]
        if sec in MSG_SECTIONS:
            return 'member'
        if fn in L.roles and up == L.roles[fn][1]['node']:
            return 'member'
        k = self.kind_of(up, facts, fn)
        return {'field': 'value', 'message': 'member'}.get(k)

    def missing(self, facts, fn):
        """a needed attribute that this path knows to be absent or empty"""
        E = self.E
        for f, v in facts.items():
            for a in subterms(f) if v is not None else ():
                if a[:2] != ('app', 'Node::attribute') or a[3][0] != 'str':
                    continue
                no = E.truth(facts, ('is', a, 1)) is False or E.truth(facts, mk_eq(('fld', a, OPT + '.1.0'), S(''))) is True or \
                    E.truth(facts, mk_eq(('app', 'len', ('fld', a, OPT + '.1.0')), I(0))) is True
                if no and a[3][1] in NEEDS.get(self.kind_of(a[2], facts, fn), ()):
                    return True
        # not all of several needed attributes are there
        return any(v is False and f[0] == 'and' and all(self.presence(x, facts, fn) for x in conjuncts(f)) for f, v in facts.items())

    def presence(self, x, facts, fn):
        """a condition that holds when a needed attribute is there and not empty"""
        if x[0] == 'is' and x[2] == 1:
            a = x[1]
        elif x[0] == 'not' and x[1][0] == 'eq' and S('') in x[1][1:]:
            a = [y for y in x[1][1:] if y != S('')][0]
            a = a[1] if a[0] == 'fld' else a
        else:
            return False
        return a[:2] == ('app', 'Node::attribute') and a[3][0] == 'str' and a[3][1] in NEEDS.get(self.kind_of(a[2], facts, fn), ())

    def sought(self, t, fn):
        """the path has gone through all elements of a level and looked for a section there without finding it"""
        L, E = self.L, self.E
        for e, tr in all_events(t):
            if e.kind != 'loop':
                continue
            src, el = L.source(e)
            if src is None or src[:2] != ('app', 'children') or src[2][:2] != ('app', 'Document::root_element') or not L.complete(t, src):
                continue
            its = [it for it in e.x['iters'] if it.kind == 'iter']
            if its and any(all(named(E, it.facts, el, s) is False for it in its) for s in SECTIONS):
                return True
        return False

    def reason(self, name, facts, fn):
        """the error kind fits something that is wrong on this path"""
        L, E = self.L, self.E
        if name == 'AttributeNotFound':
            return self.missing(facts, fn)
        if name == 'FieldNotParsed':
            return any(f[0] == 'is' and f[1][:3] == ('app', 'parse', S('u32')) and E.truth(facts, ('is', f[1], 0)) is False and
                       f[1][3][0] == 'fld' and f[1][3][1][:2] == ('app', 'Node::attribute') and f[1][3][1][3] == S('number') for f in facts)
        if name == 'DocumentNotParsed':
            return any(f[0] == 'is' and f[1][0] == 'app' and f[1][1].endswith('parse') and f[1][2] != S('u32') and E.truth(facts, ('is', f[1], 0)) is False for f in facts)
        if name == 'XmlNodeNotFound':
            for f, v in facts.items():
                if f[0] == 'srch' and f[1] == 'any' and v is False and f[2][:2] == ('app', 'children'):
                    up = f[2][2]
                    if up[:2] == ('app', 'Document::root_element') or L.section(up, facts, fn) == 'fields':
                        return True
                if f[0] == 'is' and f[1][:2] == ('app', 'get') and E.truth(facts, ('is', f[1], 1)) is False and L.table_ok(f[1][2], fn) and \
                        f[1][3][0] == 'fld' and f[1][3][1][:2] == ('app', 'Node::attribute') and f[1][3][1][3] == S('name'):
                    return True
            return False
        if name == 'UnknownXmlTag':
            for f, v in facts.items():
                if f[0] == 'more' and v is True:
                    el = ('el', f[1], f[2])
                    if self.kind_of(el, facts, fn) == 'member' and E.truth(facts, ('app', 'Node::is_element', el)) is True and \
                            all(named(E, facts, el, x) is False for x in ('field', 'component', 'group')):
                        return True
            return False
        if name == 'DuplicateField':
            for f, v in facts.items():
                if v is True and (f[0] == 'has' or f[0] == 'is' and f[1][:2] == ('app', 'get') and f[2] == 1 and not L.table_ok(f[1][2], fn)):
                    return True
            return False
        if name == 'DuplicateMessage':
            for f, v in facts.items():
                if v is True and (f[0] == 'is' and f[1][:2] == ('app', 'get') and f[2] == 1 or f[0] == 'has' or f[0] == 'or') and \
                        any(x[:2] == ('app', 'Node::attribute') and self.kind_of(x[2], facts, fn) == 'message' for x in subterms(f)):
                    return True
                if v is True and f[0] == 'eq' and any(x[0] == 'str' and x[1] in MSG_SECTIONS for x in f[1:]) and \
                        any(x[0] == 'fld' and x[1][:2] == ('app', 'Node::attribute') and x[1][3] == S('msgtype') for x in f[1:]):
                    return True
            return False
        return False

    def errors(self):
        c, L, E = self.c, self.L, self.E
        c.ob('anchor:XmlError', bool(self.names), 'the error type of the dictionary loader is gone')
        n = 0
        for fn, av, trs in L.runs:
            sp = E.bodies[fn]['span']
            for t in trs:
                if t.kind != 'ret':
                    e = [e for e in t.events if e.kind == 'panic']
                    c.bad('panic:%s:%s' % (fn, e[-1].name if e else t.kind), 'loading a dictionary may %s in %s' % (t.kind, fn), e[-1].sp if e else sp)
                    continue
                for g, v in cases(E, t.facts, t.val):
                    if v[0] != 'adt' or v[1] != RES:
                        c.bad('result:' + fn, '%s returns neither a dictionary nor an error: %s' % (fn, show(v)[:80]), sp)
                        continue
                    if v[2] == 0 or L.impossible(g):
                        continue
                    n += 1
                    e = v[3][0]
                    if e[0] == 'fld' and e[2] == RES + '.1.0':
                        r = e[1]
                        good = any(x.kind == 'rec' and x.res == r for x, _ in all_events(t)) and E.truth(g, ('is', r, 0)) is False
                        c.ob('error:%s:passed on' % fn, good, '%s reports an error that nothing returned: %s' % (fn, show(e)[:80]), sp)
                        continue
                    if e[0] != 'adt' or e[1] != XE:
                        c.bad('error:%s:kind' % fn, '%s returns the error %s' % (fn, show(e)[:80]), sp)
                        continue
                    name = self.names[e[2]]
                    c.ob('error:%s:%s' % (fn, name), self.reason(name, g, fn) or name == 'XmlNodeNotFound' and self.sought(t, fn), '%s reports %s although nothing of that kind is wrong' % (fn, name), sp)
        c.floor('ways to report an error', n, 20)

    # -- nothing malformed is passed over ---------------------------------------------------------------------
    def need(self, key, facts, el, attrs, sp):
        for a in attrs:
            self.c.ob('%s:%s' % (key, a), present(self.E, facts, el, a), 'accepted although the attribute "%s" of a %s may be missing or empty' % (a, key.split(':')[-1]), sp)

    def accepted(self):
        c, L, E = self.c, self.L, self.E
        n = 0
        for k in L.ctxs:
            sp = k.e.sp
            for it in L.live(k):
                el, facts = k.el, it.facts
                if E.truth(facts, ('app', 'Node::is_element', el)) is False:
                    continue
                n += 1
                what = L.label(k) if k.kind == 'content' else k.kind
                key = 'accept:%s' % what
                if k.kind == 'content':
                    kind = tag_of(E, facts, el, ('field', 'group', 'component'))
                    if not c.ob(key + ':unknown', kind is not None, 'an unknown element in a %s may be passed over' % what, sp):
                        continue
                    self.need('%s:%s' % (key, kind), facts, el, NEEDS['member'], sp)
                    X = attrv(el, 'name')
                    if kind != 'component':
                        good = any(f[0] == 'is' and f[1][:2] == ('app', 'parse') and E.truth(facts, ('is', f[1], 0)) is True and
                                   L.is_number_of(facts, ('fld', f[1], RES + '.0.0'), X, k.fn) for f in facts)
                        c.ob('%s:%s:declared' % (key, kind), good, 'a %s in a %s may be accepted although its name has no number' % (kind, what), sp)
                    calls = [e for e, r in L.recs(it, None)]
                    if kind != 'field':
                        c.ob('%s:%s:expanded' % (key, kind), len(calls) >= 1, 'a %s in a %s may be accepted without its members' % (kind, what), sp)
                    for e in calls:
                        c.ob('%s:%s:errors' % (key, kind), E.truth(facts, ('is', e.res, 0)) is True, 'an error in a %s of a %s may be ignored' % (kind, what), e.sp)
                        node = e.args[L.roles[e.name][0]['node']]
                        m = L.component(facts, node, k.fn)
                        if kind == 'component' and m is not None:
                            c.ob('%s:component:defined' % key, E.truth(facts, ('is', ('app', 'get', m[1], m[0]), 1)) is True,
                                 'an undefined component in a %s may be accepted' % what, e.sp)
                elif k.kind == 'fields':
                    if named(E, facts, el, 'field') is not True or not k.loc:
                        continue
                    self.need('accept:field', facts, el, NEEDS['field'], sp)
                    L.field_twice(k, it, 'accept:field')
                    c.ob('accept:field:values', self.L.complete(it, kids(el)), 'a field may be accepted although its values are not all examined', sp)
                    c.ob('accept:field:parsed', E.truth(facts, ('is', parse32(attrv(el, 'number')), 0)) is True, 'a field number that does not parse may be accepted', sp)
                elif k.kind == 'components':
                    self.need('accept:component', facts, el, NEEDS['component'], sp)
                elif k.kind == 'messages':
                    if named(E, facts, el, 'message') is not True:
                        continue
                    self.need('accept:message', facts, el, NEEDS['message'], sp)
                    L.message_twice(k, it, 'accept:message')
                    c.ob('accept:message:members', self.L.complete(it, kids(el)), 'a message may be accepted although its members are not all examined', sp)
                elif k.kind == 'values':
                    if named(E, facts, el, 'value') is not True:
                        continue
                    self.need('accept:value', facts, el, NEEDS['value'], sp)
                    sets = [lv for lv in k.e.x['lvs'] if E.truth(facts, ('has', lv, attrv(el, 'enum'))) is False]
                    c.ob('accept:value:twice', len(sets) == 1, 'a value declared twice may be accepted', sp)
                # errors of the loops inside leave the iteration
        c.floor('ways an element is accepted', n, 20)
        fn, av, trs = L.entry
        for t in trs:
            if t.kind == 'ret' and L.is_ok(t.val):
                roots = {x for f in t.facts for x in subterms(f) if x[:2] == ('app', 'Document::root_element')}
                c.ob('accept:document', len(roots) == 1, 'no document or more than one is read', E.bodies[fn]['span'])
                for r in roots:
                    self.need('accept:root', t.facts, r, NEEDS['root'], E.bodies[fn]['span'])
                    c.ob('accept:parsed', E.truth(t.facts, ('is', r[2][1], 0)) is True, 'a text that is not XML may be accepted', E.bodies[fn]['span'])
                for s in SECTIONS:
                    good = False
                    for k in L.ctxs:
                        if k.fn == fn and k.what == s and L.complete(t, kids(k.node)):
                            z = k.node
                            if z[:2] == ('app', 'foundmap') and z[3][0] == 'ite':
                                good = good or E.truth(t.facts, ('srch', 'any', z[2], z[3][1])) is True
                            else:
                                good = True
                    c.ob('accept:section:' + s, good, 'a dictionary without %s may be accepted' % s, E.bodies[fn]['span'])

    def finite(self):
        """every loop ends and the recursion is well founded"""
        c, L, E = self.c, self.L, self.E
        n = 0
        for fn, av, trs in L.runs:
            for e, tr in uniq_events(trs):
                if e.kind == 'loop':
                    src, el = L.source(e)
                    n += 1
                    c.ob('ends:' + fn, src is not None or not e.x['iters'] or all(it.kind != 'iter' for it in e.x['iters']), 'a loop in %s may not end' % fn, e.sp)
                if e.kind != 'rec' or e.name not in L.roles:
                    continue
                r = L.roles[e.name][0]
                node, comps = e.args[r['node']], e.args[r['components']]
                if fn not in L.roles:
                    continue
                mine = L.roles[fn][1]
                child = node[0] == 'el' and node[1] == kids(mine['node'])
                m = L.component(tr.facts, node, fn)
                smaller = False
                t = comps
                while t[:2] == ('app', 'rem_key'):
                    if m is not None and t[3] == m[0] and E.truth(tr.facts, ('is', ('app', 'get', mine['components'], m[0]), 1)) is True:
                        smaller = True
                    t = t[2]
                n += 1
                c.ob('recursion:%s:%s' % (fn, e.name), t == mine['components'] and (child or smaller),
                     '%s may call %s for ever (components that contain each other)' % (fn, e.name), e.sp)
        c.count('loops and recursive calls', n)


def check(c):
    c.rule = ('on every path that returns an error the kind of the error fits a condition that fails on that path; every path on which an element is '
              'accepted has established all its needed attributes, references and numbers, and the success of what it contains; no path panics; loops go '
              'through the elements of the file and recursion descends in the file or in the components that are left')
    e = Errors(c)
    e.errors()
    e.accepted()
    e.finite()
