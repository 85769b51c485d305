"""The dictionary loader: every loop over elements of the dictionary file is compared, iteration by iteration, with what
the element must change in the answers of the public queries."""
from .dd import *
from .compose import Step, call, assume
from .settings import compare

FT = '<data_dictionary::FixType as std::str::FromStr>::from_str'
QUERIES = ('member', 'required', 'group', 'type', 'values')
QFN = {'member': 'is_msg_field', 'required': 'is_msg_req_field', 'group': 'get_msg_group', 'type': 'get_field_type',
       'values': 'get_field_values', 'fields of': 'get_msg_fields', 'required of': 'get_msg_required_field'}
SECTIONS = ('fields', 'components', 'header', 'trailer', 'messages')
MSG_SECTIONS = ('header', 'trailer')
TV, NV = ('sym', "T'", 0), ('sym', "n'", 0)


def attr(n, a):
    return ('app', 'Node::attribute', n, S(a))


def attrv(n, a):
    return ('fld', attr(n, a), OPT + '.1.0')


def tag(n):
    return ('app', 'ExpandedName::name', ('app', 'Node::tag_name', n))


def kids(n):
    return ('app', 'children', n)


def parse32(t):
    return ('app', 'parse', S('u32'), t)


def present(E, facts, n, a):
    """the attribute is there and not empty"""
    return E.truth(facts, ('is', attr(n, a), 1)) is True and \
        (E.truth(facts, mk_eq(attrv(n, a), S(''))) is False or E.truth(facts, mk_eq(('app', 'len', attrv(n, a)), I(0))) is False)


def named(E, facts, n, name):
    """the element has this tag (True), certainly not (False), or unknown"""
    t = tag(n)
    for f in (mk_eq(t, S(name)), ('eqi',) + tuple(sorted((t, S(name)), key=repr))):
        x = E.truth(facts, f)
        if x is True:
            return True
        if x is False and f[0] == 'eqi':
            return False
    return E.truth(facts, mk_eq(t, S(name)))


def tag_of(E, facts, n, names):
    for x in names:
        if named(E, facts, n, x) is True:
            return x
    # told apart by exclusion
    return None


def conjuncts(t):
    if t[0] == 'and':
        return conjuncts(t[1]) + conjuncts(t[2])
    return [t]


def put(t, x, y):
    """t with x replaced by y"""
    if t == x:
        return y
    if isinstance(t, tuple):
        r = tuple(put(a, x, y) for a in t)
        if r == t:
            return t
        if r[0] == 'eq' and len(r) == 3:
            return mk_eq(r[1], r[2])
        if r[0] == 'ite' and len(r) == 4:
            return mk_ite(r[1], r[2], r[3])
        if r[0] in ('and', 'or') and len(r) == 3:
            return (mk_and if r[0] == 'and' else mk_or)(r[1], r[2])
        return r
    return t


def reduce(E, t, memo=None):
    """lookups in updated tables, resolved to conditions on the keys"""
    if not isinstance(t, tuple) or not t:
        return t
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = tuple(reduce(E, x, memo) for x in t)
    memo[t] = r = reduce1(E, r, memo)
    return r


def reduce1(E, r, memo):
    again = lambda x: reduce1(E, x, memo)
    if r[0] == 'eq' and len(r) == 3:
        return mk_eq(r[1], r[2])
    if r[0] == 'ite' and len(r) == 4:
        return mk_ite(r[1], r[2], r[3])
    if r[0] == 'not':
        return mk_not(r[1])
    if r[0] in ('and', 'or') and len(r) == 3:
        return (mk_and if r[0] == 'and' else mk_or)(r[1], r[2])
    if r[:2] == ('app', 'get') and len(r) == 4:
        m, k = r[2], r[3]
        if m == ('app', 'emptymap'):
            return NONE
        if m[0] == 'ite':
            return mk_ite(m[1], again(r[:2] + (m[2], k)), again(r[:2] + (m[3], k)))
        if m[0] == 'app' and m[1] in ('ins', 'upd') and len(m) == 5:
            return mk_ite(mk_eq(m[3], k), some(m[4]), again(r[:2] + (m[2], k)))
        if m[:2] == ('app', 'rem_key'):
            return mk_ite(mk_eq(m[3], k), NONE, again(r[:2] + (m[2], k)))
    if r[0] == 'is' and len(r) == 3:
        x = r[1]
        if x[0] == 'adt':
            return ('bool', x[2] == r[2])
        if x[0] == 'ite':
            return mk_ite(x[1], again(('is', x[2], r[2])), again(('is', x[3], r[2])))
    if r[0] == 'fld' and r[1][0] in ('adt', 'ite'):
        if r[1] == NONE:
            return r
        if r[1][0] == 'ite':
            return mk_ite(r[1][1], again(('fld', r[1][2], r[2])), again(('fld', r[1][3], r[2])))
        return E.getfield(r[1], r[2])
    if r[0] == 'has' and len(r) == 3:
        s, k = r[1], r[2]
        if s == ('app', 'emptymap'):
            return F
        if s[0] == 'ite':
            return mk_ite(s[1], again(('has', s[2], k)), again(('has', s[3], k)))
        if s[0] == 'sins' or s[:2] == ('app', 'sins'):
            a, x = s[-2], s[-1]
            return mk_or(mk_eq(x, k), again(('has', a, k)))
        if s[0] == 'app' and s[1] in ('ins', 'upd') and len(s) == 5:
            return mk_or(mk_eq(s[3], k), again(('has', s[2], k)))
    return r


def known_of(E, facts, z):
    """facts about a node, with those that follow from how it was found"""
    f = dict(facts)
    if z[0] == 'app' and z[1] == 'foundmap' and z[3][0] == 'ite':
        for x in subterms(z[3][1]):
            if x[0] == 'bvar':
                for k in conjuncts(z[3][1]):
                    k = put(k, x, z)
                    if k[0] == 'not':
                        E.add_fact(f, k[1], False)
                    else:
                        E.add_fact(f, k, True)
                break
    return f


class Ctx:
    """one loop over elements of the dictionary file"""
    kind = None     # 'fields', 'components', 'messages', 'content', 'values'
    what = ''       # name for messages
    node = None     # the node whose children are gone through
    T = None        # the message type the members belong to
    F = None        # condition under which required members are required
    fn = ''


class Loader:
    def __init__(self, c):
        self.c = c
        self.E = E = c.engine(opaque=[FT])
        for t, ty in ((TV, 'str'), (NV, 'u32')):
            E.tyhint[t] = ('prim', ty)
        self.runs = loader_runs(c, E)
        self.fns = {fn: (av, trs) for fn, av, trs in self.runs}
        self.entry = self.runs[0]
        self.q = {}
        self.roles = {}
        for fn, av, trs in self.runs[1:]:
            self.roles[fn] = self.params(fn, av, trs)
        self.kinds = {}
        self.loops = {}
        self.ctxs = []
        self.collect()

    # -- structure -------------------------------------------------------------------------------------
    def params(self, fn, av, trs):
        """what each parameter of a recursive loader function is, by type"""
        E, b = self.E, self.E.bodies[fn]
        r = {}
        for i in range(b['argc']):
            ty = E.strip(E.ty(b['locals'][i + 1]['ty']))
            s = repr(ty)
            if ty[:2] == ('adt', DD):
                k = 'dd'
            elif ty == ('prim', 'str') or ty[:2] == ('adt', 'std::string::String'):
                k = 'T'
            elif 'HashMap' in s or 'BTreeMap' in s:
                k = 'components'
            elif ty[0] == 'adt' and ty[1].endswith('::Node'):
                k = 'node'
            elif ty[0] == 'adt' and ty[1].endswith('::Document'):
                k = 'doc'
            elif ty == ('prim', 'bool'):
                k = 'flag'
            else:
                k = '?' + s[:40]
            if k in r:
                k += '2'
            r[k] = i
        st = trs[0].st
        val = {k: self.E.deep(st, self.E.v(st, av[i])) for k, i in r.items() if k != 'dd'}
        miss = [k for k in ('dd', 'T', 'components', 'node', 'doc', 'flag') if k not in r]
        self.c.ob('roles:' + fn, not miss, '%s: no parameter for %s' % (fn, ', '.join(miss)), b['span'])
        if miss:
            raise Stop()
        return r, val

    def doc(self, fn):
        return self.roles[fn][1]['doc'] if fn in self.roles else None

    def section(self, n, facts, fn):
        """name of the section a node is, looked up among the children of the root"""
        E = self.E
        if n[0] == 'app' and n[1] == 'foundmap':
            src, k = n[2], known_of(E, facts, n)
        elif n[0] == 'el':
            src, k = n[1], facts
        else:
            return None
        if src[0] != 'app' or src[1] != 'children' or src[2][:2] != ('app', 'Document::root_element'):
            return None
        d = src[2][2]
        if fn in self.roles:
            if d != self.doc(fn):
                return None
        elif not (d[0] == 'fld' and d[2] == RES + '.0.0' and d[1][0] == 'app' and d[1][1].endswith('parse')):
            return None
        for s in SECTIONS:
            if named(E, k, n, s) is True:
                return s
        return None

    def collect(self):
        """all loops over children of nodes, with what they are for"""
        E = self.E
        for fn, av, trs in self.runs:
            seen = {}
            for e, tr in uniq_events(trs):
                if e.kind != 'loop' or e.x['id'] in seen:
                    continue
                seen[e.x['id']] = 1
                src, el = self.source(e)
                if src is None:
                    continue
                self.loops[(fn, e.x['id'])] = (e, src, el, tr)
        for (fn, lid), (e, src, el, tr) in self.loops.items():
            if src[0] != 'app' or src[1] != 'children':
                continue
            n = src[2]
            k = Ctx()
            k.fn, k.lid, k.e, k.node, k.el, k.outer = fn, lid, e, n, el, tr
            sec = self.section(n, e.facts, fn)
            k.loc = self.location(e)
            if sec in ('fields', 'components', 'messages'):
                k.kind, k.what = sec, sec
            elif sec in MSG_SECTIONS:
                k.kind, k.what, k.T, k.F = 'content', sec, S(sec), T
            elif fn in self.roles and n == self.roles[fn][1]['node']:
                k.kind, k.T, k.F = 'content', self.roles[fn][1]['T'], self.roles[fn][1]['flag']
                k.what = fn.split('::')[-1]
            elif n[0] == 'el' and n[1][0] == 'app' and n[1][1] == 'children':
                up = self.section(n[1][2], e.facts, fn)
                if up == 'messages':
                    k.kind, k.what, k.T, k.F = 'content', 'message', attrv(n, 'msgtype'), T
                elif up == 'fields':
                    k.kind, k.what = 'values', 'values'
            if k.kind is not None:
                self.ctxs.append(k)

    def source(self, e):
        """(source, element) a loop goes through"""
        heads = set(e.x['head'].facts)
        for it in e.x['iters']:
            for f, v in it.facts.items():
                if f[0] == 'more' and v is True and f not in heads:
                    return f[1], ('el', f[1], f[2])
        return None, None

    def location(self, e):
        """where the dictionaries changed by a loop are: list of (object, path)"""
        out = []
        for lv, (o, p, i) in e.x['lvs'].items():
            q = None
            for j, x in enumerate(p):
                if isinstance(x, str) and x.startswith(DD + '.0.'):
                    q = (o, tuple(p[:j]))
                    break
            if q is None and is_dd(self.E, lv):
                q = (o, tuple(p))
            if q is not None and q not in out:
                out.append(q)
        return out

    def at(self, st, loc):
        return self.E.deep(st, self.E.read(st, loc[0], loc[1]))

    # -- queries ---------------------------------------------------------------------------------------
    def ask(self, dd, name, st, args=(TV, NV)):
        """answer of a public query on a dictionary value, for any message type and tag"""
        k = (dd, name, args)
        if k not in self.q:
            b = self.E.find('DataDictionary::' + QFN[name])
            self.c.ob('anchor:' + QFN[name], b is not None, 'query %s is gone' % QFN[name])
            if b is None:
                raise Stop()
            s = st.copy()
            s.ev = None
            o = self.E.new_obj(s, dd, 'q')
            a = [('ref', o, ())]
            if b['argc'] == 3:
                a += [args[0], args[1]]
            elif 'Set' in repr(self.E.ty(b['locals'][0]['ty'])) and 'str' in repr(self.E.ty(b['locals'][2]['ty'])):
                a += [args[0]]
            else:
                a += [args[1]]
            r = call(self.c, self.E, Step(s), b, a, QFN[name])
            if len(r) != 1:
                # paths that differ in facts: join them
                t = None
                for x in r:
                    v = self.E.deep(x.st, x.val)
                    f = T
                    for g, w in x.st.facts.items():
                        if st.facts.get(g) != w:
                            f = mk_and(f, g if w else mk_not(g))
                    t = v if t is None else mk_ite(f, v, t)
                self.q[k] = reduce(self.E, t)
            else:
                self.q[k] = reduce(self.E, self.E.deep(r[0].st, r[0].val))
        return self.q[k]

    def order(self, dd):
        return self.E.getfield(dd, DD + '.0.fields_order')

    # -- terms of the dictionary file --------------------------------------------------------------------
    def own(self, n):
        """the element's own required flag"""
        return ('eqi',) + tuple(sorted((attrv(n, 'required'), S('y')), key=repr))

    def flagged(self, facts, n):
        """facts with the own flag of an element settled where two comparisons do that"""
        f = dict(facts)
        a, o = attrv(n, 'required'), self.own(n)
        y = [self.E.truth(facts, mk_eq(a, S(x))) for x in ('y', 'Y')]
        if True in y:
            f[o] = True
        elif y == [False, False]:
            f[o] = False
        return f

    def flag_term(self, t, n):
        """flag terms written as two comparisons"""
        a, o = attrv(n, 'required'), self.own(n)
        e1, e2 = mk_eq(a, S('y')), mk_eq(a, S('Y'))
        for x in (('or', e1, e2), ('or', e2, e1)):
            t = put(t, x, o)
        for up in ('to_uppercase', 'to_ascii_uppercase'):
            t = put(t, mk_eq(('app', up, a), S('Y')), o)
        for up in ('to_lowercase', 'to_ascii_lowercase'):
            t = put(t, mk_eq(('app', up, a), S('y')), o)
        return t

    def is_number_of(self, facts, n, X, fn):
        """n is the number the dictionary file gives for the field called X"""
        E = self.E
        if n[0] == 'fld' and n[2] == RES + '.0.0' and n[1][0] == 'app' and n[1][1] == 'parse' and n[1][2] == S('u32'):
            a = n[1][3]
            if a[0] == 'fld' and a[2] == OPT + '.1.0' and a[1][:2] == ('app', 'Node::attribute') and a[1][3] == S('number'):
                z = a[1][2]
                src = z[1] if z[0] == 'el' else z[2] if z[0] == 'app' and z[1] == 'foundmap' else None
                if src is None or src[:2] != ('app', 'children') or self.section(src[2], facts, fn) != 'fields':
                    return False
                k = known_of(E, facts, z)
                return E.truth(k, mk_eq(attrv(z, 'name'), X)) is True and named(E, k, z, 'field') is True
        return False

    def numbers(self, facts, X, fn, terms):
        """the terms among the subterms of TERMS that are the number of the field called X"""
        out = []
        for t in terms:
            for x in subterms(t):
                if x[0] == 'fld' and x not in out and self.is_number_of(facts, x, X, fn):
                    out.append(x)
        return out

    # -- recursion -------------------------------------------------------------------------------------
    def recs(self, tr, head):
        """recursive loader calls of an iteration: (event, roles)"""
        out = []
        for e in tr.events:
            if e.kind == 'rec' and e.name in self.roles:
                out.append((e, self.roles[e.name][0]))
        return out

    def rec_kind(self, e):
        return self.kinds.get(e.name)

    def states(self, k, tr, loc):
        """dictionary values of an iteration, cut at the recursive calls: list of (before, after), and the calls on it"""
        st0, cur = k.e.x['head'], None
        cur = self.at(st0, loc)
        segs, calls = [], []
        for e, r in self.recs(tr, k.e.x['head']):
            i = r['dd']
            raw = e.raw[i] if e.raw else None
            if raw is not None and raw[0] == 'ref' and (raw[1], tuple(raw[2])) != loc:
                # a reference to something else, maybe through references
                tgt = self.target(tr, raw)
                if tgt != loc:
                    continue
            segs.append((cur, e.args[i]))
            calls.append(e)
            new = dict(e.x or ()).get(i)
            cur = new if new is not None else e.args[i]
        segs.append((cur, self.at(tr.st, loc)))
        return segs, calls

    def target(self, tr, raw):
        st = tr.st
        for _ in range(6):
            v = self.E.read(st, raw[1], raw[2]) if raw[1] in st.mem else None
            if v is not None and v[0] == 'ref':
                raw = v
                continue
            break
        return (raw[1], tuple(raw[2]))

    # -- comparing states --------------------------------------------------------------------------------
    def yes(self, b):
        return ('ite', b, S('yes'), S('no'))

    def delta(self, facts, st, before, after, member=None, required=None, group=None, ftype=None, fvalues=None, reset=None, only=QUERIES):
        """the queries whose answers change otherwise than stated: list of (query, got, want)"""
        E = self.E
        bad = []
        for q in only:
            b, a = self.ask(before, q, st), self.ask(after, q, st)
            w = b
            if reset is not None and q in ('member', 'required'):
                w = mk_and(mk_not(mk_eq(TV, reset)), w)
            if q == 'member' and member:
                w = mk_or(self.here(*member), w)
            if q == 'required' and required:
                w = mk_or(mk_and(self.here(*required[:2]), required[2]), w)
            if q == 'group' and group:
                w = mk_ite(self.here(*group[:2]), some(group[2]), w)
            if q == 'type' and ftype:
                w = mk_ite(mk_eq(NV, ftype[0]), some(ftype[1]), w)
            if q == 'values' and fvalues:
                w = mk_ite(mk_eq(NV, fvalues[0]), fvalues[1], w)
            if a == w:
                continue
            if q in ('member', 'required'):
                a, w = self.yes(a), self.yes(w)
            ts = [x[0] for x in (member, required, group) if x] + ([reset] if reset is not None else [])
            ns = [x[1] for x in (member, required, group) if x] + [x[0] for x in (ftype, fvalues) if x]
            for f, sub in self.spots(facts, ts, ns):
                x, y = a, w
                for u, v in sub:
                    x, y = reduce(E, put(x, u, v)), reduce(E, put(y, u, v))
                got = next(((x, y) for g, i, x, y in compare(E, f, [(x, y)])[0] if not self.impossible(g)), None)
                if got:
                    bad.append((q,) + got)
                    break
        return bad

    def spots(self, facts, ts, ns):
        """the message types and tags to compare at: those concerned, and any other"""
        out = [(facts, [])]
        for var, vals in ((TV, ts), (NV, ns)):
            new = []
            for f, sub in out:
                g = f
                for v in sorted(set(vals), key=repr):
                    new.append((f, sub + [(var, v)]))
                    g = assume(self.E, g, [(mk_eq(var, v), False)]) if g is not None else None
                if g is not None:
                    new.append((g, sub))
            out = new
        return out

    def here(self, t, n):
        return mk_and(mk_eq(TV, t), mk_eq(NV, n))

    def impossible(self, facts):
        for f, v in facts.items():
            t = self.E.truth({k: x for k, x in facts.items() if k != f}, f)
            if t is not None and t != v:
                return True
        return False

    def noop(self, facts, st, segs):
        bad = []
        for b, a in segs:
            if b != a:
                bad += self.delta(facts, st, b, a)
        return bad

    def say(self, bad):
        return '; '.join('%s gives %s instead of %s' % (QFN[q], show(x)[:80], show(y)[:80]) for q, x, y in bad[:2])

    # -- which function is for what ------------------------------------------------------------------------
    def component(self, facts, t, fn):
        """(name, table) when t is a component looked up by name"""
        if t[0] == 'fld' and t[2] == OPT + '.1.0' and t[1][:2] == ('app', 'get'):
            return t[1][3], t[1][2]
        if t[0] == 'app' and t[1] == 'get':
            return t[3], t[2]
        return None

    def table_ok(self, t, fn):
        """t is the table of all components, possibly without some of them"""
        while t[:2] == ('app', 'rem_key'):
            t = t[2]
        if fn in self.roles:
            return t == self.roles[fn][1]['components']
        return any(k.kind == 'components' and any(lv == t for lv in k.e.x['lvs']) for k in self.ctxs)

    def find_kinds(self):
        """recursive functions are told apart by what they are called for"""
        for k in self.ctxs:
            if k.kind != 'content':
                continue
            for it in k.e.x['iters'] + k.e.x['exits']:
                for e, r in self.recs(it, k.e.x['head']):
                    n = e.args[r['node']]
                    kind = 'group' if n == k.el else 'component' if self.component(it.facts, n, k.fn) else None
                    if kind is None:
                        continue
                    self.kinds.setdefault(e.name, set()).add(kind)
        for fn, s in sorted(self.kinds.items()):
            self.c.ob('kinds:' + fn, len(s) == 1, '%s is called both for groups and for components' % fn)
        self.kinds = {fn: sorted(s)[0] for fn, s in self.kinds.items()}

    def main_of(self, k):
        """location of the dictionary the members of a loop go to"""
        E = self.E
        if k.fn == self.entry[0]:
            return self.result_loc()
        av, trs = self.fns[k.fn]
        if self.kinds.get(k.fn) == 'group':
            # the dictionary stored in the group information
            lvs = {lv: (o, tuple(p)) for lv, (o, p, i) in k.e.x['lvs'].items() if is_dd(E, lv)}
            for t in trs:
                if t.kind == 'ret' and self.is_ok(t.val):
                    v = E.deep(t.st, E.v(t.st, av[self.roles[k.fn][0]['dd']]))
                    for x in subterms(v):
                        if x[0] == 'adt' and len(x) == 4 and x[1].endswith('::GroupInfo'):
                            d = field(E, x, 'data_dictionary')
                            if d in lvs:
                                return lvs[d]
            return None
        a = av[self.roles[k.fn][0]['dd']]
        return (a[1], tuple(a[2])) if a[0] == 'ref' else None

    def is_ok(self, v):
        return v is not None and v[0] == 'adt' and v[1] == RES and v[2] == 0

    def result_loc(self):
        """where the dictionary that is returned is kept while loading"""
        locs = {}
        for k in self.ctxs:
            if k.fn == self.entry[0]:
                for l in k.loc:
                    locs[l] = locs.get(l, 0) + 1
        if not locs:
            return None
        return max(sorted(locs), key=lambda l: locs[l])

    def live(self, k):
        """iterations that continue, with their facts, without those that cannot happen"""
        for it in k.e.x['iters']:
            if it.kind in ('panic', 'diverge'):
                continue
            yield it

    # -- members of messages, components and groups ----------------------------------------------------------
    def contents(self, want):
        """check every iteration over members; WANT: aspects to report ('tables', 'flags')"""
        c, E = self.c, self.E
        self.find_kinds()
        n = 0
        seen = {}
        for k in self.ctxs:
            if k.kind != 'content':
                continue
            loc = self.main_of(k)
            c.ob('contents:%s:dictionary' % k.what, loc is not None, 'the members of %s go to no dictionary' % k.what, k.e.sp)
            if loc is None:
                continue
            for it in self.live(k):
                n += self.member(k, it, loc, want, seen)
        c.floor('ways an element is handled', n, 20)
        for what in ('header', 'trailer', 'message', 'group', 'component'):
            for t in ('field', 'group', 'component'):
                c.ob('handled:%s:%s' % (what, t), seen.get((what, t), 0) > 0, 'no %s in a %s is ever accepted' % (t, what))

    def label(self, k):
        return self.kinds.get(k.fn, k.what) if k.fn in self.roles else k.what

    def member(self, k, it, loc, want, seen):
        c, E = self.c, self.E
        el, facts, st = k.el, it.facts, it.st
        what = self.label(k)
        src = next((f for f, v in facts.items() if f[0] == 'more' and v is True and f[1] == el[1] and f[2] == el[2]), None)
        segs, calls = self.states(k, it, loc)
        other = [l for l in k.loc if l != loc]
        key = 'contents:%s' % what
        for l in other:
            s2, c2 = self.states(k, it, l)
            bad = self.noop(facts, st, s2)
            if 'tables' in want:
                c.ob(key + ':elsewhere', not bad and not c2, 'a member of a %s also changes another dictionary: %s' % (what, self.say(bad)), k.e.sp)
        extra = [e for e, r in self.recs(it, None) if e not in calls]
        if 'tables' in want:
            c.ob(key + ':calls', not extra, 'a member of a %s is expanded into another dictionary' % what, extra[0].sp if extra else '')
        kind = tag_of(E, facts, el, ('field', 'group', 'component')) if src is not None else None
        if kind is None or E.truth(facts, ('app', 'Node::is_element', el)) is False:
            if 'tables' in want:
                bad = self.noop(facts, st, segs)
                c.ob(key + ':other', not bad and not calls, 'something other than a field, group or component in a %s changes the dictionary: %s' % (what, self.say(bad)), k.e.sp)
            self.first(k, it, facts, None, what, want)
            return 1
        seen[(what, kind)] = seen.get((what, kind), 0) + 1
        X = attrv(el, 'name')
        facts = self.flagged(facts, el)
        own = self.own(el)
        if kind == 'component':
            if 'tables' in want:
                bad = self.noop(facts, st, segs)
                c.ob(key + ':component', not bad, 'a component reference in a %s changes the dictionary by itself: %s' % (what, self.say(bad)), k.e.sp)
                c.ob(key + ':component:once', len(calls) == 1 and self.kinds.get(calls[0].name) == 'component',
                     'a component in a %s is expanded %d times' % (what, len(calls)), k.e.sp)
            num = None
            if len(calls) == 1:
                self.callee(k, it, facts, calls[0], kind, X, own, what, want)
                num = self.payload(calls[0].res)
        else:
            num = self.add(k, it, facts, st, segs, kind, X, own, what, want)
            need = 1 if kind == 'group' else 0
            if 'tables' in want:
                c.ob(key + ':%s:once' % kind, len(calls) == need and all(self.kinds.get(e.name) == 'group' for e in calls),
                     'a %s in a %s is expanded %d times' % (kind, what, len(calls)), k.e.sp)
            for e in calls:
                self.callee(k, it, facts, e, kind, X, own, what, want)
        self.first(k, it, facts, num, what, want)
        return 1

    def payload(self, r):
        return self.E.getfield(r, RES + '.0.0') if r is not None else None

    def add(self, k, it, facts, st, segs, kind, X, own, what, want):
        """a field or group is recorded under its number; returns the number"""
        c, E = self.c, self.E
        key = 'contents:%s:%s' % (what, kind)
        changed = [(b, a) for b, a in segs if b != a]
        cands = self.numbers(facts, X, k.fn, [a for b, a in changed] + [k.el])
        if not c.ob(key + ':number', bool(cands) or 'tables' not in want,
                    'a %s in a %s is not recorded under the number declared for its name' % (kind, what), k.e.sp) or not cands:
            return None
        best, at = None, None
        req = mk_and(own, k.F)
        for n in cands:
            for i, (b, a) in enumerate(changed):
                f2 = facts
                bad = self.delta(f2, st, b, a, member=(k.T, n), required=(k.T, n, req))
                rest = [x for j, (p, q) in enumerate(changed) if j != i for x in self.delta(f2, st, p, q)]
                m = bad + rest
                if best is None or len(m) < len(best):
                    best, at = m, (i, n)
        if best is None:
            best, at = [('member', NONE, NONE)], (None, cands[0])
        fl = [x for x in best if x[0] == 'required']
        tb = [x for x in best if x[0] != 'required']
        if 'flags' in want:
            c.ob(key + ':required', not fl, 'the required flag of a %s in a %s is not the one declared: %s' % (kind, what, self.say(fl)), k.e.sp)
        if 'tables' in want:
            c.ob(key + ':recorded', not tb, 'a %s in a %s is not recorded as declared: %s' % (kind, what, self.say(tb)), k.e.sp)
        i, n = at
        if 'tables' in want and i is not None:
            b, a = changed[i]
            was = put(put(self.ask(b, 'member', st), TV, k.T), NV, n)
            c.ob(key + ':twice', E.truth(facts, simp(E, facts, was)) is False,
                 'a %s listed twice in a %s may be accepted' % (kind, what), k.e.sp)
            if k.fn in self.roles:
                # members that can be in a group keep the order of the file
                o1, o2 = self.order(b), self.order(a)
                adds = set_adds(simp(E, facts, o2), o1)
                c.ob(key + ':order', adds == [n] or adds == [] and E.truth(facts, ('has', o1, n)) is True,
                     'a %s in a %s is not appended to the field order' % (kind, what), k.e.sp)
                for j, (p, q) in enumerate(changed):
                    if j != i:
                        c.ob(key + ':order', self.order(p) == self.order(q), 'the field order changes by itself', k.e.sp)
        return n

    def callee(self, k, it, facts, e, kind, X, own, what, want):
        """arguments of the call that expands a component or group"""
        c, E = self.c, self.E
        r = self.roles[e.name][0]
        a = {x: e.args[i] for x, i in r.items()}
        key = 'contents:%s:%s' % (what, kind)
        if 'tables' in want:
            c.ob(key + ':type', a['T'] == k.T, 'a %s in a %s is expanded for message type %s' % (kind, what, show(a['T'])[:60]), e.sp)
            d = self.doc(k.fn)
            c.ob(key + ':doc', a['doc'] == d if d is not None else a['doc'][0] == 'fld' and a['doc'][2] == RES + '.0.0', 'another document is used', e.sp)
            if kind == 'group':
                c.ob(key + ':node', a['node'] == k.el, 'a group in a %s is expanded from another element' % what, e.sp)
                c.ob(key + ':components', self.table_ok(a['components'], k.fn), 'the components are not handed on', e.sp)
            else:
                m = self.component(facts, a['node'], k.fn)
                c.ob(key + ':node', m is not None and m[0] == X and self.table_ok(m[1], k.fn),
                     'a component in a %s is expanded from another element than the one of that name' % what, e.sp)
                c.ob(key + ':components', self.table_ok(a['components'], k.fn), 'the components are not handed on', e.sp)
        if 'flags' in want:
            f = self.flag_term(a['flag'], k.el)
            e1, e2 = (mk_eq(attrv(k.el, 'required'), S(x)) for x in ('y', 'Y'))
            for x, y in ((e1, e2), (e2, e1)):
                if E.truth(facts, x) is False:
                    f = put(f, y, own)      # of two comparisons one is known to fail
            bad = compare(E, facts, [(self.yes(f), self.yes(own))])[0] if f != own else []
            c.ob(key + ':flag', not bad, 'a %s in a %s is expanded with %s as its required flag instead of its own' % (kind, what, show(f)[:80]), e.sp)

    def first(self, k, it, facts, num, what, want):
        """the first member is remembered (delimiter of a group, what a component reports)"""
        if 'tables' not in want or what not in ('group', 'component'):
            return
        c, E = self.c, self.E
        d = self.first_lv(k)
        key = 'first:%s' % what
        if not c.ob(key, d is not None, 'the first member of a %s is not remembered' % what, k.e.sp):
            return
        lv, unset, wrap = d
        o, p, i = k.e.x['lvs'][lv]
        v = E.deep(it.st, E.read(it.st, o, p))
        w = lv if num is None else mk_ite(unset(lv), wrap(num), lv)
        bad = compare(E, facts, [(v, w)])[0] if v != w else []
        if bad and i == NONE:
            # no number is the number 0: what counts is the number that is read in the end
            def num0(x):
                if x[0] == 'ite':
                    return mk_ite(x[1], num0(x[2]), num0(x[3]))
                if x[0] == 'adt':
                    return x[3][0] if x[2] else I(0)
                return mk_ite(('is', x, 1), E.getfield(x, OPT + '.1.0'), I(0))
            bad = [x for x in compare(E, facts, [(num0(v), num0(w))])[0] if E.truth(x[0], mk_eq(x[2], x[3])) is not True]
        c.ob(key + ':kept', not bad, 'the first member of a %s becomes %s instead of %s' % ((what,) + tuple(show(x)[:60] for x in bad[0][2:]) if bad else (what, '', '')), k.e.sp)

    def first_lv(self, k):
        """loop variable that holds the number of the first member: (variable, unset condition, wrapping)"""
        E = self.E
        if k.fn not in self.roles:
            return None
        av, trs = self.fns[k.fn]
        out = None
        for t in trs:
            if t.kind != 'ret' or not self.is_ok(t.val):
                continue
            if self.kinds.get(k.fn) == 'group':
                v = E.deep(t.st, E.v(t.st, av[self.roles[k.fn][0]['dd']]))
                use = [field(E, x, 'delimiter') for x in subterms(v) if x[0] == 'adt' and len(x) == 4 and x[1].endswith('::GroupInfo')]
            else:
                use = [self.payload(t.val)]
            for u in use:
                for lv, (o, p, i) in k.e.x['lvs'].items():
                    if u == lv and i == I(0):
                        out = (lv, lambda x: mk_eq(x, I(0)), lambda x: x)
                    elif i == NONE and any(x == lv for x in subterms(u)):
                        got = [simp(E, dict(t.facts, **{}), g) for g in (u,)]
                        a = compare(E, t.facts, [(u, mk_ite(('is', lv, 1), E.getfield(lv, OPT + '.1.0'), I(0)))])[0]
                        if not a:
                            out = (lv, lambda x: ('is', x, 0), some)
        return out

    # -- the whole of a group ----------------------------------------------------------------------------
    def groups(self):
        """after its members, a group is recorded under its own number, with its first member and its own dictionary"""
        c, E = self.c, self.E
        n = 0
        for fn, kind in sorted(self.kinds.items()):
            av, trs = self.fns[fn]
            r, val = self.roles[fn]
            loops = [k for k in self.ctxs if k.fn == fn and k.kind == 'content']
            c.ob('members:' + fn, len(loops) >= 1, '%s does not go through the members' % fn)
            ids = {k.lid for k in loops}
            for t in trs:
                if t.kind != 'ret' or not self.is_ok(t.val):
                    continue
                n += 1
                a = av[r['dd']]
                after = self.at(t.st, (a[1], tuple(a[2])))
                done = [e for e in t.events if e.kind == 'loop' and e.x['id'] in ids]
                c.ob('all members:' + fn, len(done) == 1 and self.complete(t, kids(val['node'])),
                     'the members of a %s are not all taken' % kind, E.bodies[fn]['span'])
                if kind == 'component':
                    before = next((lv for k in loops for lv, (o, p, i) in k.e.x['lvs'].items() if (o, tuple(p)) == (a[1], tuple(a[2]))), None)
                    bad = self.delta(t.facts, t.st, before, after) if before is not None and before != after else []
                    c.ob('component:after', before is not None and not bad, 'a component changes the dictionary after its members: %s' % self.say(bad))
                    for k in loops:
                        for lv, (o, p, i) in k.e.x['lvs'].items():
                            if lv == before:
                                bad = self.delta(k.e.facts, k.e.x['head'], self.entry_dd(fn), i) if i != self.entry_dd(fn) else []
                                c.ob('component:before', not bad, 'a component changes the dictionary before its members: %s' % self.say(bad))
                    continue
                nums = self.numbers(t.facts, attrv(val['node'], 'name'), fn, [after])
                c.ob('group:number', bool(nums), 'a group is not recorded under its own number', E.bodies[fn]['span'])
                infos = [x for x in subterms(after) if x[0] == 'adt' and len(x) == 4 and x[1].endswith('::GroupInfo')]
                infos = [x for i, x in enumerate(infos) if x not in infos[:i]]
                if not c.ob('group:info', len(infos) >= 1, 'no group information is recorded', E.bodies[fn]['span']) or not nums:
                    continue
                best = None
                for m in nums:
                    for x in infos:
                        bad = self.delta(t.facts, t.st, self.entry_dd(fn), after, group=(val['T'], m, x))
                        if best is None or len(bad) < len(best[0]):
                            best = (bad, x)
                c.ob('group:recorded', not best[0], 'a group is not recorded as declared: %s' % self.say(best[0]), E.bodies[fn]['span'])
                x = best[1]
                d, lim = field(E, x, 'data_dictionary'), field(E, x, 'delimiter')
                main = [k for k in loops if any(lv == d for lv in k.e.x['lvs'])]
                if c.ob('group:members', len(main) == 1, 'the dictionary of a group is not the one its members went to', E.bodies[fn]['span']):
                    k = main[0]
                    o, p, i = k.e.x['lvs'][d]
                    full = []
                    for q in QUERIES:
                        z = self.ask(i, q, k.e.x['head'])
                        empty = z in (F, NONE) or q in ('member', 'required') and E.truth(k.e.facts, z) is False
                        if not empty:
                            full.append(q)
                    c.ob('group:fresh', not full and set_adds(self.order(i), ('app', 'emptymap')) == [],
                         'the dictionary of a group does not start empty', E.bodies[fn]['span'])
                    f = self.first_lv(k)
                    c.ob('group:delimiter', f is not None, 'the delimiter of a group is not its first member', E.bodies[fn]['span'])
        c.floor('ways a component or group ends', n, 2)
        for what in ('group', 'component'):
            c.ob('kind:' + what, what in self.kinds.values(), 'nothing expands a %s' % what)

    def entry_dd(self, fn):
        """the dictionary a function is given"""
        i = self.roles[fn][0]['dd'] + 1
        return ('sym', self.E.bodies[fn]['locals'][i].get('n') or 'a%d' % i, 0)

    def complete(self, t, src):
        """the path went through all of a sequence"""
        return any(f[0] == 'more' and f[1] == src and v is False for f, v in t.facts.items())

    # -- field declarations --------------------------------------------------------------------------------
    def fresh_in(self, k, it, key, end=None):
        """the tables of the loop that lack KEY before the iteration and have it afterwards (or at END); fields of dictionaries by name"""
        E = self.E
        out = []
        st = end if end is not None else it.st
        for lv, (o, p, i) in k.e.x['lvs'].items():
            if o not in st.mem:
                continue
            v = E.deep(st, E.read(st, o, p))
            parts = [(lv, v, None)]
            ty = E.strip(E.tyhint[lv]) if lv in E.tyhint else None
            if ty is not None and ty[0] == 'adt' and ty[1] in E.adts and E.adts[ty[1]]['v'] and not ty[1].startswith('std::'):
                parts = []
                for f in E.adts[ty[1]]['v'][0]['f']:
                    nm = '%s.0.%s' % (ty[1], f['n'])
                    parts.append((E.getfield(lv, nm, E.ty(f['ty'])), E.getfield(v, nm, E.ty(f['ty'])), f['n'] if ty[1] == DD else None))
            for b, a, name in parts:
                if b == a:
                    continue
                for has in (lambda m: ('is', ('app', 'get', m, key), 1), lambda m: ('has', m, key)):
                    if E.truth(it.facts, has(b)) is False and self.has_after(it.facts, b, a, key):
                        out.append(name or lv)
        return out

    def kept(self, name):
        """no member changes this table of the dictionary"""
        E = self.E
        for k in self.ctxs:
            if k.kind != 'content':
                continue
            for loc in k.loc:
                for it in self.live(k):
                    for b, a in self.states(k, it, loc)[0]:
                        x, y = (E.getfield(d, '%s.0.%s' % (DD, name)) for d in (b, a))
                        if x != y and set_adds(y, x) is None and map_ops(y, x) is None:
                            return False
        return True

    def has_after(self, facts, b, a, key):
        a = simp(self.E, facts, a)
        while a != b:
            if a[0] == 'app' and a[1] in ('ins', 'upd', 'sins') and a[3] == key:
                return True
            if a[0] == 'sins' and a[2] == key:
                return True
            if a[0] == 'app' and a[1] in ('ins', 'upd', 'sins'):
                a = a[2]
            elif a[0] == 'sins':
                a = a[1]
            else:
                return False
        return False

    def fields(self):
        c, E = self.c, self.E
        n = 0
        loc = self.result_loc()
        ks = [k for k in self.ctxs if k.kind == 'fields' and k.loc and k.fn == self.entry[0]]
        c.ob('fields:loop', len(ks) >= 1, 'the field declarations are not gone through')
        got = set()
        for k in ks:
            heads = self.at(k.e.x['head'], loc)
            for it in self.live(k):
                el, facts, st = k.el, it.facts, it.st
                before, after = heads, self.at(st, loc)
                if tag_of(E, facts, el, ('field',)) is None or E.truth(facts, ('app', 'Node::is_element', el)) is False:
                    bad = self.delta(facts, st, before, after)
                    c.ob('fields:other', not bad, 'something other than a field declaration changes the dictionary: %s' % self.say(bad), k.e.sp)
                    n += 1
                    continue
                name = attrv(el, 'name')
                num = ('fld', parse32(attrv(el, 'number')), RES + '.0.0')
                # the tables are keyed by the numbers of declared fields only (fields:recorded), so a new number is in none of them
                absent = [(('is', put(self.ask(before, q, st), NV, num), 1), False) for q in ('type', 'values')]
                absent = [(x, v) for x, v in absent if x[1] != NONE]
                self.field_twice(k, it, 'fields')
                f2 = assume(E, facts, absent)
                if f2 is None:
                    continue
                n += 1
                got.add('field')
                ty = ('app', FT, attrv(el, 'type'))
                tys = [x for x in subterms(after) if x[0] == 'fld' and x[2] == RES + '.0.0' and x[1] == ty] or [ty]
                vals = self.values_of(k, it, el)
                if not c.ob('fields:values', vals is not None, 'the values of a field are not gone through', k.e.sp):
                    continue
                fv = (num, mk_ite(mk_eq(('app', 'len', vals), I(0)), NONE, some(vals)))
                bad = self.delta(f2, st, before, after, ftype=(num, tys[0]), fvalues=fv)
                c.ob('fields:recorded', not bad, 'a field declaration is not recorded as declared: %s' % self.say(bad), k.e.sp)
        c.floor('ways a field declaration is handled', n, 3)
        c.ob('fields:accepted', 'field' in got, 'no field declaration is ever accepted')

    def field_twice(self, k, it, key):
        for what, x in (('name', attrv(k.el, 'name')), ('number', ('fld', parse32(attrv(k.el, 'number')), RES + '.0.0'))):
            self.c.ob('%s:%s twice' % (key, what), self.fresh_in(k, it, x), 'a field %s declared twice may be accepted' % what, k.e.sp)

    def message_twice(self, k, it, key):
        inner = [e for e in it.events if e.kind == 'loop' and any(x.kind == 'content' and x.fn == k.fn and x.lid == e.x['id'] for x in self.ctxs)]
        for what, x in (('type', attrv(k.el, 'msgtype')), ('name', attrv(k.el, 'name'))):
            t = self.fresh_in(k, it, x) + [y for e in inner for y in self.fresh_in(k, it, x, e.x['pre'])]
            self.c.ob('%s:%s twice' % (key, what), any(isinstance(y, tuple) or self.kept(y) for y in t), 'a message %s declared twice may be accepted' % what, k.e.sp)
        return inner

    def values_of(self, k, it, el):
        """the set that collects the enumerated values of a field, after all of them"""
        E = self.E
        for v in self.ctxs:
            if v.kind == 'values' and v.node == el and self.complete(it, kids(el)):
                if any(e.kind == 'loop' and e.x['id'] == v.lid for e in it.events):
                    for lv, (o, p, i) in v.e.x['lvs'].items():
                        if i == ('app', 'emptymap') and lv in E.tyhint and 'Set' in repr(E.tyhint[lv]):
                            return lv
        return None

    def values(self):
        c, E = self.c, self.E
        n = 0
        got = 0
        for k in self.ctxs:
            if k.kind != 'values':
                continue
            sets = [(lv, o, p, i) for lv, (o, p, i) in k.e.x['lvs'].items()]
            c.ob('values:set', len(sets) == 1, 'the values of a field are not collected in one set', k.e.sp)
            for it in self.live(k):
                n += 1
                is_value = tag_of(E, it.facts, k.el, ('value',)) and E.truth(it.facts, ('app', 'Node::is_element', k.el)) is not False
                for lv, o, p, i in sets:
                    v = simp(E, it.facts, E.deep(it.st, E.read(it.st, o, p)))
                    if not is_value:
                        c.ob('values:other', v == lv, 'something other than a value changes the values of a field', k.e.sp)
                        continue
                    got += 1
                    x = attrv(k.el, 'enum')
                    c.ob('values:recorded', set_adds(v, lv) == [x], 'a value of a field is not recorded as declared', k.e.sp)
                    c.ob('values:twice', E.truth(it.facts, ('has', lv, x)) is False, 'a value declared twice may be accepted', k.e.sp)
        c.ob('values:accepted', got > 0, 'no value of a field is ever accepted')
        c.count('ways a value is handled', n)

    def components(self):
        c, E = self.c, self.E
        got = 0
        for k in self.ctxs:
            if k.kind != 'components':
                continue
            for it in self.live(k):
                is_el = E.truth(it.facts, ('app', 'Node::is_element', k.el))
                for lv, (o, p, i) in k.e.x['lvs'].items():
                    v = simp(E, it.facts, E.deep(it.st, E.read(it.st, o, p)))
                    ops = map_ops(v, lv)
                    if v == lv:
                        c.ob('components:recorded', is_el is False, 'a component is left out', k.e.sp)
                        continue
                    got += 1
                    c.ob('components:recorded', ops is not None and [(x, y) for _, x, y in ops] == [(attrv(k.el, 'name'), k.el)],
                         'a component is not recorded under its name', k.e.sp)
                    c.ob('components:fresh', i == ('app', 'emptymap'), 'the table of components does not start empty', k.e.sp)
        c.ob('components:accepted', got > 0, 'no component is ever recorded')

    def messages(self):
        c, E = self.c, self.E
        loc = self.result_loc()
        n = 0
        got = 0
        for k in self.ctxs:
            if k.kind != 'messages' or not k.loc:
                continue
            before = self.at(k.e.x['head'], loc)
            for it in self.live(k):
                n += 1
                el, facts, st = k.el, it.facts, it.st
                after = self.at(st, loc)
                if tag_of(E, facts, el, ('message',)) is None or E.truth(facts, ('app', 'Node::is_element', el)) is False:
                    bad = self.delta(facts, st, before, after)
                    c.ob('messages:other', not bad, 'something other than a message changes the dictionary: %s' % self.say(bad), k.e.sp)
                    continue
                got += 1
                ty, name = attrv(el, 'msgtype'), attrv(el, 'name')
                for s in MSG_SECTIONS:
                    c.ob('messages:reserved', E.truth(facts, mk_eq(ty, S(s))) is False, 'a message of type %s replaces the %s' % (s, s), k.e.sp)
                inner = self.message_twice(k, it, 'messages')
                c.ob('messages:members', len(inner) == 1 and self.complete(it, kids(el)), 'the members of a message are not all taken', k.e.sp)
                for e in inner:
                    x = next(x for x in self.ctxs if x.fn == k.fn and x.lid == e.x['id'])
                    self.around(k.fn, x, e, facts, before, after, loc, 'message', ty)
        c.floor('ways a message is handled', n, 2)
        c.ob('messages:accepted', got > 0, 'no message is ever accepted')

    def around(self, fn, x, e, facts, before, after, loc, what, ty):
        """what happens to the dictionary before and after the members of a message"""
        c, E = self.c, self.E
        st = e.x['pre']
        start, end = self.at(st, loc), self.at(e.x['head'], loc)
        bad = self.delta(e.facts, st, before, start, reset=ty) if before != start else self.delta(e.facts, st, before, start)
        if bad and before != start:
            b2 = self.delta(e.facts, st, before, start)
            bad = b2 if not b2 else bad
        c.ob('%s:before' % what, not bad, 'a %s changes the dictionary before its members: %s' % (what, self.say(bad)), e.sp)
        for q in ('fields of', 'required of'):
            a = put(self.ask(start, q, st), TV, ty)
            c.ob('%s:%s' % (what, q), E.truth(e.facts, ('is', simp(E, e.facts, a), 1)) is True or simp(E, e.facts, a)[0] == 'adt' and simp(E, e.facts, a) != NONE,
                 '%s gives nothing for a declared %s' % (QFN[q], what), e.sp)
        if after is not None:
            bad = self.delta(facts, st, end, after) if end != after else []
            c.ob('%s:after' % what, not bad, 'a %s changes the dictionary after its members: %s' % (what, self.say(bad)), e.sp)

    def assembled(self):
        """a dictionary that is returned went through all sections, and nothing else changed it"""
        c, E = self.c, self.E
        fn, av, trs = self.entry
        loc = self.result_loc()
        n = 0
        by = {}
        for k in self.ctxs:
            if k.fn == fn and k.kind in ('fields', 'components', 'messages', 'content') and (k.loc or k.kind == 'components'):
                by[k.lid] = k
        for t in trs:
            if t.kind != 'ret' or not self.is_ok(t.val):
                continue
            n += 1
            cur, facts = None, {}
            seen = []
            for e in t.events:
                if e.kind != 'loop' or e.x['id'] not in by:
                    continue
                k = by[e.x['id']]
                seen.append(k.what)
                c.ob('section:%s:all' % k.what, self.complete(t, kids(k.node)), 'the %s section is not gone through completely' % k.what, e.sp)
                if k.kind == 'components':
                    continue
                st = e.x['pre']
                start = self.at(st, loc)
                if cur is None:
                    full = [q for q in QUERIES if self.ask(start, q, st) not in (F, NONE)]
                    full = [q for q in full if not (k.kind == 'content' and q in ('member', 'required'))]
                    c.ob('start', not full or k.kind == 'content', 'the dictionary does not start empty: ' + ', '.join(full), e.sp)
                elif k.kind == 'content':
                    self.around(fn, k, e, e.facts, cur, None, loc, k.what, k.T)
                else:
                    bad = self.delta(e.facts, st, cur, start) if cur != start else []
                    c.ob('section:%s:before' % k.what, not bad, 'the dictionary changes between sections: %s' % self.say(bad), e.sp)
                cur = self.at(e.x['head'], loc)
            for s in SECTIONS:
                c.ob('section:' + s, seen.count(s) == 1, 'the %s section is taken %d times' % (s, seen.count(s)), E.bodies[fn]['span'])
            v = self.payload(t.val)
            bad = self.delta(t.facts, t.st, cur, v) if cur is not None and v != cur else []
            c.ob('result', cur is not None and not bad, 'the dictionary changes after the last section: %s' % self.say(bad), E.bodies[fn]['span'])
        c.floor('ways a dictionary is accepted', n, 1)

    def queries(self):
        """the remaining public queries agree with the ones above, on any dictionary"""
        c, E = self.c, self.E
        from fx.engine import St
        st = St({}, {}, None, None, {})
        dd = ('sym', 'dd', 0)
        E.tyhint[dd] = ('adt', DD, ())
        mem = self.ask(dd, 'member', st)
        want = {'is_header_field': put(mem, TV, S('header')), 'is_trailer_field': put(mem, TV, S('trailer')),
                'is_msg_group': E.is_some(self.ask(dd, 'group', st))}
        for q, of in (('fields of', 'member'), ('required of', 'required')):
            a = self.ask(dd, q, st)
            has = mk_and(('is', a, 1), ('has', E.getfield(a, OPT + '.1.0'), NV))
            bad = compare(E, {}, [(self.yes(has), self.yes(self.ask(dd, of, st)))])[0]
            c.ob('query:' + QFN[q], not bad, '%s and %s disagree' % (QFN[q], QFN[of]))
        for name, w in want.items():
            QFN[name] = name
            b = E.find('DataDictionary::' + name)
            if b is None:
                continue
            s = st.copy()
            o = E.new_obj(s, dd, 'q')
            a = [('ref', o, ())] + ([TV, NV] if b['argc'] == 3 else [NV])
            for x in call(c, E, Step(s), b, a, name):
                bad = compare(E, x.st.facts, [(self.yes(E.deep(x.st, x.val)), self.yes(w))])[0]
                c.ob('query:' + name, not bad, '%s does not answer what was declared' % name, b['span'])
        # the order of a group is given as recorded
        b = c.anchor(E, 'DataDictionary::get_ordered_fields')
        s = st.copy()
        o = E.new_obj(s, dd, 'q')
        for x in call(c, E, Step(s), b, [('ref', o, ())], 'order'):
            v = E.deep(x.st, x.val)
            c.ob('query:get_ordered_fields', v[:2] == ('app', 'coll') and v[2][:3] in (('it', 'set', self.order(dd)), ('it', 'seq', self.order(dd))),
                 'get_ordered_fields does not give the recorded order', b['span'])
        for f, n in (('delimiter', 'delimiter'), ('data_dictionary', 'data_dictionary')):
            b = E.find('GroupInfo::' + f)
            c.ob('anchor:GroupInfo::' + f, b is not None, 'GroupInfo::%s is gone' % f)
            if b is None:
                continue
            s = st.copy()
            g = ('sym', 'info', 0)
            gi = [x for x in E.adts if x.endswith('::GroupInfo')]
            E.tyhint[g] = ('adt', gi[0], ())
            o = E.new_obj(s, g, 'q')
            for x in call(c, E, Step(s), b, [('ref', o, ())], f):
                v = E.deep(x.st, x.val)
                if v[0] == 'ref':
                    v = E.deep(x.st, E.v(x.st, v))
                c.ob('query:GroupInfo::' + f, v == field(E, g, n), 'GroupInfo::%s does not give the recorded value' % f, b['span'])
