"""The flow of received fields through the message parser: what is taken from the field queue and where it is put, per
iteration of every loop and along every accepting path."""
from collections import Counter
from .base import *

M = 'message::'
FM, SF, GR = M + 'FieldMap', M + 'StringField', M + 'Group'
FIELDS, GROUP, ORDER = FM + '.0.fields', FM + '.0.group', FM + '.0.field_order'
TAG, VALUE = SF + '.0.tag', SF + '.0.value'
OKP = RES + '.0.0'


def tag_of(E, x):
    return E.getfield(x, TAG)


def val_of(E, x):
    return E.getfield(x, VALUE)


def kind_of(E, lv):
    """what a loop variable or symbol holds: queue / fm / fields / groups / insts / None"""
    t = E.tyhint.get(lv) or path_type(E, lv)
    if t is None:
        return None
    t = E.strip(t)
    if t[0] != 'adt':
        return None
    h = t[1].split('::')[-1]
    if t[1] == FM:
        return 'fm'
    if t[1] == GR:
        return 'grp'
    a = [E.strip(x) for x in t[2]]
    if h in ('VecDeque', 'Vec') and a and a[0][:2] == ('adt', SF):
        return 'queue'
    if h == 'Vec' and a and a[0][:2] == ('adt', FM):
        return 'insts'
    if h in ('HashMap', 'BTreeMap') and len(a) > 1 and a[1][:2] == ('adt', SF):
        return 'fields'
    if h in ('HashMap', 'BTreeMap') and len(a) > 1 and a[1][:2] == ('adt', GR):
        return 'groups'
    return None


def path_type(E, lv):
    le = E.loopevs.get(lv[1]) if lv[0] == 'lv' else None
    x = le.x['lvs'].get(lv) if le is not None else None
    if not x or not x[1] or not isinstance(x[1][-1], str):
        return None
    adt, v, name = x[1][-1].rsplit('.', 2)
    a = E.adts.get(adt)
    for f in a['v'][int(v)]['f'] if a else ():
        if f['n'] == name and f.get('ty') is not None:
            return E.ty(f['ty'])
    return None


def is_lv(E, t):
    return t in E.recvals


class Flow:
    """links of a value back to where it comes from"""

    def __init__(self, E, traces):
        self.E = E
        self.recs = {}
        for e, tr in uniq_events(traces):
            if e.kind == 'rec':
                for i, t in e.x or ():
                    self.recs[t] = (e, i)

    def walk(self, t):
        """peel the operations off a container term: (operations newest first, base)"""
        ops = []
        for _ in range(400):
            if t[0] == 'app' and t[1] in ('tail', 'init'):
                ops.append(('take', ('app', 'front' if t[1] == 'tail' else 'back', t[2]), None, t[2]))
                t = t[2]
            elif t[0] == 'app' and t[1] in ('pushf', 'push'):
                ops.append((t[1], t[3], None, t[2]))
                t = t[2]
            elif t[0] == 'app' and t[1] in ('ins', 'upd'):
                ops.append((t[1], t[4], t[3], t[2]))
                t = t[2]
            elif t[0] == 'els':
                for k, o, v in t[2]:
                    ops.append(('upd', v, k, t[1]))
                t = t[1]
            elif t[0] == 'app' and t[1] == 'rem_key':
                ops.append(('del', None, t[3], t[2]))
                t = t[2]
            else:
                break
        return ops, t

    def proj(self, t, kind):
        if kind == 'fields':
            return self.E.getfield(t, FIELDS)
        if kind == 'groups':
            return self.E.getfield(t, GROUP)
        return t

    def unproj(self, t, kind):
        if kind in ('fields', 'groups') and t[0] == 'fld' and t[2] == (FIELDS if kind == 'fields' else GROUP):
            return t[1]
        return None

    def chain(self, t, kind, stop=None, facts=None):
        """links from t back to its origin: ('ops', […]), ('loop', lv, container term), ('rec', event, argument index); then the origin.
        Stops at the loop variable `stop`."""
        E = self.E
        out = []
        for _ in range(60):
            if facts is not None:
                t = simp(E, facts, t)
            ops, b = self.walk(t)
            if ops:
                out.append(('ops', ops))
            x = self.unproj(b, kind)
            x = b if x is None else x
            if stop is not None and x == stop:
                return out, x
            if is_lv(E, x):
                out.append(('loop', x, b))
                t = E.recvals[x][0]
                t = self.proj(t, kind) if x is not b else t
            elif x in self.recs:
                e, i = self.recs[x]
                out.append(('rec', e, i))
                t = e.args[i]
                t = self.proj(t, kind) if x is not b else t
            else:
                return out, b
        return out, t


def balance(links):
    """what the queue operations of straight code take: Counter of items; recursive calls are listed"""
    c, recs = Counter(), []
    for l in links:
        if l[0] == 'ops':
            for op, x, k, before in l[1]:
                if op == 'take':
                    c[x] += 1
                elif op in ('pushf', 'push'):
                    c[x] -= 1
                else:
                    c[('?', op)] += 1
        elif l[0] == 'rec':
            recs.append(l[1])
    return Counter({k: v for k, v in c.items() if v}), recs


def loop_vars(E, lid):
    return [lv for lv in E.recvals if lv[1] == lid]



class Put:
    """one field placed into a map in straight code"""

    def __init__(self, key, val, before, base, inst=None):
        self.key, self.val, self.before, self.base, self.inst = key, val, before, base, inst


def puts_in(fl, t, kind, stop, out, others, facts, inst=None):
    """placements in the field map of t (a FieldMap, or its field table) back to stop"""
    links, base = fl.chain(t, kind, stop, facts)
    for l in links:
        if l[0] == 'ops':
            for op, x, k, before in l[1]:
                if op == 'ins':
                    out.append(Put(k, x, before, base, inst))
                else:
                    others.append((op, k))
    return links, base


def strip_cast(t):
    while t[0] == 'app' and t[1] == 'cast':
        t = t[3]
    return t


def same_item(E, val, x):
    """the stored field is the taken one"""
    return val == x or tag_of(E, val) == tag_of(E, x) and val_of(E, val) == val_of(E, x)


class Iter:
    """one way through a loop body: what it takes from the queue and where it puts it"""


class Loop:
    def __init__(self, fl, lid):
        E = fl.E
        self.lid = lid
        self.ev = E.loopevs.get(lid)
        self.lvs = loop_vars(E, lid)
        self.q = [lv for lv in self.lvs if kind_of(E, lv) == 'queue']
        self.secs = [lv for lv in self.lvs if kind_of(E, lv) in ('fm', 'fields', 'groups', 'grp')]
        self.insts = [lv for lv in self.lvs if kind_of(E, lv) == 'insts']
        self.iters = []
        n = max([len(E.recvals[lv][1]) for lv in self.lvs] or [0])
        for i in range(n):
            it = Iter()
            it.i = i
            it.facts = next(E.recvals[lv][1][i][1] for lv in self.lvs if len(E.recvals[lv][1]) > i)
            it.taken, it.recs, it.lost = Counter(), [], []
            for lv in self.q:
                v = E.recvals[lv][1][i][0]
                links, base = fl.chain(simp(E, it.facts, v), 'queue', lv, it.facts)
                if base != lv:
                    it.lost.append('the queue is replaced')
                b, r = balance(links)
                it.taken += b
                for k, m in b.items():
                    if m < 0:
                        it.taken[k] = m
                it.recs += r
            it.puts, it.others, it.insts = [], [], []
            for lv in self.secs:
                v = simp(E, it.facts, E.recvals[lv][1][i][0])
                if v == lv:
                    continue
                k = kind_of(E, lv)
                if k in ('fm', 'fields'):
                    t = fl.proj(v, 'fields') if k == 'fm' else v
                    ls, base = puts_in(fl, t, 'fields', lv, it.puts, it.others, it.facts)
                    for l in ls:
                        if l[0] == 'rec' and l[1] not in it.recs:
                            it.recs.append(l[1])
                    if base != lv:
                        it.lost.append('a section is replaced')
            for lv in self.insts:
                v = simp(E, it.facts, E.recvals[lv][1][i][0])
                ops, base = fl.walk(v)
                if base != lv:
                    it.lost.append('the instances are replaced')
                for op, x, k, before in ops:
                    if op == 'upd':
                        puts_in(fl, fl.proj(x, 'fields'), 'fields', None, it.puts, it.others, it.facts, strip_cast(k))
                        it.insts.append((strip_cast(k), x))
                    elif op == 'push' and kind_of(E, lv) == 'insts':
                        it.insts.append(('push', x))
                    else:
                        it.others.append((op, k))
            self.iters.append(it)

    def moves_fields(self):
        return any(it.taken or it.recs or it.puts for it in self.iters)


def loops_of(fl, traces):
    """all loops met on the traces, at any depth, that move fields"""
    out = {}
    for t in traces:
        for e, tr in all_events(t):
            if e.kind == 'loop' and e.x['id'] not in out:
                out[e.x['id']] = Loop(fl, e.x['id'])
    return out


DDT = 'data_dictionary::DataDictionary'


def table(dd, name):
    return ('fld', dd, '%s.0.%s' % (DDT, name))


def got(m, k):
    return ('fld', ('app', 'get', m, k), OPT + '.1.0')


def listed(dd, key, tag):
    """the dictionary lists the tag for that section or message"""
    m = table(dd, 'msg_fields')
    return mk_and(('is', ('app', 'get', m, key), 1), ('has', got(m, key), tag))


def is_group(dd, key, tag):
    m = table(dd, 'groups')
    return mk_and(('is', ('app', 'get', m, key), 1), ('is', ('app', 'get', got(m, key), tag), 1))


def group_info(dd, key, tag):
    return got(got(table(dd, 'groups'), key), tag)


class Model:
    """the parser entry and every recursive function it uses"""

    def __init__(self, c):
        self.c = c
        E = self.E = c.engine(opaque=LOADER)
        b = c.anchor(E, 'Message::from_str')
        self.av, self.traces = c.run(E, b)
        self.entry = b
        self.fl = Flow(E, self.traces)
        self.recs = {}
        todo = [e.name for e, tr in uniq_events(self.traces) if e.kind == 'rec']
        while todo:
            n = todo.pop(0)
            if n in self.recs or n not in E.bodies:
                continue
            av, trs = c.run(E, E.bodies[n])
            self.recs[n] = (E.bodies[n], av, trs, Flow(E, trs))
            todo += [e.name for e, tr in uniq_events(trs) if e.kind == 'rec']
        c.floor('recursive group parsers', len(self.recs), 1)

    def params(self, body):
        """roles of the parameters of a parser function: queue, fm, item, dd"""
        E = self.E
        out = {}
        for i in range(body['argc']):
            t = E.strip(E.ty(body['locals'][i + 1]['ty']))
            if t[0] == 'adt':
                h = t[1].split('::')[-1]
                if t[1] == FM:
                    out['fm'] = i
                elif t[1] == SF:
                    out['item'] = i
                elif t[1] == DDT:
                    out['dd'] = i
                elif h in ('VecDeque', 'Vec') and t[2] and E.strip(t[2][0])[:2] == ('adt', SF):
                    out['queue'] = i
                elif t[1] == 'std::string::String':
                    out.setdefault('key', i)
            elif t == ('prim', 'str'):
                out.setdefault('key', i)
        return out

    def accepted(self, traces):
        E = self.E
        for t in traces:
            if t.kind == 'ret':
                for f, v in cases(E, t.facts, t.val):
                    if v[0] == 'adt' and v[1] == RES and v[2] == 0:
                        yield t, f, v[3][0]
                    elif v[0] != 'adt':
                        yield t, f, None


def value_of(E, st, a):
    return E.deep(st, a)


def final_queue(E, fl, t, facts):
    """(value, links, origin) of the field queue at the end of a trace: as left in memory, or as last found empty"""
    best = None
    cand = []
    for e in t.events:
        if e.kind != 'loop':
            continue
        for lv, (o, p, init) in e.x['lvs'].items():
            if kind_of(E, lv) == 'queue' and o in t.st.mem:
                cand.append(E.deep(t.st, E.read(t.st, o, p)))
    for f, v in facts.items():
        for x in f[1:]:
            for y in subterms(x) if isinstance(x, tuple) else ():
                if y[0] == 'app' and y[1] == 'len' and y[2] not in cand and kind_of(E, fl.walk(y[2])[1]) == 'queue':
                    cand.append(y[2])
    for v in cand:
        links, origin = fl.chain(simp(E, facts, v), 'queue', None, facts)
        n = sum(1 for l in links if l[0] == 'loop')
        if best is None or n > best[0]:
            best = (n, v, links, origin)
    return best[1:] if best else None


def new_instance(E, loop):
    """how a loop numbers the instances it fills: (counter variable, offset k, [starts a new instance per iteration]) where the
    instance filled by an iteration is counter after it + k"""
    n = len(loop.iters)
    for C in loop.lvs:
        init, backs = E.recvals[C]
        if len(backs) != n:
            continue
        steps = [sub(simp(E, f, v), C) for v, f in backs]
        if not all(s in (I(0), I(1)) for s in steps) or I(1) not in steps:
            continue
        ks = set()
        for it, (v, f) in zip(loop.iters, backs):
            for k, x in it.insts:
                if k == 'push':
                    ks.add(None)
                else:
                    ks.add(sub(strip_cast(simp(E, f, k)), v))
        if len(ks) == 1 and None not in ks:
            k = list(ks)[0]
            if k[0] == 'int' and add(init, k) == I(-1):
                return C, k, [s == I(1) for s in steps]
    return None
