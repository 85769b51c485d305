"""Flattened field sequences of a section, and what an accumulating loop adds up over them."""
from .base import *

TAG = 'message::StringField.0.tag'
VAL = 'message::StringField.0.value'


def rec_sources(E, traces):
    """result symbol of a recursive flattening call -> (sources, accumulators) it was given"""
    out = {}
    for e, _ in uniq_events(traces):
        if e.kind == 'rec':
            new = dict(e.x or ())
            src = [a for i, a in enumerate(e.args) if i not in new]
            for n in list(new.values()) + ([e.res] if e.res is not None else []):
                out[n] = (src, [a for i, a in enumerate(e.args) if i in new])
    return out


def empty_acc(a):
    if a[0] == 'arr':
        return not a[1]
    if a[0] == 'adt':
        return all(empty_acc(x) for x in a[3])
    return False


def seq_of(recs, t):
    """the section (FieldMap term) whose flattening the sequence term t is, or None"""
    for _ in range(10):
        if t in recs:
            src, acc = recs[t]
            if len(src) == 1 and all(empty_acc(a) for a in acc):
                return src[0]
            return None
        if t[0] == 'fld':
            t = t[1]
        elif t[0] == 'it' and t[1] == 'seq':
            t = t[2]
        elif t[0] == 'app' and t[1] == 'coll':
            t = t[2]
        else:
            return None
    return None


def path_of(t):
    """'header' for self.header, …"""
    return t[2].rsplit('.', 1)[1] if t[0] == 'fld' else show(t)[:60]


def tag_of(el):
    return ('fld', el, TAG)


def text_of(el):
    """tag=value<SOH>"""
    return cat(('app', 'dec', tag_of(el)), S('='), ('fld', el, VAL), S('\x01'))


class Sum:
    """What a term adds up: self.paths = list of (facts, items) for every path of every outermost
    accumulating loop; items are ('const', c), ('term', x, k) or ('over', inner paths)."""

    def __init__(self, E, t, mod=None):
        self.E, self.paths, self.const, self.problems, self.loops = E, [], 0, [], []
        self.mod = mod              # sums are compared modulo this number
        self.unreduced = False      # a step adds without reducing
        self.types = set()
        self.top(t)

    def top(self, t):
        c, d = lin_parts(t)
        self.const += c
        for x, k in d.items():
            if x in self.E.recvals and k == 1:
                self.top(self.E.recvals[x][0])
                self.loops.append(x[1])
                self.paths += self.loop(x)
            elif x[0] == 'ite':
                self.problems.append('depends on %s' % show(x[1])[:100])
            else:
                self.problems.append('contains %s' % show(x)[:120])

    def loop(self, lv):
        ty = self.E.tyhint.get(lv)
        self.loops.append(lv[1])
        self.types.add(ty[1] if ty and ty[0] == 'prim' else '?')
        return [(f, self.items(lv, f, leaf)) for v, facts in self.E.recvals[lv][1] for f, leaf in cases(self.E, facts, v)]

    def items(self, lv, facts, v):
        reduced = False
        while True:
            if v[0] == 'app' and v[1].endswith('wrapping_add') and len(v) == 4:
                v = add(v[2], v[3])
            elif self.mod and v[:2] == ('app', 'rem') and v[3] == I(self.mod):
                v = v[2]
                reduced = True
            else:
                break
        out = self.parts(lv, v)
        if not reduced and any(i[0] != 'over' for i in out):
            self.unreduced = True
        return out

    def parts(self, lv, v):
        c, d = lin_parts(v)
        d = dict(d)
        out = []
        if d.get(lv) == 1:
            del d[lv]
        else:
            inner = [x for x in d if x in self.E.recvals and self.E.recvals[x][0] == lv]
            if len(inner) != 1 or d[inner[0]] != 1:
                self.problems.append('is overwritten with %s' % show(v)[:120])
                return out
            del d[inner[0]]
            out.append(('over', self.loop(inner[0])))
        for x, k in d.items():
            if x in self.E.recvals:
                i = self.E.recvals[x][0]
                if k != 1 or i[0] != 'int':
                    self.problems.append('adds %s' % show(x)[:80])
                    continue
                c += i[1]
                out.append(('over', self.loop(x)))
            else:
                out.append(('term', x, k))
        if c:
            out.append(('const', c))
        return out


def active(facts, recs):
    """the (section, element) whose turn it is on this path"""
    out = []
    for f, v in facts.items():
        if f[0] == 'more' and v is True:
            s = seq_of(recs, f[1])
            if s is not None:
                out.append((s, ('el', f[1], f[2])))
    return out


def check_sum(c, key, E, trs, term, skip, full, what, where, mod=None):
    """term = sum over the fields of header, body and trailer, except those with a tag in skip, of full(el)"""
    recs = rec_sources(E, trs)
    sm = Sum(E, term, mod)
    c.ob(key + ':sum', not sm.problems and sm.const == 0, '%s %s' % (what, sm.problems[:1] or 'has an offset of %d' % sm.const), where)
    c.ob(key + ':width', not (sm.types & {'u8', 'i8', 'u16', 'i16'}) or sm.types == {'u8'} and skip == (10,),
         '%s accumulates in %s' % (what, sorted(sm.types)), where)
    seen = {}
    work = list(sm.paths)
    while work:
        facts, items = work.pop()
        act = active(facts, recs)
        if not act and len(items) == 1 and items[0][0] == 'over':
            work += items[0][1]     # a loop over sections
            continue
        if not act and not items:
            continue
        if len(act) != 1:
            c.ob(key + ':sum', False, '%s: a loop that does not run over the fields of one section' % what, where)
            continue
        sec, el = act[0]
        name = path_of(sec)
        st = seen.setdefault(name, {'ids': set(), 'full': 0, 'skip': 0})
        st['ids'].add(el)
        t = tag_of(el)
        for n in skip:
            f = dict(facts)
            if E.add_fact(f, mk_eq(t, I(n)), True):
                st['skip'] += 1
                c.ob('%s:%s:excludes %d' % (key, name, n), not items, '%s counts field %d of the %s' % (what, n, name), where)
        f = dict(facts)
        if all(E.add_fact(f, mk_eq(t, I(n)), False) for n in skip):
            st['full'] += 1
            why = full(E, f, el, items)
            c.ob('%s:%s:counts' % (key, name), why is None, '%s, other field of the %s: %s' % (what, name, why), where)
    for name in ('header', 'body', 'trailer'):
        st = seen.pop(name, None)
        c.ob('%s:%s:covered' % (key, name), st is not None and st['full'] and len(st['ids']) == 1,
             '%s does not count the %s exactly once' % (what, name), where)
    for name in seen:
        c.bad('%s:%s:unexpected' % (key, name), '%s counts %s' % (what, name), where)
    # the loops only end when the fields are used up
    for e, _ in uniq_events(trs):
        if e.kind == 'loop' and e.x['id'] in sm.loops:
            for t in e.x['exits']:
                left = [f for f, v in t.facts.items() if f[0] == 'more' and v is True and seq_of(recs, f[1]) is not None and e.facts.get(f) is not True]
                c.ob(key + ':complete', not left, '%s stops before the last field' % what, where)
    return recs


def full_bytes(E, facts, el, items):
    """every byte of tag=value<SOH>, once"""
    text = text_of(el)
    mine = [x for x, v in facts.items() if x[0] == 'more' and bytes_src(x[1]) == text]
    if not items and mine and all(facts[x] is False for x in mine):
        return None     # flattened iteration: no byte left
    if len(items) == 1 and items[0][0] == 'term' and items[0][2] == 1 and any(facts[x] and items[0][1] == ('el', x[1], x[2]) for x in mine):
        return None
    got, cst = {}, 0
    for i in items:
        if i[0] == 'const':
            cst += i[1]
        elif i[0] == 'over' and i[1]:
            srcs = set()
            for f, it in i[1]:
                mm = [x for x, v in f.items() if x[0] == 'more' and v is True and facts.get(x) is not True]
                if len(mm) != 1:
                    return 'adds up %s' % ', '.join(show(x[1])[:80] for x in mm)
                if len(it) != 1 or it[0][0] != 'term' or it[0][2] != 1 or it[0][1] != ('el', mm[0][1], mm[0][2]):
                    return 'adds something else than the byte value'
                srcs.add(bytes_src(mm[0][1]))
            if len(srcs) != 1:
                return 'adds up different sequences'
            n = byte_pieces(srcs.pop(), got)
            cst += n
        else:
            return 'adds something else than the bytes of the field'
    want = {}
    wc = byte_pieces(text, want)
    if got != want or cst != wc:
        return 'adds up the bytes of %s and %d (expected: %s and %d)' % (sorted(show(k)[:60] for k in got), cst, sorted(show(k)[:60] for k in want), wc)
    return None


def byte_pieces(t, out):
    """the pieces a text consists of, counted in out; the sum of the literal bytes is the result"""
    if t[0] == 'app' and t[1] == 'cat':
        return sum(byte_pieces(x, out) for x in t[2:])
    if t[0] == 'str':
        return sum(t[1].encode('utf-8'))
    if t[0] == 'char' and isinstance(t[1], str):
        return sum(t[1].encode('utf-8'))
    out[t] = out.get(t, 0) + 1
    return 0


def bytes_src(t):
    while t[0] == 'app' and t[1] in ('bytes', 'as_bytes', 'into_bytes'):
        t = t[2]
    return t


def full_len(E, facts, el, items):
    """the number of bytes of tag=value<SOH>"""
    want = {('app', 'len', ('app', 'dec', tag_of(el))): 1, ('app', 'len', ('fld', el, VAL)): 1}
    got, cst = {}, 0
    for i in items:
        if i[0] == 'const':
            cst += i[1]
        elif i[0] == 'term':
            got[i[1]] = got.get(i[1], 0) + i[2]
        elif i[0] == 'over':
            # counting bytes one by one
            text = text_of(el)
            if all(len(it) == 1 and it[0] == ('const', 1) and
                   [x for x, v in f.items() if x[0] == 'more' and v is True and facts.get(x) is not True and bytes_src(x[1]) == text] for f, it in i[1]):
                got = dict(want)
                cst += 2
            else:
                return 'adds something else than the length of the field'
    if got == want and cst == 2:
        return None
    return 'adds %s' % ' + '.join(['%d' % cst] + ['%s*%d' % (show(x)[:60], k) for x, k in got.items()])
