"""Typestate over paths with loops. A rule follows items (an abstract state, the facts of the path on which it came about, and what
is known of the loop variables) along every path of a task. Loop heads are the cut points: the items there are closed under
every iteration, and an item goes on only on paths whose conditions agree with the values its loop variables have, so that
conditions carried over in flags or optional values are told apart. Nothing is executed; the paths are those of the analysis."""
import copy
from .base import *
from .compose import assume


class Item:
    __slots__ = ('abs', 'facts', 'vals', 'own', 'old')

    def __init__(self, abs, facts=None, vals=None, own=False):
        self.abs, self.facts, self.vals, self.own = abs, facts or {}, vals or {}, own
        self.old = {}       # what was known of the loop variables on the way here

    def key(self):
        return (self.abs, id(self.facts), tuple(sorted(self.vals.items(), key=repr)))


def closed(v):
    """a value that does not depend on anything unknown"""
    return not any(x[0] in ('sym', 'lv', 'el', 'elk', 'elv', 'app', 'fld', 'ref', 'undef', 'clo', 'it') for x in subterms(v))


class Follow:
    def __init__(self, E, rule, limit=4000):
        self.E, self.rule, self.left, self.split = E, rule, limit, {}

    def compatible(self, item, facts):
        E = self.E
        if not item.vals:
            return True
        for g, b in facts.items():
            lvs = [x for x in subterms(g) if x in item.vals]
            if not lvs:
                continue
            h, shut = g, True
            for lv in lvs:
                v = item.vals[lv]
                if closed(v):
                    h = subst(h, lv, v)
                else:
                    shut = False
            if shut:
                t = E.truth({}, simp(E, {}, h))
            elif g[0] == 'is' and g[1] in item.vals:
                t = E.truth(item.facts, ('is', item.vals[g[1]], g[2]))
            else:
                t = None
            if t is not None and t != b:
                return False
        return True

    def known(self, item, t, res, n):
        """is the result of the item's event its variant n, as far as the item's path or the present one tell"""
        E = self.E
        if item.own:
            return E.truth(t.facts, ('is', res, n))
        x = E.truth(item.facts, ('is', res, n))
        if x is None:
            for lv, v in item.vals.items():
                if v == res and x is None:
                    x = E.truth(t.facts, ('is', lv, n))
        return x

    def norm(self, item, t, old=False):
        """a term of the present path, with what is known of the loop variables put in"""
        for lv, v in (item.old if old else item.vals).items():
            if any(x == lv for x in subterms(t)):
                t = subst(t, lv, v)
        return t

    def run(self, t, items):
        for e in t.events:
            if e.kind == 'loop':
                items = [i for i in self.loop(e, t, items) if self.compatible(i, t.facts)]
                continue
            out = []
            for i in items:
                a = self.rule.step(i, e, t)
                if a is None:
                    out.append(i)
                else:
                    out.append(Item(a, t.facts, i.vals, True))
            items = out
        return items

    def cross(self, item, t):
        """the item leaves the path it is on"""
        a = self.rule.settle(item, t)
        return Item(a, t.facts if item.own else item.facts, dict(item.vals), False)

    def flags(self, t, values):
        """the path with each truth value that a loop variable gets decided: [(path, {variable: value})]"""
        E, out = self.E, [(t, dict(values))]
        for lv, v in values.items():
            if closed(v) or v[0] not in ('is', 'eq', 'pos', 'lt', 'not', 'and', 'or', 'has', 'pre', 'suf', 'srch', 'ite'):
                continue
            nxt = []
            for u, vs in out:
                for b in (True, False):
                    k = (id(u), v, b)
                    if k not in self.split:
                        f = assume(E, u.facts, [(v, b)])
                        w = None
                        if f is not None:
                            w = copy.copy(u)
                            w.facts = f
                        self.split[k] = w, u
                    w = self.split[k][0]
                    if w is not None:
                        nxt.append((w, {**vs, lv: ('bool', b)}))
            out = nxt
        return out

    def arrive(self, item, t, values, seam):
        out = []
        for u, vs in self.flags(t, values):
            i = self.cross(item, u)
            i.old = item.vals
            for lv, v in vs.items():
                i.vals.pop(lv, None)
                if v in item.vals:
                    v = item.vals[v]
                if closed(v) or self.result(t, v):
                    i.vals[lv] = v
            out.append(seam(i, u))
        return out

    def enter(self, item, le, t):
        E = self.E
        vs = {lv: simp(E, t.facts, E.deep(le.x['pre'], init)) for lv, (o, p, init) in le.x['lvs'].items()}
        return self.arrive(item, t, vs, lambda i, u: self.rule.enter(i, le, u))

    def back(self, item, le, it):
        E = self.E
        vs = {lv: simp(E, it.facts, E.lvnow(lv, it.st, o, p)) for lv, (o, p, init) in le.x['lvs'].items()}
        return self.arrive(item, it, {lv: v for lv, v in vs.items() if v != lv}, lambda i, u: self.rule.back(i, le, u))

    def result(self, t, v):
        return any(e.res == v for e in t.events if e.kind in ('call', 'await'))

    def loop(self, le, t, items):
        head, seen = [], set()
        new = [x for i in items for x in self.enter(i, le, t)]
        while new:
            cur = []
            for i in new:
                k = i.key()
                if k not in seen:
                    seen.add(k)
                    cur.append(i)
            head += cur
            self.left -= len(cur)
            if self.left < 0:
                raise Budget('too many states at loop heads')
            new = []
            for it in le.x['iters']:
                some_ = [i for i in cur if self.compatible(i, it.facts)]
                if some_:
                    new += [x for o in self.run(it, some_) for x in self.back(o, le, it)]
        return head

    def follow(self, traces, first):
        for t in traces:
            for i in self.run(t, [Item(first)]):
                self.rule.end(i, t)
