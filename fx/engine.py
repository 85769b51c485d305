"""Abstract interpreter over the type-resolved MIR facts.

Path-sensitive forward dataflow (trace partitioning by branch decisions, value numbering for
terms).  Every loop body is analysed once for an arbitrary iteration: the values it may change are
replaced by unknowns at its head (found by iterating to a fixpoint), so nothing is executed or
unrolled and no solver is involved.  Local functions and closures are inlined (recursion is cut).
"""
import json
import re
import sys

from .roles import canonical
from .terms import *

sys.setrecursionlimit(20000)
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
NONE = ('adt', OPT, 0, ())
MOVED = ('moved',)
UNSIGNED = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128'}
INTS = UNSIGNED | {'isize', 'i8', 'i16', 'i32', 'i64', 'i128'}


def some(v):
    return ('adt', OPT, 1, (v,))


def ok(v):
    return ('adt', RES, 0, (v,))


def err(v):
    return ('adt', RES, 1, (v,))


class Budget(Exception):
    pass


class Ev:
    __slots__ = ('kind', 'name', 'args', 'res', 'sp', 'fn', 'facts', 'guards', 'x', 'raw', 'data')

    def __init__(self, kind, name, args, res, sp, fn, facts, guards, x=None, raw=()):
        self.kind, self.name, self.args, self.res, self.sp, self.fn = kind, name, args, res, sp, fn
        self.facts, self.guards, self.x, self.raw = facts, guards, x, raw
        self.data = None

    def __repr__(self):
        return '%s %s(%s) -> %s @%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args),
                                        show(self.res) if self.res else '', self.sp)


class Trace:
    """one path through a loop body (or through an entry point)"""

    def __init__(self, kind, events, facts, st, val=None):
        self.kind, self.events, self.facts, self.st, self.val = kind, events, facts, st, val


class St:
    __slots__ = ('mem', 'facts', 'ev', 'dec', 'guards', 'peeks')

    def __init__(self, mem, facts, ev, dec, guards, peeks=()):
        self.mem, self.facts, self.ev, self.dec, self.guards, self.peeks = mem, facts, ev, dec, guards, peeks

    def copy(self):
        return St(dict(self.mem), self.facts, self.ev, self.dec, self.guards, self.peeks)


def ev_list(ev, stop=None):
    out = []
    while ev is not None and ev is not stop:
        out.append(ev[1])
        ev = ev[0]
    out.reverse()
    return out


def norm(n):
    """normalise a path: last two segments without generics"""
    m = re.match(r'^<(.*)>::(\w+)$', n)
    s = n
    s = re.sub(r'<impl [^<>]*? for ([^<>]+(?:<[^<>]*>)?)>', lambda m: '<impl %s>' % m.group(1), s)
    s = s.replace('<impl str>', 'str').replace('<impl [T]>', 'slice')
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r'::<[^<>]*>', '', s)
        s = re.sub(r'<[^<>]*>', '', s)
    seg = [x for x in s.split('::') if x]
    return '::'.join(seg[-2:])


class Engine:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['id']] = b
        self.adts = {a['n']: a for a in d['adts']}
        self.tyj = d['tys']
        self.tymemo = {}
        self.fns = []
        self.fnix = {}
        self.fieldidx = {}
        canonical(self.adts, self.bodies, self.ty)
        for a in d['adts']:
            for vi, v in enumerate(a['v']):
                for fi, f in enumerate(v['f']):
                    self.fieldidx['%s.%d.%s' % (a['n'], vi, f['n'])] = fi
        # local trait impls: (trait, self adt name, method) -> body
        self.impls = {}
        self.methods = {}
        for b in d['bodies']:
            im = b.get('impl')
            if im:
                t = self.ty(im['self'])
                if im['trait']:
                    self.impls[(im['trait'], self.tyhead(t), b['name'])] = b
                else:
                    self.methods[(self.tyhead(t), b['name'])] = b
        self.nobj = 0
        self.nsym = 0
        self.nloop = 0
        self.nguard = 0
        self.guardobj = {}     # guard -> (object it gives write access to, value at the start, where)
        self.bv = 0
        self.optnum = set()
        self.objlabel = {}
        self.objty = {}
        self.tyhint = {}
        self.stack = []
        self.recorders = []
        self.loopmarks = []
        self.loopheads = []
        self.steps = 0
        self.budget = 6_000_000
        self.loopinfo = {}
        self.unmodelled = {}
        self.analysed = set()
        self.tasks = []        # (name, closure outcomes) for spawned tasks
        self.opaque = set()
        self.cutscc = False
        self.cut_first = set()      # functions at which cycles are cut in any case
        self.through = None         # (body, state, args) -> this call of a cut function is followed all the same
        self._rec = None
        self.loops_memo = {}
        self.loopevs = {}      # loop id -> LoopEv
        self.recvals = {}      # lv term -> (init, [values at back edges])
        from . import models
        self.models = models.MODELS
        self.unroll_n = 0
        self.ixof = {}
        self.m = models

    # ---- types -------------------------------------------------------------------------------
    def ty(self, ix):
        if ix is None:
            return ('other', '?')
        if ix in self.tymemo:
            return self.tymemo[ix]
        j = self.tyj[ix]
        k = j.get('k')
        self.tymemo[ix] = ('other', j['s'])
        A = lambda: tuple(self.ty(x) for x in j.get('a', []))
        if k == 'adt':
            r = ('adt', j['n'], A())
        elif k in ('ref', 'ptr'):
            r = ('ref', j['m'], self.ty(j['t']))
        elif k == 'param':
            r = ('param', j['n'])
        elif k in ('closure', 'coroutine', 'fndef'):
            r = (k, j['n'], A())
        elif k == 'tuple':
            r = ('tuple', A())
        elif k in ('slice', 'array'):
            r = (k, self.ty(j['t']))
        elif k == 'prim':
            r = ('prim', j['s'])
        elif k == 'never':
            r = ('never',)
        else:
            r = (k, j['s'])
        self.tymemo[ix] = r
        return r

    def sub(self, t, env):
        if not env or not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'param':
            return env.get(t[1], t)
        return tuple(self.sub(x, env) if isinstance(x, tuple) else x for x in t)

    def tyhead(self, t):
        while t[0] == 'ref':
            t = t[2]
        if t[0] in ('adt', 'prim', 'param', 'closure', 'coroutine', 'fndef'):
            return t[1]
        return t[0]

    def from_impl(self, src, dst):
        """local `impl From<src> for dst`"""
        if dst[0] != 'adt':
            return None
        for b in self.d['bodies']:
            im = b.get('impl')
            if im and im['trait'] == 'std::convert::From' and b['name'] == 'from' and self.tyhead(self.ty(im['self'])) == dst[1]:
                if self.strip(self.ty(b['locals'][1]['ty'])) == self.strip(src):
                    return b
        return None

    def implenv(self, b, ty):
        im = self.ty(b['impl']['self'])
        env = {}
        if im[0] == 'adt' and ty[0] == 'adt':
            for x, y in zip(im[2], ty[2]):
                if x[0] == 'param':
                    env[x[1]] = y
        return env

    def strip(self, t):
        while t[0] == 'ref':
            t = t[2]
        return t

    # ---- objects and memory --------------------------------------------------------------------
    def new_obj(self, st, val, label, ty=None):
        self.nobj += 1
        o = self.nobj
        self.objlabel[o] = label
        if ty is not None:
            self.objty[o] = ty
        st.mem[o] = val
        return o

    def fresh(self, name, ty=None):
        self.nsym += 1
        t = ('sym', name, self.nsym)
        if ty is not None:
            self.tyhint[t] = ty
        return t

    def fidx(self, key):
        i = self.fieldidx.get(key)
        if i is not None:
            return i
        try:
            return int(key.rsplit('.', 1)[1])
        except ValueError:
            return None

    def getfield(self, v, key, ty=None):
        k = v[0]
        if k == 'adt':
            vi = int(key.rsplit('.', 2)[1])
            if vi != v[2]:
                return ('undef',)
            i = self.fidx(key)
            return v[3][i] if i is not None and i < len(v[3]) else ('undef',)
        if k in ('tup', 'arr'):
            i = self.fidx(key)
            return v[1][i] if i < len(v[1]) else ('undef',)
        if k == 'clo':
            i = self.fidx(key)
            return v[2][i] if i < len(v[2]) else ('undef',)
        if k == 'gd':
            return self.getfield(v[2], key, ty)
        if k == 'ite':
            a = self.getfield(v[2], key, ty)
            b = self.getfield(v[3], key, ty)
            if a == ('undef',):
                return b
            if b == ('undef',):
                return a
            return mk_ite(v[1], a, b)
        if k == 'undef' or k in ('ent', 'dent') and key.endswith('.0'):
            return v
        t = ('fld', v, key)
        if ty is not None and t not in self.tyhint:
            self.tyhint[t] = ty
        return t

    def setfield(self, v, key, new):
        k = v[0]
        i = self.fidx(key)
        if k == 'adt' and i is not None and int(key.rsplit('.', 2)[1]) == v[2] and i < len(v[3]):
            return ('adt', v[1], v[2], v[3][:i] + (new,) + v[3][i + 1:])
        if k in ('tup', 'arr') and i < len(v[1]):
            return (k, v[1][:i] + (new,) + v[1][i + 1:])
        if k == 'clo' and i < len(v[2]):
            return (k, v[1], v[2][:i] + (new,) + v[2][i + 1:]) + v[3:]
        if k == 'ite':
            return mk_ite(v[1], self.setfield(v[2], key, new), self.setfield(v[3], key, new))
        if k == 'gd':
            return ('gd', v[1], self.setfield(v[2], key, new))
        parts = key.rsplit('.', 2)
        a = self.adts.get(parts[0])
        if a is not None:
            vi = int(parts[1])
            fs = a['v'][vi]['f']
            vals = []
            for f in fs:
                kk = '%s.%d.%s' % (parts[0], vi, f['n'])
                ft = self.ty(f['ty']) if f.get('ty') is not None else None
                vals.append(self.getfield(v, kk, ft) if k not in ('moved', 'uninit') else ('uninit',))
            vals[i] = new
            return ('adt', parts[0], vi, tuple(vals))
        return ('app', 'with', v, key, new)

    def read(self, st, obj, path=()):
        v = st.mem.get(obj, ('uninit',))
        for p in path:
            v = self.getfield(v, p)
        return v

    def write(self, st, obj, path, val):
        for r in self.recorders:
            r.add((obj, path))
        if not path:
            st.mem[obj] = val
            return

        def go(v, path):
            if not path:
                return val
            return self.setfield(v, path[0], go(self.getfield(v, path[0]), path[1:]))
        st.mem[obj] = go(st.mem.get(obj, ('uninit',)), path)

    def v(self, st, x):
        """the value a (possibly nested) reference points to"""
        n = 0
        while x[0] == 'ref' and n < 20:
            x = self.read(st, x[1], x[2])
            n += 1
        if x[0] == 'gd':
            x = x[2]
            if x[0] == 'ref':
                return self.v(st, x)
        return x

    def deep(self, st, x, d=0):
        """term with all references replaced by the values they point to"""
        if d > 40 or not isinstance(x, tuple) or not x:
            return x
        k = x[0]
        if k in CONSTK or k in ('sym', 'lv', 'fn', 'moved', 'uninit', 'undef', 'bvar'):
            return x
        if k == 'ref':
            return self.deep(st, self.read(st, x[1], x[2]), d + 1)
        if k == 'gd':
            return self.deep(st, x[2], d + 1)
        if k == 'els':
            base = self.deep(st, x[1], d + 1)
            for key, o, init in reversed(x[2]):
                cur = st.mem.get(o)
                if cur is not None and cur != init:
                    base = ('app', 'upd', base, self.deep(st, key, d + 1), self.deep(st, cur, d + 1))
            return base
        if k == 'ent':
            return ('app', 'entry', self.deep(st, ('ref', x[1], x[2]), d + 1), self.deep(st, x[3], d + 1))
        if k == 'clo':
            return (k, x[1], tuple(self.deep(st, y, d + 1) for y in x[2]), ())
        if k == 'fld':
            b = self.deep(st, x[1], d + 1)
            if b is x[1] or b == x[1]:
                return x
            r = self.getfield(b, x[2])
            if x in self.tyhint and r not in self.tyhint:
                self.tyhint[r] = self.tyhint[x]
            return r
        out = tuple(self.deep(st, y, d + 1) if isinstance(y, tuple) else y for y in x)
        return out

    # ---- facts ---------------------------------------------------------------------------------
    def nonneg(self, t):
        if t[0] == 'int':
            return t[1] >= 0
        if t[0] == 'app' and t[1] in ('len', 'count', 'rem_u'):
            return True
        if t[0] == 'srch':
            return True
        ty = self.tyhint.get(t)
        return ty is not None and ty[0] == 'prim' and ty[1] in UNSIGNED

    def lower(self, l):
        c, d = lin_parts(l)
        lo = c
        for t, k in d.items():
            if k > 0 and self.nonneg(t):
                continue
            return None
        return lo

    def prove_pos(self, facts, l):
        """l > 0 from the facts (at most two of them)"""
        lo = self.lower(l)
        if lo is not None and lo > 0:
            return True
        ms = []
        for f, b in facts.items():
            if f[0] == 'pos':
                ms.append(f[1] if b else sub(I(1), f[1]))
            elif f[0] == 'eq' and b is False and I(0) in f[1:]:
                t = f[1] if f[2] == I(0) else f[2]
                if self.nonneg(t):
                    ms.append(t)
            elif f[0] == 'eq' and b is True:
                a, c = f[1], f[2]
                if a[0] in ('int', 'lin', 'sym', 'lv', 'fld', 'app', 'el') and c[0] in ('int', 'lin', 'sym', 'lv', 'fld', 'app', 'el'):
                    ms.append(add(sub(a, c), I(1)))
                    ms.append(add(sub(c, a), I(1)))
        rel = []
        for x in [y for m in [l] + ms for y in lin_parts(m)[1]]:
            if x[0] == 'app' and x[1] == 'cast' and x[2][1][0] == 'u' and self.nonneg(x[3]):
                ms.append(add(sub(x[3], x), I(1)))     # a narrower unsigned value is not larger
        for m in ms:
            lo = self.lower(sub(l, m))
            if lo is not None and lo >= 0:
                return True
            if len(rel) < 40:
                rel.append(m)
        for i, m in enumerate(rel):
            for n in rel[i:]:
                lo = self.lower(sub(sub(l, m), n))
                if lo is not None and lo >= -1:
                    return True
        return False

    def empty_range(self, facts, x):
        """the facts bound the number x to a range of which they exclude every value"""
        lo = hi = None
        out = set()
        for f, b in facts.items():
            if f[0] == 'pos':
                c, d = lin_parts(f[1])
                if len(d) != 1 or x not in d or abs(d[x]) != 1:
                    continue
                if d[x] == 1:       # x + c > 0, or x + c <= 0
                    if b:
                        lo = 1 - c if lo is None else max(lo, 1 - c)
                    else:
                        hi = -c if hi is None else min(hi, -c)
                else:               # c - x > 0, or c - x <= 0
                    if b:
                        hi = c - 1 if hi is None else min(hi, c - 1)
                    else:
                        lo = c if lo is None else max(lo, c)
            elif f[0] == 'eq' and b is False:
                if f[1] == x and f[2][0] == 'int':
                    out.add(f[2][1])
                elif f[2] == x and f[1][0] == 'int':
                    out.add(f[1][1])
        return lo is not None and hi is not None and hi - lo < 64 and all(n in out for n in range(lo, hi + 1))

    def bounds(self, l, x):
        """l > 0 bounds x from above by something that is no parsed number"""
        d = lin_parts(l)[1]
        return d.get(x, 0) < 0 and not any(k > 0 and y[0] == 'fld' and y[1][0] == 'app' and y[1][1] == 'parse' for y, k in d.items())

    def truth(self, facts, t):
        k = t[0]
        if k == 'bool':
            return t[1]
        if t in facts:
            return facts[t]
        if k == 'not':
            r = self.truth(facts, t[1])
            return None if r is None else not r
        if k == 'and':
            a = self.truth(facts, t[1])
            if a is False:
                return False
            b = self.truth(facts, t[2])
            if b is False:
                return False
            if a and b:
                return True
            d = facts.get(mk_not(t))
            return None if d is None else not d
        if k == 'or':
            a = self.truth(facts, t[1])
            if a is True:
                return True
            b = self.truth(facts, t[2])
            if b is True:
                return True
            if a is False and b is False:
                return False
            d = facts.get(mk_not(t))
            return None if d is None else not d
        if k == 'ite':
            c = self.truth(facts, t[1])
            if c is not None:
                return self.truth(facts, t[2] if c else t[3])
            a, b = self.truth(facts, t[2]), self.truth(facts, t[3])
            return a if a is not None and a == b else None
        if k == 'pos':
            if self.prove_pos(facts, t[1]):
                return True
            if self.prove_pos(facts, sub(I(1), t[1])):
                return False
            return None
        if k == 'eqi':
            a, b = (t[1], t[2]) if t[2][0] == 'str' else (t[2], t[1])
            if b[0] == 'str':
                for f, val in facts.items():
                    if val is True and f[0] in ('eq', 'eqi') and a in f[1:]:
                        o = f[2] if f[1] == a else f[1]
                        if o[0] == 'str':
                            return o[1].lower() == b[1]
            return None
        if k == 'eq':
            a, b = t[1], t[2]
            if a[0] in CONSTK:
                a, b = b, a
            if b[0] == 'str':
                for f, val in facts.items():
                    if f[0] == 'eqi' and a in f[1:]:
                        o = f[2] if f[1] == a else f[1]
                        if o[0] == 'str' and (b[1].lower() == o[1]) != val:
                            return False
            # value known to be another constant
            if b[0] in CONSTK:
                for f, val in facts.items():
                    if f[0] == 'eq' and val is True and a in f[1:]:
                        o = f[2] if f[1] == a else f[1]
                        if o[0] in CONSTK and o[0] == b[0]:
                            return o == b
            a, b = t[1], t[2]
            if (a[0] in ('lin', 'int', 'lv') or b[0] in ('lin', 'int', 'lv')) and not \
                    {a[0], b[0]} & {'str', 'char', 'bool', 'adt'}:
                if self.prove_pos(facts, sub(a, b)) or self.prove_pos(facts, sub(b, a)):
                    return False
            return None
        if k == 'is':
            for f, val in facts.items():
                if f[0] == 'is' and f[1] == t[1]:
                    if val is True:
                        return f[2] == t[2]
            n = self.nvariants(t[1])
            if n == 2 and facts.get(('is', t[1], 1 - t[2])) is False:
                return True
            return None
        if k == 'pre' and t[2][0] == 'str':
            for f, val in facts.items():
                if f[0] == 'pre' and f[1] == t[1] and f[2][0] == 'str':
                    if val and f[2][1].startswith(t[2][1]):
                        return True
                    if val and not t[2][1].startswith(f[2][1]):
                        return False
                    if val is False and t[2][1].startswith(f[2][1]):
                        return False
            return None
        return None

    def nvariants(self, t):
        ty = self.tyhint.get(t)
        if ty:
            ty = self.strip(ty)
            if ty[0] == 'adt' and ty[1] in self.adts:
                return len(self.adts[ty[1]]['v'])
        return None

    def assume(self, st, t, val):
        """st with t == val added; None if contradictory"""
        cur = self.truth(st.facts, t)
        if cur is not None:
            return st if cur == val else None
        facts = dict(st.facts)
        if not self.add_fact(facts, t, val):
            return None
        s = st.copy()
        s.facts = facts
        s.dec = (s.dec, t, val)
        return s

    def add_fact(self, facts, t, val):
        cur = self.truth(facts, t)
        if cur is not None:
            return cur == val
        k = t[0]
        if k == 'not':
            return self.add_fact(facts, t[1], not val)
        if (k == 'and' and val) or (k == 'or' and not val):
            facts[t] = val
            return self.add_fact(facts, t[1], val) and self.add_fact(facts, t[2], val)
        facts[t] = val
        if k == 'eq' and not val and (t[1][0] == 'int') != (t[2][0] == 'int'):
            x = t[1] if t[2][0] == 'int' else t[2]
            if x[0] not in ('lin', 'ite') and self.empty_range(facts, x):
                return False
        elif k == 'pos':
            d = lin_parts(t[1])[1]
            if len(d) == 1 and self.empty_range(facts, next(iter(d))):
                return False
        # propagation through recorded disjunctions
        for f, fv in list(facts.items()):
            if f[0] == 'and' and fv is False or f[0] == 'or' and fv is True:
                want = f[0] == 'or'
                a, b = self.truth(facts, f[1]), self.truth(facts, f[2])
                if a is (not want) and b is (not want):
                    return False
                if a is (not want) and b is None:
                    if not self.add_fact(facts, f[2], want):
                        return False
                elif b is (not want) and a is None:
                    if not self.add_fact(facts, f[1], want):
                        return False
        return True

    def split(self, st, t):
        """[(state, bool)] for the possible truth values of t"""
        cur = self.truth(st.facts, t)
        if cur is not None:
            return [(st, cur)]
        if t[0] == 'ite':
            out = []
            for s, b in self.split(st, t[1]):
                out += self.split(s, t[2] if b else t[3])
            return out
        out = []
        for b in (True, False):
            s = self.assume(st, t, b)
            if s is not None:
                out.append((s, b))
        return out

    def simp(self, facts, t, d=0):
        """resolve if-then-else terms decided by the facts"""
        if not isinstance(t, tuple) or d > 25 or not t:
            return t
        if t[0] == 'ite':
            c = self.truth(facts, t[1])
            if c is True:
                return self.simp(facts, t[2], d + 1)
            if c is False:
                return self.simp(facts, t[3], d + 1)
            return mk_ite(t[1], self.simp(facts, t[2], d + 1), self.simp(facts, t[3], d + 1))
        if t[0] in ('adt', 'app', 'tup', 'fld'):
            r = tuple(self.simp(facts, x, d + 1) if isinstance(x, tuple) else x for x in t)
            if t[0] == 'fld' and r != t:
                return self.getfield(r[1], r[2])
            return r
        if t and isinstance(t[0], tuple):
            return tuple(self.simp(facts, x, d + 1) for x in t)
        return t

    # ---- enums ---------------------------------------------------------------------------------
    def is_variant(self, v, n, adt=None):
        """boolean term: value v is of variant n"""
        k = v[0]
        if k == 'adt':
            return ('bool', v[2] == n)
        if k == 'ite':
            return mk_ite(v[1], self.is_variant(v[2], n), self.is_variant(v[3], n))
        if k == 'gd':
            return self.is_variant(v[2], n)
        if k == 'srch':
            a = self.m.srch_any(v)
            return a if n == 1 else mk_not(a)
        if k == 'app' and v[1] == 'getset':
            a = ('has', v[2], v[3])
            return a if n == 1 else mk_not(a)
        ty = self.tyhint.get(v)
        if ty is None and adt:
            self.tyhint[v] = ('adt', adt, ())
        a2 = self.nvariants(v)
        if a2 == 2 and n == 0:
            nm = self.strip(self.tyhint[v])[1]
            if nm == OPT:
                return mk_not(('is', v, 1))
            if nm == RES:
                return ('is', v, 0)
            return ('is', v, 0)
        if a2 == 2 and n == 1:
            nm = self.strip(self.tyhint[v])[1]
            if nm != OPT:
                return mk_not(('is', v, 0))
        return ('is', v, n)

    def is_some(self, o):
        return self.is_variant(o, 1, OPT)

    def is_ok(self, o):
        return self.is_variant(o, 0, RES)

    # ---- events --------------------------------------------------------------------------------
    def event(self, st, kind, name, args, res, sp, x=None, raw=()):
        fn = self.stack[-1] if self.stack else '?'
        e = Ev(kind, name, tuple(self.deep(st, a) for a in args), res, sp, fn, st.facts,
               self.live_guards(st), x, raw)
        st.ev = (st.ev, e)
        return e

    def live_guards(self, st):
        return tuple((g, m, k, kind) for g, (c, m, k, kind) in st.guards.items()
                     if self.truth(st.facts, c) is not False)

    def panic(self, st, kind, sp, args=()):
        s = st.copy()
        fn = self.stack[-1] if self.stack else '?'
        e = Ev('panic', kind, tuple(self.deep(s, a) for a in args), None, sp, fn, s.facts,
               self.live_guards(s), tuple(self.stack))
        s.ev = (s.ev, e)
        return ('panic', s, None)

    # ---- places ----------------------------------------------------------------------------------
    def resolve(self, fr, st, place):
        """-> ('loc', obj, path, type) or ('val', term, type)"""
        l, proj = place
        ty = self.sub(self.ty(fr.body['locals'][l]['ty']), fr.env)
        obj = fr.objs[l]
        cur = ('loc', obj, ())
        vi = 0
        for p in proj:
            if p == '*':
                if cur[0] == 'loc':
                    x = self.read(st, cur[1], cur[2])
                else:
                    x = cur[1]
                if x[0] == 'ref':
                    cur = ('loc', x[1], x[2])
                elif x[0] == 'ite' and (x[2][0] == 'ref' or x[3][0] == 'ref'):
                    c = self.truth(st.facts, x[1])
                    y = x[2] if c else x[3] if c is False else None
                    if y is not None and y[0] == 'ref':
                        cur = ('loc', y[1], y[2])
                    else:
                        cur = ('val', mk_ite(x[1], self.v(st, x[2]), self.v(st, x[3])))
                else:
                    cur = ('val', x)
                ty = ty[2] if ty[0] == 'ref' else (ty[2][0] if ty[0] == 'adt' and ty[2] else ty)
                vi = 0
                continue
            if p[0] == 'd':
                vi = p[1]
                continue
            if p[0] == 'f':
                fty = self.sub(self.ty(p[2]), fr.env)
                if ty[0] == 'adt' and ty[1] in self.adts:
                    fs = self.adts[ty[1]]['v'][vi]['f'] if vi < len(self.adts[ty[1]]['v']) else []
                    nm = fs[p[1]]['n'] if p[1] < len(fs) else str(p[1])
                    key = '%s.%d.%s' % (ty[1], vi, nm)
                else:
                    key = 'T.%d.%d' % (0, p[1])
                vi = 0
                if cur[0] == 'loc':
                    cur = ('loc', cur[1], cur[2] + (key,))
                    base = self.read(st, cur[1], cur[2])
                    if base[0] == 'fld' and base not in self.tyhint:
                        self.tyhint[base] = fty
                else:
                    cur = ('val', self.getfield(cur[1], key, fty))
                ty = fty
                continue
            if p[0] == 'i':
                ix = self.v(st, st.mem.get(fr.objs[p[1]], ('uninit',)))
                x = self.read(st, cur[1], cur[2]) if cur[0] == 'loc' else cur[1]
                if ix[0] == 'int' and cur[0] == 'loc' and x[0] == 'arr':
                    cur = ('loc', cur[1], cur[2] + ('T.0.%d' % ix[1],))
                else:
                    if x[0] == 'arr' and ix[0] == 'int' and ix[1] < len(x[1]):
                        cur = ('val', x[1][ix[1]])
                    else:
                        t = self.element(st, x, ix)
                        cur = ('loc', t[1], t[2]) if x[0] == 'els' and t[0] == 'ref' else ('val', t)
                ty = ty[1] if ty[0] in ('slice', 'array') else ('other', '?')
                if cur[0] == 'val' and cur[1] not in self.tyhint:
                    self.tyhint[cur[1]] = ty
                continue
            # constant index and subslices
            x = self.read(st, cur[1], cur[2]) if cur[0] == 'loc' else cur[1]
            if p[0] == 'ci' and x[0] == 'arr' and not p[-1] is True and p[1] < len(x[1]):
                cur = ('val', x[1][p[1]])
            elif p[0] == 'ci':
                t = self.element(st, x, sub(self.length(st, x), I(p[1])) if p[-1] is True else I(p[1]))
                cur = ('loc', t[1], t[2]) if x[0] == 'els' and t[0] == 'ref' else ('val', t)
            else:
                cur = ('val', ('app', 'at', x, S(json.dumps(p))))
            ty = ty[1] if ty[0] in ('slice', 'array') else ('other', '?')
        if cur[0] == 'loc':
            return ('loc', cur[1], cur[2], ty)
        return ('val', cur[1], ty)

    def element(self, st, x, ix):
        from .models import at
        return at(self, st, x, ix)

    def length(self, st, x):
        from .models import mk_len
        return mk_len(self, st, x)

    def place_val(self, fr, st, place):
        r = self.resolve(fr, st, place)
        if r[0] == 'val':
            return r[1]
        v = self.read(st, r[1], r[2])
        if v[0] in ('fld', 'sym', 'lv') and v not in self.tyhint:
            self.tyhint[v] = r[3]
        return v

    def assign(self, fr, st, place, val, sp=None):
        r = self.resolve(fr, st, place)
        if r[0] == 'loc':
            if val[0] in ('sym', 'fld', 'app', 'el', 'srch') and val not in self.tyhint:
                self.tyhint[val] = r[3]
            self.write(st, r[1], r[2], val)
        else:
            self.event(st, 'symwrite', 'symwrite', (r[1], val), None, sp)

    # ---- operands --------------------------------------------------------------------------------
    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            v = self.place_val(fr, st, o['p'])
            if k == 'move' and st.guards:
                if any(x[0] == 'gd' for x in subterms(v)):
                    r = self.resolve(fr, st, o['p'])
                    if r[0] == 'loc':
                        self.write(st, r[1], r[2], MOVED)
            return v
        return self.const(fr, st, o['v'])

    def const(self, fr, st, c):
        if 'fn' in c:
            return self.mkfn(c['fn'], fr.env)
        v = c.get('v')
        ty = self.sub(self.ty(c['ty']), fr.env)
        if 'promoted' in c:
            b = self.bodies.get(c['of'])
            if b is not None:
                pb = b['promoted'][c['promoted']]
                f2 = Frame(pb, fr.env, b['id'])
                for i, l in enumerate(pb['locals']):
                    f2.objs.append(self.new_obj(st, ('uninit',), 'promoted', self.ty(l['ty'])))
                outs = self.walk(f2, 0, st, None)
                for o in outs:
                    if o[0] == 'ret':
                        st.mem.update(o[1].mem)
                        return o[2]
            return self.fresh('promoted')
        if v is None:
            if 'item' in c:
                t = ('app', 'const', S(c['item']))
            else:
                t = ('app', 'const', S(str(ty)))
            self.tyhint.setdefault(t, ty)
            return t
        t = self.cval(fr, v, ty)
        return t if t is not None else ('app', 'const', S(json.dumps(c)[:80]))

    def cval(self, fr, v, ty):
        """decoded constant"""
        if v is None:
            return None
        if 'int' in v:
            return I(int(v['int']))
        if 'bool' in v:
            return ('bool', v['bool'])
        if 'str' in v:
            return S(v['str'])
        if 'char' in v:
            return ('char', v['char'])
        if 'array' in v:
            return ('arr', tuple(I(x) for x in v['array']))
        if 'float' in v:
            return ('float', v['float'])
        if 'zst' in v:
            if ty[0] == 'tuple' and not ty[1]:
                return UNIT
            if ty[0] == 'closure':
                return ('clo', ty[1], (), tuple(sorted(fr.env.items())))
            if ty[0] == 'adt':
                return ('adt', ty[1], 0, ())
            if ty[0] == 'fndef':
                return ('fn', ty[1], ())
            return ('app', 'zst', S(str(ty)))
        if 'adtint' in v:
            if ty[0] == 'adt' and ty[1] in self.adts:
                a = self.adts[ty[1]]
                for vi, vv in enumerate(a['v']):
                    if vv['d'] is not None and str(vv['d']) == str(v['adtint']) and a['kind'] == 'enum':
                        return ('adt', ty[1], vi, ())
            for vi, vv in enumerate(self.adts.get(v.get('n'), {'v': []})['v']):
                if vv['d'] is not None and str(vv['d']) == str(v['adtint']):
                    return ('adt', v['n'], vi, ())
            return ('app', 'adtint', S(self.tyhead(ty)), S(v['adtint']))
        for k in ('arr', 'tup', 'struct'):
            if k in v:
                xs = tuple(self.cval(fr, x, ('other', '?')) for x in v[k])
                if any(x is None for x in xs):
                    return None
                return ('adt', v['n'], 0, xs) if k == 'struct' else (k, xs)
        if 'fn' in v:
            return self.mkfn(v['fn'], fr.env)
        return None

    def mkfn(self, fnj, env):
        key = json.dumps(fnj, sort_keys=True)
        if key not in self.fnix:
            self.fnix[key] = len(self.fns)
            self.fns.append(fnj)
        return ('fn', self.fnix[key], tuple(sorted(env.items())))

    # ---- rvalues ---------------------------------------------------------------------------------
    def rvalue(self, fr, st, r, sp):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k in ('ref', 'rawptr'):
            p = self.resolve(fr, st, r['p'])
            if p[0] == 'loc':
                return ('ref', p[1], p[2])
            return p[1]
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(fr, st, r['a']), self.operand(fr, st, r['b']),
                              self.sub(self.ty(r['ty']), fr.env))
        if k == 'un':
            x = self.v(st, self.operand(fr, st, r['o']))
            if r['op'] == 'Not':
                ty = self.tyhint.get(x)
                if x[0] in BOOLK or x[0] == 'ite' or (ty and ty == ('prim', 'bool')):
                    return mk_not(x)
                return ('app', 'bitnot', x)
            if r['op'] == 'Neg':
                return sub(I(0), x)
            if r['op'] == 'PtrMetadata':
                return self.m.mk_len(self, st, x)
            return ('app', r['op'], x)
        if k == 'cast':
            x = self.operand(fr, st, r['o'])
            to = self.sub(self.ty(r['ty']), fr.env)
            frm = self.sub(self.ty(r['from']), fr.env)
            return self.cast(st, x, frm, to, r['ck'])
        if k == 'discr':
            v = self.place_val(fr, st, r['p'])
            v = self.v(st, v)
            t = self.strip(self.sub(self.ty(r['ty']), fr.env))
            nm = t[1] if t[0] == 'adt' else '?'
            if v[0] in ('sym', 'fld', 'app', 'lv', 'el') and v not in self.tyhint:
                self.tyhint[v] = t
            return ('discr', v, nm)
        if k == 'agg':
            ops = tuple(self.operand(fr, st, o) for o in r['ops'])
            ak = r['ak']
            if ak == 'tuple':
                return ('tup', ops) if ops else UNIT
            if ak == 'array':
                return ('arr', ops)
            if ak == 'adt':
                return ('adt', r['n'], r['v'], ops)
            if ak in ('closure', 'coroutine'):
                return ('clo', r['n'], ops, tuple(sorted(fr.env.items())))
            return ('app', 'agg') + ops
        if k == 'repeat':
            return ('app', 'repeat', self.operand(fr, st, r['o']), S(r['n']))
        return self.fresh('rv')

    def cast(self, st, x, frm, to, ck):
        if ck.startswith('PointerCoercion') or ck.startswith('PtrToPtr') or ck.startswith('Transmute'):
            return x
        x = self.v(st, x)
        if x[0] == 'int':
            if to[0] == 'prim' and to[1] in INTS:
                bits = {'usize': 64, 'isize': 64}.get(to[1]) or int(to[1][1:])
                n = x[1] & ((1 << bits) - 1)
                if to[1] not in UNSIGNED and n >> (bits - 1):
                    n -= 1 << bits
                return I(n)
            return x
        if x[0] == 'char' and to[0] == 'prim' and to[1] in INTS:
            return I(ord(x[1]))
        if to[0] == 'prim' and frm[0] == 'prim' and to[1] in INTS and frm[1] in INTS:
            w = {'usize': 64, 'isize': 64}
            wf = w.get(frm[1]) or int(frm[1][1:])
            wt = w.get(to[1]) or int(to[1][1:])
            if frm[1] in UNSIGNED and (wt > wf or (wt == wf and to[1] in UNSIGNED)):
                return x
            if frm[1] not in UNSIGNED and wt >= wf:
                if to[1] not in UNSIGNED:
                    return x
                if self.truth(st.facts, pos(add(x, I(1)))) is True:
                    return x
            t = ('app', 'cast', S(to[1]), x)
            self.tyhint.setdefault(t, to)
            return t
        if x[0] == 'discr' or to[0] != 'prim':
            return ('app', 'cast', S(str(to[-1])), x)
        t = ('app', 'cast', S(to[1]), x)
        self.tyhint.setdefault(t, to)
        return t

    def binop(self, st, op, a, b, ty):
        a, b = self.v(st, a), self.v(st, b)
        isint = ty[0] == 'prim' and ty[1] in INTS
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul') and isint:
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if r not in self.tyhint and r[0] in ('lin',):
                self.tyhint[r] = ty
            if op.endswith('WithOverflow'):
                return ('tup', (r, ('ovf', base, a, b, ty[1])))
            return r
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a[0] == 'discr' and b[0] == 'discr':
                a, b = a[1], b[1]
            for x, y in ((a, b), (b, a)):
                if x[0] == 'discr' and y[0] == 'int':
                    vi = self.variant_of(x[2], y[1])
                    t = self.is_variant(x[1], vi, x[2])
                    return t if op == 'Eq' else mk_not(t)
            return self.compare(op, a, b, isint or (a[0] == 'int' or b[0] == 'int'))
        if base in ('BitAnd', 'BitOr', 'BitXor') and ty == ('prim', 'bool'):
            if base == 'BitAnd':
                return mk_and(a, b)
            if base == 'BitOr':
                return mk_or(a, b)
            return mk_not(mk_eq(a, b))
        if base == 'BitAnd' and isint and ty[1].startswith('u'):
            if a[0] == 'int':
                a, b = b, a
            if b[0] == 'int' and b[1] > 0 and b[1] & (b[1] + 1) == 0:
                base, b = 'Rem', I(b[1] + 1)    # the lowest bits of an unsigned number
        if base == 'Rem':
            t = ('app', 'rem', a, b)
            self.tyhint.setdefault(t, ty)
            if a[0] == 'int' and b[0] == 'int' and b[1]:
                return I(a[1] % b[1])
            return t
        t = ('app', base, a, b)
        self.tyhint.setdefault(t, ty)
        if op.endswith('WithOverflow'):
            return ('tup', (t, ('ovf', base, a, b, ty[1])))
        return t

    def compare(self, op, a, b, isint):
        if op == 'Eq':
            return mk_eq(a, b)
        if op == 'Ne':
            return mk_not(mk_eq(a, b))
        if isint:
            if op == 'Lt':
                return pos(sub(b, a))
            if op == 'Gt':
                return pos(sub(a, b))
            if op == 'Le':
                return mk_not(pos(sub(a, b)))
            return mk_not(pos(sub(b, a)))
        if op == 'Lt':
            return ('lt', a, b)
        if op == 'Gt':
            return ('lt', b, a)
        if op == 'Le':
            return mk_not(('lt', b, a))
        return mk_not(('lt', a, b))

    def variant_of(self, adt, discr):
        a = self.adts.get(adt)
        if a:
            for i, v in enumerate(a['v']):
                if v['d'] is not None and str(v['d']) == str(discr):
                    return i
        return int(discr)

    # ---- control flow ----------------------------------------------------------------------------
    def loops(self, body):
        """natural loops: header -> set of blocks (cleanup blocks excluded)"""
        key = id(body)
        if key in self.loops_memo:
            return self.loops_memo[key]
        n = len(body['blocks'])
        succ = [[] for _ in range(n)]
        for i, b in enumerate(body['blocks']):
            if b.get('c'):
                continue
            t = b['t']
            k = t['k']
            if k == 'switch':
                succ[i] = [x[1] for x in t['vs']] + [t['else']]
            elif t.get('to') is not None:
                succ[i] = [t['to']]
        # iterative dominators
        order = []
        seen = set()

        def dfs(u):
            stack = [(u, iter(succ[u]))]
            seen.add(u)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for u in rpo:
            for v in succ[u]:
                preds[v].append(u)
        dom = {b: None for b in rpo}
        dom[0] = 0
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if dom[p] is None:
                        continue
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = dom[x]
                            while idx[y] > idx[x]:
                                y = dom[y]
                        new = x
                if new is not None and dom[b] != new:
                    dom[b] = new
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]
        res = {}
        for u in rpo:
            for v in succ[u]:
                if dominates(v, u):
                    s = res.setdefault(v, {v})
                    wl = [u]
                    while wl:
                        x = wl.pop()
                        if x not in s:
                            s.add(x)
                            wl.extend(preds[x])
        self.loops_memo[key] = res
        return res

    def walk(self, fr, start, st, loop):
        """outcomes: ('ret',st,val) ('panic',st,_) ('diverge',st,_) ('back',st,_) ('exit',st,bb)"""
        outs = []
        loops = self.loops(fr.body)
        wl = [(start, st, True)]
        while wl:
            bb, s, first = wl.pop()
            if loop is not None and not first:
                if bb == loop[0]:
                    outs.append(('back', s, None))
                    continue
                if bb not in loop[1]:
                    outs.append(('exit', s, bb))
                    continue
            if bb in loops and not (loop is not None and bb == loop[0]):
                for o in self.do_loop(fr, bb, loops[bb], s):
                    if o[0] == 'exit':
                        wl.append((o[2], o[1], False))
                    else:
                        outs.append(o)
                continue
            for o in self.block(fr, bb, s):
                if o[0] == 'goto':
                    wl.append((o[2], o[1], False))
                elif o[0] == 'skip':
                    if loop is not None:
                        outs.append(('back', o[1], None))
                else:
                    outs.append(o)
        return outs

    def do_loop(self, fr, h, blocks, st):
        sp = fr.body['blocks'][h]['t'].get('sp')
        outs = self.unroll(fr, h, blocks, st)
        if outs is None and self.unroll_n:
            outs = self.rounds(fr, h, blocks, [st], self.unroll_n)
        if outs is not None:
            return outs
        return self.loop_fix(st, lambda s0: self.walk(fr, h, s0, (h, blocks)), sp)

    def unroll(self, fr, h, blocks, st):
        """a loop over a short sequence whose elements are all known is run element by element"""
        from .models import lit
        bl = fr.body['blocks']
        s0 = None
        for b in blocks:
            t = bl[b]['t']
            if t['k'] == 'call' and t['f'].get('k') == 'const' and (t['f']['v'].get('fn') or {}).get('n') == 'std::iter::Iterator::next':
                for s in bl[b]['s']:
                    if s['k'] == 'assign' and s['r']['k'] == 'ref' and s['r']['m'] and not s['r']['p'][1]:
                        o = fr.objs[s['r']['p'][0]]
                        v = st.mem.get(o, ('uninit',))
                        l = lit(v) if v[0] == 'it' else None
                        if l is not None:
                            s0 = s0 or st.copy()
                            s0.mem[o] = l
        if s0 is None:
            return None
        return self.rounds(fr, h, blocks, [s0], 43)

    def rounds(self, fr, h, blocks, sts, limit):
        """run a loop round by round; None if it has not ended after LIMIT rounds"""
        outs = []
        for n in range(limit):
            new = []
            for s in sts:
                for o in self.walk(fr, h, s, (h, blocks)):
                    if o[0] == 'back':
                        new.append(o[1])
                    else:
                        outs.append(o)
            sts = new
            if not sts:
                return outs
            if len(sts) > 64:
                break
        return None

    def of_this_round(self, o):
        """an object that the innermost loop under analysis does not carry over"""
        return not self.loopmarks or o > self.loopmarks[-1] or self.loopheads[-1].get(o, ('uninit',))[0] in ('uninit', 'moved')

    def place_type(self, path):
        """the declared type of the field a place path ends in, when it is not a type parameter"""
        if not isinstance(path[-1], str) or path[-1].count('.') < 2:
            return None
        adt, v, name = path[-1].rsplit('.', 2)
        a = self.adts.get(adt)
        if a is None or not v.isdigit() or int(v) >= len(a['v']):
            return None
        for f in a['v'][int(v)]['f']:
            if f['n'] == name and f.get('ty') is not None:
                ty = self.ty(f['ty'])
                return ty if ty[0] in ('adt', 'prim') else None
        return None

    def counter_type(self, ty):
        """the type of the number in an Option of an unsigned number"""
        if ty and ty[0] == 'adt' and ty[1] == OPT and ty[2]:
            x = self.strip(ty[2][0])
            if x[0] == 'prim' and x[1] in ('usize', 'u64', 'u32', 'u16', 'u8'):
                return x
        return None

    def encoded(self, lv, v):
        if lv not in self.optnum:
            return v
        if v[0] == 'ite':
            if v == mk_ite(pos(add(lv, I(1))), ('adt', OPT, 1, (lv,)), ('adt', OPT, 0, ())):
                return lv
            return mk_ite(v[1], self.encoded(lv, v[2]), self.encoded(lv, v[3]))
        if v[0] == 'adt':
            return v[3][0] if v[2] == 1 else I(-1)
        return mk_ite(('is', v, 1), ('fld', v, OPT + '.1.0'), I(-1))

    def lvnow(self, lv, st, o, path):
        """what a state holds in the place of a loop variable"""
        return self.encoded(lv, self.deep(st, self.read(st, o, path)))

    def loop_fix(self, st, body, sp):
        """analyse a loop: body(state at head) -> outcomes with 'back' and 'exit'"""
        H = {}
        inv = []
        for rnd in range(12):
            mark = self.nobj
            self.nloop += 1
            lid = self.nloop
            s0 = st.copy()
            s0.ev = None
            lvs = {}
            for (o, path), name in H.items():
                t = ('lv', lid, name)
                ty = self.objty.get(o)
                oldv = self.read(st, o, path)
                if not path and ty is not None:
                    self.tyhint[t] = ty
                elif path and self.place_type(path) is not None:
                    self.tyhint[t] = self.place_type(path)
                elif oldv in self.tyhint:
                    self.tyhint[t] = self.tyhint[oldv]
                elif oldv[0] == 'adt':
                    self.tyhint[t] = ('adt', oldv[1], ())
                init = self.deep(st, oldv)
                num = self.counter_type(self.tyhint.get(t))
                at_head = t
                if num is not None:
                    # an optional number is one variable, -1 standing for None
                    self.optnum.add(t)
                    self.tyhint[t] = num
                    init = self.encoded(t, init)
                    at_head = mk_ite(pos(add(t, I(1))), ('adt', OPT, 1, (t,)), ('adt', OPT, 0, ()))
                lvs[t] = (o, path, init)
                if path:
                    self.write(s0, o, path, at_head)
                else:
                    s0.mem[o] = at_head
            facts = dict(s0.facts)
            for t in lvs:
                if t in self.optnum:
                    facts[pos(add(t, I(2)))] = True
            for name, lowc in inv:
                facts[pos(sub(('lv', lid, name), I(lowc - 1)))] = True
            s0.facts = facts
            rec = set()
            self.recorders.append(rec)
            self.loopmarks.append(mark)
            self.loopheads.append(st.mem)
            outs = body(s0)
            self.loopmarks.pop()
            self.loopheads.pop()
            self.recorders.pop()
            new = dict(H)
            changed = False
            for (o, path) in sorted(rec, key=lambda x: (x[0], len(x[1]))):
                if o > mark or o not in st.mem or not path and st.mem[o][0] in ('uninit', 'moved'):
                    continue
                if any(o == o2 and path[:len(p2)] == p2 for (o2, p2) in new):
                    continue
                # drop longer paths covered by this one
                for k2 in [k2 for k2 in new if k2[0] == o and k2[1][:len(path)] == path]:
                    del new[k2]
                nm = self.objlabel.get(o, str(o))
                new[(o, path)] = '%s%s#%d' % (nm, ''.join('.' + p.rsplit('.', 1)[1] for p in path), o)
                changed = True
            backs = [o for o in outs if o[0] == 'back']
            if changed and backs:
                H = new
                continue
            # integer lower bounds that every iteration preserves
            if rnd < 10 and backs:
                cand = []
                for t, (o, path, init) in lvs.items():
                    if init[0] == 'int' and (t[2], init[1]) not in inv:
                        good = True
                        for b in backs:
                            nv = self.lvnow(t, b[1], o, path)
                            d = sub(nv, t)
                            if nv == init or (d[0] == 'int' and d[1] >= 0) or (nv[0] == 'int' and nv[1] >= init[1]) \
                                    or self.truth(b[1].facts, pos(sub(nv, I(init[1] - 1)))):
                                continue
                            good = False
                        if good:
                            cand.append((t[2], init[1]))
                if cand:
                    inv += cand
                    continue
            break
        for t, (o, path, init) in lvs.items():
            self.recvals[t] = (init, [(self.lvnow(t, b[1], o, path), b[1].facts) for b in backs])
        for r in self.recorders:
            for (o, path) in rec:
                r.add((o, path))
        if not backs:
            res = []
            for o in outs:
                s = o[1]
                s.ev = self.append_events(st.ev, s.ev)
                res.append((o[0], s) + o[2:])
            return res
        iters = [Trace('iter', ev_list(b[1].ev), b[1].facts, b[1]) for b in backs]
        le = Ev('loop', str(lid), (), None, sp, self.stack[-1] if self.stack else '?', st.facts, self.live_guards(st))
        le.x = {'id': lid, 'iters': iters, 'lvs': lvs, 'exits': [], 'head': s0, 'pre': st}
        self.loopevs[lid] = le
        res = []
        for o in outs:
            if o[0] == 'back':
                continue
            s = o[1]
            le.x['exits'].append(Trace(o[0], ev_list(s.ev), s.facts, s, o[2]))
            s.ev = self.append_events((st.ev, le), s.ev)
            res.append((o[0], s) + o[2:])
        if not any(o[0] in ('exit', 'ret', 'panic') for o in res):
            s = st.copy()
            s.ev = (st.ev, le)
            res.append(('diverge', s, None))
        self.collected(le, lvs, res)
        return self.search_facts(le, lvs, res)

    def collected(self, le, lvs, res):
        """a list that a loop fills with the elements of a collection that pass a test is that collection, filtered"""
        its = le.x['iters']
        for t, (o, path, init) in lvs.items():
            if init != ('arr', ()) or t not in self.recvals:
                continue
            src, elt, trees = None, None, []
            for it, (v, facts) in zip(its, self.recvals[t][1]):
                new = [(f, b) for f, b in facts.items() if f not in le.facts]
                mores = [f for f, b in new if f[0] == 'more' and b is True]
                if len(mores) != 1 or src not in (None, mores[0][1]) or any(e.kind != 'push' for e in it.events) or len(it.events) > 1:
                    trees = None
                    break
                src = mores[0][1]
                keep = v[:3] == ('app', 'push', t) and len(v) == 4
                if keep:
                    if v[3] not in (('elk',) + mores[0][1:], ('el',) + mores[0][1:]) or elt not in (None, v[3][0]):
                        trees = None
                        break
                    elt = v[3][0]
                elif v != t:
                    trees = None
                    break
                els = (('elk',) + mores[0][1:], ('el',) + mores[0][1:])
                lits = []
                for f, b in new:
                    if f == mores[0]:
                        continue
                    g = subst(subst(f, els[0], ('bvar', 'lc')), els[1], ('bvar', 'lc'))
                    if g == f or any(x[0] in ('el', 'elk', 'lv') and x[2:3] == mores[0][2:3] or x in lvs for x in subterms(g) if isinstance(x, tuple) and x):
                        lits = None
                        break
                    lits.append((g, b))
                if lits is None:
                    trees = None
                    break
                trees.append((lits, T if keep else F))
            if not trees or elt is None or src[0] == 'app' and src[1] == 'range':
                continue
            ends = [r for r in res if r[0] == 'exit' and any(f[0] == 'more' and f[1] == src and b is False and f not in le.facts for f, b in r[1].facts.items())]
            if len(ends) != sum(r[0] in ('exit', 'ret') for r in res) or not ends:
                continue
            cond = self.dtree(trees, 0)
            if cond is None:
                continue
            hint = self.tyhint.get((elt, src, mores[0][2]))
            sty = self.tyhint.get(src)
            sty = self.strip(sty)[1] if sty and self.strip(sty)[0] == 'adt' else ''
            base = ('it', 'keys' if elt == 'elk' else 'set' if sty.split('::')[-1] in ('HashSet', 'BTreeSet', 'IndexSet') else 'seq', src, None, hint)
            val = ('app', 'coll', base if cond == T else ('it', 'filter', base, ('lamc', cond), None))
            if t in self.tyhint:
                self.tyhint.setdefault(val, self.tyhint[t])
            for r in ends:
                if self.read(r[1], o, path) == t:
                    self.write(r[1], o, path, val)

    def search_facts(self, le, lvs, res):
        """a loop that only looks for an element: record the outcome as a fact about the sequence"""
        its = le.x['iters']
        if any(t.events for t in its):
            return res
        base = le.facts

        def lits(facts):
            return [(f, v) for f, v in facts.items() if f not in base and f[0] != 'more' and not (f[0] == 'pos' and 'lv' in repr(f))]
        src = None
        for t in its:
            for f, v in t.facts.items():
                if f[0] == 'more' and v is True and f not in base:
                    src = f[1] if src in (None, f[1]) else False
        if not src:
            return res
        bvt = ('bvar', self.bv)

        def el_lits(facts):
            out = []
            for f, v in lits(facts):
                els = {x for x in subterms(f) if x[0] in ('el', 'elk') and x[1] == src}
                if len(els) == 1:
                    out.append((subst(f, els.pop(), bvt), v))
            return out
        trees = [(el_lits(t.facts), T) for t in its]
        n = len(trees)
        for o in res:
            if o[0] in ('exit', 'ret') and any(f[0] == 'more' and f[1] == src and v is True and f not in base for f, v in o[1].facts.items()):
                trees.append((el_lits(o[1].facts), F))
        if any(not d for d, _ in trees[:n]):
            return res
        cont = self.dtree(trees, 0)
        if cont is None:
            cont = F
            for d, _ in trees[:n]:
                a = T
                for f, v in d:
                    a = mk_and(a, f if v else mk_not(f))
                cont = mk_or(cont, a)
        if cont[0] == 'bool':
            return res
        hitc = mk_not(cont)
        for o in res:
            s = o[1]
            if o[0] not in ('exit', 'ret'):
                continue
            hit = None
            mine = [v for f, v in s.facts.items() if f[0] == 'more' and f[1] == src and f not in base]
            if mine and mine[-1] is False:
                hit = False
            elif mine:
                fs = {}
                for f, v in el_lits(s.facts):
                    fs[f] = v
                if self.truth(fs, cont) is False:
                    hit = True
            key = ('srch', 'any', src, hitc)
            if hit is not None and self.truth(s.facts, key) is None:
                s.facts = dict(s.facts)
                s.facts[key] = hit
        return res

    def dtree(self, vs, i):
        """decision lists [(literals, value)] joined into one if-then-else term"""
        if len(vs) == 1 and len(vs[0][0]) <= i:
            return vs[0][1]
        if len({v for _, v in vs}) == 1 and all(len(d) <= i for d, _ in vs):
            return vs[0][1]
        if any(len(d) <= i for d, _ in vs):
            return None
        a = vs[0][0][i][0]
        if any(d[i][0] != a for d, _ in vs):
            return None
        t = [x for x in vs if x[0][i][1]]
        f = [x for x in vs if not x[0][i][1]]
        if not t or not f:
            return self.dtree(vs, i + 1)
        x, y = self.dtree(t, i + 1), self.dtree(f, i + 1)
        if x is None or y is None:
            return None
        return mk_ite(a, x, y)

    def append_events(self, ev, tail):
        for e in ev_list(tail):
            ev = (ev, e)
        return ev

    def block(self, fr, bb, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget exceeded in %s' % (self.stack[-1:],))
        b = fr.body['blocks'][bb]
        st = st.copy()
        for s in b['s']:
            k = s['k']
            if k == 'assign':
                v = self.rvalue(fr, st, s['r'], s['sp'])
                self.assign(fr, st, s['p'], v, s['sp'])
            elif k == 'setdiscr':
                pass
        t = b['t']
        k = t['k']
        if k == 'goto':
            return [('goto', st, t['to'])]
        if k == 'return':
            return [('ret', st, st.mem[fr.objs[0]])]
        if k in ('unreachable', 'unwind', 'cdrop'):
            return []
        if k == 'drop':
            st = self.do_drop(fr, st, t)
            return [('goto', st, t['to'])]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            return self.do_assert(fr, st, t)
        if k == 'call':
            return self.do_call(fr, st, t)
        if k == 'yield':
            return []
        return [('diverge', st, None)]

    def do_drop(self, fr, st, t):
        r = None
        if not t['p'][1]:
            v = st.mem.get(fr.objs[t['p'][0]])
            if v is not None and v[:2] == ('it', 'queue') and v[3][1] in st.mem:
                # what a drain leaves unread is dropped
                from .models import mk_len, EMPTYV
                q = v[3]
                m = self.v(st, self.read(st, q[1], q[2]))
                if m != EMPTYV and self.truth(st.facts, mk_eq(mk_len(self, st, m), I(0))) is not True:
                    st = st.copy()
                    self.event(st, 'clear', 'Drain', (m,), None, t.get('sp'), raw=(q,))
                    self.write(st, q[1], q[2], EMPTYV)
        if not st.guards:
            return st
        r = self.resolve(fr, st, t['p'])
        v = self.read(st, r[1], r[2]) if r[0] == 'loc' else r[1]
        self.release(st, v)
        return st

    def release(self, st, v):
        gs = {x[1] for x in subterms(v) if x[0] == 'gd'}
        if gs & set(st.guards):
            for g in sorted(gs & set(st.guards) & set(self.guardobj)):
                o, old, sp = self.guardobj[g]
                now = self.deep(st, st.mem.get(o, old))
                if now != old:
                    self.event(st, 'modify', 'DashMap', st.guards[g][1:3] + (now,), None, sp)
            st.guards = {g: x for g, x in st.guards.items() if g not in gs}

    def switch(self, fr, st, t):
        v = self.v(st, self.operand(fr, st, t['o']))
        ty = self.ty(t['ty'])
        return self.switch_on(st, v, ty, t['vs'], t['else'])

    def switch_on(self, st, v, ty, vs, els):
        if v[0] == 'int':
            for n, bb in vs:
                if int(n) == v[1]:
                    return [('goto', st, bb)]
            return [('goto', st, els)]
        if v[0] == 'char':
            for n, bb in vs:
                if int(n) == ord(v[1]):
                    return [('goto', st, bb)]
            return [('goto', st, els)]
        if v[0] == 'discr':
            x, adt = v[1], v[2]
            if x[0] == 'gd':
                x = x[2]
            if x[0] == 'ite':
                out = []
                for s, b in self.split(st, x[1]):
                    out += self.switch_on(s, ('discr', x[2] if b else x[3], adt), ty, vs, els)
                return out
            if x[0] in ('ent', 'dent'):
                from .models import entry_occupied
                names = [w['n'] for w in self.adts[adt]['v']] if adt in self.adts else ['Occupied', 'Vacant']
                out = []
                for s, b in self.split(st, entry_occupied(self, st, x)):
                    w = names.index('Occupied' if b else 'Vacant')
                    hit = [bb for n, bb in vs if self.variant_of(adt, n) == w]
                    out.append(('goto', s, hit[0] if hit else els))
                return out
            if x[0] == 'adt':
                for n, bb in vs:
                    if self.variant_of(adt, n) == x[2]:
                        return [('goto', st, bb)]
                return [('goto', st, els)]
            out = []
            cur = st
            seen = set()
            for n, bb in vs:
                vi = self.variant_of(adt, n)
                seen.add(vi)
                c = self.is_variant(x, vi, adt)
                nxt = None
                for s, b in self.split(cur, c):
                    if b:
                        out.append(('goto', s, bb))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            nv = len(self.adts[adt]['v']) if adt in self.adts else None
            if nv is None or len(seen) < nv:
                out.append(('goto', cur, els))
            return out
        if ty == ('prim', 'bool'):
            out = []
            zero = [bb for n, bb in vs if n == '0']
            for s, b in self.split(st, v):
                if b:
                    one = [bb for n, bb in vs if n == '1']
                    out.append(('goto', s, one[0] if one else els))
                else:
                    out.append(('goto', s, zero[0] if zero else els))
            return out
        if v[0] == 'ite':
            out = []
            for s, b in self.split(st, v[1]):
                out += self.switch_on(s, v[2] if b else v[3], ty, vs, els)
            return out
        out = []
        cur = st
        for n, bb in vs:
            c = mk_eq(v, ('char', chr(int(n))) if ty == ('prim', 'char') else I(int(n)))
            nxt = None
            for s, b in self.split(cur, c):
                if b:
                    out.append(('goto', s, bb))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append(('goto', cur, els))
        return out

    def do_assert(self, fr, st, t):
        v = self.v(st, self.operand(fr, st, t['o']))
        exp = t['exp']
        msg = t['msg']
        outs = []
        if v[0] == 'ovf':
            _, op, a, b, ty = v
            bad = True
            if op == 'Sub' and ty in UNSIGNED:
                bad = self.truth(st.facts, pos(add(sub(a, b), I(1)))) is not True
            elif op in ('Add', 'Mul', 'Sub'):
                # 32 and 64 bit counters and lengths are assumed not to wrap
                bad = ty in ('u8', 'i8', 'u16', 'i16')
                # ... unless a number that was read from a text takes part unchecked
                for x in lin_parts(add(a, b))[1]:
                    if x[0] == 'fld' and x[1][0] == 'app' and x[1][1] == 'parse' and op != 'Sub':
                        if not any(f[0] == 'pos' and self.bounds(f[1] if v2 else sub(I(1), f[1]), x) for f, v2 in st.facts.items()):
                            bad = True
            if bad:
                outs.append(self.panic(st, 'overflow:' + op, t['sp'], (a, b)))
            outs.append(('goto', st, t['to']))
            if op == 'Sub' and ty in UNSIGNED:
                s = self.assume(st, pos(add(sub(a, b), I(1))), True)
                if s is not None:
                    outs[-1] = ('goto', s, t['to'])
            return outs
        for s, b in self.split(st, v):
            if b == exp:
                outs.append(('goto', s, t['to']))
            else:
                outs.append(self.panic(s, 'assert:' + msg, t['sp'], [self.operand(fr, s, o) for o in t['mops']]))
        return outs

    # ---- calls -----------------------------------------------------------------------------------
    def do_call(self, fr, st, t):
        f = t['f']
        args = [self.operand(fr, st, a) for a in t['args']]
        atys = [self.sub(self.ty(x), fr.env) for x in t['at']]
        dty = self.sub(self.ty(t['dty']), fr.env)
        if f['k'] == 'const' and 'fn' in f['v']:
            outs = self.call_fn(fr, st, f['v']['fn'], fr.env, args, atys, dty, t['sp'])
        else:
            fv = self.operand(fr, st, f)
            outs = self.call_value(st, fv, args, dty, t['sp'], fr)
        res = []
        for o in outs:
            if o[0] == 'ok':
                if t['to'] is None:
                    res.append(('diverge', o[1], None))
                    continue
                s = o[1] if len(outs) == 1 else o[1].copy()
                self.assign(fr, s, t['dest'], o[2], t['sp'])
                res.append(('goto', s, t['to']))
            else:
                res.append(o)
        return res

    def local_body(self, fnj, env):
        """body of a local callee, after substitution of type parameters; (body, env) or None"""
        if fnj.get('local') and fnj.get('rk') in ('Item', None, 'ReifyShim'):
            b = self.bodies.get(fnj.get('rn') or fnj['n'])
            if b is not None:
                ra = [self.sub(self.ty(x), env) for x in fnj.get('ra', fnj.get('a', []))]
                gs = b.get('generics', [])
                e2 = {}
                if len(gs) == len(ra):
                    e2 = dict(zip(gs, ra))
                if not (fnj.get('trait') and b.get('impl') is None and b.get('kind') == 'fn' and self.is_trait_default(fnj)):
                    return b, e2
        if fnj.get('trait') and fnj.get('self') is not None:
            t = self.strip(self.sub(self.ty(fnj['self']), env))
            b = self.impls.get((fnj['trait'], self.tyhead(t), fnj['m']))
            if b is not None:
                gs = b.get('generics', [])
                im = self.ty(b['impl']['self'])
                e2 = {}
                if im[0] == 'adt' and t[0] == 'adt':
                    for x, y in zip(im[2], t[2]):
                        if x[0] == 'param':
                            e2[x[1]] = y
                return b, e2
        if fnj.get('local'):
            b = self.bodies.get(fnj.get('rn') or fnj['n'])
            if b is not None:
                ra = [self.sub(self.ty(x), env) for x in fnj.get('ra', fnj.get('a', []))]
                gs = b.get('generics', [])
                return b, dict(zip(gs, ra)) if len(gs) == len(ra) else {}
        return None

    def is_trait_default(self, fnj):
        return fnj.get('rn') == fnj.get('n')

    def call_fn(self, fr, st, fnj, env, args, atys, dty, sp):
        if fnj.get('ctor'):
            t = self.ty(fnj['ctor_ty'])
            vi = 0
            a = self.adts.get(t[1])
            if a and fnj.get('ctor_v'):
                vi = [i for i, v in enumerate(a['v']) if v['n'] == fnj['ctor_v']][0]
            return [('ok', st, ('adt', t[1], vi, tuple(args)))]
        nm = norm(fnj['n'])
        if nm in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once') and len(args) == 2:
            # a direct call of a closure passes its arguments as one tuple
            f, a = self.v(st, args[0]), self.v(st, args[1])
            if f[0] in ('clo', 'fn') and (a[0] == 'tup' or a == UNIT):
                return self.call_value(st, args[0], list(a[1]) if a[0] == 'tup' else [], dty, sp, fr)
        lb = self.local_body(fnj, env)
        if lb is not None and fnj['n'] not in self.opaque and (fnj.get('rn') or '') not in self.opaque:
            b = lb[0]
            if b['impl'] and b['impl']['derived'] if b.get('impl') else False:
                tr = b['impl']['trait']
                if tr.split('::')[-1] in ('Clone', 'PartialEq', 'Eq', 'Hash', 'Debug', 'PartialOrd', 'Ord', 'Copy'):
                    lb = None      # derived Clone/PartialEq/Hash/Debug: modelled structurally
        elif lb is not None:
            rn = fnj.get('rn') or ''
            c = Ctx(self, fr, st, fnj, env, args, atys, dty, sp, rn if rn.startswith('<') else nm)
            return self.opaque_call(c)
        if lb is not None:
            b, e2 = lb
            if b.get('async'):
                return [('ok', st, ('clo', b['id'] + '::{closure#0}', tuple(args), tuple(sorted(e2.items()))))]
            return self.inline(b, e2, st, args, sp, fnj, dty, atys)
        c = Ctx(self, fr, st, fnj, env, args, atys, dty, sp, nm)
        m = self.models.get(nm)
        if m is None:
            m = self.models.get('*::' + nm.split('::')[-1])
        if m is not None:
            r = m(c)
            if r is not None:
                return r
        return self.opaque_call(c)

    def opaque_call(self, c, pure=False):
        """unknown callee: an uninterpreted function of its arguments; what it may write is lost"""
        st = c.st
        if c.nm in self.m.PANICKY:
            ok1 = ('app', 'fits', S(c.nm)) + tuple(self.deep(st, a) for a in c.args)
            self.tyhint[ok1] = ('prim', 'bool')
            s2 = self.assume(st, ok1, False)
            st = self.assume(st, ok1, True)
            bad = [self.panic(s2, c.nm, c.sp, ok1[3:])] if s2 is not None else []
            if st is None:
                return bad
            c.st = st
            return bad + self.opaque_call2(c)
        return self.opaque_call2(c)

    def opaque_call2(self, c):
        st = c.st
        if c.nm.split('::')[0] in self.m.PURE and not any(t[0] == 'ref' and t[1] is True for t in c.atys):
            r = ('app', c.nm) + tuple(self.deep(st, a) for a in c.args)
            self.tyhint.setdefault(r, c.dty)
            return [('ok', st, r)]
        self.unmodelled[c.nm] = self.unmodelled.get(c.nm, 0) + 1
        vals = tuple(self.deep(st, a) for a in c.args)
        muts = [i for i, t in enumerate(c.atys) if t[0] == 'ref' and t[1] is True]
        fut = c.dty[0] == 'alias' or c.dty[0] == 'adt' and c.dty[1].startswith('tokio::') and c.nm.split('::')[0].startswith('Async')
        if fut:
            return [('ok', st, ('fut', c.nm, tuple(c.args), c.fnj['n'], tuple(muts)))]
        if muts:
            res = self.fresh(c.nm, c.dty)
        else:
            res = ('app', c.nm) + vals
            self.tyhint.setdefault(res, c.dty)
        st = st.copy()
        self.event(st, 'call', c.fnj['n'], vals, res, c.sp, raw=tuple(c.args))
        for i in muts:
            a = c.args[i]
            if a[0] == 'ref':
                old = self.deep(st, a)
                n = ('app', 'mut', S(c.nm), S(str(i))) + vals
                self.nsym += 1
                n = n + (I(self.nsym),)
                self.write(st, a[1], a[2], n)
        for i, a in enumerate(c.args):
            if i < len(c.atys) and c.atys[i][0] != 'ref' and st.guards:
                self.release(st, a)
        if c.dty[0] == 'adt' and c.dty[1] == RES and len(c.dty[2]) == 2 and (c.dty[2][1] == ('never',) or c.dty[2][1][:2] == ('adt', 'std::convert::Infallible')):
            res = ok(('fld', res, RES + '.0.0'))    # there is no error value
        return [('ok', st, res)]

    def inline(self, b, env, st, args, sp, fnj=None, dty=None, atys=None):
        if b['id'] in self.stack or len(self.stack) > 60 or \
                self.stack and self.cutscc and b['id'] in self.recursive() and not (self.through and self.through(b, st, args)):
            vals = tuple(self.deep(st, a) for a in args)
            st = st.copy()
            res = self.fresh('rec:' + b['id'].split('::')[-1], dty)
            self.event(st, 'rec', b['id'], vals, res, sp, raw=tuple(args))
            for i, a in enumerate(args):
                t = self.ty(b['locals'][i + 1]['ty']) if i + 1 < len(b['locals']) else None
                if t and t[0] == 'ref' and t[1] and a[0] == 'ref':
                    old = self.read(st, a[1], a[2])
                    n = self.fresh('rec%d' % i, t[2])
                    self.write(st, a[1], a[2], n)
                    st.ev[1].x = (st.ev[1].x or ()) + ((i, n),)
            return [('ok', st, res)]
        self.analysed.add(b['id'])
        self.stack.append(b['id'])
        fr = Frame(b, env, b['id'])
        s = st.copy()
        pre = st
        for i, l in enumerate(b['locals']):
            ty = self.sub(self.ty(l['ty']), env)
            v = args[i - 1] if 1 <= i <= b['argc'] and i - 1 < len(args) else ('uninit',)
            fr.objs.append(self.new_obj(s, v, '%s:%s' % (b['id'].split('::')[-1], l.get('n') or '_%d' % i), ty))
            if v[0] in ('sym', 'fld', 'app', 'el', 'lv') and v not in self.tyhint:
                self.tyhint[v] = self.strip(ty) if ty[0] == 'ref' else ty
        outs = self.walk(fr, 0, s, None)
        self.stack.pop()
        res = []
        mine = set(fr.objs)
        for o in outs:
            if o[0] == 'ret':
                x = o[1]
                v = o[2]
                x.mem = {k: vv for k, vv in x.mem.items() if k not in mine or self.refers(v, k)}
                res.append(('ok', x, v))
            elif o[0] in ('panic', 'diverge', 'skip'):
                res.append(o)
        return self.merge(pre, res)

    def callgraph(self):
        if getattr(self, '_cg', None) is None:
            g = {}
            for i, b in self.bodies.items():
                out = set()

                def look(x):
                    if isinstance(x, dict):
                        f = x.get('fn')
                        if isinstance(f, dict):
                            lb = self.local_body(f, {})
                            if lb is not None:
                                out.add(lb[0]['id'])
                                if lb[0].get('async'):
                                    out.add(lb[0]['id'] + '::{closure#0}')
                        if x.get('k') == 'agg' and x.get('ak') in ('closure', 'coroutine'):
                            out.add(x['n'])
                        for y in x.values():
                            if isinstance(y, (dict, list)):
                                look(y)
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, (dict, list)):
                                look(y)
                for bl in b['blocks']:
                    if not bl.get('c'):
                        look(bl)
                for pb in b.get('promoted') or []:
                    look(pb['blocks'])
                g[i] = {o for o in out if o in self.bodies}
            self._cg = g
        return self._cg

    def reach(self, roots):
        g = self.callgraph()
        seen = set()
        wl = list(roots)
        while wl:
            x = wl.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            wl.extend(g[x])
        return seen

    def recursive(self):
        """named functions at which the cycles of the call graph are cut: a set such that no cycle remains without them;
        functions that call themselves, then those with loops and the larger ones come first"""
        if self._rec is None:
            g = self.callgraph()
            on = {i for i in g if i in self.reach(g[i])}
            g = {i: {j for j in g[i] if j in on} for i in on}
            named = [i for i in g if '{closure' not in i]

            def rank(i):
                own = [b for k, b in self.bodies.items() if k == i or k.startswith(i + '::{closure')]
                return (any(self.has_loop(b) or self.consumes(b) for b in own), sum(len(b['blocks']) for b in own), i)
            cut = {i for i in named if i in g[i] or i in on and i in self.cut_first}

            def cyclic(i):
                seen, todo = set(), [j for j in g[i] if j not in cut]
                while todo:
                    x = todo.pop()
                    if x == i:
                        return True
                    if x not in seen:
                        seen.add(x)
                        todo += [j for j in g[x] if j not in cut]
                return False
            for i in sorted(named, key=rank, reverse=True):
                if i not in cut and cyclic(i):
                    cut.add(i)
            self._rec = cut
        return self._rec

    def consumes(self, b):
        """the body runs an iterator to its end"""
        return any((bl.get('t') or {}).get('k') == 'call' and
                   any(w in json.dumps(bl['t'].get('f')) for w in ('Iterator::collect', 'Iterator::for_each', 'Iterator::try_for_each', 'Iterator::fold', 'Iterator::try_fold'))
                   for bl in b['blocks'])

    def has_loop(self, b):
        """the control flow graph of a body has a cycle"""
        succ = []
        for bl in b['blocks']:
            t = bl.get('t') or {}
            o = [] if bl.get('c') else [t.get('to'), t.get('else')] + [v[1] for v in t.get('vs') or ()]
            succ.append([x for x in o if isinstance(x, int)])
        state = {}
        todo = [(0, iter(succ[0]))] if succ else []
        state[0] = 1
        while todo:
            n, it = todo[-1]
            for x in it:
                if state.get(x) == 1:
                    return True
                if x not in state:
                    state[x] = 1
                    todo.append((x, iter(succ[x])))
                    break
            else:
                state[n] = 2
                todo.pop()
        return False

    def refers(self, v, obj):
        return any(x[0] == 'ref' and x[1] == obj for x in subterms(v))

    def pure_outs(self, pre, outs):
        for o in outs:
            if o[0] != 'ok':
                return False
            s = o[1]
            if s.ev is not pre.ev or s.guards is not pre.guards and s.guards != pre.guards:
                return False
            for k, v in pre.mem.items():
                if s.mem.get(k) is not v and s.mem.get(k) != v:
                    return False
        return True

    def merge(self, pre, outs, limit=24):
        """outcomes of an effect-free computation are joined into one if-then-else value"""
        if len(outs) <= 1:
            return outs
        if len(outs) > limit or not self.pure_outs(pre, outs):
            return outs
        vals = []
        for o in outs:
            v = o[2]
            for x in subterms(v):
                if x[0] == 'ref' and x[1] not in pre.mem or x[0] in ('gd', 'el'):
                    return outs
            d = []
            c = o[1].dec
            while c is not pre.dec and c is not None:
                d.append((c[1], c[2]))
                c = c[0]
            if c is not pre.dec:
                return outs
            if any(x[0] == 'el' for f, _ in d for x in subterms(f)):
                return outs
            vals.append((d[::-1], v))

        if any(v[0] == 'ref' for _, v in vals) and len({v for _, v in vals}) > 1:
            return outs
        r = self.dtree(vals, 0)
        if r is None:
            return outs
        return [('ok', pre, r)]

    def call_value(self, st, f, args, dty, sp, fr=None):
        f0 = f
        f = self.v(st, f)
        if f[0] == 'lamc':
            return [('ok', st, subst(f[1], ('bvar', 'lc'), self.deep(st, args[0])))]
        if f[0] == 'clo':
            b = self.bodies.get(f[1])
            if b is not None:
                env = dict(f[3])
                t0 = self.ty(b['locals'][1]['ty'])
                self0 = f
                s = st
                if t0[0] == 'ref':
                    if f0[0] == 'ref':
                        self0 = f0
                        while self.read(st, self0[1], self0[2])[0] == 'ref':
                            self0 = self.read(st, self0[1], self0[2])
                    else:
                        s = st.copy()
                        self0 = ('ref', self.new_obj(s, f, 'closure'), ())
                outs = self.inline(b, env, s, [self0] + list(args), sp, None, dty)
                if s is not st and len(outs) == 1 and outs[0][0] == 'ok' and outs[0][1] is s:
                    outs = [('ok', st, outs[0][2])]
                return outs
        if f[0] == 'fn':
            if isinstance(f[1], int):
                fnj = self.fns[f[1]]
            else:
                fnj = {'n': f[1], 'm': f[1].split('::')[-1], 'a': [], 'local': f[1] in self.bodies, 'rk': 'Item'}
            env = dict(f[2])
            if len(fnj.get('in', ())) == len(args) and not fnj.get('ctor'):
                atys = [self.sub(self.ty(x), env) for x in fnj['in']]
                atys = [self.argty(a) if t[0] in ('alias', 'other', 'param') else t for a, t in zip(args, atys)]
                out = self.sub(self.ty(fnj['out']), env)
                if out[0] not in ('alias', 'other', 'param'):
                    dty = out
            else:
                atys = [self.argty(a) for a in args]
            return self.call_fn(fr, st, fnj, env, list(args), atys, dty or ('other', '?'), sp)
        vals = tuple(self.deep(st, a) for a in args)
        st = st.copy()
        res = ('app', 'callval', self.deep(st, f)) + vals
        if dty:
            self.tyhint.setdefault(res, dty)
        self.event(st, 'call', 'callval', (f,) + vals, res, sp)
        return [('ok', st, res)]

    def argty(self, a):
        if a[0] == 'ref':
            t = self.objty.get(a[1])
            return ('ref', False, t if t is not None and not a[2] else ('other', '?'))
        return self.tyhint.get(a, ('other', '?'))

    # ---- branch helper for models ------------------------------------------------------------------
    def branch(self, st, cond, tf, ff):
        outs = []
        for s, b in self.split(st, cond):
            outs += (tf if b else ff)(s)
        return self.merge(st, outs)

    # ---- entry points ------------------------------------------------------------------------------
    def find(self, suffix, required=True):
        c = [b for i, b in self.bodies.items() if i == suffix or i.endswith('::' + suffix)]
        if len(c) != 1:
            return None
        return c[0]

    def run(self, body, args=None, facts=None, env=None):
        """analyse a function from an arbitrary state; -> (params, traces)"""
        st = St({}, dict(facts or {}), None, None, {})
        self.stack = []
        self.recorders = []
        self.loopmarks = []
        self.loopheads = []
        env = env or {}
        av = []
        for i in range(1, body['argc'] + 1):
            l = body['locals'][i]
            ty = self.sub(self.ty(l['ty']), env)
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                av.append(args[i - 1])
                continue
            av.append(self.param(st, l.get('n') or 'a%d' % i, ty))
        outs = self.inline(body, env, st, av, body['span'])
        tr = []
        for o in outs:
            if o[0] == 'ok':
                tr.append(Trace('ret', ev_list(o[1].ev), o[1].facts, o[1], self.deep(o[1], o[2])))
                tr[-1].raw = o[2]
            else:
                tr.append(Trace(o[0], ev_list(o[1].ev), o[1].facts, o[1]))
        return av, tr

    def param(self, st, name, ty):
        if ty[0] == 'ref':
            inner = self.param(st, name, ty[2]) if ty[2][0] == 'ref' else None
            if inner is None:
                s = ('sym', name, 0)
                self.tyhint[s] = ty[2]
                inner = s
            return ('ref', self.new_obj(st, inner, 'arg:' + name, ty[2]), ())
        s = ('sym', name, 0)
        self.tyhint[s] = ty
        return s


class Frame:
    __slots__ = ('body', 'objs', 'env', 'id')

    def __init__(self, body, env, id):
        self.body, self.env, self.id = body, env, id
        self.objs = []


class Ctx:
    """one call site as seen by a model"""

    def __init__(self, E, fr, st, fnj, env, args, atys, dty, sp, nm):
        self.E, self.fr, self.st, self.fnj, self.env = E, fr, st, fnj, env
        self.args, self.atys, self.dty, self.sp, self.nm = args, atys, dty, sp, nm

    def v(self, i):
        return self.E.v(self.st, self.args[i])

    def d(self, i):
        return self.E.deep(self.st, self.args[i])

    def targ(self, i):
        a = self.fnj.get('a', [])
        return self.E.sub(self.E.ty(a[i]), self.env) if i < len(a) else ('other', '?')

    def ret(self, v, st=None):
        return [('ok', st or self.st, v)]
