"""What the dictionary loader does to the tables of a dictionary."""
from .base import *

DD = 'data_dictionary::DataDictionary'


def is_dd(E, t):
    if t[0] == 'adt':
        return t[1] == DD
    h = E.tyhint.get(t)
    return h is not None and E.strip(h)[:2] == ('adt', DD)


def tfield(t, name):
    """(dictionary, table) when t is that table of a dictionary"""
    return t[0] == 'fld' and t[2] == '%s.0.%s' % (DD, name)


def contradicts_dictionary(E, facts):
    """a member of some message of a dictionary that is not in its field order"""
    no = {(f[1], f[2]) for f, v in facts.items() if f[0] == 'app' and f[1] == 'has' and v is False} | \
         {(f[1], f[2]) for f, v in facts.items() if f[0] == 'has' and v is False}
    if not no:
        return False
    for f, v in facts.items():
        if f[0] != 'has' or v is not True:
            continue
        s = f[1]
        # s = msg_fields[..] of dictionary d
        if s[0] == 'fld' and s[1][0] == 'app' and s[1][1] == 'get' and tfield(s[1][2], 'msg_fields'):
            d = s[1][2][1]
            for m, k in no:
                if k == f[2] and tfield(m, 'fields_order') and m[1] == d:
                    return True
    return False


def set_adds(new, base):
    """elements added to a set, or None if it is not base plus elements"""
    out = []
    t = new
    for _ in range(200):
        if t == base or t == ('app', 'emptymap'):
            return out
        if t[0] == 'app' and t[1] == 'sins' or t[0] == 'sins':
            k = 2 if t[0] == 'app' else 1
            out.append(t[k + 1])
            t = t[k]
        elif t[0] == 'ite':
            return None
        else:
            return None
    return None


def map_ops(new, base):
    """updates of a map relative to base: list of ('put', key, value) / ('upd', key, value), newest first, or None"""
    out = []
    t = new
    for _ in range(200):
        if t == base:
            return out
        if t == ('app', 'emptymap'):
            return out if base == t else None
        if t[0] == 'app' and t[1] in ('ins', 'upd'):
            out.append(('put' if t[1] == 'ins' else 'upd', t[3], t[4]))
            t = t[2]
        elif t[0] == 'els':
            for k, o, v in t[2]:
                out.append(('upd', k, v))
            t = t[1]
        elif t[0] == 'app' and t[1] == 'rem_key':
            out.append(('del', t[3], None))
            t = t[2]
        else:
            return None
    return None


def get_of(m, k):
    return ('fld', ('app', 'get', m, k), OPT + '.1.0')


def nested_adds(new, base):
    """for a map of sets: list of (key, element) added, list of other puts; None if not understood"""
    ops = map_ops(new, base)
    if ops is None:
        return None
    adds, other, done = [], [], set()
    for op, k, v in ops:
        if op == 'upd' or op == 'put':
            if op == 'put' and v == ('app', 'emptymap'):
                if k not in done:
                    other.append(('empty', k))
                continue
            a = set_adds(v, get_of(base, k))
            if a is None:
                return None
            for x in a:
                if (k, x) not in adds:
                    adds.append((k, x))
            done.add(k)
        else:
            other.append((op, k))
    return adds, other


def delegation(E, entry):
    """A function that records a group is a cut point of its own. A call that expands the members of the very element the caller
    is working on (a group, a message, the header) is followed: they are members of that element, not of a component."""
    makes = {i.split('::{closure')[0] for i, b in E.bodies.items()
             if any(s.get('k') == 'assign' and s['r'].get('k') == 'agg' and str(s['r'].get('n', '')).endswith('::GroupInfo')
                    for bl in b['blocks'] for s in bl['s'])}
    E.cut_first = makes
    E._rec = None

    def is_node(ty):
        ty = E.strip(ty)
        return ty[0] == 'adt' and ty[1].endswith('::Node')

    def through(b, st, args):
        if b['id'] in makes:
            return False
        at = [i for i in range(b['argc']) if is_node(E.ty(b['locals'][i + 1]['ty']))]
        if len(at) != 1 or at[0] >= len(args):
            return False
        n = E.deep(st, args[at[0]])
        top = E.stack[0].split('::{closure')[0]
        if top == entry:
            return n[0] == 'el' or n[:2] == ('app', 'foundmap')
        if top not in makes:
            return False
        own = E.bodies[top]
        # the element the caller was given
        return any(n == ('sym', own['locals'][i + 1].get('n') or 'a%d' % (i + 1), 0)
                   for i in range(own['argc']) if is_node(E.ty(own['locals'][i + 1]['ty'])))
    E.through = through


def loader_runs(c, E):
    """(function, params, traces) of the loader and of every recursive function it uses"""
    if getattr(c, '_loader', None):
        return c._loader
    b = E.bodies.get('<data_dictionary::DataDictionary as std::str::FromStr>::from_str')
    c.ob('anchor:dictionary loader', b is not None, 'the dictionary loader (FromStr for DataDictionary) is gone')
    if b is None:
        raise Stop()
    delegation(E, b['id'])
    out, todo, seen = [], [b], set()
    while todo:
        b = todo.pop(0)
        if b['id'] in seen:
            continue
        seen.add(b['id'])
        av, trs = c.run(E, b)
        out.append((b['id'], av, trs))
        for e, tr in uniq_events(trs):
            if e.kind == 'rec' and e.name in E.bodies:
                todo.append(E.bodies[e.name])
    c._loader = out
    return out


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x and id(x) not in seen:
            seen.add(id(x))
            if isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def barrier_values(E, av, trs):
    """(facts, value) wherever a dictionary is handed on: end of a function, end of a loop iteration, loop entry, recursive call"""
    for t in trs:
        if t.kind == 'ret':
            for a in av:
                if a[0] == 'ref':
                    yield t.facts, E.deep(t.st, E.v(t.st, a))
            if t.val is not None:
                yield t.facts, t.val
    for e, tr in uniq_events(trs):
        if e.kind == 'rec':
            for a in e.args:
                yield tr.facts, a
        if e.kind == 'loop':
            for o in {o for o, p, i in e.x['lvs'].values()}:
                yield e.facts, E.deep(e.x['pre'], E.read(e.x['pre'], o, ()))
                for it in e.x['iters']:
                    yield it.facts, E.deep(it.st, E.read(it.st, o, ()))


def base_of(t, name):
    """the table a chain of updates starts from"""
    for _ in range(500):
        if t[0] == 'app' and t[1] in ('ins', 'upd', 'rem_key', 'sins'):
            t = t[2]
        elif t[0] in ('els', 'sins'):
            t = t[1]
        else:
            return t
    return t


def order_invariant(c, E):
    """wherever the loader adds a member to a message, it adds it to the field order of the same dictionary"""
    E2 = c.engine()
    n = 0
    done = set()
    for fn, av, trs in loader_runs(c, E2):
        for facts, v in barrier_values(E2, av, trs):
            for d in subterms(v):
                if d[0] != 'adt' or d[1] != DD or d in done:
                    continue
                done.add(d)
                mf, fo = (E2.getfield(d, '%s.0.%s' % (DD, x)) for x in ('msg_fields', 'fields_order'))
                for f, pair in cases(E2, facts, ('tup', (mf, fo))):
                    mf, fo = pair[1]
                    m = nested_adds(mf, base_of(mf, 'msg_fields'))
                    if m is not None:
                        # an element that is already there is not added
                        m = [(k, x) for k, x in m[0] if E2.truth(f, ('has', get_of(base_of(mf, 'msg_fields'), k), x)) is not True], m[1]
                    o = set_adds(fo, base_of(fo, 'fields_order'))
                    if m is not None and not m[0]:
                        continue
                    n += 1
                    good = m is not None and o is not None and {x for _, x in m[0]} <= set(o)
                    c.ob('%s:order follows membership' % fn, good,
                         'a field is added to a message but not to the field order of the same dictionary', '')
    c.floor('dictionary updates checked for field order', n, 4)
