"""Must-check analysis of the configuration loader. On every accepting path the sections are complete and in order (induction over the
loop that reads the lines: a predicate of the loop state that starts false, is false whenever a default section is read and true
afterwards, true whenever a session section is read, and true on acceptance), and each session has passed every check (for every
requirement, a loop or quantifier over all sessions on the accepting path in which an element violating it cannot go on). Every
section is stored under its own identity with every line of it."""
import functools
from .settings import *

EMPTYM = ('app', 'emptymap')
EMPTYV = ('arr', ())
CONN = ('acceptor', 'initiator')
BEGIN = ('FIX.4.2', 'FIX.4.3', 'FIX.4.4')
NAMES = {'conn': 'connection_type', 'port': 'socket_accept_port', 'host': 'socket_connect_host', 'cport': 'socket_connect_port',
         'begin': 'begin_string', 'sender': 'sender_comp_id', 'target': 'target_comp_id'}


def check(c):
    c.rule = 'acceptance implies every check, sections are complete and in order'
    E = c.engine(opaque=LOADER)
    fm = c.anchor(E, 'SessionId::from_map')
    b = c.anchor(E, 'Properties::from_str')
    new = c.anchor(E, 'Properties::new')
    E.opaque.add(fm['id'])
    av, trs = c.run(E, b)
    text = E.deep(trs[0].st, E.v(trs[0].st, av[0]))
    good = [t for t in trs if t.kind == 'ret']
    c.floor('accepting paths', len(good), 1)
    for t in trs:
        if t.kind not in ('ret', 'panic'):
            c.bad('returns', 'loading a configuration may not end', b['span'])
    for t in good:
        S_ = Settings(E, E.deep(t.st, t.val))
        c.ob('settings:shape', S_.good, 'a settings value no longer consists of a default id and one table of sections')
        if S_.good:
            validation(c, E, t, S_, b)
            sections(c, E, t, S_, b, text, fm)
    E2 = c.engine(opaque=LOADER)
    E2.opaque.add(b['id'])
    av, trs = c.run(E2, new)
    for t in trs:
        if t.kind != 'ret':
            continue
        path = E2.deep(trs[0].st, E2.v(trs[0].st, av[0]))
        calls = [e for e, _ in uniq_events([t]) if e.kind == 'call' and e.name == b['id']]
        c.ob('file:loaded', len(calls) == 1 and E2.deep(t.st, t.val) == calls[0].res, 'what is loaded is not what the file says', new['span'])
        for e in calls:
            x = e.args[0]
            c.ob('file:text', any(y[:2] == ('fld', ('app', 'readfile', path)) for y in subterms(x)) or readfile(x, path), 'the text loaded is not that of the file', new['span'])


def readfile(x, path):
    r = repr(x)
    return repr(path) in r and x[0] in ('fld', 'sym', 'app')


# ---- validation -------------------------------------------------------------------------------------------------
def validation(c, E, t, S_, b):
    conn = lambda want: mk_ite(has_key(S_.map, S_.default), mk_ite(has_key(val(S_.map, S_.default), S(NAMES['conn'])),
                               want(val(val(S_.map, S_.default), S(NAMES['conn']))), F), F)
    anyof = lambda words: (lambda x: functools.reduce(mk_or, [mk_eq(x, S(w)) for w in words]))
    c.ob('validation:connection type', holds(E, t.facts, conn(anyof(CONN))), 'accepted without a connection type of exactly acceptor or initiator', b['span'])
    u16 = lambda x: ('is', ('app', 'parse', S('u16'), x), 0)
    yes = lambda x: T
    acc, ini = conn(anyof(CONN[:1])), conn(anyof(CONN[1:]))
    reqs = [('accept port', 'port', u16, acc), ('connect host', 'host', yes, ini), ('connect port', 'cport', u16, ini),
            ('begin string', 'begin', anyof(BEGIN), T), ('sender company id', 'sender', yes, T), ('target company id', 'target', yes, T)]
    unis = universals(E, t, S_.map)
    c.count('loops over all sessions', len(unis))
    for what, name, pred, when in reqs:
        q = lambda k: mk_ite(when, S_.tree(k, S(NAMES[name]), pred, F), T)
        done = holds_not(E, t.facts, when) or any(all(holds(E, f, mk_ite(mk_eq(k, S_.default), T, q(k))) for k, f in u) for u in unis)
        c.ob('validation:' + what, done, 'a configuration is accepted in which a session has no valid ' + what, b['span'])
        c.count('requirements')


def holds(E, facts, term):
    """the condition is true in every consistent case"""
    for g, leaf in cases(E, facts, term, 20000):
        if leaf != T and E.truth(g, leaf) is not True:
            g = normal(E, g)
            if g is None:
                continue
            x = simp(E, g, leaf)
            if x != T and E.truth(g, x) is not True and not split_refuted(E, g, x):
                return False
    return True


def split_refuted(E, g, x):
    """the negation of x contradicts the facts"""
    f = dict(g)
    return not E.add_fact(f, x, False) or normal(E, f) is None


def holds_not(E, facts, term):
    return all(leaf == F or E.truth(g, leaf) is False for g, leaf in cases(E, facts, term) if normal(E, g) is not None)


def universals(E, t, m):
    """lists of (key, facts): what is known about every key of M on this path"""
    out = []
    for e in t.events:
        if e.kind != 'loop':
            continue
        mores = [k for k, v in t.facts.items() if k[0] == 'more' and v is False and k[1] == m]
        u = []
        ok_ = False
        for it in e.x['iters']:
            ks = [k[2] for k, v in it.facts.items() if k[0] == 'more' and v is True and k[1] == m]
            if len(ks) == 1 and any(k[2] == ks[0] for k in mores):
                u.append((('elk', m, ks[0]), it.facts))
                ok_ = True
            else:
                ok_ = False
                break
        if ok_ and u:
            out.append(u)
    for k, v in t.facts.items():
        if k[0] == 'srch' and k[2] == m and k[1] in ('any', 'all') and v is (k[1] == 'all'):
            key = ('sym', 'anykey', 0)
            f = dict(t.facts)
            body = put(k[3], ('bvar', bound_of(k[3])), key)
            if body is not None and E.add_fact(f, simp(E, f, body), v):
                out.append([(key, f)])
    return out


def bound_of(t):
    """the outermost bound variable is the lowest"""
    bs = [x[1] for x in subterms(t) if x[0] == 'bvar' and len(x) == 2]
    return min(bs) if bs else 0


def put(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(put(x, old, new) for x in t)
    return t


# ---- sections ---------------------------------------------------------------------------------------------------
def sections(c, E, t, S_, b, text, fm):
    m = S_.map
    loops = [e for e in t.events if e.kind == 'loop' and m in e.x['lvs']]
    c.ob('sections:loop', m[0] == 'lv' and len(loops) == 1 and E.recvals.get(m) is not None, 'the table of sections is not built by one loop over the lines', b['span'])
    if not (m[0] == 'lv' and len(loops) == 1 and E.recvals.get(m)):
        return
    loop = loops[0]
    init, vals = E.recvals[m]
    c.ob('sections:start', init == EMPTYM, 'the table of sections does not start empty', b['span'])
    lvs = [lv for lv in loop.x['lvs'] if E.recvals.get(lv) and len(E.recvals[lv][1]) == len(vals)]
    src = ('app', 'lines', text)
    c.ob('sections:every line', any(k[0] == 'more' and k[1] == src and v is False for k, v in t.facts.items()), 'reading may stop before the last line', b['span'])
    rows = []
    n = 0
    for i, (v, facts) in enumerate(vals):
        it = loop.x['iters'][i] if len(loop.x['iters']) == len(vals) else None
        if it is None:
            c.bad('sections:shape', 'the steps of the loop over the lines are not understood', b['span'])
            return
        head = [k for k, x in facts.items() if k[0] == 'more' and k[1] == src and x is True]
        takes = [e for e in it.events if e.kind == 'take']
        els = takes[0].args[0] if takes else ('el', src, head[0][2]) if head else None
        c.ob('sections:one line at a time', len(takes) <= 1 and els is not None and (els[:2] == ('el', src)), 'a step takes %d lines' % len(takes), b['span'])
        if els is None:
            continue
        L = ('app', 'trim', els)
        opens, closes = E.truth(facts, ('pre', L, S('['))), E.truth(facts, ('suf', L, S(']')))
        dflt = E.truth(facts, ('ctn', L, S('Default')))
        after = {lv: E.recvals[lv][1][i][0] for lv in lvs}
        if v == m:
            ignored = opens is False
            c.ob('sections:none left out', ignored, 'a section is read and not stored', b['span'])
            rows.append(('other', facts, after, v))
            continue
        okc = v[0] == 'app' and v[1] == 'ins' and v[2] == m
        c.ob('sections:stored', okc and opens is True and closes is True and dflt is not None, 'something other than one section is stored in a step', b['span'])
        if not okc:
            continue
        n += 1
        key, tbl = v[3], v[4]
        D1 = swap(E, S_.default, after)
        if dflt:
            rows.append(('default', facts, after, v))
            c.ob('sections:default id', simp(E, facts, key) == simp(E, facts, D1), 'the default section is stored under another id', b['span'])
        else:
            rows.append(('session', facts, after, v))
            fresh = E.truth(facts, simp(E, facts, has_key(m, key))) is False
            c.ob('sections:no two with one id', fresh, 'a section can overwrite another one with the same id', b['span'])
            calls = [e for e in it.events if e.kind == 'call' and e.name == fm['id'] and e.res == key]
            D0 = simp(E, facts, S_.default)
            c.ob('sections:session id', len(calls) == 1 and simp(E, facts, calls[0].args[0]) == simp(E, facts, tbl)
                 and simp(E, facts, calls[0].args[1]) == simp(E, facts, val(m, D0)), 'a session section is stored under an id not derived from it and the default section', b['span'])
        lines(c, E, it, tbl, src, b)
    c.floor('sections stored', n, 2)
    good = order(E, t, rows, lvs, m)
    c.ob('sections:one default section, first', bool(good), 'nothing ensures that there is exactly one default section and that it comes first', b['span'])
    c.sample({'states tried': len(lvs), 'steps': {k: sum(r[0] == k for r in rows) for k in ('default', 'session', 'other')}})
    return m, rows, lvs, good


def swap(E, t, after):
    """the value after the step"""
    if t in after:
        return after[t]
    if t[0] == 'fld':
        return E.getfield(swap(E, t[1], after), t[2])
    return t


def order(E, t, rows, lvs, m):
    """predicates of the loop state that are true exactly when a default section has been read"""
    cand = []
    for lv in lvs:
        init = E.recvals[lv][0]
        if init in (T, F):
            cand.append(((lambda x, neg=(init == T): mk_not(x) if neg else x), lv))
        elif init == NONE:
            cand.append(((lambda x: is_some(x)), lv))
    keys = {r[3][3] for r in rows if r[0] == 'default'}
    for k in keys:
        cand.append(((lambda x, k=k: T if x[:2] == ('app', 'ins') and x[3] == k else has_key(x, k)), m))
    good = []
    for p, lv in cand:
        okc = E.truth(t.facts, p(lv)) is True or p(lv) == T
        for kind, facts, after, v in rows:
            now, then = E.truth(facts, p(lv)), p(simp(E, facts, after[lv]))
            then = then == T or E.truth(facts, simp(E, facts, then)) is True if kind == 'default' else after[lv] == lv or (lv == m and kind == 'session')
            okc = okc and then and (kind == 'other' or now is (kind == 'session'))
        if okc:
            good.append((p, lv))
    return good


def is_some(x):
    if x == NONE:
        return F
    if x[0] == 'adt' and x[1] == OPT:
        return T
    return ('is', x, 1)


def strip(t):
    """trimming before and after splitting at the equals sign are the same"""
    if not isinstance(t, tuple):
        return t
    t = tuple(strip(x) for x in t)
    if t[:2] == ('app', 'trim') and t[2][:2] in (('app', 'before'), ('app', 'after')) and t[2][2][:2] == ('app', 'trim'):
        return ('app', 'trim', t[2][:2] + (t[2][2][2],) + t[2][3:])
    if t[:2] == ('app', 'trim_matches'):
        return ('app', 'trim_end_matches', ('app', 'trim_start_matches', t[2], t[3]), t[3])
    if t[:2] == ('app', 'trim_start_matches') and t[2][:2] == ('app', 'trim_end_matches') and t[3] == t[2][3]:
        return ('app', 'trim_end_matches', ('app', 'trim_start_matches', t[2][2], t[3]), t[3])
    return t


def unquoted(x):
    return ('app', 'trim_end_matches', ('app', 'trim_start_matches', x, S('"')), S('"'))


def pairs_list(E, it, tbl, x):
    """the list of pairs a table is made from, and the loop that makes the list"""
    vals = E.recvals[tbl][1]
    if len(vals) != 1 or len(x['iters']) != 1:
        return None
    v, facts = vals[0]
    els = {y for y in subterms(v) if y[0] == 'el'}
    if len(els) != 1:
        return None
    el = els.pop()
    if v != ('app', 'ins', tbl, E.getfield(el, 'T.0.0'), E.getfield(el, 'T.0.1')) or any(ex.kind != 'panic' and not any(k[0] == 'more' and k[1] == el[1] and y is False for k, y in ex.facts.items()) for ex in x['exits']):
        return None
    made = [e for e in it.events if e.kind == 'loop' and el[1] in e.x['lvs'] and E.recvals.get(el[1])]
    return (el[1], made[0].x) if len(made) == 1 else None


def lines(c, E, it, tbl, src, b):
    """the table of a section has every line up to the next section"""
    inner = [e for e in it.events if e.kind == 'loop' and tbl in e.x['lvs'] and E.recvals.get(tbl)]
    c.ob('lines:loop', len(inner) == 1, 'the settings of a section are not read by one loop', b['span'])
    if len(inner) != 1:
        return
    x = inner[0].x
    init, vals = E.recvals[tbl]
    listed = pairs_list(E, it, tbl, x)
    if listed:
        # collected as a list of keys and values first
        c.ob('lines:start', init == EMPTYM, 'the settings of a section do not start empty', b['span'])
        tbl, x = listed
        init, vals = E.recvals[tbl]
    c.ob('lines:start', init == (EMPTYV if listed else EMPTYM), 'the settings of a section do not start empty', b['span'])
    c.ob('lines:shape', len(vals) == len(x['iters']), 'the steps of the loop over the settings are not understood', b['span'])
    for (v, facts), i in zip(vals, x['iters']):
        takes = [e for e in i.events if e.kind == 'take']
        c.ob('lines:one at a time', len(takes) == 1 and takes[0].args[0][:2] == ('el', src), 'a step over the settings takes %d lines' % len(takes), b['span'])
        if len(takes) != 1:
            continue
        el = takes[0].args[0]
        L = ('app', 'trim', el)
        c.ob('lines:up to the next section', E.truth(facts, ('pre', L, S('['))) is False, 'a section header is read as a setting', b['span'])
        if v == tbl:
            c.ob('lines:none left out', E.truth(facts, mk_eq(L, S(''))) is True, 'a setting is left out', b['span'])
            continue
        kv = tuple(unquoted(('app', 'trim', ('app', side, el, S('=')))) for side in ('before', 'after'))
        want = ('app', 'push', tbl, ('tup', kv)) if listed else ('app', 'ins', tbl) + kv
        c.ob('lines:key and value', strip(v) == want, 'a setting is stored as %s' % show(v)[:150], b['span'])
        c.count('setting lines')
    for ex in x['exits']:
        if ex.kind == 'panic':
            continue
        f = ex.facts
        more = [k for k, y in f.items() if k[0] == 'more' and k[1] == src and y is False]
        nxt = [k for k, y in f.items() if k[0] == 'pre' and k[2] == S('[') and k[1][:2] == ('app', 'trim') and k[1][2][:2] == ('el', src) and y is True]
        c.ob('lines:all of them', bool(more or nxt) and not any(e.kind == 'take' for e in ex.events), 'reading a section may stop before its end', b['span'])
