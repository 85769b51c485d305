"""Reads after writes: every setter is composed symbolically with every getter on the same arbitrary section or message, for
arbitrary tags and values. What a getter gives for the tag just set must be the parse of the text set (or an error when it does
not parse), what it gives for any other tag, section or kind must be what it gave before. A group set with n instances must
store n in its count field and be found with the tag, delimiter and size it was given, all instances empty and none of them
taken from an earlier group. A new message has no field and no group."""
from .base import *
from .compose import *
from .linear import seq_len
from .c05 import fresh_elems, uncast

T1, T2 = ('sym', 'tag', 1), ('sym', 'other', 2)
VALT = ('sym', 'value', 3)
N, D = ('sym', 'count', 4), ('sym', 'delimiter', 5)
IDX, IDX2 = ('sym', 'index', 6), ('sym', 'index2', 7)


def errs(E, f, x, y):
    """errors are alike whatever they say"""
    return x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1] == RES and x[2] == y[2] == 1


def start(c, E, ty, name):
    from fx.engine import St
    E.stack, E.recorders, E.loopmarks = [], [], []
    st = St({}, {}, None, None, {})
    s = ('sym', name, 0)
    E.tyhint[s] = ('adt', ty, ())
    o = E.new_obj(st, s, 'arg:' + name, ('adt', ty, ()))
    return st, ('ref', o, ())


def check_parse(c, E, key, steps, txt, given, where):
    """the getter's result is Ok(parse of txt) when it parses, else an error"""
    for s in steps:
        f = assume(E, assume(E, {}, given), s.st.facts.items())
        if f is None:
            continue
        seen = 0
        for g, leaf in cases(E, f, E.deep(s.st, s.val)):
            seen += 1
            if leaf[0] != 'adt' or leaf[1] != RES:
                c.bad(key, 'gives %s' % show(leaf)[:100], where)
                continue
            pt = None
            for z in list(g) + [leaf]:
                for y in subterms(z):
                    if y[0] == 'app' and y[1] == 'parse':
                        pt = y
            if pt is None:
                c.bad(key, 'the result does not come from parsing the value that was set: %s' % show(leaf)[:100], where)
                continue
            good = simp(E, g, pt[3]) == txt
            okp = E.truth(g, ('is', pt, 0))
            c.ob(key, good and okp is not None and (leaf[2] == 0) == okp and (leaf[2] == 1 or leaf[3][0] == E.getfield(pt, RES + '.0.0')),
                 'a field that was set reads back as %s instead of the parse of the text set' % show(leaf)[:100], where)
        c.ob(key + ':cases', seen >= 1, 'no way to read the field back', where)


def check(c):
    c.rule = 'symbolic composition of setters and getters over arbitrary maps, tags and texts'
    E = c.engine()
    FM, MSG = 'message::FieldMap', 'message::Message'
    sections = ['header', 'body', 'trailer']
    new_field = c.anchor(E, 'StringField::new')

    def reader(kind, sec):
        """-> function(step, root, tag) -> steps"""
        def rd(step, root, tag, key):
            if sec == 'self':
                return call(c, E, step, 'FieldMap::get_%s' % kind, [root, tag], key)
            if sec == 'message':
                return call(c, E, step, 'Message::get_%s' % kind, [root, tag], key)
            return [y for x in call(c, E, step, 'Message::' + sec, [root], key) for y in call(c, E, x, 'FieldMap::get_%s' % kind, [x.val, tag], key)]
        return rd

    def writer(kind, sec):
        def wr(step, root, key):
            if kind == 'field':
                fs = [(x, x.val) for x in call(c, E, step, new_field, [T1, VALT], key)]
            else:
                fs = [(step, None)]
            out = []
            for x, v in fs:
                args = [v] if kind == 'field' else [T1, N, D]
                if sec == 'self':
                    out += call(c, E, x, 'FieldMap::set_%s' % kind, [root] + args, key)
                elif sec == 'message':
                    out += call(c, E, x, 'Message::set_%s' % kind, [root] + args, key)
                else:
                    for y in call(c, E, x, 'Message::%s_mut' % sec, [root], key):
                        out += call(c, E, y, 'FieldMap::set_%s' % kind, [y.val] + args, key)
            return out
        return wr
    units = [('self', FM, 'self', 'self')]
    for w in ['message'] + sections:
        for r in ['message'] + sections:
            units.append((w, MSG, w, r))
    for kind in ('field', 'group'):
        for _, ty, w, r in units:
            key = 'set_%s %s, read %s' % (kind, 'section' if w == 'self' else w, 'it' if r == 'self' else r)
            where = ''
            st, root = start(c, E, ty, 'self')
            base = Step(st)
            hit = (w if w != 'message' else 'body') == (r if r != 'message' else 'body')
            after = writer(kind, w)(base, root, key)
            c.ob(key + ':effect', bool(after), 'setting never returns', where)
            rf, rg = reader('field', r), reader('group', r)
            for a in after:
                # other tags, other sections and the other kind are as before
                for what, rd in (('field', rf), ('group', rg)):
                    before = rd(base, root, T2, key)
                    now = rd(a, root, T2, key)
                    n = 0
                    given = [(mk_eq(T1, T2), False)] if hit and not (what == 'group' and kind == 'field') else []
                    for x in before:
                        for y in now:
                            why = same(E, x.st.facts, E.deep(y.st, y.val), y.st.facts, E.deep(x.st, x.val), errs, given)
                            n += why is not False
                            c.ob('%s:other %s unchanged' % (key, what), not why, 'reading another %s after setting a %s in the %s %s' % (what, kind, w, why), where)
                    c.ob('%s:other %s compared' % (key, what), n > 0, 'no way to compare reads before and after', where)
                if not hit:
                    continue
                if kind == 'field':
                    check_parse(c, E, key + ':read back', rf(a, root, T1, key), VALT, (), where)
                    continue
                check_parse(c, E, key + ':count', rf(a, root, T1, key), ('app', 'dec', N), (), where)
                got = rg(a, root, T1, key)
                for y in got:
                    for f, leaf in cases(E, y.st.facts, E.deep(y.st, y.val)):
                        if not c.ob(key + ':group found', leaf[0] == 'adt' and leaf[1] == OPT and leaf[2] == 1, 'the group set is not found under its tag', where):
                            continue
                        g = leaf[3][0]
                        if g[0] == 'ref':
                            g = E.deep(y.st, g)
                        st2 = y.st.copy()
                        gr = ('ref', E.new_obj(st2, g, 'group', ('adt', 'message::Group', ())), ())
                        s2 = Step(st2)
                        for fn, want in (('delim', D), ('tag', T1), ('size', N)):
                            for z in call(c, E, s2, 'Group::' + fn, [gr], key):
                                v = simp(E, f, E.deep(z.st, z.val))
                                if fn == 'size':
                                    v = uncast(v)
                                    if v[0] == 'app' and v[1] == 'len':
                                        v = seq_len(E, z.st, v[2], f, f) or v
                                        v = uncast(v)
                                c.ob('%s:%s' % (key, fn), v == want, '%s of the group set is %s instead of %s' % (fn, show(v)[:60], show(want)), where)
                        vec = [x for x in subterms(g) if x in E.recvals or x[0] == 'app' and x[1] in ('coll', 'repeat', 'push') or x[0] == 'arr']
                        vec = E.getfield(g, 'message::Group.0.fields')
                        c.ob(key + ':instances empty', fresh_elems(E, None, y.st, vec, f), 'the instances of a group that was set are not all new and empty', where)
                # the group handed out for filling is the one that is found
                for y in got:
                    v = E.deep(y.st, y.val)
                    for f, leaf in cases(E, y.st.facts, v):
                        c.ob(key + ':same group', leaf[0] != 'adt' or leaf[2] != 1 or leaf[3][0] == simp(E, f, E.deep(y.st, a.val)),
                             'the group handed out for filling is not the one stored', where)
    # one instance of a group does not change another, and keeps what is set in it
    st, root = start(c, E, 'message::Group', 'group')
    base = Step(st)
    key = 'instances'
    im = [b for b in E.bodies.values() if b['id'] == '<message::Group as std::ops::IndexMut<usize>>::index_mut']
    ix = [b for b in E.bodies.values() if b['id'] == '<message::Group as std::ops::Index<usize>>::index']
    if c.ob('anchor:Group index', len(im) == 1 and len(ix) == 1, 'Group cannot be indexed'):
        def at(step, i, b):
            E.recorders, E.loopmarks, E.stack = [], [], []
            c.analysed.add(b['id'])
            return [Step(o[1], o[2]) for o in E.inline(b, {}, step.st.copy(), [root, i], b['span']) if o[0] == 'ok']
        n = 0
        for x in at(base, IDX, im[0]):
            for y in call(c, E, x, new_field, [T1, VALT], key):
                for z in call(c, E, y, 'FieldMap::set_field', [x.val, y.val], key):
                    for i in at(z, IDX, ix[0]):
                        n += 1
                        check_parse(c, E, key + ':read back', call(c, E, i, 'FieldMap::get_field', [i.val, T1], key), VALT, (), im[0]['span'])
                    for i in at(z, IDX2, ix[0]):
                        for b4 in at(base, IDX2, ix[0]):
                            why = same(E, b4.st.facts, E.deep(i.st, i.val), i.st.facts, E.deep(b4.st, b4.val), None, [(mk_eq(IDX, IDX2), False)])
                            c.ob(key + ':other instance unchanged', not why, 'another instance of the group %s' % why, im[0]['span'])
        c.floor('instance read-backs', n, 1)
    # a new message has nothing in it
    st, _ = start(c, E, MSG, 'none')
    for m in call(c, E, Step(st), 'Message::new', [], 'new'):
        s2 = m.st.copy()
        root = ('ref', E.new_obj(s2, m.val, 'message', ('adt', MSG, ())), ())
        for r in ['message'] + sections:
            for kind in ('field', 'group'):
                for y in reader(kind, r)(Step(s2), root, T2, 'new'):
                    for f, leaf in cases(E, y.st.facts, E.deep(y.st, y.val)):
                        c.ob('new message:%s %s' % (r, kind), leaf == NONE or leaf[0] == 'adt' and leaf[1] == RES and leaf[2] == 1,
                             'a new message already has %s' % show(leaf)[:80], '')
