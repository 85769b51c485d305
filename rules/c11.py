"""Field type names: the parse of a type name is run on each of the 24 FIX type names and on an arbitrary text, and the display
of whatever type results; the name table and the print table must be inverse to each other, and an arbitrary text that is none of
the names can only give the unknown type."""
from .base import *
from .compose import *

NAMES = ('CHAR BOOLEAN DATA FLOAT AMT PERCENTAGE PRICE PRICEOFFSET QTY INT LENGTH NUMINGROUP SEQNUM TAGNUM STRING COUNTRY CURRENCY '
         'EXCHANGE LOCALMKTDATE MONTHYEAR MULTIPLEVALUESTRING UTCDATE UTCTIMEONLY UTCTIMESTAMP').split()
TY = 'data_dictionary::FixType'


def check(c):
    c.rule = 'two symbolic tables enumerated against each other'
    E = c.engine()
    pb = E.bodies.get('<%s as std::str::FromStr>::from_str' % TY)
    db = E.bodies.get('<%s as std::fmt::Display>::fmt' % TY)
    if not c.ob('anchor:FromStr and Display of the field type', pb is not None and db is not None, 'field types cannot be parsed and printed'):
        raise Stop()

    def variant(f, v):
        """the type a result term stands for, or None"""
        v = simp(E, f, v)
        if v[0] == 'adt' and v[1] == RES and v[2] == 0 and v[3][0][0] == 'adt' and v[3][0][1] == TY:
            return v[3][0]
        return None

    def printed(st, v):
        st = st.copy()
        o = E.new_obj(st, S(''), 'fmtbuf')
        E.recorders, E.loopmarks, E.stack = [], [], []
        r = ('ref', E.new_obj(st, v, 'ty', ('adt', TY, ())), ())
        out = set()
        for x in E.inline(db, {}, st, [r, ('ref', o, ())], db['span']):
            if x[0] != 'ok':
                return None
            for f, leaf in cases(E, x[1].facts, E.read(x[1], o)):
                out.add(leaf)
        c.count('printed types')
        return out.pop() if len(out) == 1 else None

    def parses(text):
        st = trs[0].st.copy()
        st.ev, st.facts = None, {}
        E.recorders, E.loopmarks, E.stack = [], [], []
        return E.inline(pb, {}, st, [S(text)], pb['span'])
    av, trs = c.run(E, pb)
    txt = E.v(trs[0].st, av[0])
    seen = {}
    for n in NAMES:
        got = set()
        for x in parses(n):
            if not c.ob('known:%s:ok' % n, x[0] == 'ok', 'parsing the type name %s may not return' % n, pb['span']):
                continue
            for f, leaf in cases(E, x[1].facts, E.deep(x[1], x[2])):
                v = variant(f, leaf)
                if c.ob('known:%s:ok' % n, v is not None, 'parsing the type name %s gives %s' % (n, show(leaf)[:80]), pb['span']):
                    got.add(v)
        c.count('known names')
        if not c.ob('known:%s:one' % n, len(got) == 1, 'the type name %s gives %d types' % (n, len(got)), pb['span']):
            continue
        v = got.pop()
        p = printed(trs[0].st, v)
        c.ob('known:%s:prints' % n, p == S(n), 'the type that %s gives prints as %s' % (n, show(p) if p else 'nothing definite'), db['span'])
        c.ob('known:%s:distinct' % n, v not in seen, 'the type names %s and %s give the same type' % (n, seen.get(v)), pb['span'])
        seen[v] = n
    # every other text
    unknown = set()
    for t in trs:
        if not c.ob('other:returns', t.kind == 'ret', 'parsing a type name may panic (%s)' % t.kind, pb['span']):
            continue
        for f, leaf in cases(E, t.facts, t.val):
            c.count('cases of an arbitrary name')
            v = variant(f, leaf)
            if not c.ob('other:ok', v is not None, 'parsing an arbitrary type name gives %s' % show(leaf)[:80], pb['span']):
                continue
            eq = [n for n in NAMES if E.truth(f, mk_eq(txt, S(n))) is True]
            if eq:
                c.ob('other:named', seen.get(v) == eq[0], 'an arbitrary name equal to %s gives the type of %s' % (eq[0], seen.get(v)), pb['span'])
                continue
            unknown.add(v)
            if v in seen:
                c.bad('other:unknown', 'a text that need not be %s gives its type' % seen[v], pb['span'])
    c.ob('other:one', len(unknown) == 1, 'texts that are no type name give %d types' % len(unknown), pb['span'])
    for v in unknown:
        p = printed(trs[0].st, v)
        c.ob('other:prints', p is not None and p[0] == 'str' and p[1] not in NAMES, 'the unknown type prints as a type name', db['span'])
