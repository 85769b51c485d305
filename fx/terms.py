"""Term domain: hash-consed (plain tuples) values of the abstract interpreter.

A term is a tuple whose first item is its kind:
  ('int',n) ('bool',b) ('str',s) ('char',c) ('unit',) ('float',bits)
  ('adt',name,variant,fields)  ('tup',fields)  ('arr',fields)
  ('clo',body,captures,env)    ('fn',key)
  ('ref',obj,path)             pointer to an abstract memory location
  ('sym',name,n)               unknown value
  ('lv',loop,name)             value of a variable at the head of a loop
  ('fld',base,key)             field of an unknown value (key = "Adt.Variant.field")
  ('app',f,args...)            uninterpreted pure function
  ('ite',cond,a,b)
  ('lin',c,((t,k),...))        linear integer expression
booleans: ('eq',a,b) ('lt',a,b) ('pos',lin) ('is',t,variant) ('not',a) ('and',a,b) ('or',a,b)
"""
T = ('bool', True)
F = ('bool', False)
UNIT = ('unit',)


def I(n):
    return ('int', n)


def S(s):
    return ('str', s)


def lin_parts(t):
    if t[0] == 'int':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))


def add(a, b, sign=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(c1 + sign * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a[0] != 'int' and b[0] == 'int':
        a, b = b, a
    if a[0] == 'int':
        c, d = lin_parts(b)
        return mk_lin(a[1] * c, {k: v * a[1] for k, v in d.items()})
    return ('app', 'mul') + tuple(sorted((a, b), key=repr))


def pos(l):
    """l > 0 over the integers, in one canonical polarity"""
    c, d = lin_parts(l)
    if not d:
        return ('bool', c > 0)
    first = sorted(d.items(), key=lambda x: repr(x[0]))[0][1]
    if first < 0:
        return mk_not(pos(sub(I(1), l)))
    return ('pos', l)


def mk_not(a):
    if a[0] == 'bool':
        return ('bool', not a[1])
    if a[0] == 'not':
        return a[1]
    if a[0] == 'and':
        return mk_or(mk_not(a[1]), mk_not(a[2]))
    if a[0] == 'or':
        return mk_and(mk_not(a[1]), mk_not(a[2]))
    return ('not', a)


def implies(a, b):
    return a[0] == 'pre' and b[0] == 'pre' and a[1] == b[1] and a[2][0] == 'str' and b[2][0] == 'str' and \
        a[2][1].startswith(b[2][1])


def mk_and(a, b):
    if a == T:
        return b
    if b == T:
        return a
    if a == F or b == F:
        return F
    if a == b or implies(a, b):
        return a
    if implies(b, a):
        return b
    return ('and', a, b)


def mk_or(a, b):
    if a == F:
        return b
    if b == F:
        return a
    if a == T or b == T:
        return T
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        # x or (not x and z)
        if y[0] == 'and' and mk_not(x) in y[1:]:
            return mk_or(x, y[2] if y[1] == mk_not(x) else y[1])
    if a[0] == 'not' and b[0] == 'not' and a[1][0] == b[1][0] == 'pre':
        if implies(a[1], b[1]):
            return a
        if implies(b[1], a[1]):
            return b
    return ('or', a, b)


BOOLK = {'bool', 'eq', 'lt', 'pos', 'is', 'not', 'and', 'or', 'has', 'srch', 'pre', 'suf', 'ctn', 'eqi'}


def mk_ite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return mk_ite(c[1], b, a)
    if a[0] in BOOLK and b[0] in BOOLK:
        if a == T and b == F:
            return c
        if a == F and b == T:
            return mk_not(c)
        if b == F:
            return mk_and(c, a)
        if a == T:
            return mk_or(c, b)
        if a == F:
            return mk_and(mk_not(c), b)
        if b == T:
            return mk_or(mk_not(c), a)
    if a[0] == 'ite' and a[3] == b:
        return mk_ite(mk_and(c, a[1]), a[2], b)
    return ('ite', c, a, b)


CONSTK = {'int', 'bool', 'str', 'char', 'unit', 'float'}


def mk_eq(a, b):
    if a == b:
        return T
    if a[0] in CONSTK and b[0] in CONSTK:
        return F if a[0] == b[0] else ('eq',) + tuple(sorted((a, b), key=repr))
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
        if a[2] != b[2]:
            return F
        r = T
        for x, y in zip(a[3], b[3]):
            r = mk_and(r, mk_eq(x, y))
        return r
    if a[0] in ('tup', 'arr') and a[0] == b[0] and len(a[1]) == len(b[1]):
        r = T
        for x, y in zip(a[1], b[1]):
            r = mk_and(r, mk_eq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if y[0] == 'str' and x[0] == 'app' and x[1] in ('to_lowercase', 'to_uppercase'):
            low = y[1].lower()
            return F if y[1] != (low if x[1] == 'to_lowercase' else y[1].upper()) else ('eqi',) + tuple(sorted((x[2], S(low)), key=repr))
        if x[0] == 'ite' and (x[2][0] in ('adt',) + tuple(CONSTK) or x[3][0] in ('adt',) + tuple(CONSTK)) \
                and y[0] in ('adt',) + tuple(CONSTK):
            return mk_ite(x[1], mk_eq(x[2], y), mk_eq(x[3], y))
        if y[0] == 'adt' and x[0] != 'adt' and len(y[3]) <= 1:
            # unknown enum value compared with a known variant
            r = ('is', x, y[2])
            if y[3]:
                r = mk_and(r, mk_eq(('fld', x, '%s.%d.0' % (y[1], y[2])), y[3][0]))
            return r
    if a[0] == 'lin' or b[0] == 'lin':
        d = sub(a, b)
        c, ds = lin_parts(d)
        if not ds:
            return ('bool', c == 0)
        if len(ds) == 1:
            (t, k), = ds.items()
            if k in (1, -1):
                return mk_eq(t, I(-c * k)) if t[0] != 'int' else ('bool', t[1] == -c * k)
    return ('eq',) + tuple(sorted((a, b), key=repr))


def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'app' and p[1] == 'cat':
            out.extend(p[2:])
        elif p[0] == 'char':
            out.append(S(p[1]))
        else:
            out.append(p)
    res = []
    for p in out:
        if p == S(''):
            continue
        if res and res[-1][0] == 'str' and p[0] == 'str':
            res[-1] = S(res[-1][1] + p[1])
        else:
            res.append(p)
    if not res:
        return S('')
    if len(res) == 1:
        return res[0]
    return ('app', 'cat') + tuple(res)


def subterms(t):
    """all tuple subterms"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def contains(t, p):
    return any(x == p for x in subterms(t))


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def show(t, d=0):
    """short human-readable rendering"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if d > 12:
        return '…'
    n = d + 1
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, n) for x in t) + ')'
    if k == 'it':
        return 'it.%s(%s)' % (t[1], ', '.join(show(x, n) for x in t[2:4] if x))
    if k == 'adt' and len(t) == 3:
        return t[1]
    if k in ('int', 'bool', 'float'):
        return str(t[1])
    if k in ('str', 'char'):
        return repr(t[1])
    if k == 'unit':
        return '()'
    if k == 'adt':
        nm = t[1].split('::')[-1]
        return '%s#%s(%s)' % (nm, t[2], ', '.join(show(x, n) for x in t[3]))
    if k in ('tup', 'arr'):
        return ('(%s)' if k == 'tup' else '[%s]') % ', '.join(show(x, n) for x in t[1])
    if k == 'clo':
        return 'closure<%s>' % t[1]
    if k == 'fn':
        return 'fn<%s>' % str(t[1])[:60]
    if k == 'ref':
        return '&%s%s' % (t[1], ''.join('.' + str(p) for p in t[2]))
    if k == 'sym':
        return '%s?%s' % (t[1], t[2])
    if k == 'lv':
        return '%s@%s' % (t[2], t[1])
    if k == 'fld':
        return '%s.%s' % (show(t[1], n), t[2].split('::')[-1])
    if k == 'lin':
        return '(%s + %s)' % (t[1], ' + '.join('%s*%s' % (kk, show(x, n)) for x, kk in t[2]))
    if k == 'not':
        return '!' + show(t[1], n)
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x, n) for x in t[2:]))
    return '%s(%s)' % (k, ', '.join(show(x, n) for x in t[1:]))
