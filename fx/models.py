"""Transfer functions of the library calls the code base uses (and their common alternatives).

A model takes a Ctx (one call site) and returns outcomes, or None when it does not apply (the call is
then an uninterpreted function that may change whatever it gets by mutable reference).
"""
import re
import copy
from .terms import *
from .engine import OPT, RES, CF, NONE, MOVED, UNSIGNED, INTS, some, ok, err

MODELS = {}
ORD = 'std::cmp::Ordering'
SP = OPT + '.1.0'          # payload of Some
OKP = RES + '.0.0'
ERP = RES + '.1.0'


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def transparent(c):
    return c.ret(c.args[0])


for n in ('Deref::deref', 'DerefMut::deref_mut', 'String::as_str', 'String::as_bytes', 'str::as_bytes', 'str::as_str',
          'String::into_bytes', 'String::as_mut_str', 'Vec::as_slice', 'Vec::as_mut_slice', 'slice::to_vec', 'slice::into_vec',
          'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'hint::must_use', 'Arc::new', 'Box::new', 'Rc::new', 'Pin::new',
          'Pin::new_unchecked', 'IntoFuture::into_future', 'Cow::into_owned', 'Box::pin', 'Option::copied_', 'str::to_owned',
          'mem::drop_', 'hint::black_box', 'str::into_boxed_str', 'String::into_boxed_str', 'Vec::into_boxed_slice', 'Box::leak',
          'convert::identity', 'Arc::clone', 'BufReader::new', 'BufReader::with_capacity', 'Wrapping_', 'Cell::new_', 'Pin::as_mut',
          'Cow::Borrowed', 'ops::deref', 'Pin::get_unchecked_mut', 'AssertUnwindSafe::new', 'char::from_u32_', 'String::into_string',
          'From::from_', 'DateTime::to_owned'):
    MODELS[n] = transparent


@model('Deref::deref', 'DerefMut::deref_mut')
def deref(c):
    x = c.args[0]
    for _ in range(20):
        if x[0] == 'ref':
            y = c.E.read(c.st, x[1], x[2])
            if y[0] == 'ref':
                x = y
                continue
            if y[0] == 'gd' and y[2][0] == 'ref':
                return c.ret(y[2])
        break
    return c.ret(c.args[0])


def valcopy(c):
    return c.ret(c.d(0))


for n in ('ToOwned::to_owned', 'slice::to_owned', 'Vec::to_owned', 'Option::cloned', 'Option::copied', 'Result::cloned', 'Result::copied'):
    MODELS[n] = valcopy


@model('Clone::clone', 'str::to_string')
def clone(c):
    v = c.v(0)
    if v[0] == 'it':
        return c.ret(v)
    return c.ret(c.d(0))


@model('mem::drop', 'mem::forget')
def drop_(c):
    st = c.st
    if st.guards:
        st = st.copy()
        c.E.release(st, c.args[0])
    return c.ret(UNIT, st)


@model('mem::take', 'Option::take')
def take(c):
    v = c.v(0)
    st = c.st.copy()
    a = c.args[0]
    old = c.E.v(st, a)
    if a[0] == 'ref':
        ty = c.E.strip(c.atys[0])
        c.E.write(st, a[1], a[2], default_of(c, ty))
    return c.ret(old, st)


@model('mem::replace', 'Option::replace')
def replace(c):
    st = c.st.copy()
    a = c.args[0]
    old = c.E.v(st, a)
    new = c.args[1]
    if c.nm == 'Option::replace':
        new = some(new)
    if a[0] == 'ref':
        c.E.write(st, a[1], a[2], new)
    return c.ret(old, st)


@model('mem::swap')
def swap(c):
    a, b = c.args
    if a[0] != 'ref' or b[0] != 'ref':
        return None
    st = c.st.copy()
    x, y = c.E.read(st, a[1], a[2]), c.E.read(st, b[1], b[2])
    c.E.write(st, a[1], a[2], y)
    c.E.write(st, b[1], b[2], x)
    return c.ret(UNIT, st)


# ---- conversions ------------------------------------------------------------------------------------
STRY = {'str', 'std::string::String', 'String', 'std::borrow::Cow', 'alloc::string::String'}


def is_str(ty):
    while ty[0] == 'ref' or ty[0] == 'adt' and ty[1] in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc', 'std::borrow::Cow') and ty[2]:
        if ty[0] == 'adt' and ty[1] == 'std::borrow::Cow':
            return True
        ty = ty[2] if ty[0] == 'ref' else ty[2][0]
    return ty[0] in ('prim', 'adt', 'str') and ty[1] in STRY


def same_ty(a, b):
    return a == b


@model('Into::into', 'From::from')
def into(c):
    E = c.E
    src = c.atys[0]
    dst = c.dty
    return convert(c, c.args[0], src, dst)


def convert(c, x, src, dst):
    E = c.E
    if same_ty(src, dst) or is_str(src) and is_str(dst):
        return c.ret(E.deep(c.st, x) if is_str(src) else x)
    if dst[0] == 'adt' and dst[1] == OPT and (src[0] != 'adt' or src[1] != OPT):
        return c.ret(some(x))
    if dst[0] == 'adt' and dst[1] in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc'):
        return c.ret(x)
    if src == ('prim', 'char') and is_str(dst):
        return c.ret(cat(E.v(c.st, x)))
    if src[0] == 'prim' and dst[0] == 'prim' and dst[1] in INTS and src[1] in INTS:
        return c.ret(E.cast(c.st, x, src, dst, 'IntToInt'))
    if src[0] == 'prim' and dst[0] == 'prim' and src[1] == 'bool':
        return c.ret(mk_ite(E.v(c.st, x), I(1), I(0)))
    b = E.from_impl(src, dst)
    if b is not None:
        return E.inline(b, {}, c.st, [x], c.sp, None, dst)
    if is_str(src) and dst[0] == 'adt' and dst[1] in ('std::vec::Vec', 'std::path::PathBuf'):
        return c.ret(E.deep(c.st, x))
    t = ('app', 'from', S(E.tyhead(dst)), E.deep(c.st, x))
    E.tyhint.setdefault(t, dst)
    return c.ret(t)


@model('TryFrom::try_from', 'TryInto::try_into')
def try_from(c):
    E = c.E
    x = E.v(c.st, c.args[0])
    src, dst = c.atys[0], c.dty
    to = dst[2][0] if dst[0] == 'adt' and dst[2] else ('other', '?')
    if src[0] == 'prim' and to[0] == 'prim' and src[1] in INTS and to[1] in INTS:
        y = E.cast(c.st, x, src, to, 'IntToInt')
        if y == x and y[0] != 'app':
            return c.ret(ok(x))
        cond = ('app', 'fits', S(to[1]), x)
        cond = mk_eq(x, y)
        E.tyhint.setdefault(x, src)
        return E.branch(c.st, cond, lambda s: [('ok', s, ok(x))], lambda s: [('ok', s, err(('app', 'tryfromint')))])
    return None


# ---- defaults ---------------------------------------------------------------------------------------
EMPTYM = ('app', 'emptymap')
EMPTYV = ('arr', ())


def default_of(c, ty):
    E = c.E
    if ty[0] == 'prim':
        if ty[1] in INTS:
            return I(0)
        if ty[1] == 'bool':
            return F
        if ty[1] == 'str':
            return S('')
    if is_str(ty):
        return S('')
    if ty[0] == 'tuple':
        return ('tup', tuple(default_of(c, t) for t in ty[1])) if ty[1] else UNIT
    if ty[0] == 'adt':
        n = ty[1].split('::')[-1]
        if ty[1] == OPT:
            return NONE
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'IndexSet', 'IndexMap', 'DashMap'):
            return EMPTYM
        if n in ('Vec', 'VecDeque', 'BinaryHeap', 'LinkedList'):
            return EMPTYV
        if n in ('Arc', 'Box', 'Rc') and ty[2]:
            return default_of(c, ty[2][0])
        b = E.impls.get(('std::default::Default', ty[1], 'default'))
        if b is not None:
            outs = E.inline(b, {}, c.st, [], c.sp, None, ty)
            if len(outs) == 1 and outs[0][0] == 'ok':
                c.st.mem.update(outs[0][1].mem)
                return outs[0][2]
    t = ('app', 'default', S(E.tyhead(ty)))
    E.tyhint.setdefault(t, ty)
    return t


@model('Default::default')
def default(c):
    E = c.E
    if c.dty[0] == 'adt':
        b = E.impls.get(('std::default::Default', c.dty[1], 'default'))
        if b is not None:
            env = {}
            return E.inline(b, env, c.st, [], c.sp, None, c.dty)
    return c.ret(default_of(c, c.dty))


for n in ('HashMap::new', 'HashSet::new', 'BTreeMap::new', 'IndexSet::new', 'IndexMap::new', 'DashMap::new', 'BTreeSet::new',
          'HashMap::with_capacity', 'HashSet::with_capacity', 'IndexSet::with_capacity', 'DashMap::with_capacity'):
    MODELS[n] = lambda c: c.ret(EMPTYM)
for n in ('Vec::new', 'VecDeque::new'):
    MODELS[n] = lambda c: c.ret(EMPTYV)


@model('Vec::with_capacity', 'VecDeque::with_capacity', 'String::with_capacity')
def with_cap(c):
    E = c.E
    n = E.v(c.st, c.args[0])
    st = c.st
    if n[0] != 'int':
        st = st.copy()
        E.event(st, 'alloc', c.nm, (n,), None, c.sp)
    return c.ret(S('') if c.nm.startswith('String') else EMPTYV, st)


@model('Box::new_uninit')
def new_uninit(c):
    # what vec![..] expands to: a place that is filled in and then taken as a vector
    E = c.E
    st = c.st.copy()
    return c.ret(('ref', E.new_obj(st, ('uninit',), 'box'), ()), st)


@model('boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c):
    v = c.v(0)
    while v[0] in ('app', 'adt', 'tup'):
        if v[0] == 'app' and v[1] == 'with':
            v = v[4]
            continue
        fs = [x for x in (v[3] if v[0] == 'adt' else v[1] if v[0] == 'tup' else ()) if x != ('uninit',)]
        if len(fs) != 1:
            break
        v = fs[0]
    if v[0] != 'arr':
        return None
    return c.ret(('arr', tuple(c.E.deep(c.st, x) for x in v[1])))


@model('Vec::reserve', 'VecDeque::reserve', 'String::reserve', 'HashMap::reserve')
def reserve(c):
    st = c.st.copy()
    c.E.event(st, 'alloc', c.nm, (c.v(1),), None, c.sp)
    return c.ret(UNIT, st)


MODELS['String::new'] = lambda c: c.ret(S(''))


@model('vec::from_elem')
def from_elem(c):
    E = c.E
    n = c.v(1)
    st = c.st
    if n[0] == 'int' and n[1] <= 16:
        return c.ret(('arr', (c.d(0),) * n[1]))
    st = st.copy()
    E.event(st, 'alloc', c.nm, (n,), None, c.sp)
    return c.ret(('app', 'repeat', c.d(0), n), st)


# ---- Option / Result ----------------------------------------------------------------------------------
def payload(E, v, key):
    """payload of an Option/Result value known to be of that variant"""
    t = E.getfield(v, key)
    hint = E.tyhint.get(v)
    if t[0] == 'fld' and hint is not None and t not in E.tyhint:
        hint = E.strip(hint)
        if hint[0] == 'adt' and hint[2]:
            i = 0 if key in (SP, OKP) else 1
            if i < len(hint[2]):
                E.tyhint[t] = hint[2][i]
    return t


def optref(c, i=0):
    """(value, reference or None) of an Option argument, possibly behind references"""
    a = c.args[i]
    last = None
    while a[0] == 'ref':
        last = a
        a = c.E.read(c.st, a[1], a[2])
    if a[0] == 'gd':
        a = a[2]
    return a, last


def cases(c, st, o, somef, nonef, adt=OPT):
    E = c.E
    if o not in E.tyhint and o[0] in ('sym', 'fld', 'app', 'lv', 'el'):
        E.tyhint[o] = E.strip(c.atys[0])
    if adt == OPT:
        return E.branch(st, E.is_some(o), lambda s: somef(s, payload(E, resolve_ite(E, s, o, 1), SP)), nonef)
    return E.branch(st, E.is_ok(o), lambda s: somef(s, payload(E, resolve_ite(E, s, o, 0), OKP)),
                    lambda s: nonef(s, payload(E, resolve_ite(E, s, o, 1), ERP)))


def resolve_ite(E, st, o, variant):
    """drop the branches of an if-then-else value that are not of the given variant"""
    while o[0] == 'ite':
        t = E.truth(st.facts, o[1])
        if t is not None:
            o = o[2] if t else o[3]
            continue
        a, b = E.is_variant(o[2], variant), E.is_variant(o[3], variant)
        if a == F:
            o = o[3]
        elif b == F:
            o = o[2]
        else:
            break
    return o


def guarded(c, o):
    """Option/Result values holding a guard keep it when they are mapped"""
    return o


@model('Option::is_some')
def is_some_m(c):
    return c.ret(c.E.is_some(hint0(c)))


def hint0(c):
    v = c.v(0)
    if v not in c.E.tyhint and v[0] in ('sym', 'fld', 'app', 'lv', 'el'):
        c.E.tyhint[v] = c.E.strip(c.atys[0])
    return v


@model('Option::is_none')
def is_none_m(c):
    return c.ret(mk_not(c.E.is_some(hint0(c))))


@model('Result::is_ok')
def is_ok_m(c):
    return c.ret(c.E.is_ok(hint0(c)))


@model('Result::is_err')
def is_err_m(c):
    return c.ret(mk_not(c.E.is_ok(hint0(c))))


def call(c, st, f, args, dty=None):
    return c.E.call_value(st, f, args, dty, c.sp, c.fr)


def then(outs, f):
    """apply f(st, val) to the ok outcomes"""
    res = []
    for o in outs:
        if o[0] == 'ok':
            res += f(o[1], o[2])
        else:
            res.append(o)
    return res


def one(st, v):
    return [('ok', st, v)]


@model('Option::map')
def opt_map(c):
    o = c.v(0)
    return cases(c, c.st, o, lambda s, p: then(call(c, s, c.args[1], [p]), lambda s, v: one(s, some(v))),
                 lambda s: one(s, NONE))


@model('Option::and_then')
def opt_and_then(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[1], [p], c.dty), lambda s: one(s, NONE))


@model('Option::is_some_and', 'Option::is_none_or')
def opt_is_some_and(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[1], [p], c.dty),
                 lambda s: one(s, ('bool', c.nm.endswith('none_or'))))


@model('Option::filter')
def opt_filter(c):
    return cases(c, c.st, c.v(0), lambda s, p: then(call(c, s, c.args[1], [p]), lambda s, b: c.E.branch(
        s, b, lambda s: one(s, some(p)), lambda s: one(s, NONE))), lambda s: one(s, NONE))


@model('Option::or_else')
def opt_or_else(c):
    o = c.v(0)
    return cases(c, c.st, o, lambda s, p: one(s, some(p)), lambda s: call(c, s, c.args[1], [], c.dty))


@model('Option::or')
def opt_or(c):
    o = c.v(0)
    return cases(c, c.st, o, lambda s, p: one(s, some(p)), lambda s: one(s, c.args[1]))


@model('Option::and')
def opt_and(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, c.args[1]), lambda s: one(s, NONE))


@model('Option::xor')
def opt_xor(c):
    return None


@model('Option::unwrap_or')
def opt_unwrap_or(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, p), lambda s: one(s, c.args[1]))


@model('Option::unwrap_or_else')
def opt_unwrap_or_else(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, p), lambda s: call(c, s, c.args[1], [], c.dty))


@model('Option::unwrap_or_default')
def opt_unwrap_or_default(c):
    def d(s):
        c.st = s
        return default(c)
    return cases(c, c.st, c.v(0), lambda s, p: one(s, p), d)


@model('Option::ok_or')
def opt_ok_or(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, ok(p)), lambda s: one(s, err(c.args[1])))


@model('Option::ok_or_else')
def opt_ok_or_else(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, ok(p)),
                 lambda s: then(call(c, s, c.args[1], []), lambda s, v: one(s, err(v))))


@model('Option::map_or')
def opt_map_or(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[2], [p], c.dty), lambda s: one(s, c.args[1]))


@model('Option::map_or_else')
def opt_map_or_else(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[2], [p], c.dty),
                 lambda s: call(c, s, c.args[1], [], c.dty))


@model('Option::as_ref', 'Option::as_deref', 'Option::as_mut', 'Option::as_deref_mut', 'Result::as_ref', 'Result::as_mut', 'Result::as_deref')
def opt_as_ref(c):
    o, r = optref(c)
    if r is None:
        return c.ret(o)
    isopt = c.nm.startswith('Option')
    if c.nm.endswith('mut'):
        if isopt:
            return cases(c, c.st, o, lambda s, p: one(s, some(('ref', r[1], r[2] + (SP,)))), lambda s: one(s, NONE))
        return cases(c, c.st, o, lambda s, p: one(s, ok(('ref', r[1], r[2] + (OKP,)))),
                     lambda s, p: one(s, err(('ref', r[1], r[2] + (ERP,)))), RES)
    if o[0] == 'adt':
        # keep references to the place for later clones of pinned parts
        if o[3]:
            key = '%s.%d.0' % (o[1], o[2])
            return c.ret(('adt', o[1], o[2], (('ref', r[1], r[2] + (key,)),)))
    return c.ret(o)


@model('Option::insert', 'Option::get_or_insert', 'Option::get_or_insert_with')
def opt_insert(c):
    a = c.args[0]
    if a[0] != 'ref':
        return None
    E = c.E
    while E.read(c.st, a[1], a[2])[0] == 'ref':
        a = E.read(c.st, a[1], a[2])
    r = ('ref', a[1], a[2] + (SP,))

    def put(s, v):
        s = s.copy()
        E.write(s, a[1], a[2], some(v))
        return one(s, r)
    if c.nm == 'Option::insert':
        return put(c.st, c.args[1])
    o = E.read(c.st, a[1], a[2])

    def none(s):
        if c.nm == 'Option::get_or_insert':
            return put(s, c.args[1])
        return then(call(c, s, c.args[1], []), put)
    return cases(c, c.st, o, lambda s, p: one(s, r), none)


@model('Option::flatten')
def opt_flatten(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, c.E.v(s, p) if p[0] == 'ref' else p), lambda s: one(s, NONE))


@model('Option::zip')
def opt_zip(c):
    E = c.E
    o2 = c.v(1)
    return cases(c, c.st, c.v(0), lambda s, p: E.branch(s, E.is_some(o2), lambda s: one(s, some(('tup', (p, payload(E, o2, SP))))),
                                                        lambda s: one(s, NONE)), lambda s: one(s, NONE))


@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def opt_unwrap(c):
    o = c.v(0)
    msg = c.args[1:] if c.nm.endswith('expect') else ()
    return cases(c, c.st, o, lambda s, p: one(s, p), lambda s: [c.E.panic(s, c.nm, c.sp, (o,) + tuple(msg))])


@model('Result::unwrap', 'Result::expect')
def res_unwrap(c):
    o = c.v(0)
    msg = c.args[1:] if c.nm.endswith('expect') else ()
    return cases(c, c.st, o, lambda s, p: one(s, p), lambda s, p: [c.E.panic(s, c.nm, c.sp, (o,) + tuple(msg))], RES)


@model('Result::unwrap_err', 'Result::expect_err')
def res_unwrap_err(c):
    o = c.v(0)
    return cases(c, c.st, o, lambda s, p: [c.E.panic(s, c.nm, c.sp, (o,))], lambda s, p: one(s, p), RES)


@model('Result::map')
def res_map(c):
    return cases(c, c.st, c.v(0), lambda s, p: then(call(c, s, c.args[1], [p]), lambda s, v: one(s, ok(v))),
                 lambda s, p: one(s, err(p)), RES)


@model('Result::map_err')
def res_map_err(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, ok(p)),
                 lambda s, p: then(call(c, s, c.args[1], [p]), lambda s, v: one(s, err(v))), RES)


@model('Result::and_then')
def res_and_then(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[1], [p], c.dty), lambda s, p: one(s, err(p)), RES)


@model('Result::or_else')
def res_or_else(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, ok(p)), lambda s, p: call(c, s, c.args[1], [p], c.dty), RES)


@model('Result::and')
def res_and(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, c.args[1]), lambda s, p: one(s, err(p)), RES)


@model('Result::ok')
def res_ok(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, some(p)), lambda s, p: one(s, NONE), RES)


@model('Result::err')
def res_err(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, NONE), lambda s, p: one(s, some(p)), RES)


@model('Result::unwrap_or')
def res_unwrap_or(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, p), lambda s, p: one(s, c.args[1]), RES)


@model('Result::unwrap_or_else')
def res_unwrap_or_else(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, p), lambda s, p: call(c, s, c.args[1], [p], c.dty), RES)


@model('Result::unwrap_or_default')
def res_unwrap_or_default(c):
    def d(s, p):
        c.st = s
        return default(c)
    return cases(c, c.st, c.v(0), lambda s, p: one(s, p), d, RES)


@model('Result::map_or')
def res_map_or(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[2], [p], c.dty), lambda s, p: one(s, c.args[1]), RES)


@model('Result::map_or_else')
def res_map_or_else(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[2], [p], c.dty), lambda s, p: call(c, s, c.args[1], [p], c.dty), RES)


@model('Result::is_ok_and')
def res_is_ok_and(c):
    return cases(c, c.st, c.v(0), lambda s, p: call(c, s, c.args[1], [p], c.dty), lambda s, p: one(s, F), RES)


@model('Result::is_err_and')
def res_is_err_and(c):
    return cases(c, c.st, c.v(0), lambda s, p: one(s, F), lambda s, p: call(c, s, c.args[1], [p], c.dty), RES)


@model('Option::transpose')
def opt_transpose(c):
    E = c.E

    def sm(s, p):
        p = E.v(s, p)
        return E.branch(s, E.is_ok(p), lambda s: one(s, ok(some(payload(E, resolve_ite(E, s, p, 0), OKP)))),
                        lambda s: one(s, err(payload(E, resolve_ite(E, s, p, 1), ERP))))
    return cases(c, c.st, c.v(0), sm, lambda s: one(s, ok(NONE)))


@model('bool::then')
def bool_then(c):
    return c.E.branch(c.st, c.v(0), lambda s: then(call(c, s, c.args[1], []), lambda s, v: one(s, some(v))), lambda s: one(s, NONE))


@model('bool::then_some')
def bool_then_some(c):
    return c.E.branch(c.st, c.v(0), lambda s: one(s, some(c.args[1])), lambda s: one(s, NONE))


@model('Try::branch')
def try_branch(c):
    o = c.v(0)
    t = c.E.strip(c.atys[0])
    if t[0] == 'adt' and t[1] == OPT:
        return cases(c, c.st, o, lambda s, p: one(s, ('adt', CF, 0, (p,))), lambda s: one(s, ('adt', CF, 1, (NONE,))))
    return cases(c, c.st, o, lambda s, p: one(s, ('adt', CF, 0, (p,))),
                 lambda s, p: one(s, ('adt', CF, 1, (err(p),))), RES)


@model('FromResidual::from_residual')
def from_residual(c):
    E = c.E
    r = c.v(0)
    if r == NONE or c.dty[0] == 'adt' and c.dty[1] == OPT:
        return c.ret(NONE)
    p = payload(E, r, ERP)
    st = c.atys[0]
    src = st[2][1] if st[0] == 'adt' and len(st[2]) > 1 else ('other', '?')
    dst = c.dty[2][1] if c.dty[0] == 'adt' and len(c.dty[2]) > 1 else ('other', '?')
    return then(convert(c, p, src, dst), lambda s, v: one(s, err(v)))


MODELS['Try::from_output'] = lambda c: c.ret(ok(c.args[0]) if c.dty[0] == 'adt' and c.dty[1] == RES else some(c.args[0]))


# ---- comparisons ----------------------------------------------------------------------------------------
@model('PartialEq::eq', 'PartialEq::ne')
def eq(c):
    E = c.E
    a, b = c.d(0), c.d(1)
    for x, i in ((a, 0), (b, 1)):
        if x not in E.tyhint and x[0] in ('sym', 'fld', 'app', 'lv', 'el'):
            E.tyhint[x] = E.strip(c.atys[i])
    t = sem_eq(E, a, b)
    return c.ret(t if c.nm.endswith('eq') else mk_not(t))


def sem_eq(E, a, b):
    for x, y in ((a, b), (b, a)):
        if y == NONE:
            return mk_not(E.is_some(x))
        if y[0] == 'adt' and y[1] == OPT and y[2] == 1 and x[0] != 'adt':
            return mk_and(E.is_some(x), sem_eq(E, payload(E, x, SP), y[3][0]))
        if y[0] == 'arr' and y[1] == () and x[0] != 'arr':
            return mk_eq(('app', 'len', x), I(0))
    return mk_eq(a, b)


CMP = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def cmp_ops(c):
    t = c.E.strip(c.atys[0])
    isint = t[0] == 'prim' and t[1] in INTS
    return c.ret(c.E.compare(CMP[c.nm.split('::')[-1]], c.d(0), c.d(1), isint))


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def cmp(c):
    v = ('app', 'cmp', c.d(0), c.d(1))
    c.E.tyhint.setdefault(v, ('adt', ORD, ()))
    return c.ret(v if c.nm == 'Ord::cmp' else some(v))


@model('Ord::max', 'cmp::max', 'Ord::min', 'cmp::min')
def maxmin(c):
    E = c.E
    t = E.strip(c.atys[0])
    isint = t[0] == 'prim' and t[1] in INTS
    a, b = c.v(0), c.v(1)
    return c.ret(mk_ite(E.compare('Gt' if 'max' in c.nm else 'Lt', a, b, isint), a, b))


@model('RangeInclusive::contains', 'Range::contains', 'RangeBounds::contains')
def range_contains(c):
    E = c.E
    r = c.v(0)
    x = c.d(1)
    t = E.strip(c.atys[1])
    isint = t[0] == 'prim' and t[1] in INTS
    if r[0] == 'adt' and r[1].endswith('RangeInclusive') or r[0] == 'rangeincl':
        a, b = (r[3][0], r[3][1])
        return c.ret(mk_and(E.compare('Le', E.deep(c.st, a), x, isint), E.compare('Le', x, E.deep(c.st, b), isint)))
    if r[0] == 'adt' and r[1].endswith('::Range'):
        a, b = r[3]
        return c.ret(mk_and(E.compare('Le', E.deep(c.st, a), x, isint), E.compare('Lt', x, E.deep(c.st, b), isint)))
    return None


@model('RangeInclusive::new')
def range_incl(c):
    return c.ret(('adt', 'std::ops::RangeInclusive', 0, (c.args[0], c.args[1], F)))


@model('usize::checked_sub', 'u32::checked_sub', 'num::checked_sub', 'u64::checked_sub')
def checked_sub(c):
    a, b = c.v(0), c.v(1)
    return c.E.branch(c.st, mk_not(pos(sub(b, a))), lambda s: one(s, some(sub(a, b))), lambda s: one(s, NONE))


@model('usize::saturating_sub', 'u32::saturating_sub', 'num::saturating_sub', 'u64::saturating_sub')
def saturating_sub(c):
    a, b = c.v(0), c.v(1)
    return c.ret(mk_ite(pos(sub(a, b)), sub(a, b), I(0)))


@model('num::wrapping_add', 'u32::wrapping_add', 'usize::wrapping_add', 'u64::wrapping_add', 'num::saturating_add', 'usize::saturating_add', 'u32::saturating_add')
def wrapping_add(c):
    t = c.E.strip(c.atys[0])
    if t[0] == 'prim' and t[1] in ('u8', 'i8', 'u16', 'i16'):
        v = ('app', c.nm, c.v(0), c.v(1))
        c.E.tyhint.setdefault(v, t)
        return c.ret(v)
    return c.ret(add(c.v(0), c.v(1)))


@model('ops::Add::add', 'Add::add')
def add_op(c):
    t = c.E.strip(c.atys[0])
    if is_str(t):
        return c.ret(cat(c.d(0), c.d(1)))
    if t[0] == 'prim' and t[1] in INTS:
        return c.ret(add(c.v(0), c.v(1)))
    return None


@model('AddAssign::add_assign')
def add_assign(c):
    t = c.E.strip(c.atys[0])
    a = loc(c)
    if a is None:
        return None
    st = c.st.copy()
    if is_str(t):
        c.E.write(st, a[1], a[2], cat(c.d(0), c.d(1)))
    elif t[0] == 'prim' and t[1] in INTS:
        c.E.write(st, a[1], a[2], add(c.v(0), c.v(1)))
    else:
        return None
    return c.ret(UNIT, st)


@model('Rem::rem')
def rem_op(c):
    v = ('app', 'rem', c.v(0), c.v(1))
    c.E.tyhint.setdefault(v, c.dty)
    return c.ret(v)


@model('u32::rem_euclid', 'usize::rem_euclid')
def rem_e(c):
    return rem_op(c)


@model('Hash::hash', 'str::hash')
def hash_(c):
    st = c.st.copy()
    c.E.event(st, 'hash', 'hash', (c.args[0],), None, c.sp)
    return c.ret(UNIT, st)


# ---- strings ----------------------------------------------------------------------------------------------
def pat(c, i):
    p = c.v(i)
    if p[0] == 'char':
        return S(p[1])
    if p[0] == 'arr' and all(x[0] == 'int' for x in p[1]):
        return S(''.join(chr(x[1]) for x in p[1]))
    if p[0] == 'arr' and all(x[0] == 'char' for x in p[1]):
        return ('app', 'oneof') + p[1]
    if p[0] == 'int':
        return S(chr(p[1]))
    return c.E.deep(c.st, p)


@model('str::is_empty', 'String::is_empty')
def str_is_empty(c):
    return c.ret(mk_eq(c.d(0), S('')))


def starts(s, p):
    if s[0] == 'str' and p[0] == 'str':
        return ('bool', s[1].startswith(p[1]))
    if p == S(''):
        return T
    if s[0] == 'app' and s[1] == 'trim_start' and p[0] == 'str' and p[1].strip() == p[1]:
        # what is trimmed at the end makes no difference
        s = ('app', 'trim', s[2])
    if s[0] == 'app' and s[1] == 'cat' and s[2][0] == 'str' and p[0] == 'str':
        if s[2][1].startswith(p[1]):
            return T
        if not p[1].startswith(s[2][1]):
            return F
    if s[0] == 'app' and s[1] == 'drop' and s[3][0] == 'str' and p[0] == 'str':
        # prefix of the rest after a prefix: prefix of the whole
        return ('pre', s[2], S(s[3][1] + p[1]))
    if s[0] == 'app' and s[1] == 'drop':
        return ('pre', s[2], cat(s[3], p))
    return ('pre', s, p)


def dropped(s, p):
    if s[0] == 'str' and p[0] == 'str':
        return S(s[1][len(p[1]):])
    if s[0] == 'app' and s[1] == 'drop':
        return ('app', 'drop', s[2], cat(s[3], p))
    return ('app', 'drop', s, p)


@model('str::starts_with', 'slice::starts_with')
def starts_with(c):
    if c.E.v(c.st, c.args[1])[0] in ('clo', 'fn'):
        return None
    return c.ret(starts(c.d(0), pat(c, 1)))


@model('str::ends_with', 'slice::ends_with')
def ends_with(c):
    s, p = c.d(0), pat(c, 1)
    if s[0] == 'str' and p[0] == 'str':
        return c.ret(('bool', s[1].endswith(p[1])))
    if s[0] == 'app' and s[1] == 'trim_end' and p[0] == 'str' and p[1] and p[1].strip() == p[1]:
        s = ('app', 'trim', s[2])
    return c.ret(('suf', s, p))


@model('str::contains')
def str_contains(c):
    s, p = c.d(0), pat(c, 1)
    if s[0] == 'str' and p[0] == 'str':
        return c.ret(('bool', p[1] in s[1]))
    return c.ret(('ctn', s, p))


@model('str::strip_prefix', 'slice::strip_prefix')
def strip_prefix(c):
    s, p = c.d(0), pat(c, 1)
    return c.E.branch(c.st, split_pre(starts(s, p)), lambda st: one(st, some(dropped(s, p))), lambda st: one(st, NONE))


def split_pre(t):
    return t


@model('str::strip_suffix')
def strip_suffix(c):
    s, p = c.d(0), pat(c, 1)
    return c.E.branch(c.st, ('suf', s, p), lambda st: one(st, some(('app', 'dropend', s, p))), lambda st: one(st, NONE))


@model('str::split_once', 'str::rsplit_once')
def split_once(c):
    s, p = c.d(0), pat(c, 1)
    r = '' if c.nm == 'str::split_once' else 'r'
    if s[0] == 'app' and s[1] == 'cat' and p[0] == 'str' and not r and s[2][0] == 'str' and p[1] in s[2][1]:
        i = s[2][1].index(p[1])
        return c.ret(some(('tup', (S(s[2][1][:i]), cat(S(s[2][1][i + len(p[1]):]), *s[3:])))))
    return c.E.branch(c.st, ('ctn', s, p),
                      lambda st: one(st, some(('tup', (('app', r + 'before', s, p), ('app', r + 'after', s, p))))),
                      lambda st: one(st, NONE))


@model('str::find', 'str::rfind')
def str_find(c):
    s, p = c.d(0), pat(c, 1)
    if p[0] in ('clo', 'fn'):
        return None
    t = ('app', c.nm.split('::')[-1], s, p)
    c.E.tyhint.setdefault(t, ('prim', 'usize'))
    return c.E.branch(c.st, ('ctn', s, p), lambda st: one(st, some(t)), lambda st: one(st, NONE))


@model('str::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case')
def eqi(c):
    a, b = c.d(0), c.d(1)
    if a[0] == 'str':
        a = S(a[1].lower())
    if b[0] == 'str':
        b = S(b[1].lower())
    if a[0] == b[0] == 'str':
        return c.ret(('bool', a == b))
    return c.ret(('eqi',) + tuple(sorted((a, b), key=repr)))


@model('str::trim', 'str::trim_start', 'str::trim_end', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase')
def trim(c):
    s = c.d(0)
    op = c.nm.split('::')[-1].replace('ascii_', '')
    if s[0] == 'str':
        m = {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip, 'to_lowercase': str.lower, 'to_uppercase': str.upper}
        return c.ret(S(m[op](s[1])))
    if op == 'trim' and s[0] == 'app' and s[1] == 'trim':
        return c.ret(s)
    return c.ret(('app', op, s))


@model('str::trim_start_matches', 'str::trim_end_matches', 'str::trim_matches')
def trim_m(c):
    return c.ret(('app', c.nm.split('::')[-1], c.d(0), pat(c, 1)))


@model('str::replace', 'str::replacen')
def str_replace(c):
    return c.ret(('app', 'replace') + tuple(pat(c, i) for i in range(len(c.args))))


@model('str::from_utf8', 'String::from_utf8')
def from_utf8(c):
    s = c.d(0)
    cond = ('app', 'isutf8', s)
    c.E.tyhint.setdefault(cond, ('prim', 'bool'))
    return c.E.branch(c.st, cond, lambda st: one(st, ok(s)), lambda st: one(st, err(('app', 'utf8err', s))))


@model('String::from_utf8_lossy')
def lossy(c):
    return c.ret(('app', 'lossy', c.d(0)))


def loc(c, i=0):
    a = c.args[i]
    if a[0] != 'ref':
        return None
    while True:
        x = c.E.read(c.st, a[1], a[2])
        if x[0] != 'ref':
            return a
        a = x


@model('String::push', 'String::push_str', 'String::extend')
def push_str(c):
    a = loc(c)
    if a is None:
        return None
    st = c.st.copy()
    c.E.write(st, a[1], a[2], cat(c.E.read(st, a[1], a[2]), c.d(1)))
    return c.ret(UNIT, st)


@model('str::parse', 'FromStr::from_str')
def parse(c):
    E = c.E
    s = c.d(0)
    ty = c.dty[2][0] if c.dty[0] == 'adt' and c.dty[2] else ('other', '?')
    if is_str(ty):
        return c.ret(ok(s))
    b = E.impls.get(('std::str::FromStr', E.tyhead(ty), 'from_str'))
    if b is not None:
        if b['id'] in E.opaque:
            c.nm = b['id']
            return E.opaque_call(c)
        return E.inline(b, {}, c.st, [c.args[0]], c.sp, None, c.dty)
    t = ('app', 'parse', S(E.tyhead(ty)), s)
    E.tyhint.setdefault(t, c.dty)
    if s[0] == 'str' and ty[0] == 'prim' and ty[1] in INTS and s[1].isdigit() and len(s[1]) < 9:
        return c.ret(ok(I(int(s[1]))))
    if ty[0] == 'adt' and ty[1].split('::')[-1] in ('Ipv4Addr', 'IpAddr') and s[0] == 'str' and IPV4.fullmatch(s[1]):
        return c.ret(ok(('fld', t, OKP)))
    if ty[0] == 'adt' and ty[1].split('::')[-1] in ('SocketAddr', 'SocketAddrV4') and s[:2] == ('app', 'cat') and len(s) == 4 and s[2][0] == 'str' \
            and s[2][1].endswith(':') and IPV4.fullmatch(s[2][1][:-1]) and s[3][:2] == ('app', 'dec') and s[3][2][0] == 'fld' and s[3][2][1][:3] == ('app', 'parse', S('u16')):
        # an address and a port number
        return c.ret(ok(('fld', t, OKP)))
    return c.ret(t)


IPV4 = re.compile(r'(25[0-5]|2[0-4]\d|1?\d?\d)(\.(25[0-5]|2[0-4]\d|1?\d?\d)){3}')


@model('str::repeat')
def str_repeat(c):
    return c.ret(('app', 'strrepeat', c.d(0), c.d(1)))


@model('slice::concat', 'slice::join', 'Join::join', 'Concat::concat')
def concat(c):
    v = c.v(0)
    sep = pat(c, 1) if len(c.args) > 1 else S('')
    if v[0] == 'arr':
        out = []
        for i, x in enumerate(v[1]):
            if i and sep != S(''):
                out.append(sep)
            out.append(c.E.deep(c.st, x))
        return c.ret(cat(*out))
    d = c.d(0)
    if sep == S('') and d[0] == 'app' and d[1] == 'coll' and E_is_text(c):
        return syn_loop(c, d[2], S(''), lambda s, acc, x: one(s, cat(acc, c.E.deep(s, x))), lambda s, acc: one(s, acc))
    return c.ret(('app', 'joined', d, sep))


def E_is_text(c):
    return c.dty[:2] == ('adt', 'std::string::String') or c.dty[:2] == ('adt', 'alloc::string::String')


# ---- formatting -------------------------------------------------------------------------------------------
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def arg_display(c):
    t = c.E.strip(c.atys[0])
    return c.ret(('fmtarg', c.nm.split('_')[1], c.args[0], t))


def display(c, st, x, ty, kind='display'):
    """outcomes whose value is the text of x"""
    E = c.E
    while ty[0] == 'ref':
        ty = ty[2]
    if ty[0] == 'adt' and ty[1] in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc', 'dashmap::mapref::one::Ref') and ty[2]:
        ty = ty[2][-1]
    v = E.v(st, x)
    if kind == 'display':
        if is_str(ty):
            return one(st, E.deep(st, v))
        if ty[0] == 'prim':
            if v[0] == 'int':
                return one(st, S(str(v[1])))
            if v[0] == 'char' or ty[1] == 'char':
                return one(st, cat(v))
            if ty[1] in INTS:
                return one(st, ('app', 'dec', v))
            if ty[1] == 'bool':
                return one(st, mk_ite(v, S('true'), S('false')))
        b = E.impls.get(('std::fmt::Display', E.tyhead(ty), 'fmt'))
        if b is not None and b['id'] not in E.opaque:
            s = st.copy()
            if x[0] != 'ref':
                x = ('ref', E.new_obj(s, x, 'disp'), ())
            o = E.new_obj(s, S(''), 'fmtbuf')
            outs = E.inline(b, E.implenv(b, ty), s, [x, ('ref', o, ())], c.sp)
            res = []
            for q in outs:
                if q[0] == 'ok':
                    res.append(('ok', q[1], q[1].mem.get(o, S(''))))
                else:
                    res.append(q)
            return E.merge(st, [(q[0], popobj(q[1], o, st), q[2]) for q in res])
    return one(st, ('app', 'text' if kind == 'display' else 'debug', E.deep(st, v)))


def popobj(s, o, pre):
    s.mem = {k: v for k, v in s.mem.items() if k != o}
    return s


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::new_v1_formatted')
def arguments_new(c):
    E = c.E
    tpl = c.v(0)
    if c.nm != 'Arguments::new' or tpl[0] != 'arr':
        return c.ret(('app', 'text', *[c.d(i) for i in range(len(c.args))]))
    by = [x[1] for x in tpl[1]]
    args = c.v(1) if len(c.args) > 1 else ('arr', ())
    args = [E.v(c.st, a) for a in args[1]]
    pieces = []
    i = 0
    nxt = 0
    while i < len(by):
        b = by[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            pieces.append(S(bytes(by[i:i + b]).decode('utf-8', 'replace')))
            i += b
        elif b == 0x80:
            n = by[i] | by[i + 1] << 8
            i += 2
            pieces.append(S(bytes(by[i:i + n]).decode('utf-8', 'replace')))
            i += n
        else:
            flags = width = prec = None
            ix = nxt
            if b & 1:
                flags = by[i] | by[i + 1] << 8 | by[i + 2] << 16 | by[i + 3] << 24
                i += 4
            if b & 2:
                width = by[i] | by[i + 1] << 8
                i += 2
            if b & 4:
                prec = by[i] | by[i + 1] << 8
                i += 2
            if b & 8:
                ix = by[i] | by[i + 1] << 8
                i += 2
            if b & 16:
                width = ('arg', width)
            if b & 32:
                prec = ('arg', prec)
            nxt = ix + 1
            pieces.append(('ph', ix, flags, width, prec))
    outs = [(c.st, ())]
    final = []
    for p in pieces:
        new = []
        for st, acc in outs:
            if p[0] == 'str':
                new.append((st, acc + (p,)))
                continue
            a = args[p[1]] if p[1] < len(args) else ('app', '?')
            if a[0] == 'fmtarg':
                rs = display(c, st, a[2], a[3], a[1])
            else:
                rs = one(st, ('app', 'text', E.deep(st, a)))
            for r in rs:
                if r[0] != 'ok':
                    final.append(r)
                    continue
                v = r[2]
                if p[2] is not None or p[3] is not None or p[4] is not None:
                    v = spec(v, p[2], p[3], p[4], a[3] if a[0] == 'fmtarg' else None)
                new.append((r[1], acc + (v,)))
        outs = new
    return E.merge(c.st, [('ok', st, cat(*acc)) for st, acc in outs]) + final


def spec(v, flags, width, prec, ty):
    fill = chr(flags & 0x1fffff) if flags is not None else ' '
    zero = bool(flags is not None and flags & (1 << 24))
    align = (flags >> 29) & 3 if flags is not None else 3
    num = ty is not None and ty[0] == 'prim' and ty[1] in INTS
    if zero and num:
        fill, align = '0', 1
    if align == 3:
        align = 1 if num else 0
    if width is None or width == 0:
        if prec is None:
            return v
        width = 0
    return ('app', 'pad', S(fill), S({0: 'left', 1: 'right', 2: 'center'}[align]),
            I(width) if isinstance(width, int) else S(str(width)), S(str(prec)), v)


@model('Arguments::from_str', 'Arguments::as_str_')
def arguments_str(c):
    return c.ret(c.d(0))


MODELS['fmt::format'] = lambda c: c.ret(c.v(0))


@model('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::pad', 'Write::write_str', 'Write::write_fmt', 'Formatter::write_char', 'Write::write_char', 'fmt::write')
def write_fmt(c):
    a = loc(c)
    if a is None:
        return None
    t = c.E.strip(c.atys[0])
    if c.nm.startswith('Write') and not (is_str(t) or t[0] == 'adt' and t[1].endswith('Formatter')) or t[0] == 'dyn':
        return None
    st = c.st.copy()
    old = c.E.read(st, a[1], a[2])
    c.E.write(st, a[1], a[2], cat(old, c.d(1)))
    return c.ret(ok(UNIT), st)


@model('Display::fmt', 'Debug::fmt')
def display_fmt(c):
    r = loc(c, 1)
    if r is None or c.nm == 'Debug::fmt':
        return None

    def fin(s, v):
        s = s.copy()
        c.E.write(s, r[1], r[2], cat(c.E.read(s, r[1], r[2]), v))
        return one(s, ok(UNIT))
    return then(display(c, c.st, c.args[0], c.atys[0]), fin)


@model('ToString::to_string')
def to_string(c):
    return display(c, c.st, c.args[0], c.atys[0])


@model('io::_print', 'io::_eprint')
def print_(c):
    return c.ret(UNIT)


@model('panicking::panic_fmt', 'panicking::panic', 'panicking::panic_display', 'panicking::panic_explicit', 'panicking::unreachable_display',
       'rt::begin_panic', 'panicking::assert_failed', 'option::expect_failed', 'result::unwrap_failed', 'process::exit', 'process::abort', 'panicking::panic_str_2015',
       'option::unwrap_failed', 'panicking::panic_const')
def panic_(c):
    return [c.E.panic(c.st, c.nm, c.sp, tuple(c.d(i) for i in range(len(c.args))))]


# ---- maps and sets ------------------------------------------------------------------------------------------
def mapval(c, i=0):
    """the current map term of a map argument, without resolving pinned elements"""
    return c.E.v(c.st, c.args[i])


def keyof(c, i):
    return c.E.deep(c.st, c.args[i])


def eqk(E, st, a, b):
    return E.truth(st.facts, sem_eq(E, a, b))


def lookup(E, st, m, k, opt_ty=None):
    """Option<value or reference> of key k in map m"""
    if m[0] == 'gd':
        m = m[2]
    if m == EMPTYM:
        return NONE
    if m[0] == 'els':
        for key, o, init in reversed(m[2]):
            e = eqk(E, st, key, k)
            if e is True:
                return some(('ref', o, ()))
            if e is None:
                return mk_ite(sem_eq(E, key, k), some(('ref', o, ())), lookup_rest(E, st, m, k, key, opt_ty))
        return lookup(E, st, m[1], k, opt_ty)
    if m[0] == 'app' and m[1] == 'ins':
        e = eqk(E, st, m[3], k)
        if e is True:
            return some(m[4])
        if e is False:
            return lookup(E, st, m[2], k, opt_ty)
        return mk_ite(sem_eq(E, m[3], k), some(m[4]), lookup(E, st, m[2], k, opt_ty))
    if m[0] == 'app' and m[1] == 'rem_key':
        e = eqk(E, st, m[3], k)
        if e is True:
            return NONE
        rest = lookup(E, st, m[2], k, opt_ty)
        return rest if e is False else mk_ite(sem_eq(E, m[3], k), NONE, rest)
    if m[0] == 'ite':
        return mk_ite(m[1], lookup(E, st, m[2], k, opt_ty), lookup(E, st, m[3], k, opt_ty))
    if m[0] == 'app' and m[1] == 'over':
        new = lookup(E, st, m[3], k, opt_ty)
        there = E.is_some(new)
        x = E.truth(st.facts, there)
        if x is not None:
            return new if x else lookup(E, st, m[2], k, opt_ty)
        return mk_ite(there, new, lookup(E, st, m[2], k, opt_ty))
    t = ('app', 'get', m, k)
    if opt_ty is not None:
        E.tyhint.setdefault(t, opt_ty)
    else:
        E.tyhint.setdefault(t, ('adt', OPT, ()))
    return t


def lookup_rest(E, st, m, k, key, opt_ty):
    pins = tuple(p for p in m[2] if p[0] != key)
    return lookup(E, st, ('els', m[1], pins) if pins else m[1], k, opt_ty)


def opt_of_map(c):
    t = c.E.strip(c.atys[0])
    if t[0] == 'adt' and len(t[2]) >= 2:
        return ('adt', OPT, (t[2][1],))
    return None


@model('HashMap::get', 'BTreeMap::get', 'IndexMap::get')
def map_get(c):
    r = lookup(c.E, c.st, mapval(c), keyof(c, 1), opt_of_map(c))
    if r[0] == 'app':
        p = payload(c.E, r, SP)
    return c.ret(r)


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'IndexMap::contains_key')
def map_contains(c):
    return c.ret(c.E.is_some(lookup(c.E, c.st, mapval(c), keyof(c, 1), opt_of_map(c))))


@model('HashMap::insert', 'BTreeMap::insert', 'IndexMap::insert')
def map_insert(c):
    E = c.E
    a = loc(c)
    k = keyof(c, 1)
    v = c.args[2]
    dv = E.deep(c.st, v)
    m = mapval(c)
    old = lookup(E, c.st, m, k, opt_of_map(c))
    st = c.st.copy()
    E.event(st, 'insert', c.nm, (m, k, dv), old, c.sp, raw=(a or c.args[0], c.args[1], v))
    if a is not None:
        E.write(st, a[1], a[2], ('app', 'ins', E.read(st, a[1], a[2]), k, dv if not has_ref(v) else dv))
    return c.ret(E.deep(st, old) if old[0] != 'adt' else old, st)


def has_ref(v):
    return any(x[0] == 'ref' for x in subterms(v))


@model('HashMap::remove', 'BTreeMap::remove', 'HashMap::remove_entry')
def map_remove(c):
    E = c.E
    a = loc(c)
    k = keyof(c, 1)
    m = mapval(c)
    old = lookup(E, c.st, m, k, opt_of_map(c))
    st = c.st.copy()
    E.event(st, 'remove', c.nm, (m, k), old, c.sp, raw=(a or c.args[0],) + tuple(c.args[1:]))
    if a is not None:
        E.write(st, a[1], a[2], ('app', 'rem_key', E.deep(st, m), k))
    return c.ret(old, st)


@model('HashMap::clear', 'HashSet::clear', 'BTreeMap::clear')
def map_clear(c):
    a = loc(c)
    if a is None:
        return None
    st = c.st.copy()
    c.E.event(st, 'clear', c.nm, (mapval(c),), None, c.sp, raw=(a,))
    c.E.write(st, a[1], a[2], EMPTYM)
    return c.ret(UNIT, st)


@model('HashMap::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty')
def map_is_empty(c):
    m = c.d(0)
    if m == EMPTYM:
        return c.ret(T)
    if m[0] == 'app' and m[1] == 'ins':
        return c.ret(F)
    return c.ret(mk_eq(('app', 'len', m), I(0)))


@model('HashMap::entry', 'BTreeMap::entry', 'IndexMap::entry')
def map_entry(c):
    a = loc(c)
    if a is None:
        return None
    return c.ret(('ent', a[1], a[2], keyof(c, 1), c.E.strip(c.atys[0])))


def pin(E, st, a, k, val):
    """element k of the map at a becomes an object of its own holding val; -> reference"""
    m = E.read(st, a[1], a[2])
    if m[0] == 'els':
        for key, o, init in m[2]:
            if key == k:
                return ('ref', o, ())
    o = E.new_obj(st, val, 'elem')
    if m[0] == 'els':
        E.write(st, a[1], a[2], ('els', m[1], m[2] + ((k, o, val),)))
    else:
        E.write(st, a[1], a[2], ('els', m, ((k, o, val),)))
    return ('ref', o, ())


@model('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with_key')
def or_insert(c):
    E = c.E
    e = c.v(0)
    if e[0] == 'dent':
        return dash_or_insert(c, e)
    if e[0] == 'entm':
        return None
    if e[0] != 'ent':
        return None
    _, obj, path, k, mty = e
    a = ('ref', obj, path)
    m = E.read(c.st, obj, path)
    if m[0] == 'ref':
        return None
    vty = mty[2][1] if mty[0] == 'adt' and len(mty[2]) > 1 else ('other', '?')
    cur = lookup(E, c.st, m, k, ('adt', OPT, (vty,)))

    def occupied(s):
        s = s.copy()
        p = payload(E, resolve_ite(E, s, cur, 1), SP)
        if p[0] == 'ref':
            return one(s, p)
        return one(s, pin(E, s, a, k, p))

    def vacant(s):
        if c.nm.endswith('or_insert'):
            outs = one(s, c.args[1])
        elif c.nm.endswith('or_default'):
            d = default_of(c2(c, s), vty)
            outs = one(s, d)
        elif c.nm.endswith('with_key'):
            outs = call(c, s, c.args[1], [k], vty)
        else:
            outs = call(c, s, c.args[1], [], vty)

        def put(s, v):
            s = s.copy()
            dv = E.deep(s, v)
            m = E.read(s, obj, path)
            E.event(s, 'insert', c.nm, (m, k, dv), None, c.sp, raw=(a, k, v))
            E.write(s, obj, path, ('app', 'ins', m, k, dv))
            return one(s, pin(E, s, a, k, dv))
        return then(outs, put)
    return E.branch(c.st, E.is_some(cur), occupied, vacant)


def entry_cur(E, st, e):
    if e[0] == 'dent':
        t = ('app', 'get', e[2], e[3])
        E.tyhint.setdefault(t, ('adt', OPT, ()))
        return t
    vty = e[4][2][1] if e[4][0] == 'adt' and len(e[4][2]) > 1 else ('other', '?')
    return lookup(E, st, E.read(st, e[1], e[2]), e[3], ('adt', OPT, (vty,)))


def entry_occupied(E, st, e):
    return E.is_some(entry_cur(E, st, e))


@model('VacantEntry::insert', 'VacantEntry::insert_entry', 'Entry::insert_entry', 'OccupiedEntry::insert')
def entry_insert(c):
    E = c.E
    e = c.v(0)
    v = c.args[1]
    st = c.st.copy()
    dv = E.deep(st, v)
    if e[0] == 'ent':
        _, obj, path, k, mty = e
        m = E.read(st, obj, path)
        old = lookup(E, st, m, k, ('adt', OPT, (mty[2][1],)) if mty[0] == 'adt' and len(mty[2]) > 1 else None)
        E.event(st, 'insert', c.nm, (m, k, dv), NONE if c.nm.startswith('Vacant') else old, c.sp, raw=(('ref', obj, path), k, v))
        E.write(st, obj, path, ('app', 'ins', m, k, dv))
        if c.nm.endswith('_entry'):
            return c.ret(e, st)
        if c.nm.startswith('Occ'):
            return c.ret(payload(E, resolve_ite(E, st, old, 1), SP), st)
        return c.ret(pin(E, st, ('ref', obj, path), k, dv), st)
    if e[0] == 'dent':
        m, k = e[2], e[3]
        E.event(st, 'insert', 'DashMap::entry', (m, k, dv), None, c.sp, raw=(m, k, v))
        if c.nm.endswith('_entry'):
            return c.ret(e, st)
        if c.nm.startswith('Occ'):
            return c.ret(payload(E, entry_cur(E, st, e), SP), st)
        o = E.new_obj(st, v, 'dashelem')
        return c.ret(('gd', e[1][1], ('ref', o, ())), st)
    return None


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut', 'OccupiedEntry::into_ref')
def entry_get(c):
    E = c.E
    e = c.v(0)
    st = c.st.copy()
    if e[0] == 'ent':
        p = payload(E, resolve_ite(E, st, entry_cur(E, st, e), 1), SP)
        if p[0] == 'ref' or c.nm.endswith('::get'):
            return c.ret(p, st)
        return c.ret(pin(E, st, ('ref', e[1], e[2]), e[3], p), st)
    if e[0] == 'dent':
        p = payload(E, entry_cur(E, st, e), SP)
        if c.nm.endswith('::get'):
            return c.ret(p, st)
        E.event(st, 'modify', 'DashMap', (e[2], e[3], ('undef',)), None, c.sp)
        o = E.new_obj(st, p, 'dashelem')
        return c.ret(('gd', e[1][1], ('ref', o, ())), st)
    return None


@model('Entry::key', 'OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key')
def entry_key(c):
    e = c.v(0)
    return c.ret(e[3]) if e[0] in ('ent', 'dent') else None


@model('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def entry_remove(c):
    E = c.E
    e = c.v(0)
    st = c.st.copy()
    p = payload(E, resolve_ite(E, st, entry_cur(E, st, e), 1), SP)
    if e[0] == 'ent':
        m = E.read(st, e[1], e[2])
        E.event(st, 'remove', c.nm, (m, e[3]), some(p), c.sp, raw=(('ref', e[1], e[2]), e[3]))
        E.write(st, e[1], e[2], ('app', 'rem_key', E.deep(st, m), e[3]))
    elif e[0] == 'dent':
        E.event(st, 'remove', c.nm, (e[2], e[3]), None, c.sp, raw=(e[2], e[3]))
    else:
        return None
    return c.ret(('tup', (e[3], p)) if c.nm.endswith('entry') else p, st)


def c2(c, st):
    import copy
    x = copy.copy(c)
    x.st = st
    return x


@model('HashMap::get_mut', 'BTreeMap::get_mut', 'IndexMap::get_mut')
def map_get_mut(c):
    E = c.E
    a = loc(c)
    if a is None:
        return None
    k = keyof(c, 1)
    cur = lookup(E, c.st, mapval(c), k, opt_of_map(c))

    def occ(s):
        s = s.copy()
        p = payload(E, resolve_ite(E, s, cur, 1), SP)
        if p[0] == 'ref':
            return one(s, some(p))
        return one(s, some(pin(E, s, a, k, p)))
    return E.branch(c.st, E.is_some(cur), occ, lambda s: one(s, NONE))


@model('HashSet::contains', 'BTreeSet::contains', 'IndexSet::contains')
def set_contains(c):
    return c.ret(set_has(c.E, c.st, mapval(c), keyof(c, 1)))


def set_has(E, st, m, k):
    if m == EMPTYM:
        return F
    if m[0] == 'app' and m[1] == 'sins':
        return mk_or(sem_eq(E, m[3], k), set_has(E, st, m[2], k))
    if m[0] == 'app' and m[1] == 'coll':
        r = it_any(E, st, m[2], lambda e: sem_eq(E, e, k))
        if r is not None:
            return r
    return ('has', E.deep(st, m), k)


@model('HashSet::get')
def set_get(c):
    t = ('app', 'getset', c.d(0), keyof(c, 1))
    ty = c.E.strip(c.atys[0])
    if ty[0] == 'adt' and ty[2]:
        c.E.tyhint.setdefault(t, ('adt', OPT, (ty[2][0],)))
    return c.ret(t)


@model('HashSet::insert', 'BTreeSet::insert', 'IndexSet::insert', 'HashSet::replace')
def set_insert(c):
    E = c.E
    a = loc(c)
    k = keyof(c, 1)
    m = mapval(c)
    st = c.st.copy()
    new = mk_not(set_has(E, st, m, k))
    E.event(st, 'insert', c.nm, (m, k), new, c.sp, raw=(a or c.args[0], c.args[1]))
    if a is not None:
        E.write(st, a[1], a[2], ('app', 'sins', m, k))
    return c.ret(new, st)


@model('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys')
def map_keys(c):
    return c.ret(('it', 'keys', c.d(0), None, tya(c, 0)))


@model('HashMap::values', 'BTreeMap::values', 'HashMap::into_values')
def map_values(c):
    return c.ret(('it', 'vals', c.d(0), None, tya(c, 1)))


def tya(c, i):
    t = c.E.strip(c.atys[0])
    if t[0] == 'adt' and i < len(t[2]):
        return t[2][i]
    return None


def mk_len(E, st, x):
    x = E.v(st, x)
    if x[0] == 'str':
        return I(len(x[1].encode()))
    if x[0] == 'arr':
        return I(len(x[1]))
    if x == EMPTYM:
        return I(0)
    if x[0] == 'app' and x[1] in ('push', 'pushf'):
        return add(mk_len(E, st, x[2]), I(1))
    if x[0] == 'app' and x[1] == 'tail':
        return sub(mk_len(E, st, x[2]), I(1))
    if x[0] == 'app' and x[1] == 'cat':
        r = I(0)
        for p in x[2:]:
            r = add(r, mk_len(E, st, p))
        return r
    if x[0] == 'app' and x[1] == 'upd':
        return mk_len(E, st, x[2])
    if x[0] == 'app' and x[1] == 'readinto':
        return add(mk_len(E, st, x[2]), ('app', 'len', x[4]))
    if x[0] == 'els':
        return mk_len(E, st, x[1])
    if x[0] == 'app' and x[1] in ('repeat', 'resized'):
        return E.v(st, x[3])
    return ('app', 'len', E.deep(st, x))


@model('Vec::len', 'VecDeque::len', 'slice::len', 'String::len', 'str::len', 'HashMap::len', 'HashSet::len', 'BTreeMap::len', 'IndexSet::len')
def len_(c):
    t = mk_len(c.E, c.st, c.args[0])
    c.E.tyhint.setdefault(t, ('prim', 'usize'))
    return c.ret(t)


@model('methods::len_utf8', 'char::len_utf8', '*::len_utf8')
def len_utf8(c):
    a = c.args[0]
    if a[0] == 'char' and isinstance(a[1], str) and len(a[1]) == 1:
        return c.ret(I(len(a[1].encode('utf-8'))))
    return c.E.opaque_call(c)


@model('Vec::is_empty', 'VecDeque::is_empty', 'slice::is_empty', 'IndexSet::is_empty')
def vec_is_empty(c):
    return c.ret(mk_eq(mk_len(c.E, c.st, c.args[0]), I(0)))


# ---- sequences ---------------------------------------------------------------------------------------------
def elem_ty(ty):
    while ty[0] == 'ref':
        ty = ty[2]
    if ty[0] in ('slice', 'array'):
        return ty[1]
    if ty[0] == 'adt' and ty[2]:
        return ty[2][0]
    return None


@model('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front')
def vec_push(c):
    E = c.E
    a = loc(c)
    st = c.st.copy()
    m = mapval(c)
    v = c.args[1]
    dv = E.deep(st, v) if not any(x[0] == 'ref' and False for x in subterms(v)) else v
    E.event(st, 'push' if not c.nm.endswith('front') else 'push_front', c.nm, (m, v), None, c.sp, raw=(a or c.args[0], v))
    if a is not None:
        cur = E.read(st, a[1], a[2])
        if c.nm.endswith('front'):
            new = ('arr', (v,) + cur[1]) if cur[0] == 'arr' else ('app', 'pushf', cur, dv)
        else:
            new = ('arr', cur[1] + (v,)) if cur[0] == 'arr' and len(cur[1]) < 64 else ('app', 'push', cur, dv)
        E.write(st, a[1], a[2], new)
    return c.ret(UNIT, st)


@model('VecDeque::pop_front', 'Vec::pop', 'VecDeque::pop_back')
def pop(c):
    a = loc(c)
    if a is None:
        return None
    return [('ok', s, NONE if x is None else some(x)) for s, x in
            pop_at(c.E, c.st, a, mapval(c), c.nm.endswith('front'), elem_ty(c.atys[0]), c.sp, c.nm)]


def pop_at(E, st, a, m, front, et, sp, nm):
    """take an element from the list at a place: [(state, element or None)]"""
    if m[0] == 'arr':
        st = st.copy()
        if not m[1]:
            return [(st, None)]
        x, rest = (m[1][0], m[1][1:]) if front else (m[1][-1], m[1][:-1])
        E.write(st, a[1], a[2], ('arr', rest))
        E.event(st, 'pop', nm, (m,), x, sp, raw=(a,))
        return [(st, x)]
    if m[0] == 'app' and m[1] == 'pushf' and front:
        st = st.copy()
        E.write(st, a[1], a[2], m[2])
        E.event(st, 'pop', nm, (m,), m[3], sp, raw=(a,))
        return [(st, m[3])]
    n = mk_len(E, st, m)
    E.tyhint.setdefault(n, ('prim', 'usize'))
    dm = E.deep(st, m)
    res = []
    for s, b in E.split(st, mk_not(mk_eq(n, I(0)))):
        if not b:
            res.append((s, None))
            continue
        s = s.copy()
        x = ('app', 'front' if front else 'back', dm)
        if et is not None:
            E.tyhint.setdefault(x, et)
        E.write(s, a[1], a[2], ('app', 'tail' if front else 'init', dm))
        E.event(s, 'pop', nm, (dm,), x, sp, raw=(a,))
        res.append((s, x))
    return res


@model('Vec::clear', 'VecDeque::clear', 'String::clear')
def vec_clear(c):
    a = loc(c)
    if a is None:
        return None
    st = c.st.copy()
    c.E.event(st, 'clear', c.nm, (mapval(c),), None, c.sp, raw=(a,))
    c.E.write(st, a[1], a[2], S('') if c.nm.startswith('String') or is_str(c.atys[0]) else EMPTYV)
    return c.ret(UNIT, st)


def at(E, st, m, i, ty=None):
    while m[0] == 'els':
        for key, o, init in reversed(m[2]):
            e = eqk(E, st, key, i)
            if e is True:
                return ('ref', o, ())
        m = E.deep(st, m)
    if m[0] == 'arr' and i[0] == 'int' and 0 <= i[1] < len(m[1]):
        return m[1][i[1]]
    if m[0] == 'app' and m[1] == 'repeat':
        return m[2]
    if m[0] == 'app' and m[1] == 'pushf' and i[0] == 'int':
        return m[3] if i[1] == 0 else at(E, st, m[2], I(i[1] - 1), ty)
    if m[0] == 'app' and m[1] == 'tail' and i[0] == 'int':
        return at(E, st, m[2], I(i[1] + 1), ty)
    if i == I(0):
        t = ('app', 'front', m)
    elif i == sub(mk_len(E, st, m), I(1)):
        t = ('app', 'back', m)
    elif i[:2] == ('app', 'ix') and E.ixof.get(i) == m:
        t = i[2]
    else:
        t = ('app', 'at', m, i)
    if ty is not None:
        E.tyhint.setdefault(t, ty)
    return t


def in_bounds(E, st, m, i):
    n = mk_len(E, st, m)
    E.tyhint.setdefault(n, ('prim', 'usize'))
    return pos(sub(n, i))


def idx_arg(c, i=1):
    x = c.v(i)
    t = c.E.strip(c.atys[i])
    if t[0] == 'prim' and t[1] in INTS:
        return x
    return None


@model('VecDeque::get', 'Vec::get', 'slice::get')
def vec_get(c):
    E = c.E
    i = idx_arg(c)
    if i is None:
        return None
    m = mapval(c)
    return E.branch(c.st, in_bounds(E, c.st, m, i), lambda s: one(s, some(at(E, s, m, i, elem_ty(c.atys[0])))), lambda s: one(s, NONE))


@model('VecDeque::get_mut', 'Vec::get_mut', 'slice::get_mut', 'slice::first_mut', 'slice::last_mut', 'VecDeque::front_mut', 'VecDeque::back_mut')
def vec_get_mut(c):
    E = c.E
    t = E.strip(c.atys[0])
    a = loc(c)
    m = mapval(c)
    if 'last' in c.nm or 'back' in c.nm:
        i = sub(mk_len(E, c.st, m), I(1))
    elif 'get' in c.nm:
        i = idx_arg(c)
    else:
        i = I(0)
    if i is None or a is None:
        return None

    def good(s):
        s = s.copy()
        x = at(E, s, m, i, elem_ty(t))
        if x[0] == 'ref':
            return one(s, some(x))
        if m[0] == 'arr' and i[0] == 'int':
            return one(s, some(('ref', a[1], a[2] + ('T.0.%d' % i[1],))))
        return one(s, some(pin(E, s, a, i, x)))
    n = mk_len(E, c.st, m)
    E.tyhint.setdefault(n, ('prim', 'usize'))
    cond = mk_not(mk_eq(n, I(0))) if 'get' not in c.nm else in_bounds(E, c.st, m, i)
    return E.branch(c.st, cond, good, lambda s: one(s, NONE))


@model('slice::last', 'Vec::last', 'VecDeque::back')
def vec_last(c):
    m = mapval(c)
    E = c.E
    if m[0] == 'arr':
        return c.ret(some(m[1][-1]) if m[1] else NONE)
    if m[0] == 'app' and m[1] == 'push':
        return c.ret(some(m[3]))
    n = mk_len(E, c.st, m)
    x = ('app', 'back', E.deep(c.st, m))
    et = elem_ty(c.atys[0])
    if et is not None:
        E.tyhint.setdefault(x, et)
    return E.branch(c.st, mk_eq(n, I(0)), lambda s: one(s, NONE), lambda s: one(s, some(x)))


@model('slice::first', 'Vec::first', 'VecDeque::front')
def vec_first(c):
    m = mapval(c)
    E = c.E
    return E.branch(c.st, in_bounds(E, c.st, m, I(0)), lambda s: one(s, some(at(E, s, m, I(0), elem_ty(c.atys[0])))), lambda s: one(s, NONE))


@model('Index::index', 'IndexMut::index_mut')
def index(c):
    E = c.E
    t = E.strip(c.atys[0])
    m = mapval(c)
    if t[0] == 'adt' and t[1].split('::')[-1] in ('HashMap', 'BTreeMap'):
        o = lookup(E, c.st, m, keyof(c, 1), opt_of_map(c))
        return E.branch(c.st, E.is_some(o), lambda s: one(s, payload(E, resolve_ite(E, s, o, 1), SP)),
                        lambda s: [E.panic(s, 'index', c.sp, (m, keyof(c, 1)))])
    i = idx_arg(c)
    if i is None:
        return slice_index(c)
    a = loc(c)

    def good(s):
        if c.nm.endswith('mut') and a is not None:
            s = s.copy()
            x = at(E, s, m, i, elem_ty(t))
            if x[0] == 'ref':
                return one(s, x)
            if m[0] == 'arr' and i[0] == 'int':
                return one(s, ('ref', a[1], a[2] + ('T.0.%d' % i[1],)))
            return one(s, pin(E, s, a, i, x))
        return one(s, at(E, s, m, i, elem_ty(t)))
    return E.branch(c.st, in_bounds(E, c.st, m, i), good,
                    lambda s: [E.panic(s, 'index', c.sp, (m, i))])


def known_prefix(E, st, m, n):
    """a prefix of m of length n, if one is known"""
    for f, v in st.facts.items():
        if v is True and f[0] == 'pre' and f[1] == m and mk_len(E, st, f[2]) == n:
            return f[2]
    if m[0] == 'app' and m[1] == 'foundmap' and m[3][0] == 'ite' and m[3][2][0] == 'adt' and m[3][2][3] == (('bvar', 0),):
        for x in subterms(m[3][1]):
            if x[0] == 'pre' and x[1] == ('bvar', 0) and mk_len(E, st, x[2]) == n and (x == m[3][1] or m[3][1][0] == 'and' and x in m[3][1][1:]):
                return x[2]
    return None


def subseq(E, st, m, a, b, n):
    """items a..b of a sequence of n items"""
    if m[0] == 'app' and m[1] == 'readinto':
        old = mk_len(E, st, m[2])
        if a == old and b == n:
            return m[4]
        if b == old:
            return subseq(E, st, m[2], a, b, old)
    if a == I(0) and b == n:
        return m
    return ('app', 'slice', m, a, b)


def decided(E, st, x):
    while x[0] == 'ite':
        b = E.truth(st.facts, x[1])
        if b is None:
            # equal branches where the condition fails (saturating arithmetic)
            if x[1][0] == 'pos' and x[3] == I(0) and x[1][1] == x[2]:
                if E.prove_pos(st.facts, add(x[2], I(1))):
                    return x[2]
            return x
        x = x[2] if b else x[3]
    return x


def slice_index(c):
    """s[a..b]: bounds are not tracked, so this may panic"""
    E = c.E
    r = c.v(1)
    m = c.d(0)
    full = r[0] == 'adt' and r[1].endswith('RangeFull') or r[0] == 'app' and r[1] == 'zst'
    if r[0] == 'adt' and r[1].endswith('RangeFrom'):
        p = known_prefix(E, c.st, m, E.v(c.st, r[3][0]))
        if p is not None:
            return c.ret(dropped(m, p))
    if full:
        return c.ret(m)
    a = b = None
    n = mk_len(E, c.st, m)
    if r[0] == 'adt':
        k, x = r[1].rsplit('::', 1)[-1], [decided(E, c.st, E.v(c.st, y)) for y in r[3]]
        if k == 'Range':
            a, b = x
        elif k == 'RangeFrom':
            a, b = x[0], n
        elif k == 'RangeTo':
            a, b = I(0), x[0]
        elif k == 'RangeToInclusive':
            a, b = I(0), add(x[0], I(1))
    if a is not None and b is not None:
        if is_str(E.strip(c.atys[0])):
            # around a separator that was found
            for x in (a, b):
                for y in subterms(x):
                    if y[:2] == ('app', 'find') and y[2] == m and y[3][0] == 'str' and E.truth(c.st.facts, ('ctn', m, y[3])) is True:
                        if a == I(0) and b == y:
                            return c.ret(('app', 'before', m, y[3]))
                        if b == n and a == add(y, I(len(y[3][1].encode()))):
                            return c.ret(('app', 'after', m, y[3]))
        v = subseq(E, c.st, m, a, b, n)
        cond = mk_and(pos(add(sub(b, a), I(1))), pos(add(sub(n, b), I(1))))
        if is_str(E.strip(c.atys[0])) and not (a == I(0) and b == n):
            # and both ends on a character boundary
            bd = ('app', 'inrange', m, a, b)
            E.tyhint.setdefault(bd, ('prim', 'bool'))
            cond = mk_and(cond, bd)
    else:
        v = ('app', 'slice', m, E.deep(c.st, r))
        cond = ('app', 'inrange', m, E.deep(c.st, r))
        E.tyhint.setdefault(cond, ('prim', 'bool'))
    E.tyhint.setdefault(v, E.strip(c.dty))
    return E.branch(c.st, cond, lambda s: one(s, v), lambda s: [E.panic(s, 'slice', c.sp, (m, r))])


@model('slice::contains', 'Vec::contains', 'VecDeque::contains')
def slice_contains(c):
    E = c.E
    k = keyof(c, 1)
    return c.ret(it_any(E, c.st, ('it', 'seq', c.d(0), None, elem_ty(c.atys[0])), lambda e: sem_eq(E, e, k)))


@model('slice::sort_by_cached_key', 'slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort', 'slice::sort_unstable', 'slice::reverse')
def sort_by(c):
    E = c.E
    a = loc(c)
    if a is None:
        return None
    st = c.st.copy()
    cur = E.deep(st, a)
    kind = c.nm.split('::')[-1].replace('_cached', '').replace('_unstable', '')
    stable = S('unstable' if 'unstable' in c.nm else 'stable')
    lam = UNIT
    if len(c.args) > 1:
        n = 2 if kind == 'sort_by' else 1
        lam = lam_of(c, st, c.args[1], n, [elem_ty(c.atys[0])] * n)
        if lam is None:
            return None
    if kind == 'sort_by' and lam[0] == 'app' and lam[1] == 'cmp':
        # comparison of the same key of both elements is a sort by key
        if subst(lam[2], ('bvar', 0, 0), ('bvar', 0)) == subst(lam[3], ('bvar', 0, 1), ('bvar', 0)):
            lam = subst(lam[2], ('bvar', 0, 0), ('bvar', 0))
            kind = 'sort_by_key'
        else:
            kind = 'sort_by_other'
    if kind == 'sort_by_key':
        kind = 'sorted'
    E.write(st, a[1], a[2], ('app', kind, cur, lam))
    return c.ret(UNIT, st)


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'VecDeque::iter', 'IntoIterator::into_iter', 'HashMap::iter', 'BTreeMap::iter', 'HashSet::iter',
       'IndexSet::iter', 'slice::into_iter', 'Vec::drain', 'HashMap::into_iter', 'Option::iter', 'Option::into_iter', 'VecDeque::drain', 'HashMap::drain', 'DashMap::iter', 'slice::windows_',
       'HashMap::iter_mut', 'VecDeque::iter_mut', 'HashMap::values_mut')
def into_iter(c):
    E = c.E
    x = c.v(0)
    if x[0] == 'it':
        return c.ret(c.args[0] if c.args[0][0] != 'ref' else c.args[0])
    t = E.strip(c.atys[0])
    h = t[1].split('::')[-1] if t[0] == 'adt' else t[0]
    if h in ('Range', 'RangeInclusive'):
        return c.ret(('it', 'range', ('tup', tuple(E.v(c.st, y) for y in x[3][:2])) if x[0] == 'adt' else E.deep(c.st, x), h, t[2][0] if t[2] else None))
    if h == 'RangeFrom':
        return c.ret(('it', 'seq', ('app', 'from', E.deep(c.st, x)), None, t[2][0] if t[2] else None))
    dx = E.deep(c.st, x)
    if x[0] == 'arr' and h == 'array' and t[1][0] == 'ref' and t[1][1]:
        dx = x      # places to be changed: kept as places
    st = c.st
    if dx[0] == 'ite' and 'drain' not in c.nm and not c.nm.endswith('_mut') and not (c.atys[0][0] == 'ref' and c.atys[0][1]):
        # one of two collections: each case by itself
        res = []
        for s, b in E.split(st, dx[1]):
            k = copy.copy(c)
            k.st = s.copy()
            one = dx[2] if b else dx[3]
            if c.args[0][0] == 'ref':
                one = ('ref', E.new_obj(k.st, one, 'either'), ())
            k.args = (one,) + tuple(c.args[1:])
            res += into_iter(k)
        return res
    if h == 'VecDeque' and c.atys[0][0] != 'ref' and dx[0] != 'arr' and not (dx[0] == 'app' and dx[1] == 'coll'):
        # a queue that is consumed: its elements are taken from the front
        st = st.copy()
        o = E.new_obj(st, dx, 'queue')
        E.objty[o] = t
        return c.ret(('it', 'queue', dx, ('ref', o, ()), elem_ty(t)), st)
    if 'drain' in c.nm:
        a = loc(c)
        if a is None or len(c.args) > 1 and not ((c.v(1)[0] == 'app' and c.v(1)[1] == 'zst') or c.v(1)[0] == 'adt' and c.v(1)[1].endswith('RangeFull')):
            return None
        if h == 'VecDeque' and dx[0] != 'arr':
            return c.ret(('it', 'queue', dx, a, elem_ty(t)), st)
        st = st.copy()
        E.write(st, a[1], a[2], EMPTYV if 'Vec' in c.nm else EMPTYM)
    mut = c.atys[0][0] == 'ref' and c.atys[0][1] or c.nm.endswith('_mut')
    if h in ('HashMap', 'BTreeMap', 'IndexMap', 'DashMap'):
        if c.nm.endswith('values_mut'):
            return None
        return c.ret(('it', 'pairs', dx, h, ('tuple', t[2][:2]) if len(t[2]) > 1 else None), st)
    if h in ('HashSet', 'BTreeSet', 'IndexSet'):
        return c.ret(('it', 'set', dx, None, elem_ty(t)), st)
    if h in ('Vec', 'VecDeque', 'slice', 'array'):
        if dx[0] == 'app' and dx[1] == 'coll' and not mut:
            return c.ret(dx[2], st)
        if mut and loc(c) is not None:
            return c.ret(('it', 'mut', dx, loc(c), elem_ty(t)), st)
        return c.ret(('it', 'seq', dx, None, elem_ty(t)), st)
    if h == 'Option':
        if mut:
            return c.ret(('it', 'opt', dx, None, elem_ty(t)), st)
        return [('ok', s, ('it', 'seq', ('arr', (payload(E, resolve_ite(E, s, dx, 1), SP),) if b else ()), None, elem_ty(t))) for s, b in E.split(st, E.is_some(dx))]
    if t[0] == 'adt' and h in ('Iter', 'IntoIter', 'Keys', 'Values', 'Split', 'Lines', 'Chars', 'Children', 'Map', 'Filter', 'Bytes') or c.nm == 'IntoIterator::into_iter':
        return c.ret(('it', 'seq', dx, None, None), st)
    return None


@model('str::split', 'str::split_terminator', 'str::lines', 'str::split_whitespace', 'str::chars', 'str::bytes', 'str::char_indices', 'str::split_inclusive', 'str::splitn',
       'str::rsplit', 'slice::split')
def str_split(c):
    s = c.d(0)
    op = c.nm.split('::')[-1]
    args = tuple(pat(c, i) for i in range(1, len(c.args)))
    if op == 'splitn':
        args = (c.v(1),) + args[1:]
    if op == 'splitn' and args[0] == I(2):
        # what comes before the first separator and what comes after it, or everything
        two = lambda *x: ('it', 'seq', ('arr', x), None, ('prim', 'str'))
        return c.E.branch(c.st, ('ctn', s, args[1]), lambda st: one(st, two(('app', 'before', s, args[1]), ('app', 'after', s, args[1]))), lambda st: one(st, two(s)))
    ety = {'chars': ('prim', 'char'), 'bytes': ('prim', 'u8')}.get(op, ('prim', 'str'))
    return c.ret(('it', 'seq', ('app', op, s) + args, None, ety))


@model('Document::descendants', 'Node::children', 'Node::descendants', 'Node::attributes')
def node_children(c):
    t = ('app', c.nm.split('::')[-1], c.d(0))
    return c.ret(('it', 'seq', t, None, None))


ADAPT1 = {'Iterator::map': 'map', 'Iterator::filter': 'filter', 'Iterator::filter_map': 'filter_map', 'Iterator::take_while': 'take_while',
          'Iterator::skip_while': 'skip_while', 'Iterator::inspect': 'inspect', 'Iterator::flat_map': 'flat_map', 'Iterator::map_while': 'map_while'}


@model(*ADAPT1)
def adapt(c):
    it = c.v(0)
    if it[0] != 'it':
        it = as_it(c, it, 0)
    if c.nm == 'Iterator::flat_map':
        l = lit(it)
        if l is not None and l[1] == 'lit' and len(l[2]) <= 1:
            # nothing, or one sequence
            if not l[2]:
                return c.ret(l)
            return [(q[0], q[1], as_it(c, c.E.v(q[1], q[2]), 99) if q[0] == 'ok' else q[2]) for q in call(c, c.st, c.args[1], [l[2][0]])]
    return c.ret(('it', ADAPT1[c.nm], it, c.args[1], None))


def constant(x):
    return x[0] in ('int', 'str', 'bool', 'char') or x[0] == 'tup' and all(map(constant, x[1])) or x[0] == 'adt' and all(map(constant, x[3]))


def lit(it):
    """the iterator with its source spelled out element by element, when that is short and known"""
    if it[0] != 'it':
        return None
    k = it[1]
    if k == 'lit':
        return it
    if k == 'seq':
        if it[2][0] == 'arr' and (len(it[2][1]) <= 6 or len(it[2][1]) <= 40 and all(constant(x) for x in it[2][1])):
            return ('it', 'lit', it[2][1], None, it[4])
        return None
    if k == 'range':
        if it[2][0] == 'tup' and all(x[0] == 'int' for x in it[2][1]):
            lo, hi = it[2][1][0][1], it[2][1][1][1] + (it[3] == 'RangeInclusive')
            if hi - lo <= 8:
                return ('it', 'lit', tuple(I(n) for n in range(lo, hi)), None, it[4])
        return None
    if k in ('enumerate', 'zip', 'chain'):
        a = lit(it[2])
        b = lit(it[3]) if k != 'enumerate' else None
        if a is None or a[1] != 'lit' or k != 'enumerate' and (b is None or b[1] != 'lit'):
            return None
        if k == 'enumerate':
            return ('it', 'lit', tuple(('tup', (I(n), x)) for n, x in enumerate(a[2])), None, None)
        if k == 'zip':
            return ('it', 'lit', tuple(('tup', x) for x in zip(a[2], b[2])), None, None)
        return ('it', 'lit', a[2] + b[2], None, a[4])
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while'):
        a = lit(it[2])
        return it[:2] + (a,) + it[3:] if a is not None else None
    return None


def is_lit(it):
    while it[0] == 'it' and it[1] in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while'):
        it = it[2]
    return it[0] == 'it' and it[1] == 'lit'


def lit_next(it):
    return it[:2] + (it[2][1:],) + it[3:] if it[1] == 'lit' else it[:2] + (lit_next(it[2]),) + it[3:]


def lit_done(it):
    return not it[2] if it[1] == 'lit' else lit_done(it[2])


def unlit(it):
    return ('it', 'seq', ('arr', it[2]), None, it[4]) if it[1] == 'lit' else it[:2] + (unlit(it[2]),) + it[3:]


def as_it(c, x, i, queue=False):
    if x[:2] == ('it', 'queue') and not queue:
        # consumed as a whole
        r = x[3]
        m = c.E.deep(c.st, c.E.read(c.st, r[1], r[2]))
        c.st = c.st.copy()
        c.E.write(c.st, r[1], r[2], EMPTYV)
        return ('it', 'seq', m, None, x[4])
    if x[0] == 'it':
        return unlit(x) if is_lit(x) else x
    t = c.E.strip(c.atys[i]) if i < len(c.atys) else ('other', '?')
    h = t[1].split('::')[-1] if t[0] == 'adt' else t[0]
    if h in ('Range', 'RangeInclusive') and x[0] == 'adt':
        return ('it', 'range', ('tup', tuple(c.E.v(c.st, y) for y in x[3][:2])), h, t[2][0] if t[2] else None)
    if h in ('HashMap', 'BTreeMap', 'IndexMap'):
        return ('it', 'pairs', c.E.deep(c.st, x), h, ('tuple', t[2][:2]) if len(t[2]) > 1 else None)
    if h in ('HashSet', 'BTreeSet', 'IndexSet'):
        return ('it', 'set', c.E.deep(c.st, x), None, elem_ty(t))
    if h == 'Option':
        dx = c.E.deep(c.st, x)
        b = c.E.truth(c.st.facts, c.E.is_some(dx))
        if b is not None:
            return ('it', 'seq', ('arr', (payload(c.E, resolve_ite(c.E, c.st, dx, 1), SP),) if b else ()), None, elem_ty(t))
        return ('it', 'opt', dx, None, elem_ty(t))
    b = c.E.impls.get(('std::iter::IntoIterator', c.E.tyhead(t), 'into_iter'))
    if b is not None:
        outs = c.E.inline(b, {}, c.st, [x], c.sp)
        if len(outs) == 1 and outs[0][0] == 'ok' and outs[0][2][0] == 'it':
            return outs[0][2]
    dx = c.E.deep(c.st, x)
    if dx[0] == 'app' and dx[1] == 'coll':
        return dx[2]
    return ('it', 'seq', dx, None, elem_ty(t) if h in ('Vec', 'VecDeque', 'slice', 'array') else None)


def option_known(i):
    """a model that runs once for each of the two cases of an Option given as argument i"""
    def deco(f):
        def g(c):
            j = i(c) if callable(i) else i
            E = c.E
            if j is None or j >= len(c.args):
                return f(c)
            t = E.strip(c.atys[j])
            if not (t[0] == 'adt' and t[1] == OPT) or c.v(j)[0] == 'it':
                return f(c)
            res = []
            for s, b in E.split(c.st, E.is_some(c.d(j))):
                k = copy.copy(c)
                k.st = s
                res += f(k)
            return res
        return g
    return deco


@model('Iterator::chain')
@option_known(1)
def chain(c):
    return c.ret(('it', 'chain', as_it(c, c.v(0), 0), as_it(c, c.v(1), 1), None))


@model('Iterator::zip')
def zip_(c):
    E = c.E
    a, b = as_it(c, c.v(0), 0), as_it(c, c.v(1), 1)
    la, lb = lit(a), lit(b)
    for l, o, left in ((la, b, True), (lb, a, False)):
        # known elements against a sequence of unknown ones: position by position while there are enough of them
        if l is not None and l[1] == 'lit' and lit(o) is None and o[0] == 'it' and o[1] == 'seq' and o[2][0] in ('sym', 'fld', 'app', 'lv', 'el') and len(l[2]) <= 6:
            n = len(l[2])

            def zipped(s, l=l, o=o, left=left):
                xs = [at(E, s, o[2], I(k)) for k in range(len(l[2]))]
                return one(s, ('it', 'lit', tuple(('tup', (x, y) if left else (y, x)) for x, y in zip(l[2], xs)), None, None))
            return E.branch(c.st, pos(sub(mk_len(E, c.st, o[2]), I(n - 1))), zipped, lambda s: one(s, ('it', 'zip', a, b, None)))
    return c.ret(('it', 'zip', a, b, None))


@model('Iterator::enumerate')
def enumerate_(c):
    return c.ret(('it', 'enumerate', as_it(c, c.v(0), 0), None, None))


@model('Iterator::flatten')
def flatten_(c):
    l = lit(as_it(c, c.v(0), 0))
    if l is not None and l[1] == 'lit' and len(l[2]) <= 1:
        x = c.E.v(c.st, l[2][0]) if l[2] else l
        if x[0] == 'it':
            return c.ret(as_it(c, x, 99))
    return c.ret(('it', 'filter_map', as_it(c, c.v(0), 0), None, None))


@model('Iterator::copied', 'Iterator::cloned', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse', 'iter::Iterator::into_iter')
def it_same(c):
    v = c.v(0)
    if c.nm.endswith('by_ref'):
        return c.ret(c.args[0])
    return c.ret(as_it(c, v, 0))


@model('Iterator::skip', 'Iterator::take', 'Iterator::step_by', 'Iterator::rev')
def it_other(c):
    it = as_it(c, c.v(0), 0)
    if c.nm.endswith('take') and it[2][0] == 'app' and it[2][1] == 'forever':
        return c.ret(('it', 'seq', ('app', 'repeat', it[2][2], c.d(1)), None, it[4]))
    if c.nm.endswith('rev') and it[2][0] == 'app' and it[2][1] == 'repeat':
        return c.ret(it)
    l = lit(it)
    if l is not None and l[1] == 'lit':
        op = c.nm.split('::')[-1]
        n = c.d(1) if len(c.args) > 1 else None
        if op == 'rev':
            return c.ret(('it', 'seq', ('arr', l[2][::-1]), None, l[4]))
        if n[0] == 'int' and n[1] >= 0:
            return c.ret(('it', 'seq', ('arr', l[2][n[1]:] if op == 'skip' else l[2][:n[1]] if op == 'take' else l[2][::n[1]]), None, l[4]))
    return c.ret(('it', 'seq', ('app', c.nm.split('::')[-1], c.E.deep(c.st, it)) + tuple(c.d(i) for i in range(1, len(c.args))), None, item_ty(it)))


@model('iter::repeat', 'iter::repeat_n')
def it_repeat(c):
    if c.nm.endswith('_n'):
        return c.ret(('it', 'seq', ('app', 'repeat', c.d(0), c.d(1)), None, c.E.strip(c.atys[0])))
    return c.ret(('it', 'seq', ('app', 'forever', c.d(0)), None, c.E.strip(c.atys[0])))


@model('iter::repeat_with')
def it_repeat_with(c):
    outs = call(c, c.st, c.args[0], [])
    if len(outs) != 1 or outs[0][0] != 'ok' or outs[0][1].ev is not c.st.ev:
        return None
    return c.ret(('it', 'seq', ('app', 'forever', c.E.deep(outs[0][1], outs[0][2])), None, None))


@model('Vec::resize', 'Vec::resize_with', 'VecDeque::resize', 'VecDeque::resize_with')
def resize(c):
    E = c.E
    a = loc(c)
    if a is None:
        return None
    st = c.st.copy()
    n = c.v(1)
    E.event(st, 'alloc', c.nm, (n,), None, c.sp)
    if c.nm.endswith('with'):
        outs = call(c, st, c.args[2], [])
        if len(outs) != 1 or outs[0][0] != 'ok' or outs[0][1].ev is not st.ev:
            return None
        x = E.deep(outs[0][1], outs[0][2])
    else:
        x = c.d(2)
    m = mapval(c)
    E.write(st, a[1], a[2], ('app', 'repeat', x, n) if m == EMPTYV else ('app', 'resized', E.deep(st, m), n, x))
    return c.ret(UNIT, st)


@model('iter::once', 'iter::empty')
def it_once(c):
    if c.nm.endswith('empty'):
        return c.ret(('it', 'seq', EMPTYV, None, None))
    return c.ret(('it', 'seq', ('arr', (c.args[0],)), None, None))


def item_ty(it):
    return it[4]


def elem(E, st, it, id):
    """arbitrary element of a base iterator"""
    kind, src, ty = it[1], it[2], it[4]
    if kind in ('seq', 'set', 'mut'):
        if src[0] == 'app' and src[1] == 'repeat' and len(src) == 4:
            return src[2]
        t = ('el', src, id)
        if ty is not None:
            E.tyhint.setdefault(t, ty)
        return t
    if kind == 'keys':
        t = ('elk', src, id)
        if ty is not None:
            E.tyhint.setdefault(t, ty)
        return t
    if kind == 'vals':
        t = ('elv', src, ('elk', src, id))
        if ty is not None:
            E.tyhint.setdefault(t, ty)
        return t
    if kind == 'pairs':
        k = ('elk', src, id)
        v = ('elv', src, k)
        if ty is not None:
            E.tyhint.setdefault(k, ty[1][0])
            E.tyhint.setdefault(v, ty[1][1])
        return ('tup', (k, v))
    if kind == 'range':
        t = ('el', ('app', 'range', src, S(it[3])), id)
        if ty is not None:
            E.tyhint.setdefault(t, ty)
        return t
    return None


def pull(c, st, it):
    """outcomes ('item',st,v) ('end',st,None) ('skip',st,None) or panics"""
    E = c.E
    kind = it[1]
    if kind == 'lit':
        return [('item', st, it[2][0])] if it[2] else [('end', st, None)]
    if kind in ('seq', 'set', 'keys', 'vals', 'pairs', 'range', 'mut'):
        if kind == 'seq' and it[2] == EMPTYV or kind in ('set', 'keys', 'vals', 'pairs') and it[2] == EMPTYM:
            return [('end', st, None)]
        E.nsym += 1
        id = E.nsym
        if kind == 'range' and it[3] == 'Range' and it[2][0] == 'tup' and it[2][1][0] == I(0):
            # the indices of a list: a loop over its elements
            m = it[2][1][1]
            m = m[2] if m[:2] == ('app', 'len') else ('?',)
            h = E.strip(E.tyhint[m]) if m in E.tyhint else m
            base = None
            if m[:2] == ('app', 'coll'):
                base = m[2]
            elif h[0] in ('slice', 'array') or h[0] == 'adt' and h[1].split('::')[-1] in ('Vec', 'VecDeque'):
                base = ('it', 'seq', m, None, elem_ty(h))
            if base is not None:
                res = []
                for o in pull(c, st, base):
                    if o[0] == 'item':
                        x = E.deep(o[1], o[2])
                        ix = ('app', 'ix', x)
                        E.ixof[ix] = m
                        E.tyhint.setdefault(ix, ('prim', 'usize'))
                        s1 = o[1].copy()
                        s1.facts = dict(s1.facts)
                        s1.facts[pos(sub(it[2][1][1], ix))] = True
                        o = ('item', s1, ix)
                    res.append(o)
                return res
        if kind == 'seq' and it[2][0] == 'arr' and 0 < len(it[2][1]) <= 6:
            # a literal array: one case per element
            res = []
            more = ('more', it[2], id)
            for k, x in enumerate(it[2][1]):
                s1 = E.assume(E.assume(st, more, True), ('nth', it[2], id, k), True)
                res.append(('item', s1, x))
            return res + [('end', E.assume(st, more, False), None)]
        e = elem(E, st, it, id)
        more = ('more', ('app', 'range', it[2], S(it[3])) if kind == 'range' else it[2], id)
        s1 = E.assume(st, more, True)
        if kind == 'mut':
            s1 = s1.copy()
            r = it[3]
            m = E.read(s1, r[1], r[2])
            o = E.new_obj(s1, e, 'elem')
            ix = ('app', 'ix', e)
            if m[0] == 'els':
                E.write(s1, r[1], r[2], ('els', m[1], m[2] + ((ix, o, e),)))
            else:
                E.write(s1, r[1], r[2], ('els', m, ((ix, o, e),)))
            e = ('ref', o, ())
        if kind == 'range' and it[2][0] == 'tup':
            lo, hi = it[2][1]
            facts = dict(s1.facts)
            facts[pos(sub(e, sub(lo, I(1))))] = True
            facts[pos(sub(hi if it[3] == 'Range' else add(hi, I(1)), e))] = True
            s1 = s1.copy()
            s1.facts = facts
        s2 = E.assume(st, more, False)
        return [('item', s1, e), ('end', s2, None)]
    if kind == 'opt':
        E.nsym += 1
        o = it[2]
        done = ('more', it[2], E.nsym)
        res = []
        for s, b in E.split(st, mk_and(E.is_some(o), done)):
            res.append(('item', s, payload(E, o, SP)) if b else ('end', s, None))
        return res
    if kind == 'queue':
        r = it[3]
        return [('end', s, None) if x is None else ('item', s, x) for s, x in
                pop_at(E, st, r, E.v(st, E.read(st, r[1], r[2])), True, it[4], c.sp, 'VecDeque::pop_front')]
    if kind == 'adv':
        return pull(c, st, it[2])
    if kind == 'chain':
        res = []
        for o in pull(c, st, it[2]):
            if o[0] == 'end':
                res += pull(c, o[1], it[3])
            else:
                res.append(o)
        return res
    if kind == 'zip':
        res = []
        for o in pull(c, st, it[2]):
            if o[0] != 'item':
                res.append(o)
                continue
            for p in pull(c, o[1], it[3]):
                res.append(('item', p[1], ('tup', (o[2], p[2]))) if p[0] == 'item' else p)
        return res
    if kind == 'enumerate':
        res = []
        for o in pull(c, st, it[2]):
            if o[0] == 'item':
                E.nsym += 1
                ix = ('app', 'ix', E.deep(o[1], o[2]))
                E.tyhint.setdefault(ix, ('prim', 'usize'))
                res.append(('item', o[1], ('tup', (ix, o[2]))))
            else:
                res.append(o)
        return res
    if kind in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while', 'flat_map', 'skip_while'):
        res = []
        for o in pull(c, st, it[2]):
            if o[0] != 'item':
                res.append(o)
                continue
            s, x = o[1], o[2]
            if kind == 'flat_map':
                for q in call(c, s, it[3], [x]):
                    if q[0] != 'ok':
                        res.append(q)
                        continue
                    for r in pull(c, q[1], as_it(c, E.v(q[1], q[2]), 99)):
                        res.append(('skip', r[1], None) if r[0] == 'end' else r)
                continue
            outs = call(c, s, it[3], [x]) if it[3] is not None else one(s, x)
            for q in outs:
                if q[0] != 'ok':
                    res.append(q)
                elif kind == 'map':
                    res.append(('item', q[1], q[2]))
                elif kind == 'inspect':
                    res.append(('item', q[1], x))
                elif kind in ('filter', 'take_while', 'skip_while'):
                    for s2, b in E.split(q[1], q[2] if kind != 'skip_while' else mk_not(q[2])):
                        res.append(('item', s2, x) if b else (('end' if kind == 'take_while' else 'skip'), s2, None))
                else:
                    v = E.v(q[1], q[2])
                    for s2, b in E.split(q[1], E.is_some(v)):
                        res.append(('item', s2, payload(E, resolve_ite(E, s2, v, 1), SP)) if b else
                                   (('end' if kind == 'map_while' else 'skip'), s2, None))
        return res
    raise ValueError(kind)


@model('Iterator::next', 'DoubleEndedIterator::next_back')
def it_next(c):
    E = c.E
    a = loc(c)
    it = c.v(0)
    if it[0] != 'it':
        if it[0] == 'adt':
            # local struct implementing Iterator is inlined before; std structs are unknown
            if it[1].endswith('ops::Range') and a is not None:
                it = ('it', 'range', ('tup', tuple(E.v(c.st, y) for y in it[3][:2])), 'Range', c.E.strip(c.atys[0])[2][0])
            else:
                return None
        else:
            it = ('it', 'seq', E.deep(c.st, it), None, None)
    if not is_lit(it) and a is not None and E.of_this_round(a[1]):
        # known elements, outside of any loop over them
        it = lit(it) or it
    if is_lit(it):
        if a is None:
            it = unlit(it)
        else:
            res = []
            for o in pull(c, c.st, it):
                s = o[1]
                if o[0] in ('item', 'skip'):
                    s = s.copy()
                    E.write(s, a[1], a[2], lit_next(it))
                if o[0] == 'skip':
                    c3 = c2(c, s)
                    res += it_next(c3)
                else:
                    res.append(('ok', s, some(o[2]) if o[0] == 'item' else NONE) if o[0] in ('item', 'end') else (o[0], s) + o[2:])
            return res
    if can_skip(it) and it[1] != 'adv' and a is not None and E.of_this_round(a[1]):
        # the first element of a filtered sequence
        base, f = it_body(c, c.st, it, lambda x: T)
        cond = it_any(E, c.st, base, f)
        t = first_of(c, it, lambda x: (T, x)) if cond is not None else None
        if t is not None:
            def adv(s):
                s = s.copy()
                E.write(s, a[1], a[2], ('it', 'adv', it, None, item_ty(it)))
                return one(s, some(t))
            return E.branch(c.st, cond, adv, lambda s: one(s, NONE))
    res = []
    peekable = peeks(c)
    for o in peeked_pull(c, it) if peekable else pull(c, c.st, it):
        if o[0] == 'item':
            s = o[1]
            if peekable:
                s = taken(c, s, it, o[2])
            if a is not None and E.of_this_round(a[1]) and it[1] not in ('adv', 'queue'):
                s = s.copy()
                E.write(s, a[1], a[2], ('it', 'adv', it, None, item_ty(it)))
            res.append(('ok', s, some(o[2])))
        elif o[0] == 'end':
            res.append(('ok', o[1], NONE))
        else:
            res.append(o)
    return res


def peeks(c):
    ty = c.E.strip(c.atys[0]) if c.atys and c.atys[0] else None
    return bool(ty) and ty[0] == 'adt' and ty[1].endswith('Peekable')


def peek_key(c, it):
    return (it[:3], tuple(c.E.loopmarks))


def peeked_pull(c, it):
    """pulling after a peek gives the element that was seen"""
    seen = dict(c.st.peeks).get(peek_key(c, it))
    if seen:
        return [('item', c.st, seen[0])] if seen[0] is not None else [('end', c.st, None)]
    return pull(c, c.st, it)


def saw(c, st, it, x):
    st = st.copy()
    k = peek_key(c, it)
    st.peeks = tuple(p for p in st.peeks if p[0] != k) + ((k, x),)
    return st


def taken(c, st, it, x):
    st = saw(c, st, it, ())
    c.E.event(st, 'take', c.nm, (x,), None, c.sp)
    return st


@model('Peekable::next_if', 'Peekable::next_if_eq', 'Peekable::peek')
def next_if(c):
    E = c.E
    it = c.v(0)
    if it[0] != 'it':
        return None
    res = []
    for o in peeked_pull(c, it):
        o = (o[0], saw(c, o[1], it, (o[2],))) + o[2:] if o[0] in ('item', 'end') else o
        if o[0] != 'item':
            res.append(('ok', o[1], NONE) if o[0] == 'end' else o)
            continue
        if c.nm.endswith('peek'):
            res.append(('ok', o[1], some(o[2])))
            continue
        outs = call(c, o[1], c.args[1], [o[2]]) if c.nm.endswith('next_if') else one(o[1], sem_eq(E, E.deep(o[1], o[2]), c.d(1)))
        for q in outs:
            if q[0] != 'ok':
                res.append(q)
                continue
            for s2, b in E.split(q[1], q[2]):
                res.append(('ok', taken(c, s2, it, o[2]) if b else s2, some(o[2]) if b else NONE))
    return res


# ---- closures as terms ---------------------------------------------------------------------------------------
def lam_of(c, st, f, n=1, tys=()):
    """closure body as a term over bound variables; None when it has effects or cannot be merged"""
    E = c.E
    d = E.bv
    E.bv += 1
    vs = [('bvar', d)] if n == 1 else [('bvar', d, i) for i in range(n)]
    for v, t in zip(vs, tys or ()):
        if t is not None:
            E.tyhint[v] = E.strip(t)
    try:
        outs = call(c, st, f, vs)
    finally:
        E.bv -= 1
    if len(outs) != 1 or outs[0][0] != 'ok' or outs[0][1].ev is not st.ev:
        return searched(c, st, outs)
    return E.deep(outs[0][1], outs[0][2])


def searched(c, st, outs):
    """the value of a closure that looks for the first fitting element of a sequence in a loop"""
    E = c.E
    key, val, loop = None, {}, None
    for o in outs:
        if o[0] != 'ok' or not o[1].ev or o[1].ev[0] is not st.ev or o[1].ev[1].kind != 'loop' or loop not in (None, o[1].ev[1]):
            return None
        loop = o[1].ev[1]
        ks = [k for k in o[1].facts if k[0] == 'srch' and k not in st.facts]
        if len(ks) != 1 or key not in (None, ks[0]):
            return None
        key = ks[0]
        v = E.deep(o[1], o[2])
        for k, b in o[1].facts.items():
            if k[0] == 'more' and k[1] == key[2] and b is True and k not in st.facts:
                v = subst(v, ('app', 'ix', ('el', k[1], k[2])), ('app', 'idx', key[2], key))
        if any(x[0] in ('lv', 'el', 'elk', 'elv') for x in subterms(v)) or val.setdefault(o[1].facts[key], v) != v:
            return None
    if loop is None or set(val) != {True, False} or any(t.events for t in loop.x['iters']):
        return None
    return mk_ite(key, val[True], val[False])


def it_any(E, st, it, pred):
    """exists an element satisfying pred (a function from element term to boolean term)"""
    kind = it[1]
    if kind == 'seq' and it[2][0] == 'arr' and len(it[2][1]) <= 16:
        r = F
        for x in it[2][1]:
            r = mk_or(r, pred(E.deep(st, x)))
        return r
    if kind == 'chain':
        a, b = it_any(E, st, it[2], pred), it_any(E, st, it[3], pred)
        return None if a is None or b is None else mk_or(a, b)
    if kind in ('seq', 'set', 'keys', 'vals', 'pairs', 'range'):
        d = E.bv
        E.bv += 1
        e = elem(E, st, it, ('b', d))
        x = e
        if e[0] in ('el', 'elk'):
            x = ('bvar', d)
            if e in E.tyhint:
                E.tyhint[x] = E.tyhint[e]
            if kind == 'vals':
                x = ('elv', it[2], ('bvar', d))
        elif e[0] == 'elv':
            x = ('elv', it[2], ('bvar', d))
            if e in E.tyhint:
                E.tyhint[x] = E.tyhint[e]
        elif e[0] == 'tup':
            x = ('tup', (('bvar', d), ('elv', it[2], ('bvar', d))))
            E.tyhint[('bvar', d)] = E.tyhint.get(e[1][0], ('other', '?'))
            if e[1][1] in E.tyhint:
                E.tyhint[x[1][1]] = E.tyhint[e[1][1]]
        b = pred(x)
        E.bv -= 1
        if b is None:
            return None
        if b[0] == 'bool' and b[1] is False:
            return F
        if kind in ('set', 'keys') and b[0] == 'eq' and x in b[1:]:
            k = b[2] if b[1] == x else b[1]
            if not contains(k, x):
                if kind == 'set':
                    return ('has', it[2], k)
                return E.is_some(lookup(E, st, it[2], k))
        return ('srch', 'any', it_src(it), b)
    return None


def it_src(it):
    return ('app', it[1], it[2]) if it[1] in ('keys', 'vals', 'pairs') else it[2] if it[1] != 'range' else ('app', 'range', it[2], S(it[3]))


def it_body(c, st, it, f):
    """(base iterator, function of element term -> (cond, value) term) for searches; None if not pure"""
    E = c.E
    kind = it[1]
    if kind in ('map', 'filter', 'filter_map', 'inspect') and it[3] is not None:
        def g(x):
            outs = call(c, st, it[3], [x])
            if len(outs) != 1 or outs[0][0] != 'ok' or outs[0][1].ev is not st.ev:
                return None
            v = E.deep(outs[0][1], outs[0][2])
            if kind == 'map':
                return f(v)
            if kind == 'inspect':
                return f(x)
            if kind == 'filter':
                r = f(E.deep(st, x))
                return None if r is None else mk_and(v, r)
            r = f(payload(E, v, SP))
            return None if r is None else mk_and(E.is_some(v), r)
        return it_body(c, st, it[2], g)
    if kind == 'enumerate':
        return it_body(c, st, it[2], lambda x: f(('tup', (('app', 'ix', x), x))))
    return it, f


def pure_pred(c, st, f):
    E = c.E

    def p(x):
        outs = call(c, st, f, [x])
        if len(outs) != 1 or outs[0][0] != 'ok' or outs[0][1].ev is not st.ev:
            return None
        v = E.deep(outs[0][1], outs[0][2])
        return v
    return p


def search(c, kind):
    E = c.E
    it = as_it(c, c.v(0), 0)
    p = pure_pred(c, c.st, c.args[1])
    if kind == 'all':
        q = lambda x: None if p(x) is None else mk_not(p(x))
    elif kind == 'find_map':
        q = lambda x: None if p(x) is None else E.is_some(p(x))
    else:
        q = p
    base, f = it_body(c, c.st, it, q)
    lt = lit(base)
    if lt is not None and lt[1] == 'lit' and kind in ('any', 'all') and len(lt[2]) > 1:
        rs = [f(x) for x in lt[2]]
        if all(r is not None for r in rs):
            a = F
            for r in rs:
                a = mk_or(a, r)
            return it, a
    a = it_any(E, c.st, base, f)
    return it, a


@model('Iterator::any', 'Iterator::all')
def it_any_m(c):
    kind = c.nm.split('::')[-1]
    it, a = search(c, kind)
    if a is not None and not (c.E.unroll_n and lit(it) is not None):
        return c.ret(a if kind == 'any' else mk_not(a))
    E = c.E
    # effectful predicate: a loop with early exit
    return syn_loop(c, it, None, lambda s, acc, x: then(call(c, s, c.args[1], [x]), lambda s, b: stop_if(E, s, b if kind == 'any' else mk_not(b), ('bool', kind == 'any'))),
                    lambda s, acc: one(s, ('bool', kind != 'any')))


def stop_if(E, s, b, val):
    res = []
    for s2, t in E.split(s, b):
        res.append(('stop', s2, val) if t else ('cont', s2, None))
    return res


@model('Iterator::find', 'Iterator::position', 'Iterator::find_map', 'Iterator::rposition')
def it_find(c):
    E = c.E
    kind = c.nm.split('::')[-1]
    it, a = search(c, kind)
    lt = lit(it)
    if lt is not None and E.unroll_n and is_lit(lt) and kind in ('find', 'find_map'):
        a = None
    if lt is not None and lt[1] == 'lit' and kind in ('find', 'find_map', 'position') and len(lt[2]) > 1:
        # a short sequence of known elements: first match, one case per element
        a = None
        if kind == 'position':
            def pos(s, acc, x):
                return then(call(c, s, c.args[1], [x[1][1]]), lambda s, b: stop_if(E, s, b, some(x[1][0])))
            return syn_loop(c, ('it', 'enumerate', lt, None, None), None, pos, lambda s, acc: one(s, NONE))
    if a is None:
        def step(s, acc, x):
            if kind == 'find':
                xr = x
                return then(call(c, s, c.args[1], [xr]), lambda s, b: stop_if(E, s, b, some(x)))
            if kind == 'find_map':
                def fm(s, v):
                    v = E.v(s, v)
                    return stop_if(E, s, E.is_some(v), v)
                return then(call(c, s, c.args[1], [x]), fm)
            return then(call(c, s, c.args[1], [x]), lambda s, b: stop_if(E, s, b, some(('app', 'ix', E.deep(s, x)))))
        return syn_loop(c, it, None, step, lambda s, acc: one(s, NONE))
    if a == F:
        return c.ret(NONE)
    if kind in ('position', 'rposition'):
        src = a[2] if a[0] == 'srch' else E.deep(c.st, it)
        t = ('app', 'idx' if kind == 'position' else 'ridx', src, a)
        E.tyhint.setdefault(t, ('prim', 'usize'))
        return E.branch(c.st, a, lambda s: one(s, some(t)), lambda s: one(s, NONE))
    p = pure_pred(c, c.st, c.args[1])
    if kind == 'find':
        t = first_of(c, it, lambda x: (p(x), x))
    else:
        t = first_of(c, it, lambda x: (E.is_some(p(x)), payload(E, resolve_ite(E, c.st, p(x), 1), SP)))
    if t is None:
        return None
    ty = c.dty[2][0] if c.dty[0] == 'adt' and c.dty[2] else None
    if ty is not None:
        E.tyhint.setdefault(t, ty)
    return E.branch(c.st, a, lambda s: one(s, some(t)), lambda s: one(s, NONE))


def first_of(c, it, f):
    """term of the first element satisfying f (element -> (condition, value)) of an effect-free iterator"""
    E = c.E
    got = {}

    def q(x):
        r = f(x)
        if r is None or r[0] is None:
            return None
        got['v'] = r[1]
        return r[0]
    base, g = it_body(c, c.st, it, q)
    if base[1] not in ('seq', 'set', 'keys', 'vals', 'pairs', 'range'):
        return ('app', 'foundmap', E.deep(c.st, it), UNIT)
    d = E.bv
    E.bv += 1
    x = elem(E, c.st, base, ('b', d))
    y = x
    for z in subterms(x):
        if z[0] in ('el', 'elk'):
            ty = E.tyhint.get(z)
            y = subst(x, z, ('bvar', d))
            if ty is not None:
                E.tyhint[('bvar', d)] = ty
            break
    cond = g(y)
    E.bv -= 1
    if cond is None:
        return None
    return ('app', 'foundmap', it_src(base), mk_ite(cond, some(got['v']), NONE))


def can_skip(it):
    while it[0] == 'it' and it[1] in ('map', 'filter', 'filter_map', 'inspect', 'enumerate'):
        if it[1] in ('filter', 'filter_map'):
            return True
        it = it[2]
    return False


def syn_loop(c, it, init, step, fin, accty=None):
    """loop over an iterator with an accumulator; step -> ok(new acc) | cont | stop(value)"""
    E = c.E
    st = c.st.copy()
    acc = E.new_obj(st, init if init is not None else UNIT, 'acc')
    if accty is not None:
        E.objty[acc] = accty
    elif init is not None and init in E.tyhint:
        E.objty[acc] = E.tyhint[init]

    def body(s0, it=it):
        outs = []
        s0 = s0.copy()
        for o in pull(c, s0, it):
            if o[0] == 'item':
                for q in step(o[1], E.read(o[1], acc), o[2]):
                    if q[0] == 'ok':
                        s = q[1].copy()
                        if init is not None:
                            E.write(s, acc, (), E.deep(s, q[2]) if not has_ref(q[2]) else q[2])
                        outs.append(('back', s, None))
                    elif q[0] == 'cont':
                        outs.append(('back', q[1], None))
                    elif q[0] == 'stop':
                        outs.append(('exit', q[1], ('stop', q[2])))
                    elif q[0] == 'skip':
                        outs.append(('back', q[1], None))
                    else:
                        outs.append(q)
            elif o[0] == 'skip':
                outs.append(('back', o[1], None))
            elif o[0] == 'end':
                outs.append(('exit', o[1], ('end',)))
            else:
                outs.append(o)
        return outs
    res = []
    lt = lit(it)
    outs = None
    if lt is not None:
        outs, sts = [], [st]
        while sts and outs is not None:
            new = []
            for s in sts:
                for o in body(s, lt):
                    if o[0] == 'back':
                        new.append(o[1])
                    else:
                        outs.append(o)
            sts = new
            if is_lit(lt) and lit_done(lt) and sts:
                outs = None
            elif not lit_done(lt):
                lt = lit_next(lt)
            if len(sts) > 64:
                outs = None
    for o in outs if outs is not None else E.loop_fix(st, body, c.sp):
        if o[0] == 'exit':
            if o[2][0] == 'stop':
                res.append(('ok', o[1], o[2][1]))
            else:
                res += fin(o[1], E.read(o[1], acc))
        else:
            res.append(o)
    return res


@model('Iterator::for_each', 'Iterator::try_for_each')
def for_each(c):
    it = as_it(c, c.v(0), 0, True)
    if c.nm.endswith('try_for_each'):
        E = c.E

        def step(s, acc, x):
            def chk(s, v):
                v = E.v(s, v)
                res = []
                for s2, b in E.split(s, E.is_ok(v)):
                    res.append(('cont', s2, None) if b else ('stop', s2, v))
                return res
            return then(call(c, s, c.args[1], [x]), chk)
        return syn_loop(c, it, None, step, lambda s, acc: one(s, ok(UNIT)))
    return syn_loop(c, it, None, lambda s, acc, x: then(call(c, s, c.args[1], [x]), lambda s, v: [('cont', s, None)]),
                    lambda s, acc: one(s, UNIT))


@model('Iterator::fold')
def fold(c):
    it = as_it(c, c.v(0), 0, True)
    E = c.E
    init = c.args[1]
    if len(c.atys) > 1:
        E.tyhint.setdefault(init, c.atys[1])
    return syn_loop(c, it, init, lambda s, acc, x: call(c, s, c.args[2], [acc, x]), lambda s, acc: one(s, acc), c.E.strip(c.dty))


@model('Iterator::try_fold')
def try_fold(c):
    it = as_it(c, c.v(0), 0, True)
    E = c.E

    def step(s, acc, x):
        def chk(s, v):
            v = E.v(s, v)
            res = []
            for s2, b in E.split(s, E.is_ok(v)):
                res.append(('ok', s2, payload(E, resolve_ite(E, s2, v, 0), OKP)) if b else ('stop', s2, v))
            return res
        return then(call(c, s, c.args[2], [acc, x]), chk)
    if c.dty[0] == 'adt' and c.dty[1] != RES:
        return None
    return syn_loop(c, it, c.args[1], step, lambda s, acc: one(s, ok(acc)))


@model('Iterator::sum', 'Iterator::count')
def sum_(c):
    it = as_it(c, c.v(0), 0)
    E = c.E
    if c.nm.endswith('count') and it[1] in ('seq', 'set', 'keys', 'vals', 'pairs'):
        t = mk_len(E, c.st, it[2])
        E.tyhint.setdefault(t, ('prim', 'usize'))
        return c.ret(t)

    def step(s, acc, x):
        if c.nm.endswith('count'):
            return one(s, add(acc, I(1)))
        return one(s, add(acc, E.v(s, x)))
    return syn_loop(c, it, I(0), step, lambda s, acc: one(s, acc), E.strip(c.dty))


@model('Iterator::last', 'Iterator::max', 'Iterator::min', 'Iterator::nth', 'Iterator::max_by_key', 'Iterator::min_by_key')
def it_last(c):
    it = as_it(c, c.v(0), 0)
    t = ('app', c.nm.split('::')[-1], c.E.deep(c.st, it)) + tuple(c.d(i) for i in range(1, len(c.args)))
    c.E.tyhint.setdefault(t, c.dty)
    return c.ret(t)


def pure_it(c, st, it):
    """True when all closures of the adapters are effect free"""
    kind = it[1]
    if kind in ('chain', 'zip'):
        return pure_it(c, st, it[2]) and pure_it(c, st, it[3])
    if kind in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while'):
        if it[3] is None:
            return pure_it(c, st, it[2])
        if not pure_it(c, st, it[2]):
            return False
        E = c.E
        for o in pull(c, st.copy(), it):
            if o[0] not in ('item', 'end', 'skip') or o[1].ev is not st.ev:
                return False
        return True
    if kind in ('mut', 'queue'):
        return False
    if kind in ('enumerate', 'adv'):
        return pure_it(c, st, it[2])
    return kind != 'flat_map'


def freeze(c, it):
    """what the closures of an effect-free iterator capture by reference, by value"""
    if not isinstance(it, tuple) or not it:
        return it
    if it[0] == 'lamc':
        return it
    if it[0] == 'clo':
        return it[:2] + (tuple(c.E.deep(c.st, x) if x[0] == 'ref' else x for x in it[2]),) + it[3:]
    if it[0] == 'it':
        return tuple(freeze(c, x) for x in it)
    return it


def copied_map(c, it):
    """the map whose entries an iterator gives unchanged"""
    if it is None or it[0] != 'it':
        return None
    if it[1] == 'pairs':
        return it[2] if it[3] != 'IndexMap' else None
    if it[1] == 'map' and copied_map(c, it[2]) is not None and pure_it(c, c.st, it):
        items = [o for o in pull(c, c.st.copy(), it) if o[0] != 'end']
        if len(items) == 1 and items[0][0] == 'item':
            x = c.E.deep(items[0][1], items[0][2])
            if x[0] == 'tup' and len(x[1]) == 2 and x[1][0][0] == 'elk' and x[1][0][1] == copied_map(c, it[2]) and x[1][1] == ('elv', x[1][0][1], x[1][0]):
                return x[1][0][1]
    return None


@model('Iterator::collect', 'FromIterator::from_iter', 'Extend::extend', 'Vec::extend', 'HashMap::extend', 'Vec::extend_from_slice', 'Vec::append')
@option_known(lambda c: 1 if 'extend' in c.nm else None)
def collect(c):
    E = c.E
    ext = 'extend' in c.nm or 'append' in c.nm
    it = as_it(c, c.v(1 if ext else 0), 1 if ext else 0)
    ty = E.strip(c.atys[0]) if ext else c.dty
    h = ty[1].split('::')[-1] if ty[0] == 'adt' else ty[0]
    a = loc(c) if ext else None
    if ext and a is None:
        return None
    if ext and h == 'Vec':
        v = c.d(1)
        if v[0] == 'app' and v[1] == 'readinto' and v[2] == EMPTYV:
            # what was read into a buffer of its own
            st = c.st.copy()
            E.write(st, a[1], a[2], ('app', 'readinto', E.deep(st, E.read(st, a[1], a[2])), v[3], v[4]))
            emptied(c, st)
            return one(st, UNIT)
    wrap = None
    if h in ('Result', 'Option') and not ext:
        wrap = h
        ty = ty[2][0]
        h = ty[1].split('::')[-1] if ty[0] == 'adt' else ty[0]
        if ty[0] == 'tuple' and not ty[1]:
            h = 'Unit'
    if h == 'String':
        init = S('')
    elif h in ('Vec', 'VecDeque', 'Box'):
        init = EMPTYV
    elif h in ('HashMap', 'HashSet', 'BTreeMap', 'IndexSet', 'BTreeSet', 'DashMap'):
        if not ext and not wrap and h in ('HashMap', 'BTreeMap', 'DashMap') and it is not None and it[:2] == ('it', 'pairs') and it[3] != 'IndexMap':
            return c.ret(it[2])
        if h == 'DashMap' and ext:
            return None
        init = EMPTYM
    elif h == 'Unit':
        init = UNIT
    else:
        return None
    if not ext and not wrap and h in ('Vec', 'VecDeque', 'HashSet', 'BTreeSet', 'IndexSet') and pure_it(c, c.st, it):
        if it[1] in ('seq',) and (it[2][0] == 'arr' or it[2][0] == 'app' and it[2][1] == 'repeat') and h == 'Vec':
            return c.ret(it[2])
        if it[1] == 'seq' and h == 'Vec' and it[2][0] != 'app':
            return c.ret(it[2])
        if h in ('HashSet', 'BTreeSet', 'IndexSet') and it[1] == 'set':
            return c.ret(it[2])
        t = ('app', 'coll', freeze(c, it))
        E.tyhint.setdefault(t, ty)
        return c.ret(t)
    if ext:
        init = E.read(c.st, a[1], a[2])
        src = copied_map(c, it) if h in ('HashMap', 'BTreeMap') else None
        if src is not None:
            # all entries of another map, over those that are there
            st = c.st.copy()
            old = E.deep(st, init)
            E.event(st, 'insert', 'extend', (old, ('app', 'keysof', src), ('app', 'valsof', src)), None, c.sp, raw=(a, c.args[1]))
            E.write(st, a[1], a[2], src if old == EMPTYM else ('app', 'over', old, src))
            return one(st, UNIT)

    def addto(s, acc, x):
        if h == 'Unit':
            return one(s, UNIT)
        if h == 'String':
            return one(s, cat(acc, E.deep(s, x)))
        if h in ('Vec', 'VecDeque', 'Box'):
            dx = E.deep(s, x)
            return one(s, ('arr', acc[1] + (dx,)) if acc[0] == 'arr' and len(acc[1]) < 64 else ('app', 'push', acc, dx))
        x = E.v(s, x)
        s = s.copy()
        if h in ('HashMap', 'BTreeMap', 'DashMap'):
            k, v = E.deep(s, E.getfield(x, 'T.0.0')), E.deep(s, E.getfield(x, 'T.0.1'))
            E.event(s, 'insert', 'collect', (acc, k, v), None, c.sp, raw=(a or ('sym', 'collect', 0), k, v))
            return one(s, ('app', 'ins', acc, k, v))
        k = E.deep(s, x)
        E.event(s, 'insert', 'collect', (acc, k), None, c.sp, raw=(a or ('sym', 'collect', 0), k))
        return one(s, ('app', 'sins', acc, k))

    def step(s, acc, x):
        if wrap is None:
            return addto(s, acc, x)
        x = E.v(s, x)
        res = []
        cond = E.is_ok(x) if wrap == 'Result' else E.is_some(x)
        for s2, b in E.split(s, cond):
            if b:
                y = resolve_ite(E, s2, x, 0 if wrap == 'Result' else 1)
                res += addto(s2, acc, payload(E, y, OKP if wrap == 'Result' else SP))
            else:
                res.append(('stop', s2, err(payload(E, resolve_ite(E, s2, x, 1), ERP)) if wrap == 'Result' else NONE))
        return res

    def fin(s, acc):
        if ext:
            s = s.copy()
            E.write(s, a[1], a[2], acc)
            emptied(c, s)
            return one(s, UNIT)
        if wrap == 'Result':
            return one(s, ok(acc))
        return one(s, some(acc) if wrap else acc)
    return syn_loop(c, it, init, step, fin)


def emptied(c, st):
    """append() moves everything out of its argument"""
    if 'append' in c.nm and len(c.args) > 1:
        b = loc(c, 1)
        if b is not None:
            c.E.write(st, b[1], b[2], EMPTYV)


def srch_any(v):
    return v


# ---- shared tables with guards ----------------------------------------------------------------------------------
def new_guard(c, st, cond, m, k, kind):
    E = c.E
    E.nguard += 1
    st.guards = dict(st.guards)
    st.guards[E.nguard] = (cond, E.deep(st, m), k, kind)
    return E.nguard


@model('array::map')
def array_map(c):
    v = c.v(0)
    if v[0] != 'arr':
        return None
    outs = [(c.st, ())]
    res = []
    for x in v[1]:
        new = []
        for st, done in outs:
            for o in call(c, st, c.args[1], [x]):
                if o[0] == 'ok':
                    new.append((o[1], done + (o[2],)))
                else:
                    res.append(o)
        outs = new
    return res + [('ok', st, ('arr', done)) for st, done in outs]


@model('DashMap::get', 'DashMap::get_mut')
def dash_get(c):
    E = c.E
    m = c.d(0)
    k = keyof(c, 1)
    t = ('app', 'get', m, k)
    E.tyhint.setdefault(t, ('adt', OPT, (c.dty[2][0],) if c.dty[0] == 'adt' and c.dty[2] else ()))
    st = c.st.copy()
    kind = 'r' if c.nm.endswith('get') else 'w'
    E.event(st, 'lock', c.nm, (m, k), t, c.sp, x=kind)
    val = payload(E, t, SP)
    vt = E.strip(c.atys[0])
    if vt[0] == 'adt' and len(vt[2]) > 1:
        E.tyhint[val] = vt[2][1]
    res = []
    for s, b in E.split(st, ('is', t, 1)):
        if b:
            s = s.copy()
            g = new_guard(c, s, T, m, k, kind)
            if kind == 'w':
                o = E.new_obj(s, val, 'dashelem')
                E.guardobj[g] = (o, val, c.sp)
                res += one(s, some(('gd', g, ('ref', o, ()))))
            else:
                res += one(s, some(('gd', g, val)))
        else:
            res += one(s, NONE)
    return res


@model('DashMap::insert')
def dash_insert(c):
    E = c.E
    m = c.d(0)
    k = keyof(c, 1)
    st = c.st.copy()
    old = ('app', 'dashold', m, k)
    E.tyhint.setdefault(old, c.dty)
    E.event(st, 'lock', c.nm, (m, k), None, c.sp, x='w')
    E.event(st, 'insert', c.nm, (m, k, c.d(2)), old, c.sp, raw=tuple(c.args))
    return c.ret(old, st)


@model('DashMap::remove', 'DashMap::contains_key', 'DashMap::len', 'DashMap::is_empty', 'DashMap::clear', 'DashMap::alter', 'DashMap::retain')
def dash_misc(c):
    E = c.E
    m = c.d(0)
    k = keyof(c, 1) if len(c.args) > 1 else UNIT
    st = c.st.copy()
    op = c.nm.split('::')[-1]
    E.event(st, 'lock', c.nm, (m, k), None, c.sp, x='r' if op in ('contains_key', 'len', 'is_empty') else 'w')
    if op == 'contains_key':
        t = ('app', 'get', m, k)
        E.tyhint.setdefault(t, ('adt', OPT, ()))
        return c.ret(('is', t, 1), st)
    if op in ('remove', 'clear', 'alter', 'retain'):
        E.event(st, 'remove', c.nm, (m, k), None, c.sp, raw=tuple(c.args))
    t = ('app', 'dash' + op, m, k)
    E.tyhint.setdefault(t, c.dty)
    return c.ret(t, st)


@model('DashMap::entry')
def dash_entry(c):
    E = c.E
    m = c.d(0)
    k = keyof(c, 1)
    st = c.st.copy()
    E.event(st, 'lock', c.nm, (m, k), None, c.sp, x='w')
    g = new_guard(c, st, T, m, k, 'w')
    return c.ret(('dent', ('gd', g, UNIT), m, k), st)


@model('Entry::and_modify')
def and_modify(c):
    E = c.E
    e = c.v(0)
    if e[0] == 'ent':
        _, obj, path, k, mty = e
        cur = lookup(E, c.st, E.read(c.st, obj, path), k)

        def occ(s):
            s = s.copy()
            p = payload(E, resolve_ite(E, s, cur, 1), SP)
            r = p if p[0] == 'ref' else pin(E, s, ('ref', obj, path), k, p)
            return then(call(c, s, c.args[1], [r]), lambda s, v: one(s, e))
        return E.branch(c.st, E.is_some(cur), occ, lambda s: one(s, e))
    if e[0] != 'dent':
        return None
    m, k = e[2], e[3]
    t = ('app', 'get', m, k)
    E.tyhint.setdefault(t, ('adt', OPT, ()))
    ety = c.E.strip(c.atys[0])

    def occ(s):
        s = s.copy()
        val = payload(E, t, SP)
        if ety[0] == 'adt' and len(ety[2]) > 1:
            E.tyhint.setdefault(val, ety[2][1])
        o = E.new_obj(s, val, 'dashelem')

        def fin(s, v):
            s = s.copy()
            E.event(s, 'modify', 'DashMap', (m, k, E.deep(s, s.mem.get(o, val))), None, c.sp)
            return one(s, e)
        return then(call(c, s, c.args[1], [('ref', o, ())]), fin)
    return E.branch(c.st, ('is', t, 1), occ, lambda s: one(s, e))


def dash_or_insert(c, e):
    E = c.E
    m, k = e[2], e[3]
    t = ('app', 'get', m, k)
    E.tyhint.setdefault(t, ('adt', OPT, ()))
    g = e[1][1]

    def occ(s):
        s = s.copy()
        o = E.new_obj(s, payload(E, t, SP), 'dashelem')
        return one(s, ('gd', g, ('ref', o, ())))

    def vac(s):
        outs = one(s, c.args[1]) if c.nm.endswith('or_insert') else call(c, s, c.args[1], [])

        def put(s, v):
            s = s.copy()
            E.event(s, 'insert', 'DashMap::entry', (m, k, E.deep(s, v)), None, c.sp, raw=(m, k, v))
            o = E.new_obj(s, v, 'dashelem')
            return one(s, ('gd', g, ('ref', o, ())))
        return then(outs, put)
    return E.branch(c.st, ('is', t, 1), occ, vac)


@model('RefMulti::key', 'Ref::key', 'RefMut::key', 'RefMultiMut::key')
def ref_key(c):
    v = c.v(0)
    if v[0] == 'tup':
        return c.ret(v[1][0])
    for g, (cd, m, k, kind) in c.st.guards.items():
        x = c.args[0]
        if ('gd' in repr(x)):
            return c.ret(k)
    return None


@model('RefMulti::value', 'Ref::value', 'RefMut::value', 'RefMut::value_mut', 'RefMultiMut::value', 'Ref::pair', 'RefMulti::pair')
def ref_value(c):
    v = c.v(0)
    if c.nm.endswith('pair'):
        return c.ret(v) if v[0] == 'tup' else None
    if v[0] == 'tup':
        return c.ret(v[1][1])
    return c.ret(c.args[0])


# std locks: guard values like the table guards
@model('Mutex::lock', 'RwLock::read', 'RwLock::write')
def lock(c):
    E = c.E
    m = c.d(0)
    st = c.st.copy()
    kind = 'r' if c.nm.endswith('read') else 'w'
    E.event(st, 'lock', c.nm, (m, UNIT), None, c.sp, x=kind)
    g = new_guard(c, st, T, m, UNIT, kind)
    return c.ret(ok(('gd', g, c.args[0])), st)


# ---- tasks, futures, time ----------------------------------------------------------------------------------------
@model('future::get_context')
def get_context(c):
    return c.ret(('sym', 'cx', 0))


POLL = 'std::task::Poll'


@model('Future::poll')
def poll(c):
    E = c.E
    f = c.v(0)
    a = loc(c)
    if f[0] == 'clo':
        outs = E.call_value(c.st, a if a is not None else f, [c.args[1]], None, c.sp, c.fr)
        return then(outs, lambda s, v: one(s, ('adt', POLL, 0, (v,))))
    if f[0] == 'fut':
        st = c.st.copy()
        vals = tuple(E.deep(st, x) for x in f[2])
        rty = c.dty[2][0] if c.dty[0] == 'adt' and c.dty[2] else None
        res = E.fresh(f[1], rty)
        E.event(st, 'await', f[3], vals, res, c.sp, x=f[1], raw=f[2])
        post = AWAIT.get(f[1])
        if post is not None:
            return then(post(c, st, f, vals, res), lambda s, v: one(s, ('adt', POLL, 0, (v,))))
        for i in f[4]:
            x = f[2][i]
            if x[0] == 'ref':
                x = deepest(E, st, x)
                E.nsym += 1
                E.write(st, x[1], x[2], ('app', 'mut', S(f[1]), I(i)) + vals + (I(E.nsym),))
        return one(st, ('adt', POLL, 0, (res,)))
    st = c.st.copy()
    rty = c.dty[2][0] if c.dty[0] == 'adt' and c.dty[2] else None
    res = E.fresh('await', rty)
    E.event(st, 'await', 'await', (E.deep(st, f),), res, c.sp, x='unknown')
    return one(st, ('adt', POLL, 0, (res,)))


def deepest(E, st, a):
    while True:
        x = E.read(st, a[1], a[2])
        if x[0] != 'ref':
            return a
        a = x


def await_read_until(c, st, f, vals, res):
    """appends what was read (its length on success) to the buffer"""
    E = c.E
    buf = deepest(E, st, f[2][2]) if f[2][2][0] == 'ref' else None
    if buf is not None:
        old = E.read(st, buf[1], buf[2])
        E.nsym += 1
        data = ('sym', 'read', E.nsym)
        st.ev[1].data = data
        E.write(st, buf[1], buf[2], ('app', 'readinto', old, vals[1], data))
        E.tyhint[data] = ('adt', 'std::vec::Vec', (('prim', 'u8'),))
        res = mk_ite(('is', res, 0), ok(('app', 'len', data)), err(payload(E, res, RES + '.1.0')))
    return one(st, res)


AWAIT = {'AsyncBufReadExt::read_until': await_read_until}


@model('mpsc::channel', 'mpsc::unbounded_channel', 'mpsc::sync_channel', 'broadcast::channel', 'watch::channel', 'oneshot::channel')
def channel(c):
    E = c.E
    st = c.st.copy()
    r = E.fresh(c.nm, c.dty)
    E.event(st, 'call', c.fnj['n'], tuple(c.args), r, c.sp, raw=tuple(c.args))
    return c.ret(r, st)


@model('tokio::spawn', 'thread::spawn', 'task::spawn', 'Runtime::spawn', 'Handle::spawn', 'Builder::spawn_', 'task::spawn_blocking')
def spawn(c):
    E = c.E
    i = 1 if c.nm in ('Runtime::spawn', 'Handle::spawn') else 0
    f = c.v(i)
    st = c.st.copy()
    E.event(st, 'spawn', c.nm, (), None, c.sp, x=(f, E.deep(st, f)), raw=(f,))
    E.tasks.append((c.nm, f, st, tuple(E.stack)))
    return c.ret(('app', 'joinhandle', I(len(E.tasks))), st)


@model('Runtime::block_on', 'Handle::block_on', 'executor::block_on')
def block_on(c):
    E = c.E
    f = c.v(1)
    st = c.st.copy()
    E.event(st, 'call', 'block_on', (), None, c.sp)
    if f[0] == 'clo':
        return E.call_value(st, c.args[1], [('sym', 'cx', 0)], None, c.sp, c.fr)
    return c.ret(E.fresh('block_on', c.dty), st)


@model('time::sleep', 'Sender::send_', 'Sleep::new')
def sleep_fut(c):
    return c.ret(('fut', c.nm, tuple(c.args), c.fnj['n'], ()))


# ---- effect-free library types -------------------------------------------------------------------------------------
PURE = {'Node', 'Document', 'ExpandedName', 'Attribute', 'DateTime', 'Date', 'NaiveDateTime', 'NaiveTime', 'NaiveDate', 'Datelike', 'Timelike', 'TimeZone',
        'Duration', 'UninitializedFieldError', 'str', 'slice', 'Weekday', 'Path', 'PathBuf', 'char', 'u8', 'Ordering', 'u32', 'usize', 'i32', 'u64', 'num',
        'FixedOffset', 'LocalResult', 'NaiveWeek', 'Add', 'Sub', 'Neg', 'Not', 'Rev', 'cmp', 'Utc_'}
IMPURE_M = {'now'}
# library calls without a transfer function that panic on some arguments
PANICKY = set('''str::split_at str::split_at_mut String::remove String::insert String::insert_str String::drain String::split_off String::truncate
String::replace_range Vec::remove Vec::swap_remove Vec::insert Vec::drain Vec::split_off slice::swap slice::copy_from_slice slice::clone_from_slice
slice::split_at slice::split_at_mut slice::chunks slice::chunks_exact slice::windows slice::rotate_left slice::rotate_right slice::copy_within
VecDeque::insert VecDeque::drain VecDeque::swap VecDeque::split_off VecDeque::range RefCell::borrow RefCell::borrow_mut Iterator::step_by
char::from_digit char::to_digit u32::pow u64::pow usize::pow i32::pow i64::pow String::from_utf8_unchecked Instant::duration_since Vec::swap
NaiveDate::from_ymd NaiveTime::from_hms NaiveDate::and_hms Date::and_hms slice::select_nth_unstable IndexSet::swap_remove_index
IndexSet::index IndexMap::index Layout::array u32::div_ceil u32::isqrt i32::abs i32::rem_euclid u32::rem_euclid u32::next_power_of_two
u32::ilog10 u32::ilog2 u32::ilog usize::ilog10 bool::then_none Duration::from_secs_f64 Duration::from_secs_f32 Duration::mul_f64 slice::as_chunks
BytesMut::split_to BytesMut::split_off Bytes::slice Bytes::split_to Buf::advance Buf::get_u8 BufMut::put_slice AsyncBufReadExt::consume BufRead::consume'''.split())


@model('Node::has_attribute')
def node_has_attribute(c):
    t = ('app', 'Node::attribute', c.d(0), c.d(1))
    c.E.tyhint.setdefault(t, ('adt', OPT, (('prim', 'str'),)))
    return c.ret(('is', t, 1))


@model('Node::has_tag_name')
def node_has_tag_name(c):
    return c.ret(mk_eq(('app', 'ExpandedName::name', ('app', 'Node::tag_name', c.d(0))), c.d(1)))


@model('Utc::now', 'Local::now', 'Instant::now', 'SystemTime::now')
def now(c):
    return c.ret(c.E.fresh(c.nm, c.dty))
