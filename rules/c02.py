"""Body length and checksum of outbound messages: the value stored in field 9 is the number of bytes of every
serialised field of header, body and trailer except 8, 9 and 10; the value stored in field 10 is the sum of the
bytes of every serialised field except 10, modulo 256, zero padded to three digits; a message the engine builds
itself gets its body length after all other header/body fields and its checksum last."""
from .base import *
from .flat import *


def stored(trs, tag):
    """(event, value term, path of the map) of every store of field TAG on a trace"""
    out = []
    for e, tr in uniq_events(trs):
        if e.kind == 'insert' and len(e.args) >= 3 and e.args[1] == I(tag):
            out.append((e, e.args[2], tr))
    return out


def value_of(E, v):
    return E.getfield(v, VAL)


def section(e):
    """name of the message section an insert goes to"""
    r = e.raw[0] if e.raw else None
    if r is not None and r[0] == 'ref':
        for p in r[2]:
            if p.startswith('message::Message.0.'):
                return p.rsplit('.', 1)[1]
        return show(r)
    return None


def strip_len(t):
    return t


def check(c):
    c.rule = ('the accumulators are summarised per loop path; for each section, each path is decided for the excluded tags '
              'and for the others')
    E = c.engine()
    b = c.anchor(E, 'Message::set_checksum')
    av, trs = c.run(E, b)
    n = 0
    for t in trs:
        if t.kind != 'ret':
            c.bad('checksum:returns', 'set_checksum may not return', b['span'])
            continue
        st = stored([t], 10)
        c.ob('checksum:stored once', len(st) == 1 and section(st[0][0]) == 'trailer', 'field 10 is not stored once in the trailer', b['span'])
        ins = [e for e, _ in uniq_events([t]) if e.kind == 'insert']
        c.ob('checksum:only', len(ins) == len(st), 'set_checksum stores other fields too', b['span'])
        for e, v, _ in st:
            n += 1
            c.ob('checksum:tag', E.getfield(v, TAG) == I(10), 'the stored field has another tag', e.sp)
            s = value_of(E, v)
            if not (s[0] == 'app' and s[1] == 'pad' and s[2] in (S('0'), ('char', '0')) and 'right' in (s[3], s[3][1:] and s[3][1]) and s[4] in (I(3), 3)):
                c.bad('checksum:format', 'is not zero padded to three digits: %s' % show(s)[:200], e.sp)
                continue
            c.ob('checksum:format', True)
            d = s[6]
            if d[0] == 'app' and d[1] == 'dec':
                d = d[2]
            mod = d[0] == 'app' and d[1] == 'rem' and d[3] == I(256)
            if mod:
                d = d[2]
            ty = E.tyhint.get(d)
            sm = Sum(E, d, 256)
            c.ob('checksum:mod 256', mod or ty == ('prim', 'u8') or bool(sm.loops) and not sm.unreduced, 'the sum is not taken modulo 256: %s' % show(d)[:160], e.sp)
            check_sum(c, 'checksum', E, trs, d, (10,), full_bytes, 'the checksum', e.sp, 256)
    c.floor('checksum stores', n, 1)
    b = c.anchor(E, 'Message::set_body_len')
    av, trs = c.run(E, b)
    n = 0
    for t in trs:
        if t.kind != 'ret':
            c.bad('bodylen:returns', 'set_body_len may not return', b['span'])
            continue
        st = stored([t], 9)
        c.ob('bodylen:stored once', len(st) == 1 and section(st[0][0]) == 'header', 'field 9 is not stored once in the header', b['span'])
        ins = [e for e, _ in uniq_events([t]) if e.kind == 'insert']
        c.ob('bodylen:only', len(ins) == len(st), 'set_body_len stores other fields too', b['span'])
        for e, v, _ in st:
            n += 1
            c.ob('bodylen:tag', E.getfield(v, TAG) == I(9), 'the stored field has another tag', e.sp)
            s = value_of(E, v)
            good = s[0] == 'app' and s[1] == 'dec'
            c.ob('bodylen:format', good, 'is not the decimal number: %s' % show(s)[:200], e.sp)
            if good:
                check_sum(c, 'bodylen', E, trs, s[2], (8, 9, 10), full_len, 'the body length', e.sp)
    c.floor('body length stores', n, 1)
    # messages the engine builds
    E = c.engine()
    b = c.anchor(E, 'message::test_logon')
    av, trs = c.run(E, b)
    for t in trs:
        last9 = last10 = None
        seq = []
        for e in t.events:
            if e.kind == 'insert' and e.args[1][0] == 'int':
                seq.append(e.args[1][1])
        c.ob('built:complete', t.kind == 'ret' and {8, 9, 35, 49, 56, 34, 52, 10} <= set(seq), 'an engine built message lacks standard fields: %s' % seq, b['span'])
        c.ob('built:checksum last', seq[-1:] == [10] and seq.count(10) == 1, 'field 10 is not the last one set: %s' % seq, b['span'])
        c.ob('built:length after fields', seq[-2:-1] == [9] and seq.count(9) == 1, 'field 9 is not set after all other fields: %s' % seq, b['span'])
        c.sample('engine built message sets fields in order %s' % seq)
