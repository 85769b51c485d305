"""The threads and tasks behind the acceptor: their paths, and the operations on queues, sockets and the session table in them."""
from .base import *

PARSE, VERIFY, SEND = 'Message::from_str', 'Session::verify', 'Session::sync_send_to_target'
REVERSE, FORWARD = 'Message::get_reverse_session_id', 'Message::get_session_id'


def wiring(c, opaque=(PARSE, VERIFY, SEND, REVERSE, FORWARD)):
    """engine, traces of starting the acceptor, [(spawn kind, body id, origin, traces)]"""
    E = c.engine(opaque=LOADER)
    for n in opaque:
        E.opaque.add(c.anchor(E, n)['id'])
    av, trs = c.run(E, c.anchor(E, 'start_accepting_connections'))
    tasks = run_tasks(c, E)
    for name, body, origin, t in tasks:
        c.ob('task:%s:analysed' % body, t is not None, 'the body of the task spawned in %s is not known' % origin)
    return E, av, trs, [t for t in tasks if t[3] is not None]


def tail(n):
    """last two components of a callee name without its generic arguments"""
    out, d = '', 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return '::'.join([x for x in out.split('::') if x][-2:])


def op(e):
    """kind of queue, socket or time operation of an event, or None"""
    if e.kind not in ('call', 'await'):
        return None
    n, t = e.name, tail(e.name)
    if '::mpsc::' in n and t.startswith('Receiver') or t.startswith('UnboundedReceiver'):
        return 'recv' if t.endswith('recv') or '::recv' in t else None
    if 'broadcast::Receiver' in n:
        return 'recv' if t.endswith('recv') else None
    if t in ('Sender::send', 'Sender::blocking_send', 'Sender::try_send', 'SyncSender::send', 'UnboundedSender::send'):
        return 'send'
    if t.startswith('AsyncReadExt::read') or t.startswith('AsyncBufReadExt::') or t in ('AsyncBufReadExt::read_until',):
        return 'read'
    if t.startswith('AsyncWriteExt::'):
        return 'write'
    return None


def segments(trs):
    """straight-line pieces of execution: every iteration and every exit of every loop, and every whole trace;
    (kind, trace, loop event or None)"""
    seen = set()

    def walk(t, kind, loop):
        if id(t) in seen:
            return
        seen.add(id(t))
        yield kind, t, loop
        for e in t.events:
            if e.kind == 'loop':
                for x in e.x['iters']:
                    yield from walk(x, 'iter', e)
                for x in e.x['exits']:
                    yield from walk(x, 'exit', e)
    for t in trs:
        yield from walk(t, 'trace', None)


def has(trs, pred):
    return any(pred(e) for e, t in uniq_events(trs))


def part_of(t, whole):
    """t is WHOLE, a component of it, or a projection out of it"""
    if t == whole or any(x == t for x in subterms(whole)):
        return True
    while t[0] == 'fld':
        t = t[1]
        if t == whole:
            return True
    return False


def fields_of(E, adt_suffix, pred):
    """names 'Adt.0.field' of the fields of a struct whose type satisfies PRED"""
    out = set()
    for n, a in E.adts.items():
        if n.endswith(adt_suffix) and a.get('local') and a['v']:
            for f in a['v'][0]['f']:
                if f.get('ty') is not None and pred(E.ty(f['ty'])):
                    out.add('%s.0.%s' % (n, f['n']))
    return out


def mentions(ty, name):
    return name in repr(ty)
