"""Effects of every future spawned on the asynchronous runtime: along every path of every spawned task (calls inlined or
resolved), no operation of the blocking kind is executed, and on every path round a loop that is not a loop over a finite
collection at least one operation is awaited that suspends until the peer, the queue or a timer lets it go on. A call of
a function of this crate that the analysis could not enter counts as unknown and is reported."""
from .net import *

BLOCKING = ('thread::sleep', 'thread::park', 'JoinHandle::join', '::blocking_recv', '::blocking_send', '::blocking_lock', '::blocking_read',
            '::blocking_write', 'Runtime::block_on', 'Handle::block_on', '::block_on', 'Barrier::wait', 'Condvar::wait')
BLOCKMOD = ('std::fs::', 'std::net::Tcp', 'std::net::Udp', 'std::process::', 'std::sync::mpsc::Receiver', 'std::io::Read', 'std::io::Write', 'std::io::Stdin',
            'std::io::BufRead', 'std::thread::park', 'std::thread::sleep')
# awaited operations that suspend (or take part in cooperative scheduling) every time round a loop
SUSPENDS = ('TcpListener::accept', 'Receiver::recv', 'Sender::send', 'Sender::reserve', 'time::sleep', 'time::sleep_until', 'Interval::tick', 'task::yield_now',
            'Notify::notified', 'TcpStream::connect', 'JoinHandle::await', 'TcpStream::readable', 'TcpStream::writable')


def blocking(e):
    if e.kind not in ('call', 'await', 'lock'):
        return False
    if e.kind == 'await':
        return False
    n, t = e.name, tail(e.name)
    if e.kind == 'call' and ('tokio::' in n and not any(x in n for x in ('::blocking_', '::block_on'))):
        return False
    return any(t == b or (b[0] == ':' and t.endswith(b)) for b in BLOCKING) or any(m in n for m in BLOCKMOD)


def suspends(e):
    if e.kind != 'await':
        return False
    t = tail(e.name)
    return t in SUSPENDS or t.startswith(('AsyncReadExt::', 'AsyncBufReadExt::', 'AsyncWriteExt::', 'OwnedReadHalf::', 'OwnedWriteHalf::'))


def finite(t):
    """the iteration takes the next element of a finite collection"""
    return any(k[0] == 'more' and v is True for k, v in t.facts.items())


def check(c):
    c.rule = 'no blocking operation and no loop iteration without suspension in a spawned future'
    E, av, start, tasks = wiring(c)
    n = loops = ops = 0
    called = {}
    for name, body, origin, trs in tasks:
        if name.startswith('thread') or 'spawn_blocking' in name:
            c.count('threads of their own (may block)')
            continue
        n += 1
        c.sample({'task': body, 'origin': origin})
        for e, t in uniq_events(trs):
            if e.kind in ('call', 'await'):
                ops += 1
            c.ob('task:%s:never blocks:%s' % (body, tail(e.name)), not blocking(e), 'a task on the runtime calls %s' % e.name, e.sp)
            if e.kind in ('call', 'rec') and e.name in E.bodies and not e.name.startswith(body):
                called.setdefault(e.name, e)
        for kind, t, loop in segments(trs):
            if kind != 'iter':
                continue
            loops += 1
            if loop_is_finite(loop, t):
                c.count('iterations over a finite collection')
                continue
            inner = any(suspends(e) for e in t.events)
            c.ob('task:%s:every iteration suspends' % body, inner, 'a loop goes round without waiting: %s' % path(t), loop.sp)
    done = set()
    while called:
        name, by = called.popitem()
        if name in done:
            continue
        done.add(name)
        E2 = c.engine()
        for e, t in uniq_events(c.run(E2, E2.bodies[name])[1]):
            c.ob('task:calls %s:never blocks' % name, not blocking(e), 'a task on the runtime calls %s, which calls %s' % (name, e.name), by.sp)
            if e.kind in ('call', 'rec') and e.name in E2.bodies:
                called.setdefault(e.name, by)
    c.floor('spawned tasks', len({t[1] for t in tasks if not t[0].startswith('thread')}), 3)
    c.floor('ways round their loops', loops, 3)
    c.floor('operations of tasks', ops, 5)
    c.ob('receiver:thread', not any(has([t for t in trs], lambda e: e.kind == 'call' and e.name.endswith('blocking_recv')) for n_, b, o, trs in tasks if not n_.startswith('thread')),
         'the blocking receiver runs on the asynchronous runtime')


def loop_is_finite(loop, t):
    pre = set(loop.facts or ())
    return any(k[0] == 'more' and v is True and k not in pre for k, v in t.facts.items())


def path(t):
    return ', '.join('%s %s' % (e.kind, tail(e.name)) for e in t.events if e.kind in ('await', 'call'))[:140] or 'no operation at all'
