# -*- coding: utf-8 -*-
"""C12: closing always completes and a port failure is reported exactly once."""
import itertools

from mc import core, explore, fakeserial as fs, loader
from mc.core import Violation
from .serial_common import Box, call, is_final, lines_of
from . import cutoff, endurance
from .c01 import chunk
from .modem_common import replay_case

CLOSE_LIMIT = 8       # virtual seconds; the read timeout is 1 s


def do_close(env, b):
    t0 = env.now()
    b.sc.close()
    if env.now() - t0 > CLOSE_LIMIT:
        raise Violation('close() took %.1f s' % (env.now() - t0), key='slow-close')


def check_closed(env, b, what):
    if b.dev.is_open:
        raise Violation('%s: the port is still open' % what, key='port-open')
    if b.sc.alive:
        raise Violation('%s: the connection is still marked alive' % what, key='still-alive')


def threads_gone(env, allowed, what):
    left = [t.name for t in env.s.threads if not t.done and t.name not in allowed and t.name != 'main']
    if left:
        raise Violation('%s: threads still running: %s' % (what, left), key='thread-left')


def new_device(b):
    """Fresh hardware behind the same port name."""
    d = fs.Device()
    fs.PORTS['p'] = d
    b.dev = d
    return d


def reconnect(env, b, what):
    nf = len(b.fatal)
    old = b.dev
    if old.error is not None or old.write_error is not None:
        new_device(b)
    b.dev.rx.clear()
    b.sc.connect()
    if not b.sc.alive:
        raise Violation('%s: not alive after connecting again' % what, key='reconnect')
    del b.notes[:]
    b.probe(what + ', after connecting again')
    if len(b.fatal) != nf:
        raise Violation('%s: fatal error reported for the new connection' % what, key='fatal-again')
    do_close(env, b)
    check_closed(env, b, what + ', closed again')


# ------------------------------------------------------------------- deterministic: failure/close after every character

def cut_case(stream, k, pending, event, then):
    """The port fails / is closed after k characters of stream, idle or while a command is pending."""
    def fn(env):
        b = Box(env)
        d = b.dev
        err = fs.SerialException('gone')
        res = []

        if pending:
            d.on_write = lambda data: d.push(stream[:k])
            t = env.spawn(lambda: res.append((call(b.sc.write, 'AT1\r', timeout=4), env.now())), 'client')
            t0 = env.now()
            env.quiesce()
        else:
            d.push(stream[:k])
            env.quiesce()
        if then == 'paused':
            env.sleep(1.5)
            env.quiesce()
        if event == 'fail':
            d.fail(err)
            env.settle(3)
        elif event == 'close':
            do_close(env, b)
        elif event == 'closetwice':
            do_close(env, b)
            do_close(env, b)
        elif event == 'failclose':
            d.fail(err)
            do_close(env, b)
        elif event == 'closethread':
            t2 = env.spawn(lambda: do_close(env, b), 'closer')
            if not env.wait([t2], 60):
                raise Violation('close() does not return', key='close-stuck')
        env.settle(1)
        if pending:
            if not env.wait([t], 30):
                raise Violation('the pending command never returns', key='command-stuck')
            r, end = res[0]
            if end - t0 > 4.5:
                raise Violation('the pending command blocked %.1f s, its timeout is 4 s' % (end - t0), key='command-late')
            ls = lines_of(stream[:k])
            done = [j for j, l in enumerate(ls) if is_final(l)]
            if done and event == 'fail':
                if r != ('ok', ls[:done[0] + 1]):
                    raise Violation('reply %r before the failure gave %r' % (stream[:k], r), key='command-result')
            elif r[0] == 'ok' and not (done and r[1] == ls[:done[0] + 1]):
                raise Violation('reply %r gave %r' % (stream[:k], r), key='command-result')
            elif r[0] == 'timeout' and (r[1] or []) != ls[:len(r[1] or [])]:
                raise Violation('reply %r gave %r' % (stream[:k], r), key='command-result')
        check_closed(env, b, event)
        threads_gone(env, (), event)
        if event == 'fail':
            if len(b.fatal) != 1 or b.fatal[0] is not err:
                raise Violation('a failing port was reported as %r' % (b.fatal,), key='fatal-count')
            if not pending and b.noted() != lines_of(stream[:k])[:len(b.notes and b.noted())]:
                raise Violation('lines received before the failure: %r reported as %r' % (lines_of(stream[:k]), b.noted()), key='lines-before-failure')
        elif event == 'failclose':
            if len(b.fatal) > 1:
                raise Violation('fatal error reported %d times' % len(b.fatal), key='fatal-count')
        elif b.fatal:
            raise Violation('closing was reported as a fatal error: %r' % b.fatal, key='fatal-on-close')
        # a command now must not block
        t1 = env.now()
        try:
            r = call(b.sc.write, 'AT9\r', timeout=3)
        except Exception as e:         # any error is fine, blocking is not
            r = ('error', repr(e))
        if r[0] == 'ok' or env.now() - t1 > 3.5:
            raise Violation('a command on the dead connection gave %r after %.1f s' % (r, env.now() - t1), key='dead-command')
        reconnect(env, b, event)
        return event
    return fn


def cut_batch(items, emit):
    for it in items:
        x = explore.run_once(cut_case(*it), ())
        emit.case(x.steps, state=(it, repr(x.outcome)))
        if x.violation is not None:
            emit.bad('%r: %s' % (it, x.violation.what), list(it), key=x.violation.key)


# ------------------------------------------------------------------- histories of connections

OPS = ['connect', 'close', 'fail', 'cmd', 'note', 'half', 'writefail', 'gone']


def history_case(hist):
    def fn(env):
        b = Box(env, connect=False)
        up = False
        fatal = 0
        want = []
        half = False
        for n, op in enumerate(hist):
            what = 'history %r step %d' % (hist, n)
            if op == 'connect':
                if up:
                    return 'n/a'
                new_device(b)
                b.sc.connect()
                up, half = True, False
            elif op == 'close':
                do_close(env, b)
                check_closed(env, b, what)
                up = False
            elif op == 'fail':
                if not up:
                    return 'n/a'
                b.dev.fail()
                env.settle(2)
                fatal += 1
                up = False
                check_closed(env, b, what)
            elif op == 'note':
                if not up:
                    return 'n/a'
                b.dev.push('\r\nN%d\r\n' % n)
                if half:
                    want.append('HALF')
                    half = False
                want.append('N%d' % n)
                env.settle(2)
            elif op == 'half':
                if not up or half:
                    return 'n/a'
                b.dev.push('HALF')
                half = True
                env.settle(2)
            elif op == 'gone':             # the device is unplugged and the next thing that happens is a write
                if not up:
                    return 'n/a'
                err = fs.SerialException('gone')
                b.dev.write_error = err
                b.dev.fail(err)
                for wait in (n % 2 == 0, n % 2 == 1):
                    t1 = env.now()
                    try:
                        r = call(b.sc.write, 'ATX\r', timeout=3, waitForResponse=wait)
                    except Exception as e:
                        r = ('error', repr(e))
                    if r[0] == 'ok' and r[1] is not None or env.now() - t1 > 3.5:
                        raise Violation('%s: a command on a device that is gone gave %r after %.1f s' % (what, r, env.now() - t1), key='dead-command')
                env.settle(2)
                fatal += 1
                up = False
                check_closed(env, b, what)
            elif op == 'writefail':
                if not up or half:
                    return 'n/a'
                b.dev.write_error = fs.SerialException('write failed')
                r = call(b.sc.write, 'ATW\r', timeout=3)
                if r != ('serial', 'write failed'):
                    raise Violation('%s: a failing write gave %r' % (what, r), key='write-failure')
                b.dev.write_error = None
            else:
                if half:
                    return 'n/a'
                b.dev.on_write = lambda data: b.dev.push('\r\nR%d\r\nOK\r\n' % n)
                t1 = env.now()
                try:
                    r = call(b.sc.write, 'AT%d\r' % n, timeout=3)
                except Exception as e:
                    r = ('error', repr(e))
                if up and r != ('ok', ['R%d' % n, 'OK']):
                    raise Violation('%s: answered command gave %r' % (what, r), key='history-command')
                if not up and (r[0] == 'ok' or env.now() - t1 > 3.5):
                    raise Violation('%s: command without a connection gave %r after %.1f s' % (what, r, env.now() - t1), key='dead-command')
            if len(b.fatal) != fatal:
                raise Violation('%s: %d fatal errors reported, %d happened' % (what, len(b.fatal), fatal), key='fatal-count')
            if b.noted() != want:
                raise Violation('%s: notifications %r instead of %r' % (what, b.noted(), want), key='history-notes')
        if up:
            if not half:
                b.probe('history %r:' % (hist,))
            do_close(env, b)
        threads_gone(env, (), 'history %r' % (hist,))
        return 'ok'
    return fn


def history_batch(items, emit):
    for h in items:
        x = explore.run_once(history_case(h), ())
        if x.outcome != 'n/a':
            emit.case(x.steps, state=h)
        if x.violation is not None:
            emit.bad('%r: %s' % (h, x.violation.what), list(h), key=x.violation.key)


# ------------------------------------------------------------------- schedules

def scene(name, bound, event, stream=(), pending=None, callback=None, closers=1, early_time=False, reply=('\r\nR\r\nOK\r\n',)):
    """event: 'close' / 'fail' / 'both' happening at any moment while `stream` arrives and a command may be pending."""
    def fn(env):
        b = Box(env)
        d = b.dev
        err = fs.SerialException('gone')
        pushed = []

        def push_all(segs):
            for i, s in enumerate(segs):
                if i:
                    env.point('gap')
                pushed.append(s)
                d.push(s)
        if reply is not None:
            d.on_write = lambda data: env.spawn(lambda: push_all(reply), 'modem')
        if callback == 'close in notification':
            b.on_note = lambda lines: do_close(env, b)
        elif callback == 'close in fatal':
            b.on_fatal = lambda e: do_close(env, b)
        elif callback == 'reconnect in fatal':
            def again(e):
                do_close(env, b)
                new_device(b)
                b.sc.connect()
            b.on_fatal = again
        elif callback == 'command in fatal':
            def cmd(e):
                try:
                    call(b.sc.write, 'ATF\r', timeout=2)
                except Exception:
                    pass
            b.on_fatal = cmd
        res = []
        env.quiesce()
        env.explore()
        ths = []
        t0 = env.now()
        if stream:
            ths.append(env.spawn(lambda: push_all(stream), 'pusher'))
        if pending:
            def client():
                s = env.now()
                try:
                    r = call(b.sc.write, 'AT1\r', timeout=pending)
                except AttributeError as e:
                    raise
                res.append((r, env.now() - s))
            ths.append(env.spawn(client, 'client'))
        env.point('gap')
        if event in ('fail', 'both'):
            d.fail(err)
        if event in ('close', 'both'):
            for i in range(closers - 1):
                ths.append(env.spawn(lambda: do_close(env, b), 'closer%d' % i))
            do_close(env, b)
        if not env.wait(ths, None if early_time else 60):
            raise Violation('a thread is stuck', key='stuck')
        env.quiesce()
        env.explore(False)
        env.settle(4)
        if pending:
            r, dt = res[0]
            if dt > pending + 0.5 and not early_time:
                raise Violation('a command blocked %.1f s' % dt, key='command-late')
        if event == 'fail':
            if len(b.fatal) != 1 or b.fatal[0] is not err:
                raise Violation('the failure was reported as %r' % (b.fatal,), key='fatal-count')
        elif event == 'both':
            if len(b.fatal) > 1:
                raise Violation('the failure was reported %d times' % len(b.fatal), key='fatal-count')
        elif b.fatal:
            raise Violation('closing was reported as a fatal error: %r' % (b.fatal,), key='fatal-on-close')
        full = lines_of(''.join(pushed))
        got = b.noted() + (res[0][0][1] or [] if res and res[0][0][0] in ('ok', 'timeout') else [])
        for l in got:
            if l not in full:
                raise Violation('line %r was reported, the modem sent %r' % (l, full), key='line-invented')
            full.remove(l)
        b.on_note = b.on_fatal = None
        if callback == 'reconnect in fatal':
            if not b.sc.alive:
                raise Violation('the connection made by the fatal-error handler is not alive', key='reconnect')
            del b.notes[:]
            b.probe('after connecting again in the fatal-error handler')
            do_close(env, b)
        if callback == 'close in notification' and not b.notes:
            do_close(env, b)         # the line became part of the response
        check_closed(env, b, name)
        threads_gone(env, (), name)
        reconnect(env, b, name)
        return (res and res[0][0], len(b.fatal))
    return explore.Harness(name, fn, bound=bound, early_time=early_time)


def restart(name, bound):
    """close() followed at once by connect() while data still arrives; only new data counts."""
    def fn(env):
        b = Box(env)
        d = b.dev
        env.quiesce()
        env.explore()
        env.spawn(lambda: d.push('OLD1\r\nOLD2'), 'pusher')
        env.point('gap')
        do_close(env, b)
        new_device(b)
        b.sc.connect()
        b.dev.push('NEW1\r\nNEW2\r\n')
        env.quiesce()
        env.explore(False)
        env.settle(3)
        notes = b.noted()
        if [l for l in notes if l.startswith('NEW')] != ['NEW1', 'NEW2'] or [l for l in notes if not l.startswith('NEW')] not in ([], ['OLD1']):
            raise Violation('after connecting again the notifications are %r' % notes, key='restart')
        b.probe()
        do_close(env, b)
        check_closed(env, b, name)
        threads_gone(env, (), name)
        return tuple(notes)
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 3 if T else 2
    N = ('\r\nN1\r\n', '\r\nN2\r\n')
    return [
        scene('close while notifications arrive', 3 + e, 'close', stream=N),
        scene('close while a command is pending', 3 + e, 'close', pending=4, reply=('\r\nR\r\n', 'OK\r\n')),
        scene('close while an unanswered command is pending', 3 + e, 'close', pending=4, reply=None),
        scene('two threads close', 3 + e, 'close', stream=N[:1], closers=2),
        scene('two threads close, command pending', 2 + e, 'close', pending=3, closers=2),
        scene('close at any time', 2 + e, 'close', stream=N, early_time=True),
        scene('failure while notifications arrive', 3 + e, 'fail', stream=N),
        scene('failure while a command is pending', 3 + e, 'fail', pending=4, reply=('\r\nR\r\n', 'OK\r\n')),
        scene('failure and close', 3 + e, 'both', stream=N[:1]),
        scene('failure and close, command pending', 2 + e, 'both', pending=3),
        scene('failure and two closers', 2 + e, 'both', closers=2),
        scene('close in the notification callback', 3 + e, 'none', stream=N, callback='close in notification'),
        scene('close in the callback, command pending', 2 + e, 'none', stream=N[:1], pending=3, reply=None, callback='close in notification'),
        scene('close in the callback and outside', 3 + e, 'close', stream=N[:1], callback='close in notification'),
        scene('close in the fatal-error callback', 3 + e, 'fail', stream=N[:1], callback='close in fatal'),
        scene('close in the fatal-error callback and outside', 3 + e, 'both', callback='close in fatal'),
        scene('connect again in the fatal-error callback', 3 + e, 'fail', stream=N[:1], callback='reconnect in fatal'),
        scene('command in the fatal-error callback', 2 + e, 'fail', pending=3, callback='command in fatal', reply=None),
        restart('close and connect again', 3 + e),
    ] + cutoff.harnesses(T)


STREAMS = ['\r\nN1\r\nN2\r\n', 'A\r\nOK\r\nN\r\n', '\r\n+CMTI: "SM",1\r\n\r\nRING\r\n']


def run(ctx):
    T = ctx.thorough
    loader.load_serial_comms()
    items = [(s, k, pend, ev, then) for s in STREAMS for k in range(len(s) + 1) for pend in (0, 1)
             for ev in ('fail', 'close', 'closetwice', 'failclose', 'closethread') for then in ('at once', 'paused')]
    core.run_cases(ctx, 'failure or close after every character', cut_batch, chunk(items, 40))
    hs = [h for n in range(1, (6 if T else 5) + 1) for h in itertools.product(OPS, repeat=n) if n < 5 or h[0] == 'connect' or T]
    core.run_cases(ctx, 'histories of connections', history_batch, chunk(hs, 300))
    core.run_cases(ctx, cutoff.PART, cutoff.batch, [[i] for i in cutoff.items(T)])
    endurance.run(ctx, 'C12')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['a read on the open port returns within the read timeout of 1 s or raises the serial exception',
                        'lines still undelivered when the connection is closed or fails may be dropped']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C12', payload)
    if payload.get('part') == cutoff.PART:
        return replay_case(cutoff.case, payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    c = payload['case']
    x = explore.run_once(cut_case(*c) if payload['part'].startswith('failure') else history_case(tuple(c)), (), trace=True)
    for t in x.trace:
        print('   ', t)
    print(x.violation and x.violation.what)
    return 1 if x.violation else 0
