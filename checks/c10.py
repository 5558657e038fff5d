# -*- coding: utf-8 -*-
"""C10: a command timeout is reported once and leaves the connection usable."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg
from .serial_common import Box, call, is_final, lines_of
from . import endurance
from .c01 import chunk

SLACK = 0.3      # a timeout may be noticed this much (virtual seconds) late


def timed(env, fn, *a, **k):
    t0 = env.now()
    r = call(fn, *a, **k)
    return r, env.now() - t0


def check_time(r, dt, timeout):
    if r[0] == 'timeout' and dt < timeout - 1e-6:
        raise Violation('timed out after %.2f s instead of %.2f s' % (dt, timeout), key='too-early')
    if dt > timeout + SLACK:
        raise Violation('blocked %.2f s although the timeout is %.2f s (%r)' % (dt, timeout, r), key='too-late')


def expect(stream, prompt=None):
    """What a command gets if exactly this arrives within its timeout: (result, complete lines left over, partial line)."""
    ls = lines_of(stream)
    part = stream.split('\r\n')[-1]
    if prompt and part.startswith(prompt):
        return ('ok', ls + [prompt]), [], part[len(prompt):]
    for j, l in enumerate(ls):
        if is_final(l):
            return ('ok', ls[:j + 1]), ls[j + 1:], part
    return ('timeout', ls or None), [], part


def stall_case(stream, k, timeout, prompt, late, before=''):
    """The modem stops after k characters; late: what happens to the rest ('never', 'arrives')."""
    def fn(env):
        b = Box(env)
        first = [True]

        def on_write(data):
            if first[0]:
                first[0] = False
                b.dev.push(stream[:k])
        b.dev.on_write = on_write
        if before:
            b.dev.push(before)
            env.settle(2)
        kw = {'expectedResponseTermSeq': prompt} if prompt else {}
        if timeout is not None:
            kw['timeout'] = timeout
        r, dt = timed(env, b.sc.write, 'AT1\r', **kw)
        want, rest, part = expect(stream[:k], prompt)
        if r != want:
            raise Violation('after %r of %r the command gave %r instead of %r' % (stream[:k], stream, r, want), key='result')
        check_time(r, dt, 5 if timeout is None else timeout)
        notes = lines_of(before) + rest
        if late == 'arrives':
            env.settle(2)
            b.dev.push(stream[k:])
            tail = (part + stream[k:]).split('\r\n')
            notes += [l for l in tail[:-1] if l]
            part = tail[-1]
        env.settle(4)
        if b.noted() != notes:
            raise Violation('after a timeout at %r the lines %r were reported as %r' % (stream[:k], notes, b.noted()), key='late-lines')
        b.check_alive()
        # the next command; what was cut off in the middle of a line may still be in front of it
        b.dev.on_write = lambda data: b.dev.push('\r\nNEXT\r\nOK\r\n')
        r2, dt = timed(env, b.sc.write, 'AT2\r', timeout=3)
        ok = [('ok', ['NEXT', 'OK'])]
        if part and not is_final(part):
            ok.append(('ok', [part, 'NEXT', 'OK']))
        if is_final(part):
            return 'final result cut off'   # its line end would complete the wrong command: excluded by assumption
        if r2 not in ok:
            raise Violation('after a timeout at %r the next command gave %r' % (stream[:k], r2), key='next-command')
        b.probe()
        b.sc.close()
        return r[0]
    return fn


REPLIES = [('\r\n+CSQ: 20,99\r\n\r\nOK\r\n', None), ('A\r\nB\r\nOK\r\n', None), ('\r\nERROR\r\n', None), ('\r\n> ', '> '), ('\r\n+CME ERROR: 515\r\nN\r\n', None),
           ('AT1\r\r\n\r\nOK\r\n', None), ('\r\nOKAY\r\nOK\r\n', None), ('INFO\r\n> ', '> ')]


def stall_batch(items, emit):
    for it in items:
        x = explore.run_once(stall_case(*it), ())
        emit.case(x.steps, state=(it[0][:it[1]], it[4], repr(x.outcome)))
        if x.violation is not None:
            emit.bad('%r: %s' % (it, x.violation.what), list(it), key=x.violation.key)


# ----------------------------------------------------------------------------- histories of commands

STEPS = ['ok', 'silent', 'partial', 'late', 'prompt', 'noprompt', 'note', 'nowait', 'busyline', 'shortwait']


def history_case(hist):
    def fn(env):
        b = Box(env)
        d = b.dev
        notes = []
        for n, h in enumerate(hist):
            tag = 'R%d' % n
            kw = {}
            later = ''
            timeout = 3
            if h == 'ok':
                d.on_write = lambda data: d.push('\r\n%s\r\nOK\r\n' % tag)
                want = ('ok', [tag, 'OK'])
            elif h == 'silent':
                d.on_write = lambda data: None
                want = ('timeout', None)
            elif h == 'partial':
                d.on_write = lambda data: d.push('\r\n%s\r\n' % tag)
                want = ('timeout', [tag])
            elif h == 'late':
                d.on_write = lambda data: d.push('\r\n%s\r\n' % tag)
                want = ('timeout', [tag])
                later = 'X%d\r\nOK\r\n' % n
                notes += ['X%d' % n, 'OK']
            elif h == 'prompt':
                d.on_write = lambda data: d.push('\r\n> ')
                kw = {'expectedResponseTermSeq': '> '}
                want = ('ok', ['> '])
            elif h == 'noprompt':
                d.on_write = lambda data: d.push('\r\n%s\r\n' % tag)
                kw = {'expectedResponseTermSeq': '> '}
                want = ('timeout', [tag])
            elif h == 'busyline':
                d.on_write = lambda data: d.push('\r\n+CME ERROR: 515\r\n')
                want = ('ok', ['+CME ERROR: 515'])
            elif h == 'shortwait':
                d.on_write = lambda data: None
                timeout = 0.25
                want = ('timeout', None)
            elif h == 'nowait':
                d.on_write = lambda data: None
                kw = {'waitForResponse': False}
                want = ('ok', None)
            else:
                d.push('\r\n%s\r\n' % tag)
                env.settle(2)
                notes.append(tag)
                continue
            r, dt = timed(env, b.sc.write, 'AT%d\r' % n, timeout=timeout, **kw)
            if r != want:
                raise Violation('history %r: command %d gave %r instead of %r' % (hist, n, r, want), key='history-result')
            check_time(r, dt, timeout)
            if later:
                env.settle(2)
                d.push(later)
                env.settle(2)
        env.settle(4)
        if b.noted() != notes:
            raise Violation('history %r: notifications %r instead of %r' % (hist, b.noted(), notes), key='history-notes')
        b.check_alive()
        b.probe('history %r:' % (hist,))
        b.sc.close()
        return None
    return fn


def history_batch(items, emit):
    for h in items:
        x = explore.run_once(history_case(h), ())
        emit.case(x.steps, state=h)
        if x.violation is not None:
            emit.bad('%r: %s' % (h, x.violation.what), list(h), key=x.violation.key)


# ----------------------------------------------------------------------------- the modem object's own requests

def raw(cmd):
    return lambda m: m.write(cmd, timeout=2)


OPS = {
    'AT+CSQ': raw('AT+CSQ'), 'AT+CSCA?': raw('AT+CSCA?'), 'AT+CPIN?': raw('AT+CPIN?'), 'AT+CREG?': raw('AT+CREG?'), 'AT+COPS?': raw('AT+COPS?'), 'AT+CFUN?': raw('AT+CFUN?'),
    'AT+CGMI': raw('AT+CGMI'), 'AT+CPMS=?': raw('AT+CPMS=?'), 'AT+CMGR=1': raw('AT+CMGR=1'), 'AT+CMGL=4': raw('AT+CMGL=4'), 'AT+CLAC': raw('AT+CLAC'),
    'unparsed': lambda m: m.write('AT+CSQ', timeout=2, parseError=False), 'refused': raw('AT+NOSUCH'),
    'signalStrength': lambda m: m.signalStrength, 'networkName': lambda m: m.networkName, 'manufacturer': lambda m: m.manufacturer, 'model': lambda m: m.model, 'revision': lambda m: m.revision,
    'imei': lambda m: m.imei, 'imsi': lambda m: m.imsi, 'supportedCommands': lambda m: m.supportedCommands, 'read': lambda m: m.readStoredSms(1), 'read elsewhere': lambda m: m.readStoredSms(1, 'ME'),
    'list': lambda m: m.listStoredSms(), 'delete': lambda m: m.deleteStoredSms(1), 'delete all': lambda m: m.deleteMultipleStoredSms(), 'send': lambda m: m.sendSms('+123', 'hello'),
    'send long': lambda m: m.sendSms('+123', 'x' * 200), 'mode': lambda m: setattr(m, 'smsTextMode', not m.smsTextMode), 'smsc': lambda m: setattr(m, 'smsc', '+4711'), 'ussd': lambda m: m.sendUssd('*1#'),
    'coverage': lambda m: m.waitForNetworkCoverage(5), 'process': lambda m: m.processStoredSms(),
}


def op_case(op, k, text):
    """The modem falls silent for good after k characters of its answers to the operation."""
    def fn(env):
        bed = Bed(env, text=text, clac=['+CSQ', '+CLAC', '+VTS'])
        sim = bed.sim
        sim.store('SM', Msg(text='one'), 1)
        sim.store('SM', Msg(text='two', status=1), 2)
        sim.store('ME', Msg(text='three'), 1)
        sim.ussd = lambda s: ['+CUSD: 0,"reply",15']
        push, write = sim.push, sim.on_write
        st = dict(left=k, since='', cut=False, last='')

        def cut_push(data):
            part = data[:st['left']]
            st['left'] -= len(part)
            st['cut'] = st['cut'] or len(part) < len(data)
            st['since'] += part
            if part:
                push(part)

        def cut_write(data):
            if not st['cut']:
                st['since'], st['last'] = '', data
            write(data)
        sim.push, sim.on_write = cut_push, cut_write
        try:
            r = call(OPS[op], bed.m)
        except bed.mod.CommandError:
            r = ('ok', 'refused')
        if not st['cut']:
            return 'complete'
        del sim.push, sim.on_write
        sim.collect, sim.buf = None, ''
        ls = lines_of(st['since'])
        part = st['since'].split('\r\n')[-1]
        if r[0] == 'ok' and op == 'ussd':
            pass        # the reply arrived in full, only blank characters did not
        elif r[0] == 'ok' and op == 'process' and 'CMGD' in st['last']:
            pass        # a message that cannot be deleted is delivered nonetheless
        elif r[0] == 'ok' and any(is_final(l) for l in ls):
            pass        # cut after the last final result
        elif r != ('timeout', None if op in ('ussd', 'coverage') and r == ('timeout', None) else (ls or None)):
            raise Violation('%s: after %r it gave %r' % (op, st['since'], r), key='operation')
        env.settle(3)
        if not is_final(part) and not part.startswith('+CUSD'):
            sim.leading = '\r\n'
            r2 = call(bed.m.write, 'AT+CSQ')
            if r2[0] != 'ok' or r2[1][-2:] != ['+CSQ: 20,99', 'OK']:
                raise Violation('%s: after a timeout at %r the next command gave %r' % (op, st['since'], r2), key='next-command')
            v = bed.m.signalStrength
            if v != 20:
                raise Violation('%s: signal strength %r afterwards' % (op, v), key='next-command')
        bed.close()
        return r[0]
    return fn


def op_batch(items, emit):
    for op, text in items:
        for k in range(2000):
            x = explore.run_once(op_case(op, k, text), ())
            emit.case(x.steps, state=(op, k, text))
            if x.violation is not None:
                emit.bad('%r: %s' % ((op, k), x.violation.what), [op, k, text], key=x.violation.key)
                break
            if x.outcome == 'complete':
                break
        emit.sample('%s: cut at %d points' % (op, k))


# ----------------------------------------------------------------------------- races

def race(name, segs, bound, prompt=None, timeout=3, second='\r\nR2\r\nOK\r\n', at_expiry=False):
    """The reply arrives in pieces while the timeout may elapse at any moment; a second command follows."""
    def fn(env):
        b = Box(env)
        stream = ''.join(segs)
        count = [0]

        def modem():
            for i, s in enumerate(segs):
                if i:
                    env.point('gap')
                if at_expiry and i == len(segs) - 1:
                    env.sleep(timeout)
                b.dev.push(s)

        ths = []

        def on_write(data):
            count[0] += 1
            if count[0] == 1:
                ths.append(env.spawn(modem, 'modem'))
            else:
                b.dev.push(second)
        b.dev.on_write = on_write
        env.quiesce()
        env.explore()
        kw = {'expectedResponseTermSeq': prompt} if prompt else {}
        r, dt = timed(env, b.sc.write, 'AT1\r', timeout=timeout, **kw)
        env.wait(ths)
        env.quiesce()
        if b.dev.rx:
            raise Violation('the reading thread does not read anymore', key='reader-stuck')
        r2, dt2 = timed(env, b.sc.write, 'AT2\r', timeout=timeout)
        env.explore(False)
        env.settle(4)
        if at_expiry:      # otherwise the explored clock jumps ahead of slow threads
            check_time(r, dt, timeout)
        full, rest, part = expect(stream, prompt)
        want2 = lines_of(second)
        notes = b.noted()
        if r2[0] == 'timeout':
            # the second may expire early, too: its remaining lines are notifications then
            k = len(notes) - (len(want2) - len(r2[1] or []))
            if notes[k:] != want2[len(r2[1] or []):]:
                raise Violation('second command %r, notifications %r' % (r2, notes), key='race')
            notes = notes[:k]
        okay = r == full and notes == rest
        if r[0] == 'timeout':
            n = len(r[1] or [])
            tail = lines_of(stream)
            # a prompt that comes too late is not a line: it stays in front of what follows
            if (r[1] or []) == tail[:n] and n < len(full[1]) and (notes == tail[n:] or prompt and notes == tail[n:] + [prompt]):
                okay = True
        if not okay:
            raise Violation('reply %r gave %r and notifications %r' % (stream, r, b.noted()), key='race')
        late_prompt = prompt and r[0] == 'timeout'
        allowed = [('ok', want2)] + ([('ok', [prompt] + want2), ('ok', [prompt.strip()] + want2)] if late_prompt else [])
        if r2 not in allowed and not (r2[0] == 'timeout' and (r2[1] or []) == want2[:len(r2[1] or [])]):
            raise Violation('after %r the next command gave %r' % (r, r2), key='next-command')
        b.check_alive()
        b.probe()
        b.sc.close()
        return r, r2
    return explore.Harness(name, fn, bound=bound, early_time=not at_expiry)


def race2(name, bound):
    """Two threads: the first times out (racing with its reply's first line), the second one's command is answered."""
    def fn(env):
        b = Box(env)
        got = {}

        def on_write(data):
            if data == 'AT2\r':
                env.spawn(lambda: b.dev.push('\r\nR2\r\nOK\r\n'), 'modem')
        b.dev.on_write = on_write

        def client(t, to):
            got[t] = timed(env, b.sc.write, t, timeout=to)
        env.quiesce()
        env.explore()
        t1 = env.spawn(lambda: client('AT1\r', 1), 'c1')
        t2 = env.spawn(lambda: client('AT2\r', 5), 'c2')
        if not env.wait([t1, t2], 60):
            raise Violation('a caller is stuck', key='stuck')
        env.explore(False)
        env.settle(3)
        if got['AT1\r'][0] != ('timeout', None) or got['AT2\r'][0] != ('ok', ['R2', 'OK']):
            raise Violation('results %r' % (got,), key='race')
        b.probe()
        b.sc.close()
        return 'done'
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        race('reply at once', ['\r\nA\r\nOK\r\n'], 2 + e),
        race('result after a pause', ['\r\nA\r\n', '\r\nOK\r\n'], 2 + e),
        race('result cut in two', ['\r\nA\r\nO', 'K\r\n'], 2 + e),
        race('line end missing for a while', ['\r\nA\r\nOK\r', '\n'], 2 + e),
        race('reply and notification', ['\r\nA\r\nOK\r\n', '\r\nN\r\n'], 2 + e),
        race('prompt', ['\r\n', '> '], 2 + e, prompt='> '),
        race('prompt cut in two', ['\r\n>', ' '], 2 + e, prompt='> '),
        race('reply exactly at expiry', ['\r\nA\r\n', '\r\nOK\r\n'], 4 + e, at_expiry=True),
        race('whole reply exactly at expiry', ['\r\nA\r\n\r\nOK\r\n'], 4 + e, at_expiry=True),
        race('prompt exactly at expiry', ['\r\n> '], 4 + e, prompt='> ', at_expiry=True),
        race2('two callers, the first times out', 3 + e),
    ]


def run(ctx):
    T = ctx.thorough
    loader.load_serial_comms()
    items = []
    for s, prompt in REPLIES:
        for k in range(len(s) + 1):
            for timeout in (None, 0.25, 1, 3, 10, 35, 150):
                for late in ('never', 'arrives'):
                    for before in ('', '\r\nN0\r\n'):
                        items.append((s, k, timeout, prompt, late, before))
    core.run_cases(ctx, 'stall after every character', stall_batch, chunk(items, 40))
    hs = [h for n in range(1, (5 if T else 4) + 1) for h in itertools.product(STEPS if n < 4 else STEPS[:6] if n == 4 else STEPS[:6], repeat=n)]
    core.run_cases(ctx, 'histories of commands', history_batch, chunk(hs, 100))
    core.run_cases(ctx, 'requests cut off after every character', op_batch, [[(op, t)] for op in OPS for t in (False, True)])
    endurance.run(ctx, 'C10')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['the modem does not send the rest of a timed-out reply while a later command is pending',
                        'a final result whose line end is still missing when the timeout elapses does not arrive during a later command']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C10', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    c = payload['case']
    x = explore.run_once(stall_case(*c) if payload['part'].startswith('stall') else op_case(*c) if payload['part'].startswith('requests') else history_case(tuple(c)), (), trace=True)
    for t in x.trace:
        print('   ', t)
    print(x.violation and x.violation.what)
    return 1 if x.violation else 0
