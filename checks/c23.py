# -*- coding: utf-8 -*-
"""C23: status queries report what the modem said; waiting for coverage ends correctly."""
import itertools

from mc import core, explore, loader
from mc import vthreading
from mc.core import Violation
from mc.sim import Bed, Msg, Sim
from . import endurance
from .c01 import chunk
from .modem_common import TS, batch_of, replay_case


def bed(env, **kw):
    b = Bed(env, **kw)
    env.quiesce()
    return b


def expect(got, exp, what, key='value'):
    if got != exp or type(got) != type(exp) and not isinstance(got, type(exp)):
        raise Violation('%s is %r instead of %r' % (what, got, exp), key=key)


def attempt(fn):
    exc = loader.load_exceptions()
    try:
        return ('value', fn())
    except exc.CommandError as e:
        return ('CommandError', e.type, e.code)
    except exc.TimeoutException:
        return ('timeout',)
    except exc.InvalidStateException:
        return ('invalid',)


# ------------------------------------------------------------------ single queries
NAMES = ['Vodacom', 'MTN SA', 'a"b', 'x,y', '26201', 'Name (3G)', '1', u'T\u00e9l\u00e9com', 'OK', 'The "Best", really', '0,0', ' ', 'CREG: 0,1', 'Error']
COMMANDS = [['+CSQ', '+CLAC'], ['+CLAC'], ['&C', '&D', 'E', '+CMGS', '^USSDMODE', '+VTS', 'D', '$X'], ['+C%d' % i for i in range(60)]]


def query_items(T):
    items = []
    for rssi in range(100):
        for ber in (0, 7, 99):
            for sp in (' ', ''):
                items.append(('csq', ['+CSQ:%s%d,%d' % (sp, rssi, ber)], rssi if rssi != 99 else -1))
    for n in NAMES:
        for mode in '0124':
            for fmt in '012':
                for tail in ('', ',0', ',2', ',7'):
                    items.append(('cops', ['+COPS: %s,%s,"%s"%s' % (mode, fmt, n, tail)], n))
    for l in ('+COPS: 0', '+COPS: 1', '+COPS: 2', '+COPS: 4'):
        items.append(('cops', [l], None))
    items.append(('cops', [], None))
    for what, values in (('manufacturer', ['huawei', 'Sierra Wireless, Inc.', ' WAVECOM MODEM', 'ZTE "X"', 'Nokia']),
                         ('model', ['E173', 'MULTIBAND  900E  1800', '1', 'K3715']), ('revision', ['11.126.16.04.284', 'R7.43.0.201003050914.GL6110 2131816 030510 09:14']),
                         ('imei', ['359999001234567', '+CGSN: 3599990']), ('imsi', ['655010123456789', '001010123456063'])):
        for v in values:
            items.append((what, [v], v))
    items.append(('revision', 'ERROR', None))
    for cs in COMMANDS:
        for sp in (' ', ''):
            items.append(('clac', ['+CLAC:%s%s' % (sp, ','.join(cs))], cs))
        if len(cs) > 1:
            items.append(('clac', [','.join(cs)], cs))
            items.append(('clac', ['+CLAC: ' + ', '.join(cs)], cs))
            items.append(('clac', list(cs), cs))
    items.append(('clac', None, None))
    for num in ('+27829129', '0829129', '1', '+12345678901234567890'):
        for sp in (' ', ''):
            for ton in (145, 129, 161):
                items.append(('csca', ['+CSCA:%s"%s",%d' % (sp, num, ton)], num))
    items += [('csca', ['+CSCA: "",129'], None), ('csca', [], None), ('csca', '+CMS ERROR: 330', None)]
    return items


PROP = dict(csq=('signalStrength', 'AT+CSQ'), cops=('networkName', 'AT+COPS?'), manufacturer=('manufacturer', 'AT+CGMI'), model=('model', 'AT+CGMM'),
            revision=('revision', 'AT+CGMR'), imei=('imei', 'AT+CGSN'), imsi=('imsi', 'AT+CIMI'), clac=('supportedCommands', 'AT+CLAC'),
            csca=('smsc', 'AT+CSCA?'))


def query(item):
    (what, lines, exp), text = item

    def fn(env):
        s = Sim(env)
        if what == 'csca':
            s.csca = None
        b = bed(env, sim=s, text=text)
        prop, cmd = PROP[what]
        if lines is None:
            s.replies[cmd] = ['ERROR']
        elif isinstance(lines, str):
            s.replies[cmd] = [lines]
        else:
            s.replies[cmd] = lines + ['OK']
        for i in range(2):
            n = len(s.log)
            got = getattr(b.m, prop)
            expect(list(got) if isinstance(got, (list, tuple)) else got, exp, '%s for %r' % (prop, s.replies[cmd]))
            if not i and cmd not in s.log[n:]:
                raise Violation('%s did not ask the modem' % prop, key='asked')
        s.replies.clear()
        b.usable()
        b.close()
        return got
    return fn


# ------------------------------------------------------------------ queries that fail, and queries following each other
def query_seq(item):
    """A sequence of values and failures: every query reports the latest value."""
    what, seq = item

    def fn(env):
        b = bed(env)
        s = b.sim
        prop, cmd = PROP[what]
        for st in seq:
            if st in ('ERROR', '+CME ERROR: 30', '+CMS ERROR: 302'):
                s.replies[cmd] = [st]
                exp = ('CommandError', None, None) if st == 'ERROR' else ('CommandError', st[1:4], int(st.split()[-1]))
                if what in ('revision', 'clac'):
                    exp = ('value', None)
            elif st == 'none':
                s.replies[cmd] = []
                s.intercepts[:] = [lambda c: 'silent' if c == cmd else None]
                exp = ('timeout',)
            else:
                v = {'csq': '+CSQ: %s,99' % st, 'cops': '+COPS: 0,0,"%s"' % st}.get(what, st)
                s.replies[cmd] = [v, 'OK']
                exp = ('value', int(st) if what == 'csq' else st)
                if what == 'csq' and st == '99':
                    exp = ('value', -1)
                if what == 'clac':
                    exp = ('value', [st])
            got = attempt(lambda: getattr(b.m, prop))
            s.intercepts[:] = []
            if got != exp:
                raise Violation('%s gave %r instead of %r in the sequence %r' % (prop, got, exp, seq), key='sequence')
        s.replies.clear()
        env.settle(1)
        b.usable()
        b.close()
        return len(seq)
    return fn


# ------------------------------------------------------------------ settings
SETS = ['text', 'pdu', 'text!', 'pdu!', 'smsc1', 'smsc2', 'smsc1!', 'smsc2!', 'smsc?', 'reconnect', 'sms', 'send']


def settings(item):
    """item: (initial text mode, ops); '!': the modem refuses. The modem and the reported values must agree all the time."""
    start, before, ops, err = item

    def fn(env):
        exc = loader.load_exceptions()
        s = Sim(env)
        s.csca = '+1000'
        b = Bed(env, sim=s, connect=False)
        m = b.m
        mode, num = False, '+1000'
        if start:
            m.smsTextMode = True
            mode = True
        if before:
            m.smsc = num = before
        m.connect()
        env.quiesce()
        known = bool(before)
        got_sms = 0

        def check(op):
            if m.smsTextMode is not mode and m.smsTextMode != mode:
                raise Violation('after %s smsTextMode is %r instead of %r' % (op, m.smsTextMode, mode), key='mode-value')
            if bool(s.textmode) != mode:
                raise Violation('after %s the modem is in %s mode, the modem object in %s mode' % (op, 'text' if s.textmode else 'PDU', 'text' if mode else 'PDU'), key='mode-modem')
            if s.csca != num:
                raise Violation('after %s the modem uses SMSC %r instead of %r' % (op, s.csca, num), key='smsc-modem')
            v = m.smsc
            if v != num:
                raise Violation('after %s smsc is %r instead of %r' % (op, v, num), key='smsc-value')
        check('connect')
        for op in ops:
            refuse = op.endswith('!')
            o = op.rstrip('!')
            n = len(s.log)
            if refuse:
                s.intercepts[:] = [lambda c: [err] if c.startswith('AT+CMGF=') or c.startswith('AT+CSCA=') else None]
            try:
                if o in ('text', 'pdu'):
                    m.smsTextMode = o == 'text'
                elif o in ('smsc1', 'smsc2'):
                    m.smsc = '+555' + o[-1]
                done = True
            except exc.CommandError:
                done = False
            s.intercepts[:] = []
            if o in ('text', 'pdu', 'smsc1', 'smsc2'):
                new = (o == 'text') if o in ('text', 'pdu') else '+555' + o[-1]
                same = new == (mode if o in ('text', 'pdu') else num)
                if refuse and done and not same:
                    raise Violation('the modem refused %s, but no error was raised' % o, key='refused')
                if not refuse and not done:
                    raise Violation('%s failed' % o, key='failed')
                if done:
                    if o in ('text', 'pdu'):
                        mode = new
                    else:
                        num = new
            elif o == 'reconnect':
                m.close()
                m.connect()
                env.quiesce()
            elif o == 'sms':
                s.receive('SM', Msg(text='one', ts=TS[0]))
                env.settle(1)
                got_sms += 1
                if len(b.sms) != got_sms or b.sms[-1].text != 'one':
                    raise Violation('a message received in %s mode was handed over as %r' % ('text' if mode else 'PDU', [x.text for x in b.sms]), key='message')
            elif o == 'send':
                m.sendSms('+2782', 'out')
                if s.sent[-1]['mode'] != ('text' if mode else 'pdu') or s.mixed:
                    raise Violation('message sent in %s mode while the modem is in %s mode' % (s.sent[-1]['mode'], mode), key='send')
            check(op)
        b.usable()
        b.close()
        return mode, num
    return fn


# ------------------------------------------------------------------ waiting for coverage
REG = {'off': 0, 'home': 1, 'search': 2, 'denied': 3, 'unknown': 4, 'roam': 5}
STEP = 3.0
SLACK = 3.0                             # how long after a change the outcome may take to show


def creg_lines(kind, form, err='ERROR'):
    if kind == 'none':
        return [err]
    v = REG[kind]
    if form == 1 and kind in ('home', 'roam'):
        return ['+CREG: 2,%d,"00AA","0BCD"' % v, 'OK']
    if form == 2:
        return ['+CREG: 1,%d' % v, 'OK']
    if form == 3 and kind in ('home', 'roam'):
        return ['+CREG: 2,%d,"00AA","0BCD",2' % v, 'OK']
    return ['+CREG: 0,%d' % v, 'OK']


def coverage(item):
    """item: (phases [(registration, signal)], timeout, form): each phase lasts STEP seconds, the last one for ever."""
    phases, timeout, form = item

    def fn(env):
        exc = loader.load_exceptions()
        b = bed(env)
        s, m = b.sim, b.m
        t0 = env.now()
        seen = []                      # what the modem reported, in order

        def phase():
            return phases[min(len(phases) - 1, int((env.now() - t0) / STEP))]

        def on_cmd(c):
            if c == 'AT+CREG?':
                reg = phase()[0]
                seen.append(('reg', reg))
                return creg_lines(reg, form)
            if c == 'AT+CSQ':
                seen.append(('csq', phase()[1]))
                return ['+CSQ: %d,99' % phase()[1], 'OK']
            return None
        s.intercepts.append(on_cmd)
        out = []

        def go():
            try:
                r = m.waitForNetworkCoverage() if timeout is None else m.waitForNetworkCoverage(timeout)
                out.append(('signal', r))
            except exc.InvalidStateException:
                out.append(('invalid', None))
            except exc.TimeoutException:
                out.append(('timeout', None))
            out.append(env.now() - t0)
        th = env.spawn(go, 'waiter')
        limit = max(len(phases) * STEP + 40, (timeout or 0) + 10)
        env.wait([th], timeout=limit)
        alive = [t.obj for t in vthreading.S.threads if not t.done and t.obj is not None and not getattr(t.obj, 'daemon', True) and isinstance(t.obj, vthreading.Timer)]
        last = phases[-1]
        good = last[0] in ('home', 'roam', 'none') and 0 < last[1] < 99
        bad = last[0] in ('denied', 'off')
        if not out:
            if timeout is not None:
                raise Violation('still waiting %d s although the timeout is %s' % (limit, timeout), key='no-timeout')
            if good or (bad and not any(k == 'reg' and v in ('home', 'roam', 'none') for k, v in seen)):
                raise Violation('still waiting although the modem reports %r' % (last,), key='stuck')
            # it must go on working: coverage comes at last
            phases2 = [('home', 17)]
            s.intercepts[:] = []
            s.csq, s.creg = (17, 99), [1]
            env.wait([th], timeout=SLACK + 2)
            if not out or out[0] != ('signal', 17):
                raise Violation('coverage came at last, but the result is %r' % out[:1], key='stuck')
            return 'waited'
        (kind, r), dt = out
        registered = False
        i = 0
        if alive:
            raise Violation('waitForNetworkCoverage left a thread behind that keeps the program running', key='thread')
        if kind == 'signal':
            # the last report is this signal strength, and it was registered when it was asked
            regs = [v for k, v in seen if k == 'reg']
            if not seen or seen[-1] != ('csq', r) or not 0 < r < 99:
                raise Violation('signal strength %r returned after the reports %r' % (r, seen[-4:]), key='signal')
            if not regs or regs[-1] not in ('home', 'roam', 'none'):
                raise Violation('returned although not registered: %r' % regs, key='unregistered')
            j = max(n for n, (k, v) in enumerate(seen) if k == 'reg' and v in ('home', 'roam', 'none'))
            if not any(k == 'csq' for k, v in seen[j:]):
                raise Violation('the signal strength is older than the registration', key='old')
            if timeout is not None and dt > timeout + 1.2:
                raise Violation('returned %.1f s after the timeout' % (dt - timeout), key='late')
        elif kind == 'invalid':
            if not seen or seen[-1] not in (('reg', 'denied'), ('reg', 'off')):
                raise Violation('invalid-state exception after the reports %r' % (seen[-3:],), key='invalid')
        else:
            if timeout is None:
                raise Violation('timed out without a timeout', key='timeout')
            if dt < timeout - 0.01:
                raise Violation('timed out %.2f s before the timeout' % (timeout - dt), key='early')
            if dt > timeout + 1.2:
                raise Violation('timed out %.2f s after the timeout' % (dt - timeout), key='late')
        if any(v in ('denied', 'off') for k, v in seen[:-1] if k == 'reg') or (kind != 'invalid' and seen and seen[-1] in (('reg', 'denied'), ('reg', 'off'))):
            raise Violation('registration denied/off was ignored: %r' % (seen[-4:],), key='ignored')
        if kind == 'timeout':
            # no phase may have offered coverage for long enough
            reg_since = None
            for n, (reg, sig) in enumerate(phases):
                start = n * STEP
                if reg in ('home', 'roam', 'none') and reg_since is None:
                    reg_since = start
                length = STEP if n < len(phases) - 1 else 1e9
                if reg in ('home', 'roam', 'none') and 0 < sig < 99 and min(length, timeout - start) > SLACK - 0.1:
                    raise Violation('timed out although there was coverage from %.0f s on' % start, key='missed')
        if kind == 'signal' and good and all(p[0] in ('search', 'unknown') for p in phases[:-1]) and dt > (len(phases) - 1) * STEP + SLACK:
            raise Violation('coverage was noticed only after %.1f s' % dt, key='slow')
        env.settle(2)
        s.intercepts[:] = []
        b.usable()
        b.close()
        return kind
    return fn


def slow_coverage(item):
    """The modem takes its time for every answer."""
    phases, timeout, delay = item

    def fn(env):
        exc = loader.load_exceptions()
        b = bed(env)
        s, m = b.sim, b.m
        t0 = env.now()
        seen = []

        def on_cmd(c):
            if c not in ('AT+CREG?', 'AT+CSQ'):
                return None
            reg, sig = phases[min(len(phases) - 1, int((env.now() - t0) / STEP))]
            lines = creg_lines(reg, 0) if c == 'AT+CREG?' else ['+CSQ: %d,99' % sig, 'OK']

            def answer():
                env.sleep(delay)
                seen.append(reg if c == 'AT+CREG?' else sig)
                s.push(''.join('\r\n%s\r\n' % l for l in lines))
            env.spawn(answer, 'modem')
            return 'silent'
        s.intercepts.append(on_cmd)
        out = []

        def go():
            try:
                out.append(('signal', m.waitForNetworkCoverage(timeout)))
            except exc.InvalidStateException:
                out.append(('invalid', None))
            except exc.TimeoutException:
                out.append(('timeout', None))
            out.append(env.now() - t0)
        th = env.spawn(go, 'waiter')
        env.wait([th], timeout=timeout * 3 + 60)
        if not out:
            raise Violation('still waiting although the timeout is %s' % timeout, key='no-timeout')
        (kind, r), dt = out
        if dt > timeout + delay + 1.2:
            raise Violation('%s %.1f s after the timeout; the modem takes %.1f s per answer' % (kind, dt - timeout, delay), key='late-slow')
        if kind == 'signal' and (not seen or seen[-1] != r or not 0 < r < 99 or not [x for x in seen if x in ('home', 'roam', 'none')]):
            raise Violation('signal strength %r returned after %r' % (r, seen), key='signal')
        if kind == 'invalid' and seen[-1] not in ('denied', 'off'):
            raise Violation('invalid-state exception after %r' % (seen,), key='invalid')
        if kind == 'timeout' and dt < timeout - 0.01:
            raise Violation('timed out %.2f s before the timeout' % (timeout - dt), key='early')
        first = phases[0]
        if first[0] in ('home', 'roam') and 0 < first[1] < 99 and timeout > 2 * delay + 1.5 and 2 * delay + 1 < STEP and kind != 'signal':
            raise Violation('%s although there was coverage at once' % kind, key='missed')
        env.settle(4)
        s.intercepts[:] = []
        b.usable()
        b.close()
        return kind
    return fn


def slow_items(T):
    P = [('search', 20), ('home', 20), ('home', 0), ('home', 99), ('roam', 5), ('denied', 20), ('unknown', 20), ('none', 0)]
    for n in (1, 2, 3) if T else (1, 2):
        for ph in itertools.product(P, repeat=n):
            for timeout in (1, 2, 3.5, 6, 10, 20) if T else (2, 6.5):
                for delay in (0.3, 0.9, 1.5, 2.2, 4) if T else (0.9, 1.5, 3):
                    yield list(ph), timeout, delay


def cov_items(T):
    regs = ['off', 'home', 'search', 'denied', 'unknown', 'roam', 'none']
    sigs = [0, 1, 20, 31, 98, 99] if T else [0, 1, 31, 99]
    ph = [(r, g) for r in regs for g in sigs]
    outs = []
    for to in (None, 0.5, 1, 2.5, 5, 60):
        for f in ((0, 1, 2, 3) if to in (None, 5) else (0,)):
            outs += [([p], to, f) for p in ph]
            live = [p for p in ph if p[0] not in ('off', 'denied')]
            outs += [([p, q], to, f) for p in live for q in ph if f == 0 or p[1] == 0]
    mid = [(r, g) for r in ('search', 'home', 'unknown', 'none') for g in (0, 99)]
    for to in (None, 7.5, 60):
        outs += [([p, q, x], to, 0) for p in mid for q in mid for x in ph]
    return outs


# ------------------------------------------------------------------ schedules
def sched(name, work, bound=2, text=False):
    def fn(env):
        b = bed(env, text=text)
        s = b.sim
        s.threaded = True
        out = {}
        fns = work(env, b, out)
        env.explore()
        ths = [env.spawn(f, 't%d' % i) for i, f in enumerate(fns)]
        env.wait(ths)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(3)
        check = out.pop('check', None)
        if check:
            check()
        if b.m.smsTextMode != bool(s.textmode):
            raise Violation('the modem is in %s mode, the modem object says %r' % ('text' if s.textmode else 'PDU', b.m.smsTextMode), key='mode')
        b.usable()
        b.close()
        return sorted((k, repr(v)) for k, v in out.items())
    return explore.Harness(name, fn, bound=bound)


def w_queries(env, b, out):
    def check():
        exp = dict(a=20, b='Test Net', c='Model 7', d='359999001234567')
        for k in exp:
            if k in out and out[k] != exp[k]:
                raise Violation('query gave %r instead of %r' % (out[k], exp[k]), key='value')
    out['check'] = check
    return [lambda: out.__setitem__('a', b.m.signalStrength), lambda: (out.__setitem__('b', b.m.networkName), out.__setitem__('c', b.m.model)),
            lambda: out.__setitem__('d', b.m.imei)]


def w_modes(env, b, out):
    def flip(v):
        b.m.smsTextMode = v
    return [lambda: flip(True), lambda: flip(False), lambda: flip(True)]


def w_mode_sms(env, b, out):
    def check():
        if [x.text for x in b.sms] != ['one']:
            raise Violation('messages handed over: %r' % [x.text for x in b.sms], key='message')
    out['check'] = check
    return [lambda: setattr(b.m, 'smsTextMode', not b.m.smsTextMode), lambda: b.sim.receive('SM', Msg(text='one', ts=TS[0]))]


def w_mode_send(env, b, out):
    def check():
        if len(b.sim.sent) != 1 or b.sim.mixed:
            raise Violation('%d messages sent, breaches %r' % (len(b.sim.sent), b.sim.mixed), key='send')
    out['check'] = check
    return [lambda: setattr(b.m, 'smsTextMode', not b.m.smsTextMode), lambda: b.m.sendSms('+2782', 'out')]


def w_coverage(env, b, out):
    b.sim.creg = [2, 1]

    def check():
        if out.get('c') != 20 or out.get('m') != 'Model 7':
            raise Violation('coverage %r, model %r' % (out.get('c'), out.get('m')), key='value')
    out['check'] = check
    return [lambda: out.__setitem__('c', b.m.waitForNetworkCoverage(10)), lambda: out.__setitem__('m', b.m.model)]


def w_smsc(env, b, out):
    def check():
        if b.m.smsc != b.sim.csca:
            raise Violation('smsc is %r, the modem uses %r' % (b.m.smsc, b.sim.csca), key='smsc')
    out['check'] = check
    return [lambda: setattr(b.m, 'smsc', '+1'), lambda: out.__setitem__('r', b.m.signalStrength)]


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('three threads asking', w_queries, bound=1 + e),
        sched('mode set by three threads', w_modes, bound=2 + e),
        sched('mode change and an arriving message', w_mode_sms, bound=2 + e),
        sched('mode change back and an arriving message', w_mode_sms, bound=2 + e, text=True),
        sched('mode change and a message sent', w_mode_send, bound=2 + e),
        sched('mode change back and a message sent', w_mode_send, bound=2 + e, text=True),
        sched('waiting for coverage and a query', w_coverage, bound=1 + e),
        sched('SMSC set and a query', w_smsc, bound=2 + e),
    ]


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    items = [(q, t) for q in query_items(T) for t in ((False, True) if T or q[0] not in ('csq', 'cops') else (False,))]
    core.run_cases(ctx, 'single queries', batch_of(query), chunk(items, 40))
    items = []
    for what in ('csq', 'cops', 'model', 'imei', 'imsi', 'manufacturer', 'revision', 'clac'):
        vals = ['5', '99', '17'] if what == 'csq' else ['abc', 'x y']
        alpha = vals + ['ERROR', '+CME ERROR: 30', '+CMS ERROR: 302', 'none']
        items += [(what, seq) for n in ((2, 3) if T or what in ('csq', 'cops') else (2,)) for seq in itertools.product(alpha, repeat=n)]
    core.run_cases(ctx, 'query sequences', batch_of(query_seq), chunk(items, 20))
    items = [(st, bf, ops, err) for st in (False, True) for bf in (None, '+77') for n in range(1, 4 if T else 3) for ops in itertools.product(SETS, repeat=n)
             for err in (('ERROR', '+CMS ERROR: 302', '+CME ERROR: 3') if any(o.endswith('!') for o in ops) else ('ERROR',))]
    if not T:
        items += [(False, None, ops, 'ERROR') for ops in itertools.product(SETS, repeat=3)]
    core.run_cases(ctx, 'settings', batch_of(settings), chunk(items, 20))
    core.run_cases(ctx, 'waiting for coverage', batch_of(coverage), chunk(cov_items(T), 40))
    core.run_cases(ctx, 'waiting for coverage, slow modem', batch_of(slow_coverage), chunk(list(slow_items(T)), 20))
    endurance.run(ctx, 'C23')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['the modem answers +CREG and +CSQ queries at once; a slow modem may delay the timeout',
                        'after a refused setting nothing is assumed about settings whose command was not answered at all']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C23', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case({'single queries': query, 'query sequences': query_seq, 'settings': settings, 'waiting for coverage': coverage, 'waiting for coverage, slow modem': slow_coverage}[payload['part']], payload)
