# -*- coding: utf-8 -*-
"""Long runs: the guarantees must not wear off with the length of a line, the number of lines or the number of operations.

Every entry is one deterministic execution of the real code per size; the sizes are enumerated."""
import itertools

from mc import core, explore, fakeserial as fs, loader
from mc import gsm_ref as G
from mc.core import Violation
from mc.sim import Bed, Msg, Sim
from .modem_common import TS, same, view, want

PART = 'long runs'
STEPS, WALL = 40000000, 500


# ------------------------------------------------------------------ C08
def long_lines(sizes, how):
    """Lines of given lengths: as notifications, as information text of a response, one after another."""
    def fn(env):
        from .serial_common import Box, call
        b = Box(env)
        ls = [('%d:' % n + 'abcdefghijklmnopqrstuvwxyz' * (n // 26 + 1))[:n] for n in sizes]
        if how == 'notes':
            for l in ls:
                b.dev.push('\r\n%s\r\n' % l)
                env.settle(3)
        elif how == 'burst':
            b.dev.push(''.join('\r\n%s\r\n' % l for l in ls))
            env.settle(5)
        else:
            b.dev.on_write = lambda data: b.dev.push(''.join('\r\n%s\r\n' % l for l in ls) + '\r\nOK\r\n')
            r = call(b.sc.write, 'AT\r', timeout=3000)
            if r != ('ok', ls + ['OK']):
                raise Violation('a response with lines of %r characters gave lines of %r' % (sizes, r[1] and [len(x) for x in r[1]]), key='long-line')
            ls = []
            env.settle(3)
        if b.noted() != ls:
            raise Violation('lines of %r characters were reported with %r' % (sizes, [len(x) for x in b.noted()]), key='long-line')
        b.check_alive()
        b.probe()
        b.sc.close()
    return fn


def many_lines(n, how):
    def fn(env):
        from .serial_common import Box, call
        b = Box(env)
        ls = ['line %d' % i for i in range(n)]
        exp = ls
        if how == 'burst':
            b.dev.push(''.join('\r\n%s\r\n' % l for l in ls))
        elif how == 'single':
            for l in ls:
                b.dev.push('\r\n%s\r\n' % l)
                env.settle(2)
        elif how == 'response':
            b.dev.on_write = lambda data: b.dev.push(''.join('%s\r\n' % l for l in ls) + 'OK\r\n')
            r = call(b.sc.write, 'AT\r', timeout=3000)
            if r != ('ok', ls + ['OK']):
                raise Violation('a response of %d lines arrived as %d: %r ...' % (n + 1, len(r[1] or ()), (r[1] or [])[:3]), key='many-lines')
            exp = []
        else:
            b.dev.on_write = lambda data: b.dev.push('R %s\r\nOK\r\nN %s\r\n' % (data.strip(), data.strip()))
            exp = []
            for i in range(n):
                r = call(b.sc.write, 'AT%d\r' % i, timeout=30)
                if r != ('ok', ['R AT%d' % i, 'OK']):
                    raise Violation('command %d of %d gave %r' % (i, n, r), key='many-commands')
                exp.append('N AT%d' % i)
        env.settle(4)
        if b.noted() != exp:
            raise Violation('%d lines (%s) were reported as %d: %r ...' % (len(exp), how, len(b.noted()), b.noted()[:3]), key='many-lines')
        b.check_alive()
        b.probe()
        b.sc.close()
    return fn


# ------------------------------------------------------------------ C09 / C10 / C11 / C12
def many_threads(n, per):
    """n threads with `per` commands each on one modem object: every one gets its own reply."""
    def fn(env):
        b = Bed(env)
        s = b.sim
        s.intercepts.append(lambda c: ['+ECHO: ' + c[3:], 'OK'] if c.startswith('AT+X') else None)
        s.threaded = True
        bad = []

        def go(k):
            for i in range(per):
                c = 'AT+X%d-%d' % (k, i)
                r = b.m.write(c)
                if r != ['+ECHO: ' + c[3:], 'OK']:
                    bad.append((c, r))
        ths = [env.spawn(lambda k=k: go(k), 'user%d' % k) for k in range(n)]
        env.wait(ths)
        if bad:
            raise Violation('%d threads: %s got %r' % (n, bad[0][0], bad[0][1]), key='crossed')
        got = [c for c in s.log if c.startswith('AT+X')]
        if sorted(got) != sorted('AT+X%d-%d' % (k, i) for k in range(n) for i in range(per)):
            raise Violation('%d threads: the modem received %r' % (n, got[:10]), key='commands')
        env.settle(2)
        b.usable()
        b.close()
    return fn


def many_timeouts(n, level):
    def fn(env):
        from .serial_common import Box, call
        if level == 'port':
            b = Box(env)
            for i in range(n):
                t = env.now()
                r = call(b.sc.write, 'AT\r', timeout=3)
                if r != ('timeout', None) or not 2.9 < env.now() - t < 3.4:
                    raise Violation('unanswered command %d gave %r after %.1f s' % (i, r, env.now() - t), key='timeouts')
            env.settle(3)
            b.check_alive()
            if b.noted():
                raise Violation('notifications %r out of nowhere' % b.noted(), key='notes')
            b.probe()
            b.sc.close()
        else:
            b = Bed(env)
            exc = loader.load_exceptions()
            s = b.sim
            s.intercepts.append(lambda c: 'silent' if c == 'AT+X' else None)
            for i in range(n):
                t = env.now()
                try:
                    b.m.write('AT+X', timeout=2)
                    raise Violation('unanswered command %d returned' % i, key='timeouts')
                except exc.TimeoutException:
                    pass
                if not 1.9 < env.now() - t < 2.4:
                    raise Violation('unanswered command %d took %.1f s' % (i, env.now() - t), key='timeouts')
            env.settle(2)
            b.usable()
            b.close()
    return fn


def late_replies(n):
    """Each of n commands is answered after its timeout, before the next one: the results are never mixed up."""
    def fn(env):
        from .serial_common import Box, call
        b = Box(env)
        for i in range(n):
            b.dev.on_write = lambda data: None
            r = call(b.sc.write, 'AT%d\r' % i, timeout=2)
            if r[0] != 'timeout':
                raise Violation('unanswered command gave %r' % (r,), key='late')
            b.dev.push('LATE %d\r\nOK\r\n' % i)
            env.settle(3)
            b.dev.on_write = lambda data: b.dev.push('GOOD %d\r\nOK\r\n' % i)
            r = call(b.sc.write, 'AT\r', timeout=2)
            if r != ('ok', ['GOOD %d' % i, 'OK']):
                raise Violation('after late reply %d a command gave %r' % (i, r), key='late')
        env.settle(3)
        b.check_alive()
        b.probe()
        b.sc.close()
    return fn


def reopened(n, how):
    def fn(env):
        from .serial_common import Box
        from . import c12
        b = Box(env, connect=False)
        for i in range(n):
            nf = len(b.fatal)
            if how == 'refused' and i % 2:
                # the port cannot be opened this time
                keep = dict(fs.PORTS)
                fs.PORTS.clear()
                try:
                    b.sc.connect()
                    raise Violation('connecting to a missing port %d raised nothing' % i, key='refused')
                except fs.SerialException:
                    pass
                finally:
                    fs.PORTS.update(keep)
                if b.sc.alive:
                    raise Violation('alive without a port', key='refused-alive')
                continue
            b.sc.connect()
            del b.notes[:]
            b.probe('on connection %d' % i)
            if how == 'broken':
                b.dev.fail()
                env.settle(3)
                if len(b.fatal) != nf + 1:
                    raise Violation('failure %d was reported %d times' % (i, len(b.fatal) - nf), key='fatal-count')
                c12.do_close(env, b)
                c12.check_closed(env, b, 'failure %d' % i)
                c12.new_device(b)
            else:
                c12.do_close(env, b)
                c12.check_closed(env, b, 'connection %d' % i)
                if len(b.fatal) != nf:
                    raise Violation('closing connection %d reported a failure' % i, key='fatal')
        env.settle(3)
        c12.threads_gone(env, (), 'after %d connections' % n)
    return fn


def modem_reopened(n, how):
    """The whole modem object connected again and again."""
    def fn(env):
        b = Bed(env)
        for i in range(n):
            if i:
                b.m.connect()
            m = Msg(text='message %d' % i)
            b.sim.receive('SM', m)
            env.settle(3)
            if [x.text for x in b.sms] != ['message %d' % j for j in range(i + 1)]:
                raise Violation('on connection %d the handler had %r' % (i, [x.text for x in b.sms][-3:]), key='delivered')
            b.usable('on connection %d' % i)
            nf = len(b.fatal)
            if how == 'broken':
                b.sim.fail()
                env.settle(3)
                if len(b.fatal) != nf + 1:
                    raise Violation('failure %d was reported %d times' % (i, len(b.fatal) - nf), key='fatal-count')
                b.m.close()
                b.sim.error = b.sim.write_error = None
            else:
                b.m.close()
                if len(b.fatal) != nf:
                    raise Violation('closing connection %d reported a failure' % i, key='fatal')
            if b.m.alive or b.sim.is_open:
                raise Violation('connection %d: alive or open after closing' % i, key='closed')
        env.settle(3)
        left = [t.name for t in env.s.threads if not t.done and t.name != 'main']
        if left:
            raise Violation('after %d connections there are threads left: %r' % (n, left), key='thread-left')
    return fn


def busy_times(n, code):
    """The modem answers `busy` n times before it takes the command."""
    def fn(env):
        b = Bed(env)
        left = [n]

        def f(c):
            if c == 'AT+X' and left[0]:
                left[0] -= 1
                return ['+CME ERROR: %d' % code]
            return ['done', 'OK'] if c == 'AT+X' else None
        b.sim.intercepts.append(f)
        r = b.m.write('AT+X')
        if r != ['done', 'OK'] or left[0]:
            raise Violation('a command that was busy %d times gave %r' % (n, r), key='busy')
        b.usable()
        b.close()
    return fn


def error_row(n, form):
    """n refused commands in a row, each raises its own error."""
    def fn(env):
        b = Bed(env)
        exc = loader.load_exceptions()
        k = [0]
        b.sim.intercepts.append(lambda c: [form % (100 + k[0] % 200)] if c == 'AT+X' else None)
        for i in range(n):
            k[0] = i
            try:
                b.m.write('AT+X')
                raise Violation('refused command %d returned' % i, key='refused')
            except exc.CommandError as e:
                if e.code != 100 + i % 200:
                    raise Violation('refusal %d came with code %r' % (i, e.code), key='code')
        b.usable()
        b.close()
    return fn


# ------------------------------------------------------------------ C14 / C15 / C16 / C17
def many_sends(n, mode, kind, flash=False):
    from . import c14
    text = dict(short='message %d', long='message %d ' + 'y' * 200, wide=u'\u4e2d %d', wide2=u'\u4e2d' * 80 + ' %d')[kind]
    return c14.sequence([('+2782000%04d' % i, text % i, flash) for i in range(n)], mode, list(range(256)))


def concat_refs(n):
    """Consecutive long messages of one modem to one number: parts of one message agree on a reference, neighbours differ."""
    def fn(env):
        b = Bed(env)
        b.sim.refs = itertools.cycle(range(256))
        last = None
        for i in range(n):
            k = len(b.sim.sent)
            b.m.sendSms('+2782', ('%d ' % i) * 120 if i % 2 else u'\u4e2d' * 75 + '%d' % i)
            refs = set()
            for e in b.sim.sent[k:]:
                ie = [x for x in e['submit'].ies if x[0] in (0, 8)]
                if len(ie) != 1:
                    raise Violation('a part of message %d has concatenation elements %r' % (i, ie), key='concat')
                refs.add((ie[0][0], bytes(ie[0][1][:-2])))
            if len(refs) != 1:
                raise Violation('the parts of message %d have the references %r' % (i, refs), key='concat')
            ref = refs.pop()
            if ref == last:
                raise Violation('messages %d and %d to one number have the same concatenation reference %r' % (i - 1, i, ref), key='concat-repeat')
            last = ref
        b.usable()
        b.close()
    return fn


def long_send(n, wide):
    from . import c14
    t = (u'\u4e2d%d ' if wide else 'word%d ') 
    return c14.sequence([('+27821234567', ''.join(t % i for i in range(n)), False)], 'pdu', list(range(256)))


def many_received(n, mode, how):
    def fn(env):
        from . import c15
        b = Bed(env, text=mode == 'text')
        s = b.sim
        s.capacity = 1000
        old = c15.preload(s)
        new = []
        for i in range(n):
            mem = 'SM' if i % 3 else 'ME'
            m = Msg(text='message %d' % i, ts=TS[i % 4], number='+2782%04d' % i)
            new.append((mem, s.receive(mem, m, notify=False)[0], m))
            line = '+CMTI: "%s",%d' % (mem, new[-1][1])
            if how == 'single':
                s.urc(line)
                env.settle(2)
            else:
                new[-1] += (line,)
        if how == 'burst':
            s.urc(*[x[3] for x in new])
        env.settle(30)
        c15.final(b, old, [x[:3] for x in new], '%d messages (%s, %s mode): ' % (n, how, mode))
        if how == 'single' and [x.text for x in b.sms] != ['message %d' % i for i in range(n)]:
            raise Violation('messages that came one after another were delivered out of order', key='order')
        b.usable()
        b.close()
    return fn


def many_reports(n, mode, how):
    """n messages that wait for their reports at the same time."""
    def fn(env):
        from . import c16
        w = c16.World(env, mode, list(range(256)))
        w.s.capacity = 1000
        for i in range(n):
            w.send()
        order = list(range(n))
        if how == 'reverse':
            order.reverse()
        elif how == 'middle':
            order = order[n // 2:] + order[:n // 2]
        for k in order:
            r = c16.Report(k % 256, st=0 if k % 3 else 70, ts=TS[k % 4], discharge=TS[(k + 1) % 4])
            w.s.receive('SR' if k % 2 else 'ME', r)
            w.attach(r)
            env.settle(2)
        w.check('%d tracked messages, %s: ' % (n, how))
        w.end()
    return fn


def reports_in_turn(n, mode):
    """Each message gets its report before the next is sent; references wrap around."""
    def fn(env):
        from . import c16
        w = c16.World(env, mode, [254, 255, 0, 1, 2])
        for i in range(n):
            sms = w.send()
            r = c16.Report(sms.reference, st=0 if i % 2 else 65, ts=TS[i % 4], discharge=TS[(i + 1) % 4])
            w.s.receive('SR', r)
            w.attach(r)
            env.settle(2)
            if sms.report is None:
                raise Violation('message %d in a row did not get its report' % i, key='report')
        w.check()
        w.end()
    return fn


def many_waiting(n, mode):
    """Senders that wait for their delivery reports, one after another."""
    def fn(env):
        from . import c16
        w = c16.World(env, mode, [7, 8, 9])
        for i in range(n):
            def later(c):
                r = c16.Report(c['ref'], st=0, ts=TS[0], discharge=TS[1])
                cur.append(r)
                env.spawn(lambda: (env.sleep(1 + i % 4), w.s.receive('SR', r)), 'network')
            cur = []
            w.s.on_sent = later
            t = env.now()
            sms = w.send(waitForDeliveryReport=True, deliveryTimeout=15)
            if env.now() - t > 8:
                raise Violation('waiting sender %d was told after %.1f s' % (i, env.now() - t), key='late')
            w.attach(cur[0], awaited=True)
            env.settle(1)
        w.check()
        w.end()
    return fn


def many_stored(n, mode, op):
    def fn(env):
        from . import c17
        lay = {'SM': {}, 'ME': {}}
        for i in range(n):
            lay['SM'][i + 1] = c17.D('message %d' % i, i % 2, i % 4, '+2782%04d' % i) if i % 10 else c17.R(i % 256)
        for i in range(3):
            lay['ME'][i] = c17.D('other %d' % i)
        w = c17.World(env, mode, lay)
        w.s.capacity = 1000
        for o in op:
            w.do(o)
        w.b.usable()
        w.b.close()
    return fn


# ------------------------------------------------------------------ C18 / C19 / C20
def event_burst(n, family, mode):
    """n events of all kinds in one piece."""
    def fn(env):
        from . import c18
        w = c18.World(env, family, mode)
        w.s.capacity = 1000
        evs = list(itertools.islice(itertools.cycle('ASMDBS'), n)) + (['C'] if family != 'generic' else []) + ['u']
        lines = [l for e in evs for l in w.lines(e)]
        w.s.urc(*lines)
        env.settle(20)
        w.check('%d events in one piece: ' % n)
        w.b.usable()
        w.b.close()
    return fn


def many_rings(n, family, clip):
    def fn(env):
        from . import c19
        w = c19.World(env, family, clip)
        for i in range(n):
            w.do(('ring', 'A' if clip else '?'))
        w.do(('answer', 0))
        w.do(('hangup', 0))
        w.b.usable()
        w.b.close()
    return fn


def many_calls(n, family, kinds):
    """Calls one after another; all objects of ended calls stay correct."""
    def fn(env):
        from . import c19
        w = c19.World(env, family)
        for i in range(n):
            k = kinds[i % len(kinds)]
            if k == 'in':
                w.do(('ring', 'A' if i % 2 else 'B'))
                if i % 3:
                    w.do(('answer', i))
                w.do(('hangup', i))
            else:
                w.do(('dial',))
                if i % 3:
                    w.do(('rans', i))
                w.do(('rend', i) if k == 'far' and (i % 3 or family != 'generic') else ('hangup', i))
        w.b.usable()
        w.b.close()
    return fn


def long_call(secs, family, ringing):
    """An outgoing call that rings and lasts for a long time."""
    def fn(env):
        from . import c19
        w = c19.World(env, family)
        w.do(('dial',))
        env.sleep(ringing)
        w.check('after ringing for %d s: ' % ringing)
        w.do(('rans', 0))
        env.sleep(secs)
        w.check('%d s into the call: ' % secs)
        w.b.usable()
        w.do(('rend', 0))
        env.sleep(5)
        w.check('ended: ')
        w.do(('dial',))
        w.do(('rans', 1))
        w.do(('hangup', 1))
        w.b.usable()
        w.b.close()
    return fn


def refused_dials(n, family, how):
    """Dialling fails n times (refused or no answer of the modem), then works."""
    def fn(env):
        from . import c19
        w = c19.World(env, family)
        s = w.s
        exc = w.exc
        for i in range(n):
            s.intercepts.append(lambda c: (['ERROR'] if how == 'refused' else 'silent') if c.startswith('ATD') else None)
            t = env.now()
            try:
                w.b.m.dial('0999', timeout=3)
                raise Violation('a dial that failed returned', key='dial')
            except exc.CommandError:
                pass
            except exc.TimeoutException:
                if env.now() - t > 4:
                    raise Violation('a dial with a timeout of 3 s took %.1f s' % (env.now() - t), key='dial-time')
            s.intercepts.pop()
            if w.b.m.activeCalls:
                raise Violation('a dial that failed left %r' % w.b.m.activeCalls, key='dial-left')
        env.settle(3)
        w.do(('dial',))
        w.do(('rans', 0))
        w.do(('rend', 0))
        w.b.usable()
        w.b.close()
    return fn


def long_tones(n, kind):
    """A long DTMF string: every tone in order."""
    def fn(env):
        from . import c21
        o = c21.One(env, kind, 'a')
        fam, clac = c21.KINDS[kind]
        b = Bed(env, sim=o.sim)
        env.spawn(lambda: (env.sleep(0.3), o.sim.urc(*(o.sim.started_lines(1) + o.sim.answered_lines(1)))) if fam != 'generic' else o.sim.calls[1].__setitem__('state', 0), 'network')
        o.sim.after_dial = lambda i: (['OK'] if fam in ('huawei', 'generic') else None)
        if fam == 'generic':
            o.sim.calls.clear()
            o.sim.after_dial = lambda i: (o.sim.calls[i].__setitem__('state', 0), ['OK'])[1]
        c = b.m.dial('0777')
        env.settle(3)
        if not c.answered:
            raise Violation('the call was answered, the object says it was not', key='answered')
        tones = ''.join(c21.TONES[(i * 7 + i // 16) % 16] for i in range(n))
        c.sendDtmfTone(tones)
        got = c21.dtmf_log(o.sim)
        if ''.join(t for _, _, t in got) != tones or {f for f, _, _ in got} - {c21.form(kind)}:
            raise Violation('%d tones were sent as %d: %r' % (n, len(got), ''.join(t for _, _, t in got)), key='tones')
        c.hangup()
        env.settle(2)
        b.usable()
        b.close()
    return fn


# ------------------------------------------------------------------ C22 / C23
def ussd_sizes(sizes, family, order):
    """Replies of the given lengths, one request each, also with line breaks."""
    def fn(env):
        from . import c22
        w = c22.World(env, family)
        for k, n in enumerate(sizes):
            words = ''.join('%d word, ' % i for i in range(n // 5 + 2))[:n]
            if k % 3 == 2:
                words = '\r\n'.join(words[i:i + 30] for i in range(0, n, 30))
            q = '*%d#' % n
            if order == 'after':
                w.script[q] = lambda: w.play([(0, c22.line('OK')), (0.4, c22.line(c22.cusd(1, words)))])
            else:
                w.script[q] = lambda: [c22.cusd(1, words), 'OK']
            r, u, _ = c22.ask(w, lambda: w.m.sendUssd(q))
            if r[0] != 'reply' or r[1].replace('\r\n', '\n') != words.replace('\r\n', '\n') or not u.sessionActive:
                raise Violation('a reply of %d characters was returned as %r' % (len(words), r), key='ussd-long')
        c22.finish(w)
    return fn


def ussd_session(n, order):
    """One session with n replies of the user."""
    def fn(env):
        from . import c22
        w = c22.World(env)
        u = None
        for i in range(n):
            q, text = ('*1#' if i == 0 else '%d' % i), 'menu %d' % i
            code = 1 if i < n - 1 else 0
            if order == 'after':
                w.script[q] = lambda: w.play([(0, c22.line('OK')), (0.7, c22.line(c22.cusd(code, text)))])
            else:
                w.script[q] = lambda: ['OK', c22.cusd(code, text)]
            r, u, _ = c22.ask(w, (lambda: w.m.sendUssd(q)) if i == 0 else (lambda: u.reply(q)))
            if r != ('reply', text) or u.sessionActive != (code == 1) or w.asked[-1] != q:
                raise Violation('step %d of a session of %d gave %r, session %r' % (i, n, r, u and u.sessionActive), key='ussd-session')
        c22.finish(w)
    return fn


def late_coverage(secs, timeout, reg):
    """Coverage that comes only after a long time."""
    def fn(env):
        b = Bed(env)
        t0 = env.now()

        def on_cmd(c):
            there = env.now() - t0 >= secs
            if c == 'AT+CREG?':
                return ['+CREG: 0,%d' % (1 if there or reg else 2), 'OK']
            if c == 'AT+CSQ':
                return ['+CSQ: %d,99' % (17 if there else 0), 'OK'] if reg or there else ['+CSQ: 0,99', 'OK']
            return None
        b.sim.intercepts.append(on_cmd)
        exc = loader.load_exceptions()
        try:
            r = b.m.waitForNetworkCoverage() if timeout is None else b.m.waitForNetworkCoverage(timeout)
        except exc.TimeoutException:
            r = 'timeout'
        dt = env.now() - t0
        expw = 17 if timeout is None or secs < timeout - 3 else 'timeout'
        if r != expw or dt < min(secs, timeout or secs) - 0.01 or dt > min(secs + 8, (timeout or secs) + 8):
            raise Violation('coverage after %d s (timeout %r): %r after %.1f s' % (secs, timeout, r, dt), key='coverage')
        b.sim.intercepts.remove(on_cmd)
        b.usable()
        b.close()
    return fn


def long_ids(n):
    """Identification texts of n characters and n queries in a row."""
    def fn(env):
        b = Bed(env)
        s = b.sim
        t = ('Model-%d.' % n + '0123456789' * (n // 10 + 1))[:n]
        for c in ('+CGMI', '+CGMM', '+CGMR', '+CGSN', '+CIMI'):
            setattr(s, 'cmd_' + c[1:], lambda a, c=c: [t, 'OK'])
        s.cops = '"%s"' % t
        for i in range(3):
            got = (b.m.manufacturer, b.m.model, b.m.revision, b.m.imei, b.m.imsi, b.m.networkName)
            if set(got) != {t}:
                raise Violation('identification texts of %d characters were read as %r' % (n, got), key='long-text')
        s.cmd_CLAC = lambda a: ['+CLAC: ' + ','.join('+X%d' % i for i in range(n)), 'OK']
        s.clac = ['x']
        if b.m.supportedCommands != ['+X%d' % i for i in range(n)]:
            raise Violation('a list of %d commands was read as %r' % (n, b.m.supportedCommands), key='clac')
        b.usable()
        b.close()
    return fn


def long_smsc(n):
    """The service centre is set, changed and read n times."""
    def fn(env):
        b = Bed(env)
        s = b.sim
        for i in range(n):
            v = '+27%d' % (1000 + i)
            b.m.smsc = v
            if s.csca != v or b.m.smsc != v:
                raise Violation('SMSC set to %s: the modem has %r, read back %r' % (v, s.csca, b.m.smsc), key='smsc')
            b.m.smsTextMode = not b.m.smsTextMode
            if b.m.smsTextMode != bool(s.textmode):
                raise Violation('text mode %r, the modem has %r' % (b.m.smsTextMode, s.textmode), key='textmode')
        b.usable()
        b.close()
    return fn


# ------------------------------------------------------------------ C25
def long_typing(n, color):
    """A line of n characters typed, edited in the middle, recalled and sent; n lines in the history."""
    def fn(env):
        from . import c25
        from .term_common import BS, CTRLZ, DELETE, END, ENTER, HOME, LEFT, RIGHT, UP, Editor, Term
        t, ed = Term(env, color=color), Editor()
        keys = [chr(97 + i % 26) for i in range(n)]
        c25.type_(t, ed, keys + [LEFT] * 5 + ['X'] + [HOME, 'Y', DELETE, END, BS] + [LEFT] * (n // 2) + ['Z', BS, BS] + [RIGHT] * (n // 4) + ['W'], 'a line of %d characters' % n)
        c25.type_(t, ed, [ENTER], 'submitted', watch=False)
        for i in range(min(n, 120)):
            c25.type_(t, ed, list('c%d' % i) + [ENTER], 'line %d' % i, watch=False)
        c25.type_(t, ed, [UP] * (min(n, 120) + 3) + [ENTER], 'history of %d lines' % n, watch=False)
        c25.type_(t, ed, list('AT+CMGS="1"') + [ENTER] + keys + [HOME, 'Q'] + [CTRLZ], 'a message of %d characters' % n, watch=False)
        t.leave()
    return fn


FACTORIES = {f.__name__: f for f in (long_lines, many_lines, many_threads, many_timeouts, late_replies, reopened, modem_reopened, busy_times, error_row, many_sends, concat_refs, long_send,
                                     many_received, many_reports, reports_in_turn, many_waiting, many_stored, event_burst, many_rings, many_calls, long_call, refused_dials, long_tones,
                                     ussd_sizes, ussd_session, late_coverage, long_ids, long_smsc, long_typing)}
LENGTHS = [1, 2, 60, 79, 80, 81, 127, 128, 129, 255, 256, 257, 511, 512, 513, 700, 800, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000]
FAMS = ('generic', 'huawei', 'wavecom', 'zte')


def items(prop, T):
    out = []

    def add(name, *a):
        out.append((name,) + a)
    if prop == 'C08':
        for how in ('notes', 'burst', 'response'):
            for n in LENGTHS + ([6000, 8191, 8192, 8193, 10000, 16384, 20000] if T else []):
                add('long_lines', (n,), how)
            add('long_lines', tuple(LENGTHS[:20]), how)
        for how in ('burst', 'single', 'response', 'commands'):
            for n in (9, 10, 11, 50, 99, 100, 101, 128, 200, 256, 257, 300, 513) + ((1000, 2000, 4097) if T else ()):
                add('many_lines', n, how)
    elif prop == 'C09':
        for n, per in ((2, 30), (5, 10), (10, 5), (20, 3), (40, 2)) + (((100, 2), (10, 60), (3, 300)) if T else ()):
            add('many_threads', n, per)
    elif prop == 'C10':
        for n in (3, 10, 30, 100) + ((300, 1000) if T else ()):
            for level in ('port', 'modem'):
                add('many_timeouts', n, level)
            add('late_replies', n)
    elif prop == 'C11':
        for n in list(range(0, 10)) + [12, 15, 20, 30, 60] + ([100, 200] if T else []):
            for code in (14, 515):
                add('busy_times', n, code)
        for n in (50, 200) + ((1000,) if T else ()):
            for form in ('+CME ERROR: %d', '+CMS ERROR: %d'):
                add('error_row', n, form)
    elif prop == 'C12':
        for n in (2, 5, 10, 30, 100) + ((300, 1000) if T else ()):
            for how in ('close', 'broken', 'refused'):
                add('reopened', n, how)
        for n in (2, 10, 20) + ((60, 200) if T else ()):
            for how in ('close', 'broken'):
                add('modem_reopened', n, how)
    elif prop == 'C14':
        for n in (12, 50, 260) + ((300, 600) if T else ()):
            for mode in ('pdu', 'text'):
                for kind in ('short', 'long', 'wide'):
                    if kind == 'short' or mode == 'pdu':
                        add('many_sends', n, mode, kind)
        add('many_sends', 258, 'pdu', 'wide2', True)
        for n in (10, 258) + ((520, 1030) if T else ()):
            add('concat_refs', n)
        for n in (60, 150, 400, 900) + ((1500, 3000) if T else ()):
            for wide in (False, True):
                if not wide or n <= 1500:
                    add('long_send', n, wide)
    elif prop == 'C15':
        for mode in ('pdu', 'text'):
            for how in ('single', 'burst'):
                for n in (2, 5, 9, 13, 20, 30, 60) + ((100, 150, 300) if T else ()):
                    add('many_received', n, mode, how)
    elif prop == 'C16':
        for mode in ('pdu', 'text'):
            for how in ('order', 'reverse', 'middle'):
                for n in (5, 11, 20, 60, 101) + ((200, 256) if T else ()):
                    add('many_reports', n, mode, how)
            for n in (20, 60) + ((300,) if T else ()):
                add('reports_in_turn', n, mode)
                add('many_waiting', n, mode)
    elif prop == 'C17':
        OPS = [[('list', 4, 'SM', False)], [('list', 0, 'SM', True)], [('list', 1, 'SM', True)], [('list', 4, 'SM', True)], [('process', False)], [('process', True)], [('multi', 1, 'SM')], [('multi', 4, 'SM')],
               [('read', 1, 'SM'), ('delete', 1, 'SM'), ('list', 4, 'SM', False)]]
        for mode in ('pdu', 'text'):
            for op in OPS:
                for n in (30, 100, 101, 255, 256) + ((500, 1000) if T else ()):
                    add('many_stored', n, mode, op)
    elif prop == 'C18':
        for fam in FAMS:
            for mode in ('pdu', 'text'):
                for n in (5, 8, 9, 10, 11, 16, 25, 50) + ((100, 200, 400) if T else ()):
                    add('event_burst', n, fam, mode)
    elif prop == 'C19':
        for fam in FAMS:
            for clip in (True, False):
                for n in (5, 9, 10, 11, 20, 50) + ((100, 256, 300) if T else ()):
                    add('many_rings', n, fam, clip)
            for secs, ringing in ((100, 90), (300, 10)) + (((1800, 100),) if T else ()):
                add('long_call', secs, fam, ringing)
            for kinds in (('in',), ('far', 'in'), ('near', 'far')):
                for n in (9, 20, 40) + ((100, 256) if T else ()):
                    add('many_calls', n, fam, kinds)
    elif prop == 'C20':
        for fam in FAMS:
            for secs, ringing in ((60, 5), (200, 70), (900, 30)) + (((7200, 120),) if T else ()):
                add('long_call', secs, fam, ringing)
            for n in (2, 10, 30) + ((100,) if T else ()):
                for how in ('refused', 'silent') if fam != 'zte' else ():      # a ZTE modem tells the outcome only later
                    add('refused_dials', n, fam, how)
    elif prop == 'C21':
        for kind in ('generic+list', 'huawei', 'huawei+list', 'huawei+vts', 'wavecom', 'zte'):
            for n in (1, 2, 5, 10, 16, 30, 64, 100, 300) + ((1000,) if T else ()):
                add('long_tones', n, kind)
    elif prop == 'C22':
        for order in ('after', 'before'):
            for fam in FAMS[:2]:
                for k in range(0, 400, 20):
                    add('ussd_sizes', tuple(range(k + 1, k + 21)), fam, order)
                add('ussd_sizes', (500, 512, 600, 800, 1000, 1024, 1500, 2000), fam, order)
            for n in (3, 10, 30, 60) + ((300,) if T else ()):
                add('ussd_session', n, order)
    elif prop == 'C23':
        for secs in (0, 20, 59, 61, 130, 300, 600) + ((1800, 7200) if T else ()):
            for timeout in (None, 10, 60, 200, 500, 1000):
                for reg in (False, True):
                    if timeout is None or abs(timeout - secs) > 3:
                        add('late_coverage', secs, timeout, reg)
        for n in (8, 15, 16, 17, 20, 32, 64, 100, 128, 256, 300):
            add('long_ids', n)
        for n in (30,) + ((300,) if T else ()):
            add('long_smsc', n)
    elif prop == 'C25':
        for n in (30, 79, 80, 81, 100, 161, 200, 256, 300) + ((512, 1000) if T else ()):
            for color in (True, False):
                add('long_typing', n, color)
    return out


def make(it):
    inner = scenario(it)

    def fn(env):
        env.s.horizon = env.now() + 40000
        return inner(env)
    return fn


def scenario(it):
    return FACTORIES[it[0]](*[tuple(a) if isinstance(a, list) and it[0] in ('long_lines', 'ussd_sizes', 'many_calls') else [tuple(x) for x in a] if isinstance(a, list) else a for a in it[1:]])


def batch(its, emit):
    for it in its:
        x = explore.run_once(make(it), (), max_steps=STEPS, wall=WALL)
        emit.case(1, state=repr(it))
        emit.steps += x.steps
        emit.sample(dict(case=repr(it)[:200], outcome=repr(x.outcome)[:200]))
        if x.violation is not None:
            emit.bad('%s  [case %s]' % (x.violation.what[:1500], repr(it)[:300]), list(it), key=x.violation.key)


def run(ctx, prop):
    its = items(prop, ctx.thorough)
    # the big ones first, one per worker
    core.run_cases(ctx, PART, batch, [[it] for it in its[::-1]], stall=600)


def replay(prop, payload):
    loader.load_modem()
    x = explore.run_once(make(payload['case']), (), max_steps=STEPS, wall=WALL, trace=False)
    print('outcome:', x.outcome, 'violation:', x.violation and x.violation.what)
    return 1 if x.violation else 0
