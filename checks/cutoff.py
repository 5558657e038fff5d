# -*- coding: utf-8 -*-
"""C12: every operation of a modem object when the port fails or is closed at any point of it."""
from mc import explore, fakeserial as fs, loader
from mc.core import Violation
from mc import vthreading as vt
from mc.sim import Bed, Msg, Sim
from .c16 import Report
from .serial_common import lines_of
from . import c10

PART = 'operations cut short'
TABLES = {'huawei': ['+CSQ', '+CLAC', '^DTMF', '^CVOICE', '^USSDMODE'], 'generic': ['+CSQ', '+CLAC', '+VTS'], 'wavecom': ['+CSQ', '+WIND', '+VTS']}
LIMIT = 40          # no operation has a longer chain of timeouts


def dialled(m, w):
    c = m.dial('0555')
    w.bed.sim.calls[c.id if c.id in w.bed.sim.calls else 1]['state'] = 0
    w.bed.sim.urc(*w.bed.sim.answered_lines(c.id))
    w.env.sleep(1.5)
    c.sendDtmfTone('12')
    c.hangup()


def delivered(m, w):
    s = w.bed.sim
    s.on_sent = lambda c: w.env.spawn(lambda: (w.env.sleep(2), s.receive('SM', Report(c['ref']))), 'network')
    return m.sendSms('+123', 'hello', waitForDeliveryReport=True)


def rung(m, w):
    w.bed.sim.calls[1] = dict(dir=1, number='+2711', state=4)
    w.bed.sim.urc('+CRING: VOICE', '+CLIP: "+2711",145')
    w.env.sleep(1)
    if w.bed.calls:
        w.bed.calls[0].answer()
        w.bed.calls[0].sendDtmfTone('5')
        w.bed.calls[0].hangup()


def arrives(m, w):
    w.bed.sim.receive('SM', Msg(text='new'))
    w.bed.sim.receive('ME', Report(5))
    w.env.sleep(3)


def session(m, w):
    w.bed.sim.ussd = lambda q: ['+CUSD: 1,"reply to %s",15' % q]
    u = m.sendUssd('*1#')
    u.reply('2').cancel()


OWN = {'dial': dialled, 'wait for delivery': delivered, 'ring': rung, 'arrivals': arrives, 'session': session, 'wait for coverage': lambda m, w: m.waitForNetworkCoverage(8)}
EVENTS = ('fail', 'gone', 'close', 'failclose')


class W(object):
    pass


def case(it):
    op, k, event, text, family = it

    def fn(env):
        exc = loader.load_exceptions()
        w = W()
        w.env = env
        w.bed = bed = Bed(env, text=text, clac=TABLES[family], family=family)
        sim, m = bed.sim, bed.m
        sim.store('SM', Msg(text='one'), 1)
        sim.store('SM', Msg(text='two', status=1), 2)
        sim.store('ME', Msg(text='three'), 1)
        sim.ussd = lambda s: ['+CUSD: 0,"reply",15']
        sim.after_dial = lambda i: (env.spawn(lambda: (env.sleep(0.2), sim.urc(*sim.started_lines(i))) if sim.started_lines(i) else None, 'network'),
                                    ['OK'] if family in ('huawei', 'generic') else None)[1]
        if op == 'wait for coverage':
            sim.creg = [2]
        push, err = sim.push, fs.SerialException('gone')
        st = dict(left=k, cut=False)
        what = '%s, %s after %d characters' % (op, event, k)

        def strike():
            if event in ('fail', 'gone', 'failclose'):
                if event == 'gone':
                    sim.write_error = fs.SerialException('cannot write')
                sim.fail(err)
            if event in ('close', 'failclose'):
                t0 = env.now()
                m.close()
                if env.now() - t0 > 8:
                    raise Violation('%s: close() took %.1f s' % (what, env.now() - t0), key='slow-close')
            st['done'] = True

        def cut_push(data):
            if st['cut']:
                return
            part = data[:st['left']]
            st['left'] -= len(part)
            if part:
                push(part)
            if len(part) < len(data):
                st['cut'] = True
                st['thread'] = env.spawn(strike, 'fate')
        sim.push = cut_push
        t0 = env.now()
        try:
            OWN[op](m, w) if op in OWN else c10.OPS[op](m)
        except (exc.GsmModemException, fs.SerialException):
            pass
        if not st['cut']:
            env.settle(3)
            if not st['cut']:
                return 'complete'
        if env.now() - t0 > LIMIT:
            raise Violation('%s: it took %.1f s' % (what, env.now() - t0), key='op-late')
        if not env.wait([st['thread']], 60):
            raise Violation('%s: close() does not return' % what, key='close-stuck')
        env.settle(20)
        if m.alive or sim.is_open:
            raise Violation('%s: alive %r, port open %r' % (what, m.alive, sim.is_open), key='still-alive')
        left = [t.name for t in env.s.threads if not t.done and t.name != 'main']
        if left:
            raise Violation('%s: threads still running: %s' % (what, left), key='thread-left')
        if event in ('fail', 'gone') and [e for e in bed.fatal] != [err] or event == 'close' and bed.fatal or len(bed.fatal) > 1:
            raise Violation('%s: the fatal-error handler was called with %r' % (what, bed.fatal), key='fatal')
        afterwards(env, w, what, family)
        return event
    return fn


def afterwards(env, w, what, family):
    if True:
        # another modem in its place
        bed, m = w.bed, w.bed.m
        new = bed.sim = Sim(env, clac=TABLES[family], family=family)
        fs.PORTS[new.port] = new
        del bed.sms[:], bed.calls[:], bed.reports[:], bed.fatal[:]
        m.connect()
        bed.usable(what + ', after connecting again')
        new.store('SM', Msg(text='later'), 3)
        if m.readStoredSms(3, 'SM').text != 'later':
            raise Violation('%s: reading a message after connecting again' % what, key='reconnect')
        if m.sendSms('+4711', 'again').text != 'again' or len(new.sent) != 1:
            raise Violation('%s: sending after connecting again' % what, key='reconnect')
        new.receive('SM', Msg(text='new'))
        new.urc('+CRING: VOICE', '+CLIP: "+2712",145')
        env.settle(4)
        if [x.text for x in bed.sms] != ['new'] or [c.number for c in bed.calls] != ['+2712'] or [c.number for c in m.activeCalls.values()] != ['+2712']:
            raise Violation('%s: after connecting again: messages %r, calls %r, active %r' % (what, [x.text for x in bed.sms], [c.number for c in bed.calls], m.activeCalls), key='reconnect')
        m.close()
        env.settle(2)
        left = [t.name for t in env.s.threads if not t.done and t.name != 'main']
        if left or bed.fatal:
            raise Violation('%s: closed again: threads %r, fatal errors %r' % (what, left, bed.fatal), key='thread-left')


POINTS = {'send': 3, 'wait for delivery': 9, 'arrivals': 12, 'session': 6, 'dial': 8, 'ring': 6, 'wait for coverage': 5, 'read': 3, 'ussd': 3}


def sched(op, event, family, bound):
    """The operation in one thread, the port's end in another, under all schedules; the modem answers from a thread of its own."""
    what = '%s and %s (%s)' % (op, event, family)

    def fn(env):
        exc = loader.load_exceptions()
        w = W()
        w.env = env
        w.bed = bed = Bed(env, clac=TABLES[family], family=family)
        sim, m = bed.sim, bed.m
        sim.store('SM', Msg(text='one'), 1)
        sim.ussd = lambda s: ['+CUSD: 0,"reply",15']
        sim.after_dial = lambda i: (env.spawn(lambda: (env.sleep(0.2), sim.urc(*sim.started_lines(i))) if sim.started_lines(i) else None, 'network'),
                                    ['OK'] if family in ('huawei', 'generic') else None)[1]
        if op == 'wait for coverage':
            sim.creg = [2]
        sim.threaded = True
        pieces, push = [0], sim.push

        def counted(data):
            push(data)
            pieces[0] += 1
        sim.push = counted
        err = fs.SerialException('gone')

        def act():
            try:
                OWN[op](m, w) if op in OWN else c10.OPS[op](m)
            except (exc.GsmModemException, fs.SerialException):
                pass

        def close():
            t0 = env.now()
            m.close()
            if env.now() - t0 > 8:
                raise Violation('%s: close() took %.1f s' % (what, env.now() - t0), key='slow-close')
        env.quiesce()
        env.explore()
        t0 = env.now()
        ths = [env.spawn(act, 'client')]
        n = env.choose(POINTS.get(op, 4))                       # so many pieces of the modem's output come before the end
        vt.S.block(lambda: pieces[0] >= n or ths[0]._vt.done, 20, 'fate')
        env.point('fate')
        if event in ('fail', 'both'):
            sim.fail(err)
        if event in ('close', 'both'):
            ths.append(env.spawn(close, 'closer'))
        if not env.wait(ths, 90):
            raise Violation('%s: a thread is stuck' % what, key='stuck')
        if env.now() - t0 > LIMIT:
            raise Violation('%s: it took %.1f s' % (what, env.now() - t0), key='op-late')
        env.quiesce()
        env.explore(False)
        env.settle(20)
        if m.alive or sim.is_open:
            raise Violation('%s: alive %r, port open %r' % (what, m.alive, sim.is_open), key='still-alive')
        left = [t.name for t in env.s.threads if not t.done and t.name != 'main']
        if left:
            raise Violation('%s: threads still running: %s' % (what, left), key='thread-left')
        if event == 'fail' and bed.fatal != [err] or event == 'close' and bed.fatal or len(bed.fatal) > 1:
            raise Violation('%s: the fatal-error handler was called with %r' % (what, bed.fatal), key='fatal')
        afterwards(env, w, what, family)
        return env.now() - t0
    return explore.Harness(what, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [sched(op, ev, fam, (1 + e if op in ('arrivals', 'session', 'dial', 'ring') else 2 if op.startswith('wait') else 2 + e))
            for op in ('send', 'read', 'ussd', 'session', 'wait for delivery', 'arrivals', 'wait for coverage', 'dial', 'ring')
            for ev in ('fail', 'close', 'both') for fam in ('generic',) + (('huawei', 'wavecom') if op in ('dial', 'ring') and ev != 'both' else ())]


def items(T):
    for op in sorted(c10.OPS) + sorted(OWN):
        for event in EVENTS:
            yield op, event, False, 'generic'
            if op in OWN or T:
                yield op, event, False, 'huawei'
            if op in OWN and op != 'session':
                yield op, event, False, 'wavecom'
            if op in ('list', 'send', 'read', 'process', 'arrivals', 'wait for delivery'):
                yield op, event, True, 'generic'


def batch(its, emit):
    for op, event, text, family in its:
        k = 0
        while k < 3000:
            it = (op, k, event, text, family)
            x = explore.run_once(case(it), ())
            emit.case(1, state=it)
            emit.steps += x.steps
            if x.violation is not None:
                emit.bad('%s  [case %r]' % (x.violation.what, it), list(it), key=x.violation.key)
                break
            if x.outcome == 'complete':
                break
            k += 1
        emit.sample('%s (%s): %s at %d points' % (op, family, event, k))
