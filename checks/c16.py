# -*- coding: utf-8 -*-
"""C16: delivery reports reach the message they belong to, and its waiting sender."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg, ts_text
from . import endurance
from .c01 import chunk
from .modem_common import SLOW, TS, base, batch_of, replay_case, same, slow, view, want


class Report(Msg):
    """A delivery report; `form` selects one of the header forms modems use in text mode."""

    def __init__(self, ref, st=0, form=0, number='+27820001111', ts=TS[0], discharge=TS[1]):
        Msg.__init__(self, kind='report', ref=ref, st=st, number=number, ts=ts, discharge=discharge)
        self.form = form

    def text_header(self, alpha=''):
        h = Msg.text_header(self)
        if self.form == 1:
            return h.replace('"REC UNREAD"', '')
        if self.form == 2:
            return '%s,6,%d,,,"%s","%s",%d' % ('"REC UNREAD"', self.ref, ts_text(self.ts), ts_text(self.discharge), self.st)
        return h


def expected_status(mod, st):
    """Acceptable SentSms.status values for a TP-Status."""
    S = mod.SentSms
    if st == 0:
        return (S.DELIVERED,)
    if 64 <= st <= 127:
        return (S.FAILED,)
    return (S.DELIVERED, S.FAILED, S.ENROUTE)


class World(object):
    """Reference model: sent messages by reference, and where every report has to go."""

    def __init__(self, env, mode, refs, family='generic'):
        self.env, self.b = env, Bed(env, text=mode == 'text', family=family)
        self.s = self.b.sim
        S = self.b.mod.SentSms
        if len({S.ENROUTE, S.DELIVERED, S.FAILED}) != 3:
            raise Violation('the status values cannot be told apart: %r' % ((S.ENROUTE, S.DELIVERED, S.FAILED),), key='status-values')
        self.s.refs = itertools.cycle(refs)
        self.sent = []                # (SentSms, ref, report or None)
        self.latest = {}              # ref -> index into sent
        self.callback = []            # reports the user's handler must get
        self.old = {}
        for mem, i in (('SM', 2), ('SR', 1), ('ME', 3)):
            m = Msg(text='old', status=1)
            self.s.store(mem, m, i)
            self.old[mem, i] = m
        self.sms = []

    def send(self, **kw):
        sms = self.b.m.sendSms('+2782', 'hello', **kw)
        self.track(sms)
        return sms

    def track(self, sms):
        ref = self.s.sent[-1]['ref']
        if sms.reference != ref:
            raise Violation('reference %r instead of %r' % (sms.reference, ref), key='reference')
        self.latest[ref] = len(self.sent)
        self.sent.append([sms, ref, None])

    def attach(self, r, awaited=False):
        if r.ref in self.latest:
            self.sent[self.latest[r.ref]][2] = r
        if not awaited:
            self.callback.append(r)

    def forget(self, ref):
        """The user drops the message object."""
        self.sent[self.latest.pop(ref)][0] = None

    def check(self, what=''):
        mod, b = self.b.mod, self.b
        for sms, ref, r in self.sent:
            if sms is None:
                continue
            if r is None:
                if sms.status != mod.SentSms.ENROUTE or sms.report is not None:
                    raise Violation('%smessage %d: status %r without a report' % (what, ref, sms.status), key='foreign-report')
            else:
                if sms.report is None or view(mod, sms.report) != want(r, 0):
                    raise Violation('%smessage %d: report %r, expected %r' % (what, ref, sms.report and view(mod, sms.report), want(r, 0)), key='report')
                if sms.status not in expected_status(mod, r.st):
                    raise Violation('%smessage %d: status %r for a report with status %d' % (what, ref, sms.status, r.st), key='status')
        same([view(mod, x) for x in b.reports], [want(r, 0) for r in self.callback], what + 'reports handed to the handler', 'callback')
        same([view(mod, x) for x in b.sms], [want(m, 0) for m in self.sms], what + 'received messages', 'sms')
        left = {(mem, i): id(m) for mem in self.s.stores for i, m in self.s.stores[mem].items()}
        if left != {k: id(m) for k, m in self.old.items()}:
            raise Violation('%sstorage holds %r' % (what, self.s.stores), key='storage')

    def end(self):
        self.b.usable()
        self.b.close()


# ------------------------------------------------------------------ every report
def single(it):
    mode, ref, st, form, mem, family = it

    def fn(env):
        w = World(env, mode, [ref], family)
        w.send()
        number = '' if form == 2 and mode == 'text' else '+27820001111'
        r = Report(ref, st, form, number=number, ts=TS[ref % 4], discharge=TS[st % 4])
        w.s.receive(mem, r)
        env.settle(2)
        w.attach(r)
        w.check()
        w.end()
    return fn


# ------------------------------------------------------------------ histories
OPS = ['send', 'rep0', 'rep1', 'repF', 'foreign', 'both', 'mixed', 'forget', 'mode']


def history(it):
    mode, ops = it

    def fn(env):
        w = World(env, mode, [254, 255, 0, 1, 2, 3])
        refs = []
        w.send()
        refs.append(w.s.sent[-1]['ref'])
        mems = itertools.cycle(['SM', 'SR', 'ME'])
        for op in ops:
            if op == 'send':
                w.send()
                refs.append(w.s.sent[-1]['ref'])
                continue
            if op == 'forget':
                ref = refs[-1]
                if ref in w.latest:
                    w.forget(ref)
                continue
            if op == 'mode':
                w.b.m.smsTextMode = not w.b.m.smsTextMode
                continue
            rs = {'rep0': [Report(refs[0])], 'rep1': [Report(refs[-1])], 'repF': [Report(refs[-1], 70)], 'foreign': [Report(99)],
                  'both': [Report(refs[0], 64), Report(refs[-1] if len(refs) > 1 else 98)], 'mixed': [Report(refs[-1])]}[op]
            lines = []
            for r in rs:
                lines.append(w.s.receive(next(mems), r, notify=False)[1])
            if op == 'mixed':
                m = Msg(text='in')
                lines.append(w.s.receive(next(mems), m, notify=False)[1])
                w.sms.append(m)
            w.s.urc(*lines)
            env.settle(2)
            for r in rs:
                w.attach(r)
            w.check('after %s: ' % op)
        env.settle(2)
        w.check()
        w.end()
        return len(refs)
    return fn


# ------------------------------------------------------------------ senders that wait
def waiting(it):
    """plan: what the network does, [(time after acceptance, 'own'|'foreign'|'failed')]; early: the report is announced before the send is acknowledged."""
    mode, plan, timeout, early, then = it

    def fn(env):
        exc = loader.load_exceptions()
        w = World(env, mode, [255, 0, 1, 2])
        s = w.s
        t0 = [None]
        reps = []

        def deliver(kind):
            r = Report(255 if kind != 'foreign' else 77, 0 if kind != 'failed' else 65)
            reps.append((kind, r, env.now()))
            s.receive('SM', r)

        def accepted(c):
            if t0[0] is None:
                t0[0] = env.now()
                if not early:
                    env.spawn(network, 'network')

        def network():
            for t, kind in plan:
                d = t0[0] + t - env.now()
                if d > 0:
                    env.sleep(d)
                deliver(kind)
        s.on_sent = accepted
        if early:
            def before(cmd):
                if cmd.startswith('<body>') and t0[0] is None:
                    t0[0] = env.now()
                    for t, kind in plan:
                        deliver(kind)
            s.intercepts.append(before)
        own = [t for t, k in plan if k != 'foreign']
        try:
            kw = {} if timeout == 15 else {'deliveryTimeout': timeout}
            sms = w.b.m.sendSms('+2782', 'hello', waitForDeliveryReport=True, **kw)
            res = 'returned'
        except exc.TimeoutException:
            res = 'timeout'
        t = env.now() - t0[0]
        if own and own[0] < timeout:
            if res != 'returned':
                raise Violation('the report came after %.1f s but sendSms timed out after %.1f s' % (own[0], t), key='timed-out')
            if t > own[0] + 1:
                raise Violation('the report came after %.1f s but sendSms returned after %.1f s' % (own[0], t), key='late')
            w.track(sms)
            if sms.report is None:
                raise Violation('sendSms returned before its report had arrived', key='early')
        else:
            if res != 'timeout':
                raise Violation('sendSms returned after %.1f s without a report' % t, key='no-timeout')
            if abs(t - timeout) > 0.5:
                raise Violation('sendSms(deliveryTimeout=%r) timed out after %.1f s' % (timeout, t), key='timeout-time')
        env.settle(20)
        awaited = res == 'returned'
        for kind, r, tt in reps:
            mine = kind != 'foreign' and awaited
            if kind != 'foreign' and res == 'returned':
                w.sent[0][2] = r
            if mine:
                awaited = False
            else:
                w.callback.append(r)
        w.check()
        if then == 'again':
            t0[0] = 0
            s.intercepts[:] = []
            s.on_sent = lambda c: s.receive('SM', Report(c['ref']))
            n = len(w.b.reports)
            sms = w.b.m.sendSms('+2782', 'again', waitForDeliveryReport=True)
            if sms.status != w.b.mod.SentSms.DELIVERED or len(w.b.reports) != n:
                raise Violation('a later waiting send: status %r, %d reports to the handler' % (sms.status, len(w.b.reports) - n), key='later')
        w.end()
        return res
    return fn


# ------------------------------------------------------------------ schedules
def sched(name, mode, waits, plan, bound=2, extra=None, split=False):
    """waits: per sender whether it waits. plan(refs) -> bursts of reports sent once all are submitted (or at once: 'own')."""
    def fn(env):
        exc = loader.load_exceptions()
        w = World(env, mode, [10, 11, 12, 13])
        s = w.s
        s.threaded = True
        out, reps, owner = {}, [], {}
        allsent = [0]

        def accepted(c):
            allsent[0] += 1
            owner[c['ref']] = c
            if plan == 'own':
                r = Report(c['ref'])
                reps.append(r)
                s.receive('SR' if c['ref'] % 2 else 'SM', r)
            elif allsent[0] == len(waits):
                for g in plan:
                    rs = [Report(x) if isinstance(x, int) else Report(x[0], x[1]) for x in g]
                    reps.extend(rs)
                    s.urc(*[s.receive('SM', r, notify=False)[1] for r in rs])
        s.on_sent = accepted

        def send(i):
            try:
                out[i] = w.b.m.sendSms('+2780%d' % i, 'text %d' % i, waitForDeliveryReport=waits[i], deliveryTimeout=5)
            except exc.TimeoutException:
                out[i] = None
        env.quiesce()
        env.explore()
        ths = [env.spawn(lambda i=i: send(i), 'sender%d' % i) for i in range(len(waits))]
        if extra:
            ths.append(env.spawn(lambda: w.b.m.write(extra), 'cmd'))
        env.wait(ths)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(8)
        byref = {}
        for r in reps:
            byref.setdefault(r.ref, []).append(r)
        for i in range(len(waits)):
            ref = [c['ref'] for c in s.sent if (c.get('dest') or '+' + c['submit'].dest[1]) == '+2780%d' % i][0]
            rs = byref.get(ref, [])
            if waits[i] and not rs:
                if out[i] is not None:
                    raise Violation('sender %d returned without a report' % i, key='early')
                continue
            if out[i] is None:
                raise Violation('sender %d timed out although its report had come' % i, key='timed-out')
            if out[i].reference != ref:
                raise Violation('sender %d got reference %r instead of %r' % (i, out[i].reference, ref), key='reference')
            w.sent.append([out[i], ref, rs[-1] if rs else None])
            w.callback.extend(rs[1:] if waits[i] else rs)
            byref.pop(ref, None)
        for rs in byref.values():
            w.callback.extend(rs)
        w.check()
        w.end()
        return [x and x.status for x in out.values()], len(w.callback)
    return explore.Harness(name, fn, bound=bound)


def race(name, mode, delta, bound=2):
    """The report is announced when the sender's patience ends; whichever comes first, report and sender must agree."""
    def fn(env):
        exc = loader.load_exceptions()
        w = World(env, mode, [10, 11, 12])
        s = w.s
        r = Report(10)

        def network():
            env.sleep(1 + delta)
            s.receive('SM', r)
        s.on_sent = lambda c: env.spawn(network, 'network')
        env.quiesce()
        s.threaded = True
        env.explore()
        try:
            sms = w.b.m.sendSms('+2782', 'x', waitForDeliveryReport=True, deliveryTimeout=1)
        except exc.TimeoutException:
            sms = None
        if sms is not None:
            if sms.status != w.b.mod.SentSms.DELIVERED or sms.report is None:
                raise Violation('sendSms returned, but the message has no report', key='early')
            w.sent.append([sms, 10, r])
        else:
            w.callback.append(r)
        env.quiesce()
        env.sleep(1)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(5)
        w.check()
        w.end()
        return 'timeout' if sms is None else 'returned'
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('report of a waiting sender, PDU mode', 'pdu', [True], 'own', bound=2 + e),
        sched('report of a waiting sender, text mode', 'text', [True], 'own', bound=2 + e),
        sched('two waiting senders, own reports', 'pdu', [True, True], 'own', bound=1 + e),
        sched('two waiting senders, reports in one burst', 'pdu', [True, True], [[11, 10]], bound=1 + e),
        sched('two waiting senders, reports in order', 'text', [True, True], [[10], [11]], bound=1 + e),
        sched('two waiting senders, one report missing', 'pdu', [True, True], [[11]], bound=1 + e),
        sched('waiting and plain sender', 'pdu', [True, False], [[11, 10, 55]], bound=1 + e),
        sched('waiting sender and foreign report', 'pdu', [True], [[50], [10]], bound=2 + e),
        sched('waiting sender and a command', 'pdu', [True], 'own', bound=1 + e, extra='AT+CGMM'),
        race('report just when the time is up', 'pdu', 0.0, bound=2 + e),
        race('report just before the time is up', 'text', -0.0001, bound=2 + e),
    ]


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    items = [(mode, ref, st, form, mem, fam) for mode in ('pdu', 'text') for ref in ((0, 1, 127, 128, 255) if not T else range(0, 256, 5))
             for st in ((0, 1, 2, 32, 48, 64, 65, 68, 70, 96, 127, 128, 255) if ref or not T else range(256)) for form in ((0, 1, 2) if mode == 'text' else (0,))
             for mem in ('SM', 'SR', 'ME') for fam in (('generic', 'wavecom') if ref == 1 else ('generic',))]
    core.run_cases(ctx, 'single reports', batch_of(single), chunk(items, 20))
    core.run_cases(ctx, 'single reports' + SLOW, batch_of(slow(single)), chunk(items[::5], 20))
    items = [(mode, ops) for mode in ('pdu', 'text') for n in range(1, 5 if T else 4) for ops in itertools.product(OPS, repeat=n)]
    core.run_cases(ctx, 'histories', batch_of(history), chunk(items, 10))
    core.run_cases(ctx, 'histories' + SLOW, batch_of(slow(history)), chunk(items[::4], 10))
    plans = [[]]
    times = (0, 0.5, 3, 14.5, 15.5, 16.5)
    for n in (1, 2):
        for ks in itertools.product(('own', 'foreign', 'failed'), repeat=n):
            for ts in itertools.combinations_with_replacement(times, n):
                plans.append(list(zip(ts, ks)))
    items = [(mode, p, to, False, then) for mode in ('pdu', 'text') for p in plans for to in (15, 1, 4) for then in ('', 'again')
             if all(abs(t - to) > 0.01 for t, _ in p)]
    items += [(mode, [(0, k) for k in ks], to, True, then) for mode in ('pdu', 'text') for n in (1, 2) for ks in itertools.product(('own', 'foreign', 'failed'), repeat=n)
              for to in (15, 1) for then in ('', 'again')]
    for to in (0, 0.5, 2.5, 45, 300):
        for p in [[]] + [[(t, k)] for t in (0.2, to * 0.8, to - 0.3, to + 0.3, to + 5) for k in ('own', 'foreign', 'failed') if t > 0]:
            items += [(mode, p, to, False, then) for mode in ('pdu', 'text') for then in ('', 'again')]
    core.run_cases(ctx, 'waiting senders', batch_of(waiting), chunk(items, 10))
    endurance.run(ctx, 'C16')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['references are unique among the messages the user is still interested in (the latest message with a reference counts)',
                        'only TP-Status 0 (delivered) and 64-127 (permanent failure) have a prescribed meaning for SentSms.status']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C16', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case({'single reports': single, 'histories': history, 'waiting senders': waiting}[base(payload)], payload)
