# -*- coding: utf-8 -*-
"""C21: modem objects are independent, and DTMF tones are sent in full and in order."""
import itertools
import re

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg, Sim
from . import endurance
from .c01 import chunk
from .modem_common import TS, batch_of, replay_case, view

KINDS = {
    'generic': ('generic', None), 'generic+list': ('generic', ['+CLAC', '+VTS', '+CLCC']), 'generic-novts': ('generic', ['+CLAC', '+CLCC']),
    'huawei': ('huawei', None), 'huawei+list': ('huawei', ['+CLAC', '^CVOICE', '^DTMF', '^USSDMODE']), 'huawei+vts': ('huawei', ['+CLAC', '+VTS', '^DTMF']),
    'wavecom': ('wavecom', None), 'wavecom+list': ('wavecom', ['+CLAC', '+WIND', '+VTS']),
    'zte': ('zte', None), 'zte+list': ('zte', ['+CLAC', '+ZPAS', '+VTS']),
}
TONES = '0123456789*#ABCD'


def tones_of(cmd):
    """[(command, call id, tone)] of a DTMF command line, or None."""
    if not cmd.startswith('AT') or ('+VTS' not in cmd and '^DTMF' not in cmd):
        return None
    out = []
    for part in cmd[2:].split(';'):
        m = re.match(r'^(?:(\+VTS)=(.)|(\^DTMF)=(\d+),(.))$', part)
        if not m:
            return [('?', None, part)]
        out.append(('+VTS', None, m.group(2)) if m.group(1) else ('^DTMF', int(m.group(4)), m.group(5)))
    return out


def dtmf_log(sim):
    out = []
    for c in sim.log:
        t = tones_of(c)
        if t:
            out.extend(t)
    return out


def form(kind):
    return '^DTMF' if KINDS[kind][0] == 'huawei' else '+VTS'


class One(object):
    """One modem with a scripted user."""

    def __init__(self, env, kind, name):
        self.env, self.kind, self.name = env, kind, name
        fam, clac = KINDS[kind]
        self.family = fam
        self.sim = Sim(env, family=fam, clac=clac, port='port-' + name)
        self.sim.cmd_A = lambda a: ['OK']
        self.b = None
        self.trace = []               # everything the user can see
        self.call = None
        self.ended = None

    def do(self, op):
        env, s = self.env, self.sim
        exc = loader.load_exceptions()
        try:
            r = self._do(op)
        except exc.GsmModemException as e:
            r = (type(e).__name__, str(e))
        self.trace.append((op, r))

    def _do(self, op):
        env, s = self.env, self.sim
        if op in ('connect', 'connect-text'):
            self.b = Bed(env, sim=s, connect=False)
            if op == 'connect-text':
                self.b.m.smsTextMode = True
            self.b.m.connect()
            return None
        b, m = self.b, self.b.m
        if op == 'ring':
            s.urc('+CRING: VOICE', '+CLIP: "+27%s",145' % self.kind.count('a'))
            env.settle(1)
            self.call = b.calls[-1]
            return [(c.number, c.id, c.ringCount, c.dtmfSupport) for c in b.calls]
        if op == 'answer':
            self.call.answer()
            return (self.call.answered, sorted(m.activeCalls))
        if op == 'dial':
            def after(i):
                if self.family in ('huawei', 'wavecom'):
                    env.spawn(lambda: (env.sleep(0.1), s.urc(*s.started_lines(i))), 'network')
                return ['OK'] if self.family in ('huawei', 'generic') else None
            s.after_dial = after
            self.call = m.dial('055')
            i = s.last_dialled
            s.calls[i]['state'] = 0
            s.urc(*s.answered_lines(i))
            env.settle(1)
            return (self.call.id, self.call.answered, self.call.active, self.call.dtmfSupport, sorted(m.activeCalls))
        if op.startswith('dtmf'):
            self.call.sendDtmfTone(op[4:])
            return None
        if op == 'send':
            x = m.sendSms('+2782', 'from here')
            return (x.reference, x.status)
        if op == 'sms':
            s.receive('SM', Msg(text='in', ts=TS[1]))
            env.settle(1)
            return [view(b.mod, x) for x in b.sms]
        if op == 'sendkeep':
            self.kept = m.sendSms('+2783', 'tracked', deliveryTimeout=5)
            return (self.kept.reference, self.kept.status)
        if op == 'report':
            s.receive('SR', Msg(kind='report', ref=self.kept.reference, number='+2783', ts=TS[0], discharge=TS[1], st=0))
            env.settle(1)
            return (self.kept.status, self.kept.report is not None, len(b.reports), [x.reference for x in b.reports])
        if op == 'tracked':
            return (self.kept.status, self.kept.report is not None, len(b.reports))
        if op == 'smsME':
            s.receive('ME', Msg(text='in ME', ts=TS[2]), 7)
            env.settle(1)
            return [view(b.mod, x) for x in b.sms]
        if op == 'list':
            s.store('SM', Msg(text='kept', ts=TS[2], status=1), 5)
            return [x.text for x in m.listStoredSms(memory='SM')]
        if op == 'active':
            return sorted((k, c.number, c.answered, c.active) for k, c in m.activeCalls.items())
        if op == 'settings':
            return (m.smsTextMode, m.alive, m.smsc, m.supportedCommands)
        if op == 'text':
            m.smsTextMode = not m.smsTextMode
            return m.smsTextMode
        if op == 'hangup':
            self.call.hangup()
            return (self.call.active, sorted(m.activeCalls))
        if op == 'ussd':
            s.ussd = lambda q: ['OK', '+CUSD: 1,"menu %s",15' % q]
            u = m.sendUssd('*1#')
            return (u.message, u.sessionActive)
        if op == 'smsc':
            m.smsc = '+2755'
            return m.smsc
        if op == 'close':
            m.close()
            return m.alive
        raise ValueError(op)

    def result(self):
        return [repr(t) for t in self.trace], list(self.sim.log)


SOLO = {}


def solo(kind, ops):
    k = (kind, tuple(ops))
    if k not in SOLO:
        got = []

        def fn(env):
            o = One(env, kind, 'x')
            for op in ops:
                o.do(op)
            got.append(o.result())
        x = explore.run_once(fn, ())
        if x.violation is not None:
            SOLO[k] = ('violation', x.violation.what, x.violation.key)
        else:
            SOLO[k] = got[0]
    return SOLO[k]


def clean(log):
    """Command log without the polls, whose number depends on time only."""
    return [c for c in log if c != 'AT+CLCC']


def pair(it):
    """Two modems, their operations merged in a given order; each must behave as it does alone."""
    ka, opsa, kb, opsb, merge = it

    def fn(env):
        A, B = One(env, ka, 'a'), One(env, kb, 'b')
        ia, ib = iter(opsa), iter(opsb)
        for c in merge:
            if c == 'a':
                A.do(next(ia))
            else:
                B.do(next(ib))
        for o, k, ops in ((A, ka, opsa), (B, kb, opsb)):
            exp = expected[k, tuple(ops)]
            got = o.result()
            if got[0] != exp[0]:
                d = [(x, y) for x, y in zip(got[0], exp[0]) if x != y]
                raise Violation('a %s modem beside a %s modem: %s instead of %s' % (k, kb if o is A else ka, d[0][0], d[0][1]), key='independent-result')
            if clean(got[1]) != clean(exp[1]):
                d = [(x, y) for x, y in itertools.zip_longest(clean(got[1]), clean(exp[1])) if x != y]
                raise Violation('a %s modem beside a %s modem: received %r instead of %r' % (k, kb if o is A else ka, d[0][0], d[0][1]), key='independent-commands')
        return len(A.sim.log), len(B.sim.log)
    expected = {}
    for k, ops in ((ka, opsa), (kb, opsb)):
        e = solo(k, ops)
        if e[0] == 'violation':
            def bad(env):
                raise Violation('alone: ' + e[1], key=e[2])
            return bad
        expected[k, tuple(ops)] = e
    return fn


def merges(n, m):
    for c in itertools.combinations(range(n + m), n):
        yield ''.join('a' if i in c else 'b' for i in range(n + m))


# ------------------------------------------------------------------ DTMF
def dtmf(it):
    """how: incoming/outgoing; tones: list of strings sent one after the other; reply: what the modem answers."""
    kind, how, tones, reply, slow, before = it

    def fn(env):
        exc = loader.load_exceptions()
        o = One(env, kind, 'x')
        o._do('connect')
        s = o.sim
        s.cmd_VTS = lambda a: ['OK']
        s.cmd_xDTMF = lambda a: ['OK']
        for i in range(before):           # other calls, so that the identifier is not always 1
            s.urc('+CRING: VOICE', '+CLIP: "+2799%d",145' % i)
            env.settle(1)
            o.b.calls[-1].answer()
            s.calls[i + 1] = dict(dir=1, number='x', state=0)
        if how == 'incoming':
            o._do('ring')
            o._do('answer')
        else:
            o._do('dial')
        del s.log[:]
        cid = o.call.id
        if o.call.dtmfSupport != (kind not in ('generic', 'generic-novts')):
            raise Violation('%s: the call says that DTMF tones are %ssupported' % (kind, '' if o.call.dtmfSupport else 'not '), key='dtmf-support')

        def intercept(cmd):
            if tones_of(cmd) is None:
                return None
            if slow:
                n = len(tones_of(cmd))
                env.spawn(lambda: (env.sleep(0.9 * n), s.push('\r\n%s\r\n' % (reply or 'OK'))), 'modem')
                return 'silent'
            return [reply] if reply else None
        s.intercepts.append(intercept)
        for t in tones:
            del s.log[:]
            try:
                o.call.sendDtmfTone(t)
                res = None
            except exc.GsmModemException as e:
                res = e
            got = dtmf_log(s)
            want = [(form(kind), cid if form(kind) == '^DTMF' else None, x) for x in t]
            if got != want:
                raise Violation('tones %r were sent as %r' % (t, got), key='tones')
            if reply is None:
                if res is not None:
                    raise Violation('sending %r raised %s: %s' % (t, type(res).__name__, res), key='raised')
            else:
                exp = {'+CME ERROR: 30': ('InterruptedException', None), '+CME ERROR: 3': ('InterruptedException', None), 'ERROR': ('CommandError', None)}.get(reply)
                if exp is None:
                    code = int(reply.split()[-1])
                    exp = ('CmeError' if 'CME' in reply else 'CmsError', code)
                ok = type(res).__name__ == exp[0] or exp[0] in [c.__name__ for c in type(res).__mro__]
                if res is None or not ok or exp[1] is not None and res.code != exp[1]:
                    raise Violation('reply %r to %r: %s raised' % (reply, t, type(res).__name__), key='error-class')
                if exp[0] != 'InterruptedException' and isinstance(res, exc.InterruptedException):
                    raise Violation('reply %r to %r: %s raised' % (reply, t, type(res).__name__), key='error-class')
        s.intercepts.remove(intercept)
        o.b.usable()
        o.b.close()
    return fn


def states(it):
    """DTMF in every call state."""
    kind, seq, tone = it

    def fn(env):
        exc = loader.load_exceptions()
        o = One(env, kind, 'x')
        o._do('connect')
        s = o.sim
        s.cmd_VTS = lambda a: ['OK']
        s.cmd_xDTMF = lambda a: ['OK']
        answered = False
        for op in seq:
            if op == 'ring':
                o._do('ring')
            elif op == 'answer':
                o.call.answer()
                answered = o.call.active
            elif op == 'dialling':
                def after(i):
                    if o.family in ('huawei', 'wavecom'):
                        env.spawn(lambda: (env.sleep(0.1), s.urc(*s.started_lines(i))), 'network')
                    return ['OK'] if o.family in ('huawei', 'generic') else None
                s.after_dial = after
                o.call = o.b.m.dial('055')
            elif op == 'remote answer':
                s.calls[o.call.id]['state'] = 0
                s.urc(*s.answered_lines(o.call.id))
                env.settle(1.2)
                answered = True
            elif op == 'remote end':
                s.calls.pop(o.call.id, None)
                s.urc(*s.ended_lines(o.call.id))
                env.settle(1.2)
                answered = False
            elif op == 'hangup':
                o.call.hangup()
                s.calls.pop(o.call.id, None)
                answered = False
            del s.log[:]
            try:
                o.call.sendDtmfTone(tone)
                res = 'sent'
            except exc.InvalidStateException:
                res = 'invalid'
            n = len(dtmf_log(s))
            if (res, n) != (('sent', len(tone)) if answered else ('invalid', 0)):
                raise Violation('DTMF after %r: %s, %d tones sent' % (seq[:seq.index(op) + 1], res, n), key='dtmf-state')
        o.b.usable()
        o.b.close()
    return fn


# ------------------------------------------------------------------ schedules
def both(name, ka, kb, bound):
    """Two modems used by two threads at the same time."""
    def fn(env):
        ops = ['connect', 'ring', 'answer']
        A, B = One(env, ka, 'a'), One(env, kb, 'b')
        for o in (A, B):
            for op in ops:
                o.do(op)
        env.quiesce()
        env.explore()
        ths = [env.spawn(lambda o=o: [o.do(x) for x in ('dtmf12', 'send')], o.name) for o in (A, B)]
        env.wait(ths)
        env.explore(False)
        for o, k in ((A, ka), (B, kb)):
            exp = solo(k, ops + ['dtmf12', 'send'])
            if o.result()[0] != exp[0] or clean(o.result()[1]) != clean(exp[1]):
                raise Violation('a %s modem behaves differently beside another one: %r / %r' % (k, o.result(), exp), key='independent')
        A.b.close()
        B.b.close()
        return 'ok'
    return explore.Harness(name, fn, bound=bound, prepare=lambda: [solo(k, ['connect', 'ring', 'answer', 'dtmf12', 'send']) for k in (ka, kb)])


def harnesses(T):
    e = 1 if T else 0
    return [both('two threads, %s and %s' % p, p[0], p[1], 1 + e) for p in (('huawei', 'generic'), ('zte', 'huawei+list'), ('generic', 'generic'))]


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    items = []
    scripts = [['connect', 'ring', 'answer', 'dtmf1*', 'hangup'], ['connect-text', 'dial', 'dtmf5', 'send'], ['connect', 'sms', 'text', 'sms', 'send'], ['connect', 'ussd', 'smsc', 'dial', 'dtmf98']]
    for ka in KINDS:
        for kb in KINDS:
            for i, sa in enumerate(scripts):
                for j, sb in enumerate(scripts):
                    ms = list(merges(len(sa), len(sb)))
                    if not T:
                        # complete for one script pair; elsewhere the merges that connect in both orders at three points
                        keep = {('a' * n + 'b' * len(sb) + 'a' * (len(sa) - n)) for n in range(len(sa) + 1)} | {'ab' * min(len(sa), len(sb)) + 'a' * (len(sa) - min(len(sa), len(sb))) + 'b' * (len(sb) - min(len(sa), len(sb)))}
                        if (i, j) != (0, 1) or ka > kb:
                            ms = [m for m in ms if m in keep] if (i + j) % 2 or i == j else []
                        else:
                            ms = ms[::1] if ka in ('generic', 'huawei', 'zte') and kb in ('huawei', 'wavecom', 'zte+list') else [m for m in ms if m in keep]
                    items += [(ka, sa, kb, sb, m) for m in ms]
    # state kept per modem: sent messages, calls, the selected storage, the SMS mode
    deep = [['connect', 'sendkeep', 'tracked', 'report', 'send'], ['connect-text', 'sendkeep', 'smsME', 'list', 'tracked', 'settings'], ['connect', 'ring', 'active', 'answer', 'active', 'hangup', 'active'],
            ['connect', 'smsc', 'dial', 'active', 'hangup', 'settings'], ['connect', 'list', 'smsME', 'sms', 'text', 'settings'], ['connect', 'ussd', 'ring', 'close']]
    few = ('generic', 'huawei', 'wavecom+list', 'zte') if T else ('generic', 'huawei')
    for ka in few:
        for kb in few:
            for i, sa in enumerate(deep):
                for j, sb in enumerate(deep):
                    ms = list(merges(len(sa), len(sb)))
                    if not T and (i, j) != (0, 0):
                        # connected in both orders, then every merge with at most three changes of turn
                        ms = [m for m in ms if sum(x != y for x, y in zip(m, m[1:])) <= (3 if i == j else 2)]
                    items += [(ka, sa, kb, sb, m) for m in ms]
    core.run_cases(ctx, 'pairs of modems', batch_of(pair), chunk(items, 60))
    items = []
    for k in KINDS:
        for how in ('incoming', 'outgoing'):
            for before in (0, 1, 2):
                if before and KINDS[k][0] in ('wavecom', 'zte', 'generic') and how == 'outgoing' and before > 1:
                    continue
                items.append((k, how, [a for a in TONES] + [a + b for a in TONES for b in (TONES if T else '1*D')], None, False, before))
                for n in (3, 4, 5):
                    items.append((k, how, [''.join(c) for c in itertools.product('1#' if not T else '1#A', repeat=n)], None, False, before))
                items.append((k, how, [(TONES * 20)[i:i + n] for i, n in enumerate(range(6, 80) if T else (16, 20, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 160, 161, 255, 256, 257))], None, False, before))
                for n in (1, 5, 10, 30, 60):
                    items.append((k, how, [(TONES * 4)[:n]], None, True, before))
            for r in ['ERROR'] + ['+CME ERROR: %d' % c for c in (0, 1, 2, 3, 4, 5, 10, 29, 30, 31, 33, 100, 300, 301)] + ['+CMS ERROR: 30', '+CMS ERROR: 3']:
                items.append((k, how, ['1', '12', '123'], r, False, 0))
            for r in ('+CME ERROR: 30', 'ERROR'):
                items.append((k, how, ['12'], r, True, 0))
    core.run_cases(ctx, 'tones and replies', batch_of(dtmf), chunk(items, 4))
    items = []
    for k in KINDS:
        inc = ['ring', 'answer', 'hangup']
        out = ['dialling', 'remote answer', 'remote end']
        seqs = [('ring',), ('ring', 'answer'), ('ring', 'answer', 'hangup'), ('ring', 'hangup'), ('ring', 'ring', 'answer', 'hangup'), ('ring', 'hangup', 'answer'), ('dialling',), ('dialling', 'remote answer'),
                ('dialling', 'remote answer', 'remote end'), ('dialling', 'remote end'), ('dialling', 'hangup'), ('dialling', 'remote answer', 'hangup'), ('dialling', 'remote answer', 'remote end', 'hangup')]
        if KINDS[k][0] != 'generic':
            seqs += [('ring', 'remote end'), ('ring', 'answer', 'remote end'), ('ring', 'remote end', 'answer')]
        items += [(k, list(q), t) for q in seqs for t in ('1', '12', '*0#')]
    core.run_cases(ctx, 'call states', batch_of(states), chunk(items, 10))
    endurance.run(ctx, 'C21')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['commands that only poll the state of a call (+CLCC) are not compared']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C21', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case({'pairs of modems': pair, 'tones and replies': dtmf, 'call states': states}[payload['part']], payload)
