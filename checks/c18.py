# -*- coding: utf-8 -*-
"""C18: every modem event is acted on exactly once, even when events coalesce."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg
from . import endurance, nocallbacks
from .c01 import chunk
from .modem_common import SLOW, TS, base, batch_of, replay_case, same, slow, view, want

NUM_A, NUM_B = '+27110000001', '0820000002'
NOISE = {
    'n1': ['+CREG: 1'], 'n2': ['^RSSI:20'], 'n3': ['+CMTI: "SM"'], 'n4': ['+CDSI: 5'], 'n5': ['+CLIP: "77",129'], 'n6': ['RINGING'], 'n7': ['+CUSD: x'], 'n8': ['NO CARRIER'], 'n9': ['X+CMTI: "SM",1'],
    'n10': ['^CEND:x'], 'n11': ['OK'], 'n12': ['ERROR'], 'n13': ['+CMTI: "SM",x'], 'n14': ['+CMT: "SM",1'], 'n15': ['+CRI: VOICE'], 'n16': ['>'], 'n17': ['AT+CMTI: "SM",1'], 'n18': ['+CDSIX: "SR",1'],
    'n19': ['+CMTI: SM,1'], 'n20': ['+CME ERROR: 11'], 'n21': ['\xff\x00\x7f'], 'n22': ['+CUSD'], 'n23': ['+CLIP'], 'n24': ['+CRING'],
}
NOISE.pop('n24')        # indistinguishable from an incoming call
# lines that nearly are an event: something added, missing or in the way
NEARLY = {'m%d' % i: [l] for i, l in enumerate([
    '^CONN:1,0,5', '^CONN:1', '^CONN:1,0x', 'x^CONN:1,0', ' ^CONN:1,0', '^CONN:,', '^CONN:1;0', '^CEND:1', '^CEND:1,5', '^CEND:1,5,29,16,3', '^CEND:1,5,29,16x', 'x^CEND:1,5,29,16', '^CEND:x,5,29,16', '^ORIG:1', 'x^ORIG:2,0',
    '+WIND: 5,2x', '+WIND: 6', '+WIND: 6,1,2', '+WIND: 6,1x', 'x+WIND: 6,1', '+WIND: 16,1', 'HANGUP:', 'HANGUP: 1x', 'HANGUP: x', 'xHANGUP: 1', 'CONNECT 9600', 'CONNECTED', 'xCONNECT', 'OK then', 'NOT OK',
    '+CMTI: "SM",1x', '+CMTI: "SM",1,1', '+CMTI: "",1', '+CMTI: "SM",', '+CMTI: "SM" 1', '+CMTI "SM",1', 'x+CMTI: "ME",2', '+CMTIX: "SM",1', '+CDSI: "SR",1x', '+CDSI: "SR",1,1', '+CDSI: "SR",', '+CDSI: "",1', 'x+CDSI: "SR",1', '+CDSI "SR",1',
    'xRING', 'RINGX', 'x+CRING: VOICE', '+CUSD 2', '+CUSD: ,"x",15', 'x+CUSD: 2'])}
NOISE_ALL = dict(NOISE, **NEARLY)
EVENTS = ['A', 'B', 'S', 'M', 'D', 'u', 'U', 'C', 'E', 'X']


class World(object):
    def __init__(self, env, family, mode='pdu'):
        self.env = env
        self.b = b = Bed(env, family=family, text=mode == 'text', clac=['+CLAC', '+VTS'] if False else None)
        self.s = s = b.sim
        self.family = family
        self.old = {}
        for mem, i in (('SM', 1), ('ME', 2), ('SR', 1)):
            m = Msg(text='old', status=1)
            s.store(mem, m, i)
            self.old[mem, i] = m
        self.sms, self.reports = [], []
        self.rings = {}             # number -> count
        self.updates = []
        # an open USSD session
        s.ussd = lambda q: ['OK', '+CUSD: 1,"menu",15']
        self.ussd = b.m.sendUssd('*100#')
        self.session = True
        # an outgoing call that is ringing
        self.call = None
        if family != 'generic':
            s.after_dial = lambda i: (['OK'] if family == 'huawei' else None)
            if family in ('huawei', 'wavecom'):
                env.spawn(lambda: (env.sleep(0.2), s.urc(*s.started_lines(1))), 'network')
            self.call = b.m.dial('555', callStatusUpdateCallbackFunc=lambda c: self.updates.append((c.answered, c.active)))
        self.exp_updates = []
        self.answered, self.active = False, True
        env.settle(1)
        del s.log[:]

    def lines(self, ev):
        """The lines of an event; the model is changed to what must have happened."""
        s = self.s
        if ev in NOISE_ALL:
            return NOISE_ALL[ev]
        if ev in 'AB':
            n = NUM_A if ev == 'A' else NUM_B
            self.rings[n] = self.rings.get(n, 0) + 1
            return ['+CRING: VOICE' if ev == 'A' else 'RING', '+CLIP: "%s",%d' % (n, 145) + (',,,,0' if ev == 'A' else '')]
        if ev in 'SM':
            m = Msg(text='text %d' % (len(self.sms) + 1), ts=TS[len(self.sms) % 4])
            self.sms.append(m)
            return [s.receive('SM' if ev == 'S' else 'ME', m, notify=False)[1]]
        if ev == 'D':
            m = Msg(kind='report', ref=50 + len(self.reports), ts=TS[1], discharge=TS[0])
            self.reports.append(m)
            return [s.receive('SR', m, notify=False)[1]]
        if ev == 'u':
            self.session = False
            return ['+CUSD: 2,"bye",15']
        if ev == 'U':
            return ['+CUSD: 1,"menu', 'RING', '+CMTI: "SM",1 !', '^CEND:1,5,29,16', 'HANGUP: 1', 'end",15']
        if ev == 'C':
            if self.active and not self.answered:
                self.answered = True
                self.exp_updates.append((True, True))
            return s.answered_lines(1)
        if ev == 'E':
            if self.active:
                self.active = self.answered = False
                self.exp_updates.append((False, False))
            return s.ended_lines(1)
        if ev == 'X':                # the end of a call that does not exist
            return s.ended_lines(7)
        raise ValueError(ev)

    def check(self, what=''):
        b, s, mod = self.b, self.s, self.b.mod
        same([view(mod, x) for x in b.sms], [want(m, 0) for m in self.sms], what + 'received messages', 'sms')
        same([view(mod, x) for x in b.reports], [want(m, 0) for m in self.reports], what + 'delivery reports', 'report')
        left = {(mem, i): id(m) for mem in s.stores for i, m in s.stores[mem].items()}
        if left != {k: id(m) for k, m in self.old.items()}:
            raise Violation('%sstorage holds %r' % (what, s.stores), key='storage')
        got = {}
        for c in b.calls:
            got[c.number] = got.get(c.number, 0) + 1
        if got != self.rings:
            raise Violation('%sincoming-call callbacks %r, rings %r' % (what, got, self.rings), key='rings')
        for n in self.rings:
            objs = {id(c): c for c in b.calls if c.number == n}
            if len(objs) != 1:
                raise Violation('%s%d call objects for %s' % (what, len(objs), n), key='call-objects')
            c = list(objs.values())[0]
            if c.ringCount != self.rings[n] or not c.active or not c.ringing or c.answered or b.m.activeCalls.get(c.id) is not c:
                raise Violation('%scall from %s: ringCount %r, active %r, ringing %r, answered %r' % (what, n, c.ringCount, c.active, c.ringing, c.answered), key='call-state')
        n = len(self.rings) + (1 if self.call is not None and self.active else 0)
        if len(b.m.activeCalls) != n:
            raise Violation('%s%d active calls, expected %d' % (what, len(b.m.activeCalls), n), key='active-calls')
        if self.ussd.sessionActive != self.session:
            raise Violation('%sUSSD session active: %r' % (what, self.ussd.sessionActive), key='ussd')
        if self.call is not None:
            if (self.call.answered, self.call.active) != (self.answered, self.active):
                raise Violation('%soutgoing call: answered %r, active %r' % (what, self.call.answered, self.call.active), key='progress')
            if len(self.updates) != len(self.exp_updates):
                raise Violation('%scall status callbacks %r, expected %r' % (what, self.updates, self.exp_updates), key='progress-callback')
        if s.mixed:
            raise Violation('%sthe modem saw %r' % (what, s.mixed), key='mixed')

    def end(self):
        b, s = self.b, self.s
        # whatever came before, later events are handled
        s.urc(*self.lines('S'))
        self.env.settle(2)
        s.urc(*self.lines('A'))
        self.env.settle(2)
        self.check('events at the end: ')
        b.usable()
        b.close()


def push(w, seq, groups, pieces):
    """groups[i]: how event i follows the one before it: 'join' (same write), 'next' (next write, no pause), 'gap' (after a pause)."""
    env, s = w.env, w.s
    text = ''
    for i, ev in enumerate(seq):
        t = ''.join('\r\n%s\r\n' % l for l in w.lines(ev))
        if i and groups[i - 1] != 'join':
            deliver(s, text, pieces)
            text = ''
            if groups[i - 1] == 'gap':
                env.sleep(1.5)
        text += t
    deliver(s, text, pieces)


def deliver(s, text, pieces):
    """pieces: characters in each piece (0: all); negative: with a short pause after each piece; 'line': with a longer pause after each line."""
    if pieces == 'line':
        for l in text.split('\r\n\r\n'):
            s.push('\r\n%s\r\n' % l.strip('\r\n'))
            s.env.sleep(0.6)
    elif pieces < 0:
        for i in range(0, len(text), -pieces):
            s.push(text[i:i - pieces])
            s.env.sleep(0.05)
    elif pieces == 0:
        s.push(text)
    else:
        for i in range(0, len(text), pieces):
            s.push(text[i:i + pieces])


def sequence(it):
    family, seq, groups, pieces, mode = it

    def fn(env):
        w = World(env, family, mode)
        push(w, seq, groups, pieces)
        env.settle(4)
        w.check()
        w.end()
        return len(w.b.calls), len(w.sms), len(w.reports), w.session, tuple(w.updates)
    return fn


def pending(it):
    """The events arrive while a command waits for its response."""
    family, seq, groups, pieces, delay = it

    def fn(env):
        w = World(env, family)
        s = w.s
        cmds = []

        def intercept(cmd):
            if cmd == 'AT+CGMM':
                cmds.append(cmd)
                return 'silent'
        s.intercepts.append(intercept)
        out = []
        th = env.spawn(lambda: out.append(w.b.m.write('AT+CGMM', timeout=30)), 'user')
        env.quiesce()
        s.busy = False
        push(w, seq, groups, pieces)
        if delay:
            env.sleep(delay)
        s.push('\r\nModel 7\r\n\r\nOK\r\n')
        env.wait([th], 40)
        if out != [['Model 7', 'OK']]:
            raise Violation('the command got %r' % out, key='response')
        s.intercepts.remove(intercept)
        env.settle(4)
        w.check()
        w.end()
        return len(w.b.calls), len(w.sms), len(w.reports)
    return fn


def sched(name, family, bursts, bound, cmd=None, apart=False):
    def fn(env):
        w = World(env, family)
        s = w.s
        s.threaded = True
        texts = [''.join('\r\n%s\r\n' % l for ev in g for l in w.lines(ev)) for g in bursts]
        out = []
        env.quiesce()
        env.explore()

        def net(ts):
            for t in ts:
                s.urc(t, raw=True)
        ths = [env.spawn(lambda t=t: net([t]), 'network') for t in texts] if apart else [env.spawn(lambda: net(texts), 'network')]
        if cmd:
            ths.append(env.spawn(lambda: out.append(w.b.m.write(cmd)), 'user'))
        env.wait(ths)
        env.quiesce()
        env.sleep(1.5)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(4)
        if cmd and out != [['Model 7', 'OK']]:
            raise Violation('the command got %r' % out, key='response')
        w.check()
        w.end()
        return len(w.b.calls), len(w.sms), len(w.reports), tuple(w.updates)
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('ring, message and call progress in one burst', 'huawei', ['ASC'], 2 + e),
        sched('call progress in two bursts beside a command', 'huawei', ['C', 'E'], 2 + e, cmd='AT+CGMM'),
        sched('message and report in two bursts', 'generic', ['S', 'D'], 2 + e, apart=True),
        sched('two rings beside a command', 'generic', ['A', 'A'], 2 + e, cmd='AT+CGMM'),
        sched('two callers and a message', 'generic', ['AB', 'S'], 2 + e),
        sched('session end, message and ring', 'zte', ['uSA'], 2 + e),
        sched('wavecom progress and a message', 'wavecom', ['SE'], 2 + e),
    ]


def valid(family, seq):
    if family == 'generic' and ('C' in seq or 'E' in seq or 'X' in seq):
        return False
    if family in ('wavecom', 'zte') and 'n11' in seq:        # a bare OK is call progress there
        return False
    if 'E' in seq:        # a call that rings after the outgoing one has ended may have its identifier; later progress would be its own
        rest = seq[seq.index('E') + 1:]
        for i, ev in enumerate(rest):
            if ev in ('A', 'B') and ('C' in rest[i:] or 'E' in rest[i:]):
                return False
    if family == 'wavecom' and seq.count('C') > 1:
        return False
    return True


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    noise = sorted(NOISE, key=lambda n: int(n[1:]))
    G1 = [('join',), ('next',), ('gap',)]
    items = []
    for fam in ('huawei', 'generic', 'wavecom', 'zte'):
        full = EVENTS + noise
        for a in full:
            for p in (0, 1, 2, 3, 5, 8, 13, -1, -9, 'line'):
                items.append((fam, (a,), (), p, 'pdu'))
        for a in full:
            for b in full:
                for g in G1:
                    for p in (0, 1, 4) + (() if g == ('gap',) else (-1, -9, 'line') if T else ('line',)):
                        if a in EVENTS or b in EVENTS:
                            items.append((fam, (a, b), g, p, 'pdu'))
        ev3 = ['A', 'B', 'S', 'D', 'u', 'U', 'C', 'E', 'n1'] if not T else EVENTS + ['n1', 'n3', 'n5', 'n8']
        for c in itertools.product(ev3, repeat=3):
            for g in itertools.product(('join', 'next', 'gap'), repeat=2) if T else (('join', 'join'), ('next', 'join'), ('join', 'gap'), ('next', 'next')):
                if T or fam in ('huawei', 'generic') or g == ('join', 'join'):
                    items.append((fam, c, g, 0, 'pdu'))
        ev4 = ['A', 'S', 'E', 'D', 'n1'] if not T else ['A', 'B', 'S', 'D', 'u', 'U', 'C', 'E', 'n1']
        for c in itertools.product(ev4, repeat=4):
            items.append((fam, c, ('join',) * 3, 0, 'pdu'))
    items = [i for i in items if valid(i[0], i[1])]
    core.run_cases(ctx, 'sequences of events', batch_of(sequence), chunk(items, 60))
    late = [i for i in items if not {'n11', 'n12', 'n20'} & set(i[1]) and not (i[0] == 'wavecom' and 'C' in i[1])]      # these would be the result of the command then pending
    core.run_cases(ctx, 'sequences of events' + SLOW, batch_of(slow(sequence)), chunk(late[::5], 60))
    items = []
    for fam in ('huawei', 'generic', 'wavecom', 'zte'):
        for a in NEARLY:
            items.append((fam, (a,), (), 0, 'pdu'))
            items.append((fam, (a,), (), 1, 'text'))
            for b in EVENTS:
                for c in ((a, b), (b, a)):
                    for g in G1 if T else G1[:1] if c[0] == a else G1[1:2]:
                        items.append((fam, c, g, 0, 'pdu'))
    items = [i for i in items if valid(i[0], i[1])]
    core.run_cases(ctx, 'lines that nearly are an event', batch_of(sequence), chunk(items, 60))
    core.run_cases(ctx, 'lines that nearly are an event' + SLOW, batch_of(slow(sequence)), chunk(items[::5], 60))
    items = []
    known = ['A', 'B', 'S', 'M', 'D', 'u', 'U', 'C', 'E', 'X']
    for fam in ('huawei', 'generic', 'zte', 'wavecom'):
        k = [x for x in known if not (fam == 'wavecom' and x == 'C')]       # there the answer is a bare OK
        for n in (1, 2) + ((3,) if T else ()):
            for c in itertools.product(k, repeat=n):
                for g in itertools.product(('join', 'next', 'gap'), repeat=n - 1):
                    for p in (0, 1, 7, -2, 'line'):
                        for d in (0, 1.5):
                            if n < 3 and (n < 2 or d == 0 or p not in (-2, 'line')) or (p == 0 and d == 0):
                                items.append((fam, c, g, p, d))
    items = [i for i in items if valid(i[0], i[1])]
    core.run_cases(ctx, 'events while a command is pending', batch_of(pending), chunk(items, 60))
    core.run_cases(ctx, nocallbacks.PART, batch_of(nocallbacks.case), chunk(list(nocallbacks.items(T)), 30))
    endurance.run(ctx, 'C18')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['the lines of one event are sent without a pause longer than the read timeout', 'lines the library does not know are not sent while a command is pending (nothing tells them from its response)']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C18', payload)
    if payload.get('part') == nocallbacks.PART:
        return replay_case(nocallbacks.case, payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case({'sequences of events': sequence, 'lines that nearly are an event': sequence, 'events while a command is pending': pending}[base(payload)], payload)
