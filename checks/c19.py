# -*- coding: utf-8 -*-
"""C19: call objects always reflect the real state of the calls."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed
from . import endurance
from .c01 import chunk
from .modem_common import SLOW, base, batch_of, replay_case, slow

NUMBERS = {'A': '+27110000001', 'B': '0820000002', 'C': '12345'}


class Model(object):
    """The real calls: a list of dicts, in order of their start."""

    def __init__(self, family, clip=True):
        self.family, self.clip = family, clip
        self.calls = []

    def free_id(self):
        used = {c['id'] for c in self.calls if c['active']}
        i = 1
        while i in used:
            i += 1
        return i

    def ops(self, maxcalls, many):
        """Everything that can happen next."""
        out = []
        room = len(self.calls) < maxcalls
        dialling = any(c['active'] and c['out'] and not c['answered'] for c in self.calls)
        if room and (not dialling or many and self.family == 'huawei'):
            out.append(('dial',))
        for n in ('A', 'B') if self.clip else ('?',):
            c = self.ringing(n)
            if c or room:
                out.append(('ring', n))
        for k, c in enumerate(self.calls):
            if c['active']:
                if c['out'] and not c['answered']:
                    out.append(('rans', k))
                    if self.family == 'zte':
                        out.append(('reject', k))
                if c['out'] or self.family != 'generic':
                    out.append(('rend', k))
                if c['ringing']:
                    out.append(('answer', k))
                    out.append(('answerfail', k))
                out.append(('hangup', k))
                out.append(('hangupfail', k))
            elif c is self.calls[-1] or k == 0:
                out.append(('dead', k))
        return out

    def ringing(self, n):
        for c in self.calls:
            if c['active'] and c['ringing'] and (c['number'] == NUMBERS.get(n)):
                return c
        return None

    def apply(self, op):
        """Changes the model; returns what status callback is due: [(index, answered, active)]."""
        k = op[1] if len(op) > 1 and isinstance(op[1], int) else None
        c = self.calls[k] if k is not None else None
        if op[0] == 'dial':
            self.calls.append(dict(out=True, number='07%d' % len(self.calls), id=self.free_id(), active=True, answered=False, ringing=False, rings=0, updates=0))
        elif op[0] == 'ring':
            r = self.ringing(op[1])
            if r:
                r['rings'] += 1
            else:
                self.calls.append(dict(out=False, number=NUMBERS.get(op[1]), id=self.free_id(), active=True, answered=False, ringing=True, rings=1, updates=0))
        elif op[0] == 'rans':
            c['answered'] = True
            return [(k, True, True)]
        elif op[0] in ('rend', 'reject'):
            c.update(active=False, answered=False, ringing=False)
            return [(k, False, False)] if c['out'] else []
        elif op[0] == 'answer':
            c.update(answered=True, ringing=False)
        elif op[0] == 'hangup':
            c.update(active=False, answered=False, ringing=False)
        return []


def histories(family, clip, depth, maxcalls, many):
    """All histories of exactly `depth` operations (prefixes are checked on the way)."""
    out = []

    def rec(seq):
        if len(seq) == depth:
            out.append(tuple(seq))
            return
        m = Model(family, clip)
        for op in seq:
            m.apply(op)
        nxt = m.ops(maxcalls, many)
        if not nxt:
            out.append(tuple(seq))
        for op in nxt:
            rec(seq + [op])
    rec([])
    return out


class World(object):
    def __init__(self, env, family, clip=True):
        self.env, self.family = env, family
        self.model = Model(family, clip)

        def setup(m):
            pass
        from mc.sim import Sim
        sim = Sim(env, family=family)
        if not clip:
            sim.unsupported.add('+CLIP')
        self.b = Bed(env, sim=sim)
        self.s = self.b.sim
        self.exc = loader.load_exceptions()
        self.objs = []
        self.updates = []             # (call object, answered, active) as the callback saw it
        self.due = []                 # (index, answered, active)
        self.s.after_dial = self.after_dial
        self.s.cmd_A = lambda a: ['OK']
        self.ring_calls = 0

    def after_dial(self, i):
        s, env = self.s, self.env
        want = self.model.calls[-1]['id']
        if i != want:
            s.calls[want] = s.calls.pop(i)
        if self.family in ('huawei', 'wavecom'):
            env.spawn(lambda: (env.sleep(0.1), s.urc(*s.started_lines(want))), 'network')
        return ['OK'] if self.family in ('huawei', 'generic') else None

    def wait(self):
        self.env.settle(1.3 if self.family == 'generic' else 0.3)

    def do(self, op):
        s, b, model = self.s, self.b, self.model
        k = op[1] if len(op) > 1 and isinstance(op[1], int) else None
        c = model.calls[k] if k is not None else None
        o = self.objs[k] if k is not None else None
        log = len(s.log)
        cmds = None
        if op[0] == 'dial':
            model.apply(op)
            n = len(self.objs)
            obj = b.m.dial(model.calls[-1]['number'], callStatusUpdateCallbackFunc=lambda call: self.updates.append((call, call.answered, call.active)))
            self.objs.append(obj)
        elif op[0] == 'ring':
            known = model.ringing(op[1])
            n = len(b.calls)
            model.apply(op)
            lines = ['+CRING: VOICE' if s.crc else 'RING']
            if op[1] != '?':
                lines.append('+CLIP: "%s",145' % NUMBERS[op[1]])
            s.urc(*lines)
            self.env.settle(1)
            if len(b.calls) != n + 1:
                raise Violation('a ring of %s: %d callbacks' % (op[1], len(b.calls) - n), key='ring-callback')
            if known is None:
                i = len(self.objs)
                self.objs.append(b.calls[-1])
                s.calls[model.calls[-1]['id']] = dict(dir=1, number=NUMBERS.get(op[1]), state=4)
            elif b.calls[-1] is not self.objs[model.calls.index(known)]:
                raise Violation('a repeated ring of %s came as another call object' % op[1], key='ring-object')
        elif op[0] == 'dead':
            cmds = []
            try:
                o.hangup()
                if not c['out']:
                    o.answer()
            except self.exc.InvalidStateException:
                pass
        elif op[0] in ('answerfail', 'hangupfail'):
            f = lambda cmd: ['ERROR'] if cmd in ('ATA', 'ATH') or cmd.startswith('AT+CHUP') else None
            s.intercepts.append(f)
            try:
                o.answer() if op[0] == 'answerfail' else o.hangup()
            except self.exc.CommandError:
                pass
            else:
                raise Violation('%s: no exception although the modem refused' % (op,), key='refused')
            s.intercepts.remove(f)
        elif op[0] == 'answer':
            r = o.answer()
            if r is not o:
                raise Violation('answer() returned %r' % r, key='answer-result')
            cmds = ['ATA']
            model.apply(op)
            if c['id'] in s.calls:
                s.calls[c['id']]['state'] = 0
        elif op[0] == 'hangup':
            o.hangup()
            if not [x for x in s.log[log:] if x in ('ATH', 'AT+CHUP', 'ATH0')]:
                raise Violation('hanging up sent %r' % s.log[log:], key='hangup-command')
            model.apply(op)
            s.calls.pop(c['id'], None)
        else:
            self.due += model.apply(op)
            i = c['id']
            if op[0] == 'rans':
                s.calls[i]['state'] = 0
                s.urc(*s.answered_lines(i))
            elif op[0] == 'rend':
                s.calls.pop(i, None)
                s.urc(*s.ended_lines(i))
            elif op[0] == 'reject':
                s.calls.pop(i, None)
                s.urc('OK')
        self.wait()
        if cmds is not None:
            got = [x for x in s.log[log:] if x != 'AT+CLCC']
            if got != cmds:
                raise Violation('%s: the modem received %r' % (op, got), key='commands')
        self.check('after %s: ' % (op,))

    def check(self, what):
        m = self.b.m
        for k, (c, o) in enumerate(zip(self.model.calls, self.objs)):
            st = (o.active, o.answered, o.number)
            if st != (c['active'], c['answered'], c['number']):
                raise Violation('%scall %d: active %r, answered %r, number %r; really %r, %r, %r' % ((what, k) + st + (c['active'], c['answered'], c['number'])), key='state')
            if not c['out']:
                if o.ringCount != c['rings'] or o.ringing != c['ringing']:
                    raise Violation('%scall %d: ringCount %r, ringing %r; really %r, %r' % (what, k, o.ringCount, o.ringing, c['rings'], c['ringing']), key='ringing')
            elif self.family != 'zte' and c['active'] and o.id != c['id']:
                raise Violation('%scall %d: identifier %r, the modem\'s is %r' % (what, k, o.id, c['id']), key='id')
        act = [o for c, o in zip(self.model.calls, self.objs) if c['active']]
        if len({o.id for o in act}) != len(act):
            raise Violation('%stwo active calls with the same identifier: %r' % (what, [o.id for o in act]), key='id-clash')
        if sorted(m.activeCalls) != sorted(o.id for o in act) or any(m.activeCalls[o.id] is not o for o in act):
            raise Violation('%sactiveCalls is %r, active are %r' % (what, sorted(m.activeCalls), sorted(o.id for o in act)), key='active-calls')
        if len({id(o) for o in self.objs}) != len(self.objs):
            raise Violation('%sone object for two calls' % what, key='shared-object')
        got = [(self.objs.index(o), a, b) for o, a, b in self.updates]
        if got != self.due:
            raise Violation('%sstatus callbacks %r, expected %r' % (what, got, self.due), key='callbacks')


def history(it):
    family, clip, seq = it

    def fn(env):
        w = World(env, family, clip)
        for op in seq:
            w.do(tuple(op))
        # stale reports of calls that have ended change nothing
        for k, c in enumerate(w.model.calls):
            if not c['active'] and w.model.free_id() <= c['id'] and c['id'] not in [x['id'] for x in w.model.calls if x['active']]:
                w.s.urc(*(w.s.ended_lines(c['id']) or ['^X']))
        w.wait()
        w.check('after stale reports: ')
        w.b.usable()
        for o in w.objs:
            if o.active:
                o.hangup()
        w.env.settle(1)
        if w.b.m.activeCalls or any(o.active or o.answered for o in w.objs):
            raise Violation('calls are left after hanging up: %r' % w.b.m.activeCalls, key='left')
        w.b.close()
        return [(c['active'], c['answered'], c['rings']) for c in w.model.calls]
    return fn


# ------------------------------------------------------------------ what a call notification says
CLIPS = [('"+2711",145', '+2711', 145), ('"0821234567",129', '0821234567', 129), ('"0821234567",161,,,,0', '0821234567', 161), ('"+123456789012345",145,"",,"",0', '+123456789012345', 145),
         ('"7",129,,,"Bob",0', '7', 129), ('"",128', None, None), ('"",128,,,,1', None, None), ('"112",128', '112', 128), (None, None, None)]


def notice(it):
    """One or two incoming calls: (ring kind, caller form) each; +CLIP and +CRC may be unsupported."""
    family, clip, crc, rings = it

    def fn(env):
        from mc.sim import Sim
        sim = Sim(env, family=family)
        if not clip:
            sim.unsupported.add('+CLIP')
        if not crc:
            sim.unsupported.add('+CRC')
        b = Bed(env, sim=sim)
        for kind, form in rings:
            n = len(b.calls)
            kind = kind if sim.crc else None
            text, number, ton = CLIPS[form]
            lines = ['RING' if kind is None else '+CRING: ' + kind]
            if sim.clip and text is not None:
                lines.append('+CLIP: ' + text)
            else:
                number = ton = None
            sim.urc(*lines)
            env.settle(6)
            if len(b.calls) != n + 1:
                raise Violation('%r: %d callbacks' % (lines, len(b.calls) - n), key='notice-callback')
            c = b.calls[-1]
            if c.number != number or (ton is not None and c.ton != ton) or not c.ringing or not c.active or c.answered or c.ringCount != 1:
                raise Violation('%r: the call has number %r, ton %r, ringing %r, active %r, answered %r, ringCount %r' % (lines, c.number, c.ton, c.ringing, c.active, c.answered, c.ringCount), key='notice')
            if kind is not None and c.type != (0 if kind == 'VOICE' else kind):
                raise Violation('%r: the call has type %r' % (lines, c.type), key='notice-type')
            if kind is None and c.type not in (None, 0):
                raise Violation('%r: the call has type %r' % (lines, c.type), key='notice-type')
            if kind is None and crc and clip and sim.crc != 1:
                raise Violation('extended indications were not enabled again', key='crc')
            c.hangup()
            if c.active or b.m.activeCalls:
                raise Violation('%r: still there after hanging up' % lines, key='notice-hangup')
        b.usable()
        b.close()
        return len(b.calls)
    return fn


# ------------------------------------------------------------------ schedules
def sched(name, family, setup, acts, bound, final):
    """setup: history; acts: concurrent ops ('rend', k) from the network, ('hangup', k)/('answer', k) by the user."""
    def fn(env):
        w = World(env, family)
        for op in setup:
            w.do(op)
        s, b = w.s, w.b
        s.threaded = True
        n0 = len(w.updates)
        log = len(s.log)

        def act(a):
            c, o = w.model.calls[a[1]], w.objs[a[1]]
            if a[0] == 'rend':
                s.calls.pop(c['id'], None)
                s.urc(*s.ended_lines(c['id']))
            elif a[0] == 'rans':
                s.calls[c['id']]['state'] = 0
                s.urc(*s.answered_lines(c['id']))
            elif a[0] == 'ring':
                s.urc('+CRING: VOICE', '+CLIP: "%s",145' % c['number'])
            elif a[0] == 'hangup':
                o.hangup()
            elif a[0] == 'answer':
                try:
                    o.answer()
                except w.exc.CommandError:
                    pass
        env.quiesce()
        env.explore()
        ths = []
        for grp in acts:
            ths.append(env.spawn(lambda grp=grp: [act(a) for a in grp], grp[0][0]))
        env.wait(ths)
        env.quiesce()
        env.sleep(1.3)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(2)
        for k, exp in final.items():
            o = w.objs[k]
            got = dict(active=o.active, answered=o.answered, cb=len([u for u in w.updates[n0:] if u[0] is o]), listed=b.m.activeCalls.get(o.id) is o)
            if hasattr(o, 'ringing'):
                got['ringing'], got['rings'] = o.ringing, o.ringCount
            got['ath'] = len([x for x in s.log[log:] if x == 'ATH'])
            for f, v in exp.items():
                if not (got[f] in v if isinstance(v, tuple) else got[f] == v):
                    raise Violation('call %d: %s is %r, expected %r' % (k, f, got[f], v), key='race-' + f)
            if o.active != got['listed']:
                raise Violation('call %d: active %r but listed %r' % (k, o.active, got['listed']), key='race-listed')
        b.usable()
        b.close()
        return [(o.active, o.answered, len(w.updates)) for o in w.objs]
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    ended = dict(active=False, answered=False, listed=False)
    hs = []
    for fam in ('huawei', 'zte', 'wavecom'):
        hs += [
            sched('remote end beside local hangup, ' + fam, fam, [('dial',), ('rans', 0)], [[('rend', 0)], [('hangup', 0)]], 2 + e, {0: dict(ended, cb=(0, 1), ath=(0, 1))}),
            sched('answer and end in a row, ' + fam, fam, [('dial',)], [[('rans', 0), ('rend', 0)]], 2 + e, {0: dict(ended, cb=2)}),
            sched('end of one call, hangup of another, ' + fam, fam, [('dial',), ('rans', 0), ('ring', 'A')], [[('rend', 0)], [('hangup', 1)]], 2 + e,
                  {0: dict(ended, cb=1), 1: dict(ended, ringing=False, ath=1)}),
            sched('incoming call answered while it ends, ' + fam, fam, [('ring', 'A')], [[('rend', 0)], [('answer', 0)]], 2 + e, {0: dict(ended, ringing=False)}),
            sched('incoming call rings twice more, ' + fam, fam, [('ring', 'A')], [[('ring', 0), ('ring', 0)]], 2 + e, {0: dict(active=True, answered=False, ringing=True, rings=3)}),
        ]
    hs += [
        sched('two hangups of one call', 'huawei', [('dial',), ('rans', 0)], [[('hangup', 0)], [('hangup', 0)]], 2 + e, {0: dict(ended, cb=0, ath=(1, 2))}),
        sched('two calls end and get answered', 'huawei', [('dial',), ('rans', 0), ('dial',)], [[('rend', 0)], [('rans', 1)]], 2 + e, {0: dict(ended, cb=1), 1: dict(active=True, answered=True, cb=1)}),
        sched('polled call is answered, then hung up', 'generic', [('dial',)], [[('rans', 0)], [('hangup', 0)]], 2 + e, {0: dict(ended, cb=(0, 1), ath=1)}),
        sched('polled call ends beside a ring', 'generic', [('dial',), ('rans', 0), ('ring', 'A')], [[('rend', 0)], [('ring', 1)]], 1 + e, {0: dict(ended, cb=1), 1: dict(active=True, rings=2)}),
    ]
    return hs


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    items = []
    for fam in ('huawei', 'wavecom', 'zte', 'generic'):
        for clip in (True, False):
            d = (6 if T else 5) if clip else (5 if T else 4)
            for h in histories(fam, clip, d, 3, True):
                if not any(o[0].endswith('fail') for o in h):
                    items.append((fam, clip, h))
            for h in histories(fam, clip, 4, 3, True):
                items.append((fam, clip, h))
    core.run_cases(ctx, 'histories of calls', batch_of(history), chunk(items, 40))
    core.run_cases(ctx, 'histories of calls' + SLOW, batch_of(slow(history, 1.0)), chunk(items[::11], 40))
    ways = [(k, f) for k in ('VOICE', 'FAX', 'REL ASYNC', None) for f in range(len(CLIPS))]
    items = [(fam, cl, cr, list(r)) for fam in ('huawei', 'wavecom', 'zte', 'generic') for cl in (True, False) for cr in (True, False)
             for r in [(w,) for w in ways] + ([(w, v) for w in ways for v in ways[::1 if T else 5]]) if cr or all(k in (None, ) for k, _ in r)]
    core.run_cases(ctx, 'what a call notification says', batch_of(notice), chunk(items, 40))
    core.run_cases(ctx, 'what a call notification says' + SLOW, batch_of(slow(notice, 1.0)), chunk(items[::3], 40))
    endurance.run(ctx, 'C19')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['the generic (polled) modem does not report the end of incoming calls', 'except for Huawei modems, only one outgoing call is being set up at a time',
                        'identifiers of incoming calls: the modem and the library both use the lowest free one']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C19', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case(notice if base(payload) == 'what a call notification says' else history, payload, 1.0)
