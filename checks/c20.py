# -*- coding: utf-8 -*-
"""C20: dial() returns the call it started, or raises, under every timing."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Sim
from . import endurance
from .c01 import chunk
from .modem_common import batch_of, replay_case

TABLES = {'huawei': ['^CVOICE', '^DTMF', '+CLAC'], 'wavecom': ['+WIND', '+VTS'], 'zte': ['+ZPAS', '+VTS'], 'generic': ['+VTS', '+CLCC']}


class World(object):
    def __init__(self, env, family, listed=False, other=None, **kw):
        self.env, self.family = env, family
        sim = Sim(env, family=family, clac=TABLES[family] if listed else None)
        self.b = Bed(env, sim=sim)
        self.s = self.b.sim
        self.exc = loader.load_exceptions()
        self.updates = []
        self.held = None
        if other == 'incoming':
            # an incoming call that is already there takes identifier 1
            self.s.urc('+CRING: VOICE', '+CLIP: "+2711",145')
            env.settle(1)
            self.held = self.b.calls[0]
            self.s.calls[1] = dict(dir=1, number='+2711', state=4)

    def dial(self, number='0555', timeout=None, tag='cb', cb=True):
        kw = {}
        if timeout is not None:
            kw['timeout'] = timeout
        if cb:
            kw['callStatusUpdateCallbackFunc'] = lambda c: self.updates.append((tag, c, c.answered, c.active))
        return self.b.m.dial(number, **kw)

    def push(self, i, what):
        """Network event for call i."""
        s = self.s
        if what == 'start':
            if self.family == 'generic':
                s.calls[i]['state'] = s.calls[i].get('first', 2)
                s.calls[i]['hidden'] = False
            return s.started_lines(i)
        if what == 'ans':
            s.calls[i]['state'] = 0
            return s.answered_lines(i)
        if what == 'end':
            s.calls.pop(i, None)
            return s.ended_lines(i)
        if what == 'ok':
            return ['OK']
        return [what]


def visible_clcc(s):
    def clcc(a):
        return ['+CLCC: %d,%d,%d,%d,0,"%s",129' % (i, c['dir'], c['state'], s.call_type, c['number']) for i, c in sorted(s.calls.items()) if not c.get('hidden')] + ['OK']
    s.cmd_CLCC = clcc


def consistent(w, call, number, what):
    m = w.b.m
    if call.number != number:
        raise Violation('%s: the call has number %r' % (what, call.number), key='number')
    if call.type != w.s.call_type:
        raise Violation('%s: the call has type %r' % (what, call.type), key='type')
    if (m.activeCalls.get(call.id) is call) != call.active:
        raise Violation('%s: active %r but listed %r' % (what, call.active, m.activeCalls.get(call.id) is call), key='listed')
    if call.answered and not call.active:
        raise Violation('%s: answered but not active' % what, key='state')


def quiet(env, s):
    """No call is left: the modem must not be asked about it anymore."""
    n = len(s.log)
    env.settle(2)
    if len(s.log) > n:
        raise Violation('no call is left, but the modem is still sent %r' % s.log[n:], key='not-quiet')


# ------------------------------------------------------------------ timings
def timing(it):
    """events: [(time, [names])] after the ATD command; names pushed in one piece."""
    family, events, timeout, listed, other, first, must = it

    def fn(env):
        w = World(env, family, listed, other)
        s, b = w.s, w.b
        visible_clcc(s)
        cid = [None]
        t0 = [None]

        def after_dial(i):
            cid[0] = i
            t0[0] = env.now()
            s.calls[i]['hidden'] = True
            s.calls[i]['first'] = first

            def network():
                for t, names in events:
                    d = t0[0] + t - env.now()
                    if d > 0:
                        env.sleep(d)
                    lines = [l for n in names for l in w.push(i, n)]
                    if lines:
                        s.push(''.join('\r\n%s\r\n' % l for l in lines))
            env.spawn(network, 'network')
            return None
        s.after_dial = after_dial
        to = timeout or 5
        start = env.now()
        try:
            call = w.dial('0555', timeout)
            res = 'returned'
        except w.exc.TimeoutException:
            res = 'timeout'
        except w.exc.CommandError as e:
            res = 'error'
        dt = env.now() - start
        if s.dialled != ['0555']:
            raise Violation('the modem was told to dial %r' % s.dialled, key='dialled')
        if must and res != must:
            raise Violation('dial %s, expected: %s' % (res, must), key='result')
        if dt > to + 0.7:
            raise Violation('dial took %.1f s with a timeout of %.1f s' % (dt, to), key='slow')
        if res == 'returned':
            starts = [t for t, n in events if 'start' in n]
            if family != 'zte' and (not starts or dt < starts[0] - 0.001):
                raise Violation('dial returned before the call was started', key='early')
            if family != 'generic' or must:
                if family != 'zte' and call.id != cid[0]:
                    raise Violation('the call has identifier %r, the modem\'s is %r' % (call.id, cid[0]), key='id')
            if w.held is not None and call.id == w.held.id:
                raise Violation('the call has the identifier of another active call', key='id-clash')
            consistent(w, call, '0555', 'on return')
        else:
            if [c for c in b.m.activeCalls.values() if c is not w.held]:
                raise Violation('dial failed (%s) but a call is listed: %r' % (res, b.m.activeCalls), key='left')
        env.settle(12)
        if res == 'returned':
            names = [n for t, ns in events for n in ns]
            ans, end = 'ans' in names or first == 0, 'end' in names
            if (call.answered, call.active) != (ans and not end, not end):
                raise Violation('the call is answered %r, active %r; really %r, %r' % (call.answered, call.active, ans and not end, not end), key='state')
            consistent(w, call, '0555', 'later')
            exp = ([(True, True)] if ans else []) + ([(False, False)] if end else [])
            got = [u[1] for u in w.updates]
            if any(c is not call for c in got) or len(got) != len(exp):
                skip = family == 'generic' and ans and end       # the answer may fall between two polls
                if not (skip and got and got[-1] is call and len(got) == 1):
                    raise Violation('%d status callbacks, expected %r' % (len(got), exp), key='callbacks')
            if call.active:
                call.hangup()
                s.calls.pop(cid[0], None)
                s.push(''.join('\r\n%s\r\n' % l for l in s.ended_lines(cid[0])))
        else:
            if w.updates and not [t for t, n in events if 'start' in n and t <= to]:
                raise Violation('dial failed (%s) but the status callback was called' % res, key='callback-failed')
            if [c for c in b.m.activeCalls.values() if c is not w.held]:
                raise Violation('dial failed (%s) but a call is listed later: %r' % (res, b.m.activeCalls), key='left-later')
            s.calls.pop(cid[0], None)
        if w.held is not None and (not w.held.active or b.m.activeCalls.get(w.held.id) is not w.held):
            raise Violation('another call was affected', key='other-call')
        # nothing is asked about it anymore, and the next attempt is not affected
        env.settle(3)
        quiet(env, s)
        n = len(w.updates)

        def after2(i):
            cid[0] = i
            s.calls[i]['hidden'] = False
            env.spawn(lambda: (env.sleep(0.2), s.urc(*s.started_lines(i)) if s.started_lines(i) else None), 'network')
            return ['OK'] if family in ('huawei', 'generic') else None
        s.after_dial = after2
        c2 = w.dial('0777', None, 'second')
        consistent(w, c2, '0777', 'second call')
        if family != 'zte' and c2.id != cid[0] or not c2.active or c2.answered:
            raise Violation('second call: identifier %r, active %r, answered %r' % (c2.id, c2.active, c2.answered), key='second')
        s.calls[cid[0]]['state'] = 0
        s.urc(*s.answered_lines(cid[0]))
        env.settle(2)
        if not c2.answered or [u[0] for u in w.updates[n:]] != ['second']:
            raise Violation('second call: answered %r, callbacks %r' % (c2.answered, [u[0] for u in w.updates[n:]]), key='second-answer')
        c2.hangup()
        b.usable()
        b.close()
        return res
    return fn


def timings(T):
    out = []
    for family in ('huawei', 'wavecom', 'zte', 'generic'):
        for to in (None, 2, 3.5, 45):
            limit = to or 5
            oks = (0, 1, limit + 1) if family in ('huawei', 'generic') else (None,)
            starts = (0, 0.3, 1, limit - 0.6, limit + 1, None) if family != 'zte' else (0,)
            for tok in oks:
                for ts in starts:
                    for da in (None, 0, 0.4, 3):
                        for de in (None, 0, 0.4, 3):
                            if to in (3.5, 45) and (0 in (da, de) or 3 in (da, de)):
                                continue
                            if ts is None and (da is not None or de is not None):
                                continue
                            base = ts if ts is not None else 0
                            seq = []
                            if tok is not None:
                                seq.append((tok, 'ok'))
                            if ts is not None and family != 'zte':
                                seq.append((ts, 'start'))
                            t = base
                            if da is not None:
                                t += da
                                seq.append((t, 'ans'))
                            if de is not None:
                                t += de
                                seq.append((t, 'end'))
                            variants = [sorted(seq, key=lambda x: x[0])]
                            if tok is not None and ts == tok:        # report before the acknowledgement
                                v = [x for x in seq if x[1] == 'start'] + [x for x in seq if x[1] == 'ok'] + [x for x in seq if x[1] in ('ans', 'end')]
                                variants.append(v)
                                variants.append([x for x in seq if x[1] != 'ok'] + [x for x in seq if x[1] == 'ok'])
                            for v in variants:
                                v = sorted(v, key=lambda x: x[0])
                                for join in (False, True):
                                    ev = []
                                    for tt, n in v:
                                        if join and ev and ev[-1][0] == tt:
                                            ev[-1][1].append(n)
                                        else:
                                            ev.append((tt, [n]))
                                    must = expect(family, dict((n, tt) for tt, n in v), limit)
                                    for listed in (False, True):
                                        for other in (None, 'incoming'):
                                            if other and (to is not None or join) and not T:
                                                continue
                                            for first in ((2, 3, 0) if family == 'generic' and da is None else (2,)):
                                                out.append((family, ev, to, listed, other, first, must))
        # failures
        for fail in ('ERROR', '+CME ERROR: 30', '+CME ERROR: 3', 'NO CARRIER', 'BUSY', 'NO DIALTONE', 'silent', 'COMMAND NOT SUPPORT'):
            for t in (0, 1):
                if family == 'zte':
                    continue
                ev = [] if fail == 'silent' else [(t, [fail])]
                must = 'error' if family in ('huawei', 'generic') and fail in ('ERROR', '+CME ERROR: 30', '+CME ERROR: 3', 'COMMAND NOT SUPPORT') else 'timeout'
                for other in (None, 'incoming'):
                    for listed in (False, True):
                        out.append((family, ev, None, listed, other, 2, must))
    return out


def expect(family, at, limit):
    if family == 'zte':
        return 'returned'
    ok = at.get('ok', 0 if family == 'wavecom' else None)
    start = at.get('start')
    if family == 'generic':
        if ok > limit or start is None or start > limit:
            return 'timeout'
        if at.get('end', 99) < max(start, ok) + 0.6:
            return None
        return 'returned' if max(start, ok) < limit - 0.7 else None
    if ok > limit or start is None or start > limit:
        return 'timeout'
    return 'returned'


# ------------------------------------------------------------------ how the modem is recognised
LISTS = {'huawei': [None, ['^CVOICE', '^DTMF'], ['^DTMF', 'A', 'D'], ['^CVOICE', '+VTS']], 'wavecom': [None, ['+WIND', '+VTS'], ['A', '+WIND']], 'zte': [None, ['+ZPAS', '+VTS'], ['A', '+ZPAS'], ['A', 'D', '+VTS']],
         'generic': [None, ['+VTS', '+CLCC'], ['A', 'D']]}


def identified(it):
    """A whole call on a modem that is recognised by its command list, its manufacturer, or by trying."""
    family, clac, multi, maker, wind, ans, end, missing, kind = it

    def fn(env):
        sim = Sim(env, family=family, clac=clac)
        sim.clac_multiline = multi
        sim.maker = maker
        sim.call_type = kind
        sim.unsupported |= set(missing)
        if wind is None:
            sim.wind_told = False
        else:
            sim.wind = wind
        b = Bed(env, sim=sim)
        s, ups = sim, []

        def after_dial(i):
            s.calls[i]['hidden'] = False
            env.spawn(lambda: (env.sleep(0.2), s.urc(*s.started_lines(i)) if s.started_lines(i) else None), 'network')
            return ['OK'] if family in ('huawei', 'generic') else None
        s.after_dial = after_dial
        c = b.m.dial('0777', callStatusUpdateCallbackFunc=lambda c: ups.append((c.answered, c.active)))
        i = s.last_dialled
        if c.number != '0777' or not c.active or c.answered or (family != 'zte' and c.id != i) or b.m.activeCalls != {c.id: c}:
            raise Violation('after dialling: number %r, active %r, answered %r, identifier %r (really %r), listed %r' % (c.number, c.active, c.answered, c.id, i, b.m.activeCalls), key='identified')
        if c.type != kind:
            raise Violation('the call has type %r instead of %r' % (c.type, kind), key='type')
        exp = []
        if ans:
            s.calls[i]['state'] = 0
            if s.answered_lines(i):
                s.urc(*s.answered_lines(i))
            env.settle(2)
            exp.append((True, True))
        if end:
            s.calls.pop(i)
            if s.ended_lines(i):
                s.urc(*s.ended_lines(i))
            env.settle(2)
            exp.append((False, False))
        if ups != exp or (c.answered, c.active) != (ans and not end, not end) or (b.m.activeCalls != {}) != c.active:
            raise Violation('answered %r, active %r, callbacks %r, listed %r; expected %r' % (c.answered, c.active, ups, b.m.activeCalls, exp), key='identified-state')
        if c.active:
            c.hangup()
        env.settle(2)
        quiet(env, s)
        b.usable()
        b.close()
        return ups
    return fn


def identities():
    out = []
    for family in LISTS:
        for clac in LISTS[family]:
            for multi in (False, True) if clac else (False,):
                makers = [None]
                if family == 'huawei':
                    makers += ['HUAWEI', 'Huawei'] + (['Vodafone (Huawei)', ''] if clac and '^DTMF' in clac else [])
                elif family != 'generic':
                    makers += ['', 'Someone']
                for maker in makers:
                    for wind in (0, 1, 16, 18, 32, 48, 50, 63, None) if family == 'wavecom' else (0,):
                        for missing in ((), ('+CGMI',), ('+CGMI', '+CLAC')) if family != 'huawei' else ((), ):
                            for ans, end in itertools.product((False, True), repeat=2):
                                for kind in (0, 2) if family in ('huawei', 'generic') else (0,):
                                    out.append((family, clac, multi, maker, wind, ans, end, missing, kind))
    return out


# ------------------------------------------------------------------ schedules
def sched(name, family, events, bound=2, other=None, threads=(), cb=None, dials=1, timeout=None, first_at=0):
    """events: names, each pushed on its own by the modem's thread after ATD."""
    def fn(env):
        w = World(env, family, other=other)
        s, b = w.s, w.b
        nets, ids = [], {}
        started = {}

        def after_dial(i):
            ids[s.calls[i]['number']] = i

            def network():
                if first_at:
                    env.sleep(first_at)
                for n in events:
                    if n == 'pause':
                        env.sleep(0.6)
                        continue
                    lines = w.push(i, n)
                    if lines:
                        s.push(''.join('\r\n%s\r\n' % l for l in lines))
                    else:
                        env.point('network')
            nets.append(env.spawn(network, 'network'))
            return None
        s.after_dial = after_dial
        out, extra = {}, {}

        def one(num):
            def callback(c):
                w.updates.append((num, c, c.answered, c.active))
                if cb == 'hangup' and c.active:
                    c.hangup()
                elif cb == 'raise':
                    raise ValueError('user code')
            try:
                out[num] = b.m.dial(num, callStatusUpdateCallbackFunc=callback, **({'timeout': timeout} if timeout else {}))
            except w.exc.TimeoutException:
                out[num] = None

        def user(t):
            if t == 'ring':
                s.urc('+CRING: VOICE', '+CLIP: "+2799",145')
            elif t == 'sms':
                from mc.sim import Msg
                s.receive('SM', Msg(text='in'))
            else:
                extra[t] = b.m.write(t)
        env.quiesce()
        env.explore()
        nums = ['05%d' % i for i in range(dials)]
        ths = [env.spawn(lambda n=n: one(n), 'dial' + n) for n in nums]
        ths += [env.spawn(lambda t=t: user(t), 'user') for t in threads]
        env.wait(ths)
        env.quiesce()
        env.sleep(0.3)
        env.quiesce()
        env.explore(False)
        env.settle(6)
        for n in nums:
            c = out[n]
            if c is None:
                if not first_at:
                    raise Violation('dial(%s) timed out' % n, key='timed-out')
                if any(x.number == n for x in b.m.activeCalls.values()) or [u for u in w.updates if u[0] == n]:
                    raise Violation('dial(%s) timed out, but left a call' % n, key='left')
                continue
            consistent(w, c, n, 'dial(%s)' % n)
            if family != 'zte' and c.id != ids[n]:
                raise Violation('dial(%s): identifier %r, the modem\'s is %r' % (n, c.id, ids[n]), key='id')
            ans, end = 'ans' in events, 'end' in events
            hung = cb == 'hangup' and ans
            if (c.answered, c.active) != (ans and not end and not hung, not end and not hung):
                raise Violation('dial(%s): answered %r, active %r' % (n, c.answered, c.active), key='state')
            ups = [u for u in w.updates if u[0] == n]
            if any(u[1] is not c for u in ups):
                raise Violation('dial(%s): callback for another call' % n, key='callback-object')
            want = int(ans) + int(end)
            if len(ups) != want and not (hung and end and len(ups) == 1):
                raise Violation('dial(%s): %d status callbacks, expected %d' % (n, len(ups), want), key='callbacks')
        if len(set(map(id, [c for c in out.values() if c]))) != len([c for c in out.values() if c]):
            raise Violation('two dial() calls returned one object', key='shared')
        if 'ring' in threads and [c.number for c in b.calls if c is not w.held] != ['+2799']:
            raise Violation('the incoming call was reported as %r' % [c.number for c in b.calls], key='ring')
        if 'sms' in threads and [x.text for x in b.sms] != ['in']:
            raise Violation('the message was reported as %r' % [x.text for x in b.sms], key='sms')
        for t, r in extra.items():
            if r != {'AT+CGMM': ['Model 7', 'OK']}[t]:
                raise Violation('%s returned %r' % (t, r), key='command')
        b.usable()
        b.close()
        return [(n, c and (c.answered, c.active)) for n, c in sorted(out.items())], len(w.updates)
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    hs = []
    for fam in ('huawei', 'wavecom', 'zte'):
        ack = ['ok'] if fam == 'huawei' else []
        st = [] if fam == 'zte' else ['start']
        hs += [
            sched('answered and ended at once, ' + fam, fam, ack + st + ['ans', 'end'], 2 + e),
            sched('ended at once, ' + fam, fam, ack + st + ['end'], 2 + e),
            sched('beside an incoming call, ' + fam, fam, ack + st + ['ans'], 1 + e, threads=['ring']),
            sched('beside a message, ' + fam, fam, ack + st, 1 + e, threads=['sms']) if fam == 'huawei' else sched('beside another incoming call, ' + fam, fam, ack + st + (['end'] if fam == 'wavecom' else ['ans']), 1 + e, threads=['ring'], other='incoming'),
            sched('callback hangs up, ' + fam, fam, ack + st + ['ans', 'end'] if fam == 'huawei' else ack + st + ['end'], 2 + e, cb='hangup'),
            sched('callback fails, ' + fam, fam, ack + st + ['ans', 'end'], 1 + e, cb='raise'),
        ]
    hs += [
        sched('report before the acknowledgement', 'huawei', ['start', 'ok', 'ans', 'end'], 2 + e),
        sched('everything before the acknowledgement', 'huawei', ['start', 'ans', 'end', 'ok'], 2 + e),
        sched('two dialling threads, huawei', 'huawei', ['ok', 'start'], 2 + e, dials=2),
        sched('two dialling threads, zte', 'zte', [], 2 + e, dials=2),
        sched('two dialling threads, answered, huawei', 'huawei', ['ok', 'start', 'ans'], 1 + e, dials=2),
        sched('beside a command, huawei', 'huawei', ['ok', 'start', 'ans'], 2 + e, threads=['AT+CGMM']),
        sched('beside a command, generic', 'generic', ['ok', 'pause', 'ans', 'pause', 'end'], 1 + e, threads=['AT+CGMM']),
        sched('two dialling threads, generic', 'generic', ['ok'], 1 + e, dials=2),
        sched('polled call, answered and ended', 'generic', ['ok', 'pause', 'ans', 'pause', 'end'], 2 + e),
        sched('start just when the time is up, huawei', 'huawei', ['start', 'ans'], 2 + e, timeout=2, first_at=2) if False else
        sched('start just when the time is up, wavecom', 'wavecom', ['start', 'end'], 2 + e, timeout=2, first_at=2),
    ]
    return hs


# ------------------------------------------------------------------ an identifier that the modem uses again
def reused(it):
    """The end of a call went unreported; the modem gives its identifier to the next call."""
    family, old, listed, then, n = it

    def fn(env):
        w = World(env, family, listed)
        s, m = w.s, w.b.m
        s.after_dial = lambda i: (env.spawn(lambda: (env.sleep(0.2), s.urc(*s.started_lines(i))), 'network'), ['OK'] if family == 'huawei' else None)[1]
        past = []
        for k in range(n):
            before = len(w.updates)
            if old.startswith('in'):
                s.urc(*(['+CRING: VOICE', '+CLIP: "+2711%d",145' % k]))
                env.settle(1)
                call = w.b.calls[-1]
                s.calls[call.id] = dict(dir=1, number='+2711', state=4)
                if old.endswith('answered'):
                    call.answer()
            else:
                call = w.dial('0444', None, 'old%d' % k)
                if old.endswith('answered'):
                    s.urc(*s.answered_lines(call.id))
                    env.settle(1)
            s.calls.clear()                             # it ends, and nothing says so
            s.free_id = lambda i=call.id: i
            before = len(w.updates)
            new = w.dial('05%d' % k, None, 'new%d' % k)
            env.settle(1)
            what = '%s call %d, then the same identifier again' % (old, call.id)
            if new is call or new.id != call.id:
                raise Violation('%s: the new call is %r (identifier %r)' % (what, new, new.id), key='reuse-new')
            consistent(w, new, '05%d' % k, what)
            if not new.active or new.answered:
                raise Violation('%s: the new call is active %r, answered %r' % (what, new.active, new.answered), key='reuse-new')
            past.append((call, old.startswith('in')))
            if any(c.active or c.answered for c, _ in past):
                raise Violation('%s: the earlier call is active %r, answered %r' % (what, call.active, call.answered), key='reuse-old')
            got = [u[0::2] + u[3:] for u in w.updates[before:]]
            if got != ([] if old.startswith('in') else [('old%d' % k, False, False)]):
                raise Violation('%s: status callbacks %r' % (what, got), key='reuse-callbacks')
            log = len(s.log)
            call.hangup()
            if s.log[log:]:
                raise Violation('%s: hanging up the earlier call sent %r' % (what, s.log[log:]), key='reuse-hangup')
            consistent(w, new, '05%d' % k, what + ', the earlier one hung up')
            if then == 'answered':
                s.urc(*s.answered_lines(new.id))
                env.settle(1)
                if not new.answered or not new.active or any(c.active or c.answered for c, _ in past):
                    raise Violation('%s: after the answer the new call is answered %r, the earlier one %r' % (what, new.answered, call.answered), key='reuse-answer')
            if then == 'ended':
                s.calls.clear()
                s.urc(*s.ended_lines(new.id))
                env.settle(1)
            else:
                new.hangup()
                s.calls.clear()
                s.urc(*s.ended_lines(new.id))
                env.settle(1)
            if new.active or m.activeCalls:
                raise Violation('%s: after its end the new call is active %r, listed calls %r' % (what, new.active, m.activeCalls), key='reuse-end')
            del s.free_id
        w.b.usable()
        w.b.close()
    return fn


def reuses():
    for family in ('huawei', 'wavecom'):
        for old in ('in', 'in answered', 'out', 'out answered'):
            for listed in (False, True):
                for then in ('answered', 'ended', ''):
                    for n in (1, 2, 3):
                        yield family, old, listed, then, n


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    core.run_cases(ctx, 'timings of call progress', batch_of(timing), chunk(timings(T), 30))
    core.run_cases(ctx, 'how the modem is recognised', batch_of(identified), chunk(identities(), 40))
    core.run_cases(ctx, 'an identifier used again', batch_of(reused), chunk(list(reuses()), 12))
    endurance.run(ctx, 'C20')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['a report of an attempt that dial() has given up on does not arrive during a later attempt', 'Wavecom and ZTE modems get no other command while a call is being set up (the answer is a bare OK)',
                        'a polled modem shows a call for at least one polling interval']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C20', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    if payload.get('part') == 'an identifier used again':
        return replay_case(reused, payload)
    return replay_case(identified if payload.get('part') == 'how the modem is recognised' else timing, payload)
