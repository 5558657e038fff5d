# -*- coding: utf-8 -*-
"""C17: stored-message operations return and remove exactly the right messages."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg
from . import endurance
from .c01 import chunk
from .modem_common import SLOW, TS, base, batch_of, replay_case, slow, view, want


def D(text, status=1, ts=0, number='+27820001111'):
    return lambda: Msg(text=text, status=status, ts=TS[ts], number=number)


def R(ref, status=1, st=0):
    return lambda: Msg(kind='report', ref=ref, status=status, st=st, ts=TS[2], discharge=TS[3])


BROKEN = lambda: Msg(kind='broken', status=1)
BROKEN0 = lambda: Msg(kind='broken', status=0)
TRUNC = lambda: Msg(kind='broken', status=1, pdu='07911326040000F0040B91134661')
DRAFT = lambda: Msg(kind='submit', status=2, text='draft')
SENT = lambda: Msg(kind='submit', status=3, text='was sent')
LAYOUTS = [
    {'SM': {}, 'ME': {}},
    {'SM': {1: D('one', 0), 3: D('three', 1, 1), 7: D('seven', 1, 2)}, 'ME': {2: D('me two', 0, 3), 3: D('me three')}},
    {'SM': {0: D('multi\nline\n text'), 1: R(4), 4: D('', 0)}, 'ME': {1: R(5, 0, 70), 6: D('x' * 160, 0, 1, '12345')}},
    {'SM': {1: BROKEN, 2: D('two', 0), 3: SENT, 5: D('five', 1, 1), 6: DRAFT}, 'ME': {1: D('m1'), 2: BROKEN0, 9: D('m9', 0)}},
    {'SM': {1: TRUNC, 25: D('\u4e2d\u6587')}, 'ME': {1: D('a', 0), 2: D('b', 0), 3: D('c', 0), 4: D('d'), 10: D('+CMTI: "SM",1')}},
    {'SM': {2: DRAFT, 4: BROKEN}, 'ME': {5: R(1), 7: SENT}},
]
STAT = ['unread', 'read', 'unsent', 'sent', 'all']


def ops(T):
    out = [('read', i, mem) for i in (0, 1, 2, 3, 25) for mem in (None, 'SM', 'ME')]
    out += [('list', st, mem, d) for st in range(5) for mem in (None, 'SM', 'ME') for d in (False, True)]
    out += [('delete', i, mem) for i in (0, 1, 2, 9) for mem in (None, 'SM', 'ME')]
    out += [('multi', f, mem) for f in (0, 1, 2, 3, 4, 5) for mem in (None, 'SM', 'ME')]
    out += [('process', u) for u in (False, True)]
    out += [('mode',), ('arrive', 'SM'), ('arrive', 'ME')]
    return out


def few_ops():
    return [('read', 1, 'SM'), ('read', 2, 'ME'), ('read', 3, None), ('list', 4, 'SM', False), ('list', 0, 'ME', True), ('list', 4, None, True), ('list', 1, None, True), ('list', 4, 'ME', True),
            ('delete', 1, 'SM'), ('delete', 2, 'ME'), ('multi', 1, 'ME'), ('multi', 4, 'SM'), ('process', False), ('process', True), ('mode',), ('arrive', 'SM'), ('arrive', 'ME')]


class World(object):
    def __init__(self, env, mode, layout, **kw):
        self.env, self.b = env, Bed(env, text=mode == 'text', **kw)
        self.s, self.mod = self.b.sim, self.b.mod
        self.exc = loader.load_exceptions()
        for mem in layout:
            for i in layout[mem]:
                self.s.store(mem, layout[mem][i](), i)
        self.seen_sms = 0

    def kind(self, m):
        return 'deliver' if m.kind == 'broken' and self.s.textmode else m.kind

    def snapshot(self):
        return {(mem, i): (m, m.status) for mem in self.s.stores for i, m in self.s.stores[mem].items()}

    def check_left(self, before, removed, what):
        left = {k: id(v[0]) for k, v in self.snapshot().items()}
        exp = {k: id(v[0]) for k, v in before.items() if k not in removed}
        if left != exp:
            lost = [k for k in exp if k not in left]
            kept = [k for k in left if k not in exp]
            raise Violation('%s: wrongly removed %r, wrongly kept %r' % (what, lost, kept), key='removed')

    def wanted(self, m, st):
        w = want(m, st)
        if w[0] == 'report':
            return w
        return w

    def do(self, op):
        b, s, m = self.b, self.s, self.b.m
        what = repr(op)
        before = self.snapshot()
        cur = s.mems[0]
        if op[0] == 'mode':
            m.smsTextMode = not m.smsTextMode
            self.check_left(before, (), what)
        elif op[0] == 'arrive':
            s.receive(op[1], Msg(text='new', status=0, ts=TS[1]), notify=False)
        elif op[0] == 'read':
            mem = op[2] or cur
            x = before.get((mem, op[1]))
            try:
                r = m.readStoredSms(op[1], op[2]) if op[2] else m.readStoredSms(op[1])
            except self.exc.GsmModemException as e:
                r = e
            if x is not None and self.kind(x[0]) in ('deliver', 'report'):
                if isinstance(r, Exception):
                    raise Violation('%s raised %s: %s' % (what, type(r).__name__, r), key='read')
                exp = self.wanted(x[0], 0 if s.cmgr_blank and not s.textmode else x[1])
                if view(self.mod, r) != exp:
                    raise Violation('%s returned %r, stored is %r' % (what, view(self.mod, r), exp), key='read')
            elif not isinstance(r, Exception):
                raise Violation('%s returned %r' % (what, view(self.mod, r)), key='read-nothing')
            self.check_left(before, (), what)
        elif op[0] == 'list':
            _, st, omem, dele = op
            mem = omem or cur
            kw = {}
            if omem:
                kw['memory'] = omem
            if dele:
                kw['delete'] = True
            if st != 4:
                kw['status'] = st
            r = m.listStoredSms(**kw)
            sel = [(k, x) for k, x in sorted(before.items()) if k[0] == mem and (st == 4 or x[1] == st) and self.kind(x[0]) in ('deliver', 'report')]
            got = [view(self.mod, x) for x in r]
            exp = [self.wanted(*x) for k, x in sel]
            if got != exp:
                raise Violation('%s returned %r, stored are %r' % (what, got, exp), key='list')
            self.check_left(before, {k for k, x in sel} if dele else (), what)
        elif op[0] == 'delete':
            mem = op[2] or cur
            try:
                m.deleteStoredSms(op[1], op[2]) if op[2] else m.deleteStoredSms(op[1])
                ok = True
            except self.exc.CommandError:
                ok = False
            if ok != ((mem, op[1]) in before):
                raise Violation('%s %s' % (what, 'succeeded' if ok else 'failed'), key='delete')
            self.check_left(before, {(mem, op[1])}, what)
        elif op[0] == 'multi':
            mem = op[2] or cur
            n = len(s.log)
            try:
                kw = {'memory': op[2]} if op[2] else {}
                if op[1] != 4:
                    kw['delFlag'] = op[1]
                m.deleteMultipleStoredSms(**kw)
                ok = True
            except ValueError:
                ok = False
            if ok != (1 <= op[1] <= 4):
                raise Violation('%s %s' % (what, 'succeeded' if ok else 'raised ValueError'), key='multi')
            kill = {1: (1,), 2: (1, 3), 3: (1, 2, 3), 4: (0, 1, 2, 3)}.get(op[1], ())
            self.check_left(before, {k for k, x in before.items() if k[0] == mem and x[1] in kill}, what)
        elif op[0] == 'process':
            n = len(b.sms)
            m.processStoredSms(*([True] if op[1] else []))
            self.env.quiesce()
            sel = {k: x for k, x in before.items() if k[0] == cur and (x[1] == 0 or not op[1] and x[1] == 1)}
            got = [view(self.mod, x) for x in b.sms[n:]]
            exp = [self.wanted(*x) for k, x in sorted(sel.items()) if self.kind(x[0]) == 'deliver']
            reps = [self.wanted(*x) for k, x in sorted(sel.items()) if self.kind(x[0]) == 'report']
            if sorted(map(repr, [g for g in got if g[0] == 'deliver'])) != sorted(map(repr, exp)):
                raise Violation('%s delivered %r, stored are %r' % (what, got, exp), key='process')
            removed = {k for k, x in sel.items() if self.kind(x[0]) == 'deliver'}
            left = self.snapshot()
            for k, x in sel.items():      # reports may be processed or left, but not dropped
                if self.kind(x[0]) == 'report' and k not in left:
                    if got.count(self.wanted(*x)) + [view(self.mod, y) for y in b.reports].count(self.wanted(*x)) < 1:
                        raise Violation('%s dropped a delivery report' % what, key='process-report')
                    removed.add(k)
            self.check_left(before, removed, what)
        for i, sms in enumerate(b.sms):
            pass

    def end(self):
        if self.s.mixed:
            raise Violation('the modem saw %r' % self.s.mixed, key='mixed')
        self.b.usable()
        self.b.close()


def history(it):
    mode, lay, seq, form = it

    def fn(env):
        w = World(env, mode, LAYOUTS[lay])
        w.s.alpha, w.s.cmgr_blank = form
        for op in seq:
            w.do(tuple(op))
        w.end()
        return [len(st) for st in w.s.stores.values()]
    return fn


def subset(it):
    """Every subset of message kinds at consecutive indexes, one operation."""
    mode, kinds, op = it
    table = {'u': D('unread', 0), 'r': D('read', 1, 1), 'R': R(3), 'b': BROKEN, 'd': DRAFT, 's': SENT, '-': None}

    def fn(env):
        w = World(env, mode, {'SM': {i + 1: table[k] for i, k in enumerate(kinds) if table[k]}})
        w.do(tuple(op))
        w.do(('list', 4, 'SM', False))
        w.end()
    return fn


def failing(it):
    """A command of an operation fails or times out: nothing but what was asked for may disappear, and later operations work on the right storage."""
    mode, op, prefix, how, nth, then = it

    def fn(env):
        w = World(env, mode, LAYOUTS[1])
        s, b = w.s, w.b
        before = w.snapshot()
        n = [0]

        def intercept(cmd):
            if cmd.startswith(prefix):
                n[0] += 1
                if n[0] == nth:
                    if how == 'late':
                        getattr(s, 'cmd_' + prefix[3:])(cmd[len(prefix):])
                        return 'silent'
                    return 'silent' if how == 'silent' else [how]
            return None
        s.intercepts.append(intercept)
        got = None
        cur = s.mems[0]
        try:
            if op[0] == 'list':
                got = b.m.listStoredSms(op[1], memory=op[2], delete=op[3])
            elif op[0] == 'read':
                got = b.m.readStoredSms(op[1], op[2])
            elif op[0] == 'delete':
                b.m.deleteStoredSms(op[1], op[2])
            elif op[0] == 'process':
                b.m.processStoredSms(op[1])
        except w.exc.GsmModemException:
            pass
        env.settle(1)
        mem = op[2] if len(op) > 2 else cur
        left = w.snapshot()
        for k in before:
            if k in left:
                continue
            if k[0] != mem or op[0] == 'read' or op[0] == 'delete' and k[1] != op[1] or op[0] == 'list' and not (op[3] and op[1] in (4, before[k][1])):
                raise Violation('%r with %s failing (%s) removed %r' % (op, prefix, how, k), key='fault-removed')
            if op[0] == 'process' and want(before[k][0], before[k][1])[2:] not in [view(w.mod, x)[2:] for x in b.sms]:
                raise Violation('%r with %s failing (%s) removed %r without handing it over' % (op, prefix, how, k), key='fault-lost')
        if op[0] == 'process' and len(b.sms) != len({x.text for x in b.sms}):
            raise Violation('%r with %s failing (%s) delivered twice' % (op, prefix, how), key='fault-twice')
        s.intercepts.remove(intercept)
        w.do(tuple(then))
        w.do(('list', 4, 'SM', False))
        w.do(('list', 4, 'ME', False))
        w.end()
        return len(left)
    return fn


def arrival(env):
    """A message arrives between the listing and the deletion of all messages."""
    w = World(env, 'pdu', LAYOUTS[1])
    s, b = w.s, w.b
    new = Msg(text='just arrived', status=0, ts=TS[2])
    done = []

    def intercept(cmd):
        if cmd.startswith('AT+CMGD') and not done:
            done.append(1)
            s.receive('ME', new)
        return None
    s.intercepts.append(intercept)
    r = b.m.listStoredSms(memory='ME', delete=True)
    env.settle(3)
    shown = [view(w.mod, x)[2:] for x in list(r) + b.sms]
    if any(m is new for _, _, m in s.deleted) and want(new)[2:] not in shown:
        raise Violation('listStoredSms(delete=True) deleted a message that arrived after the listing and that nobody has read', key='list-delete-all-arrival')
    return shown


def arrival_filtered(status):
    """The same with a status filter: only the listed messages may go."""
    def fn(env):
        w = World(env, 'pdu', LAYOUTS[1])
        s, b = w.s, w.b
        new = Msg(text='just arrived', status=0, ts=TS[2])
        done = []

        def intercept(cmd):
            if cmd.startswith('AT+CMGD') and not done:
                done.append(1)
                s.receive('ME', new)
            return None
        s.intercepts.append(intercept)
        r = b.m.listStoredSms(status, memory='ME', delete=True)
        env.settle(3)
        shown = [view(w.mod, x)[2:] for x in list(r) + b.sms]
        if shown.count(want(new)[2:]) != 1:
            raise Violation('a message arriving during listStoredSms(%d, delete=True) was seen %d times' % (status, shown.count(want(new)[2:])), key='arrival-filtered')
        return shown
    return fn


# ------------------------------------------------------------------ schedules
def sched(name, mode, acts, bound=2, arrive=()):
    def fn(env):
        w = World(env, mode, LAYOUTS[1])
        s, b = w.s, w.b
        s.threaded = True
        before = w.snapshot()
        out = {}

        def act(i, a):
            if a[0] == 'list':
                out[i] = [x.text for x in b.m.listStoredSms(a[1], memory=a[2], delete=a[3])]
            elif a[0] == 'read':
                out[i] = b.m.readStoredSms(a[1], a[2]).text
            elif a[0] == 'delete':
                b.m.deleteStoredSms(a[1], a[2])
            elif a[0] == 'process':
                b.m.processStoredSms()
            elif a[0] == 'send':
                out[i] = b.m.sendSms('+2782', 'x').reference
        env.quiesce()
        env.explore()
        ths = [env.spawn(lambda i=i, a=a: act(i, a), 'user%d' % i) for i, a in enumerate(acts)]
        for mem in arrive:
            ths.append(env.spawn(lambda mem=mem: s.receive(mem, Msg(text='arrived', status=0, ts=TS[1])), 'network'))
        env.wait(ths)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(3)
        removed = set()
        texts = lambda mem, sts: [x[0].text for k, x in sorted(before.items()) if k[0] == mem and x[1] in sts]
        handed = [x.text for x in b.sms]
        for i, a in enumerate(acts):
            if a[0] == 'list':
                allowed = texts(a[2], range(4))
                if sorted(set(out[i])) != sorted(out[i]) or not set(out[i]) <= set(allowed) | ({'arrived'} if a[2] in arrive else set()):
                    raise Violation('%r returned %r' % (a, out[i]), key='list')
                if not any(x[0] in ('process', 'delete') or x[0] == 'list' and x[3] and x is not a for x in acts) and a[1] == 4 and sorted(set(out[i]) - {'arrived'}) != sorted(allowed):
                    raise Violation('%r returned %r' % (a, out[i]), key='list')
                if a[3]:
                    removed |= {k for k, x in before.items() if k[0] == a[2] and x[0].text in out[i]}
            elif a[0] == 'read':
                if out[i] != before[a[2], a[1]][0].text:
                    raise Violation('%r returned %r' % (a, out[i]), key='read')
            elif a[0] == 'delete':
                removed.add((a[2], a[1]))
            elif a[0] == 'process':
                if len(handed) != len(set(handed)):
                    raise Violation('messages were handed over twice: %r' % handed, key='process-twice')
        removed |= {k for k, x in before.items() if x[0].text in handed}
        left = {k for k in w.snapshot()}
        if left != set(before) - removed:
            raise Violation('storage holds %r, expected %r' % (sorted(left), sorted(set(before) - removed)), key='removed')
        if handed.count('arrived') != len(arrive):
            raise Violation('the received messages were handed over %d times' % handed.count('arrived'), key='arrived')
        w.end()
        return sorted(left), handed
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    L = lambda st, mem, d=False: ('list', st, mem, d)
    return [
        sched('two listings of different storages', 'pdu', [L(4, 'SM'), L(4, 'ME')], 2 + e),
        sched('two listings, text mode', 'text', [L(4, 'SM'), L(4, 'ME')], 2 + e),
        sched('listing with deletion beside a listing', 'pdu', [L(4, 'SM', True), L(4, 'ME')], 2 + e),
        sched('filtered listing with deletion beside a deletion', 'pdu', [L(1, 'SM', True), ('delete', 2, 'ME')], 2 + e),
        sched('reads in two storages', 'pdu', [('read', 3, 'SM'), ('read', 3, 'ME')], 2 + e),
        sched('deletions in two storages', 'text', [('delete', 3, 'SM'), ('delete', 3, 'ME')], 2 + e),
        sched('processing twice', 'pdu', [('process',), ('process',)], 2 + e),
        sched('processing beside a listing', 'pdu', [('process',), L(4, 'SM')], 1 + e),
        sched('listing beside a sender', 'text', [L(4, 'SM'), ('send',)], 2 + e),
        sched('filtered deletion and an arrival', 'pdu', [L(1, 'SM', True)], 2 + e, arrive=['ME']),
    ]


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    forms = [('', False), ('""', False), ('"Bob, jr"', False), ('', True)]
    items = []
    for mode in ('pdu', 'text'):
        for lay in range(len(LAYOUTS)):
            for o in ops(T):
                for f in forms:
                    items.append((mode, lay, [o], f))
            for o in (ops(T) if T or lay in (1, 3) else few_ops()):
                for o2 in (ops(T) if T else few_ops()):
                    items.append((mode, lay, [o, o2], forms[0]))
                    if not T and o not in few_ops():
                        items.append((mode, lay, [o2, o], forms[0]))
            if lay == 3 or T:
                for c in itertools.product(few_ops(), repeat=3):
                    if T or sum(o[0] in ('mode', 'arrive') for o in c) <= 1:
                        items.append((mode, lay, list(c), forms[0]))
    core.run_cases(ctx, 'histories of operations', batch_of(history), chunk(items, 60))
    core.run_cases(ctx, 'histories of operations' + SLOW, batch_of(slow(history)), chunk(items[::7], 60))
    items = [(mode, ''.join(k), op) for mode in ('pdu', 'text') for k in itertools.product('urRbds-', repeat=4 if T else 3)
             for op in [('list', 4, 'SM', True), ('list', 1, 'SM', True), ('list', 0, 'SM', True), ('list', 4, 'SM', False)]]
    core.run_cases(ctx, 'all mixtures of kinds', batch_of(subset), chunk(items, 40))
    core.run_cases(ctx, 'all mixtures of kinds' + SLOW, batch_of(slow(subset)), chunk(items[::5], 40))
    items = []
    for mode in ('pdu', 'text'):
        for op in [('list', 4, 'SM', True), ('list', 1, 'SM', True), ('list', 4, 'SM', False), ('list', 1, 'ME', True), ('read', 3, 'SM'), ('read', 3, 'ME'), ('delete', 3, 'SM'), ('delete', 3, 'ME'), ('process', False), ('process', True)]:
            for prefix in ('AT+CPMS', 'AT+CMGL', 'AT+CMGR', 'AT+CMGD'):
                for how in ('ERROR', '+CMS ERROR: 302', 'silent', 'late'):
                    for nth in (1, 2):
                        for then in (('read', 3, 'SM'), ('read', 3, 'ME'), ('list', 1, None, True), ('delete', 3, 'SM')):
                            items.append((mode, op, prefix, how, nth, then))
    core.run_cases(ctx, 'failing commands', batch_of(failing), chunk(items, 40))
    endurance.run(ctx, 'C17')
    explore.explore_many(ctx, harnesses(T) + [explore.Harness('arrival while all messages are listed and deleted', arrival, bound=0)] +
                         [explore.Harness('arrival while messages of status %d are listed and deleted' % st, arrival_filtered(st), bound=0) for st in (0, 1)])
    ctx.assumptions += ['memory=None means the memory that the modem currently reads from', 'text-mode message bodies contain no blank lines, no line that is a final result and no line that looks like a +CMGL header',
                        'drafts and sent messages are not returned by listStoredSms']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C17', payload)
    if 'harness' in payload:
        hs = harnesses(True) + [explore.Harness('arrival while all messages are listed and deleted', arrival, bound=0)] + \
            [explore.Harness('arrival while messages of status %d are listed and deleted' % st, arrival_filtered(st), bound=0) for st in (0, 1)]
        return explore.replay_harness(hs, payload)
    return replay_case({'histories of operations': history, 'all mixtures of kinds': subset, 'failing commands': failing}[base(payload)], payload)
