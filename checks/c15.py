# -*- coding: utf-8 -*-
"""C15: every received SMS is delivered exactly once and only it is deleted."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg
from . import endurance
from .c01 import chunk
from .modem_common import SLOW, TS, base, batch_of, replay_case, same, slow, view, want

TEXTS = ['a', 'Hello, world', 'x' * 160, '\u4e2d\u6587', '@', 'two\nlines', '+CMTI: "SM",9', 'l\n+CMTI: "ME",3', 'RING', '+CUSD: 1,"x",15', '"quoted, text"', '€[]', ' spaces ', 'ends with OK', '\U0001F600',
         '+CMGR: 1,,20', '1', 'abcdefg', 'abcdefgh', 'OKAY']
NUMS = ['+27820001111', '12345', 'Bank', '0821234567', '1']


def text_ok(t, mode):
    """Texts that text mode can carry: the modem shows only characters of its own set; a line that is blank or a final result is not representable."""
    return True


def msg(k, mode):
    """The k-th distinct message."""
    return Msg(number=NUMS[k % 3 if mode == 'pdu' else k % 2], text=TEXTS[k % len(TEXTS)], ts=TS[k % len(TS)], smsc='+2799')


def preload(sim):
    """Messages that were there before and must stay."""
    old = {}
    for mem, i, st in (('SM', 1, 1), ('SM', 3, 0), ('ME', 2, 1), ('SR', 4, 1)):
        m = Msg(text='old %s %d' % (mem, i), status=st)
        sim.store(mem, m, i)
        old[mem, i] = m
    return old


def final(b, old, new, what='', undelivered=()):
    """new: [(mem, index, Msg)] announced; old: untouched messages."""
    s = b.sim
    exp = [want(m, 0) for mem, i, m in new if m not in undelivered]
    same([view(b.mod, x) for x in b.sms], exp, what + 'delivered messages', 'delivered')
    if s.textmode == 0:
        for x in b.sms:
            if x.smsc != '+2799':
                raise Violation('%sSMSC reported as %r' % (what, x.smsc), key='smsc')
    left = {(mem, i): m for mem in s.stores for i, m in s.stores[mem].items()}
    keep = dict(old)
    for mem, i, m in new:
        if m in undelivered:
            keep[mem, i] = m
    if {k: id(v) for k, v in left.items()} != {k: id(v) for k, v in keep.items()}:
        raise Violation('%sstorage holds %r, expected %r' % (what, left, keep), key='storage')
    gone = [m for _, _, m in s.deleted]
    if len(gone) != len(set(map(id, gone))):
        raise Violation('%sa message was deleted twice: %r' % (what, s.deleted), key='deleted-twice')
    if b.reports:
        raise Violation('%sa received message was reported as delivery report' % what, key='reports')


# ------------------------------------------------------------------ one message of every kind
def single(it):
    mode, family, mem, k, num, idx, read_fmt = it

    def fn(env):
        b = Bed(env, text=mode == 'text', family=family)
        s = b.sim
        old = preload(s)
        m = Msg(number=num, text=TEXTS[k], ts=TS[k % len(TS)])
        new = [(mem, s.receive(mem, m, idx)[0], m)]
        env.settle(3)
        final(b, old, new)
        b.usable()
        b.close()
    return fn


# ------------------------------------------------------------------ histories of receptions and user commands
OPS = ['SM', 'ME', 'burst2', 'burst-mixed', 'cmd', 'list', 'listME', 'send', 'reconfig']


def history(it):
    mode, ops = it

    def fn(env):
        b = Bed(env, text=mode == 'text')
        s = b.sim
        old = preload(s)
        new = []
        k = [0]

        def nxt():
            k[0] += 1
            return msg(k[0], mode)

        def put(mem):
            m = nxt()
            i, line = s.receive(mem, m, notify=False)
            new.append((mem, i, m))
            return line
        for op in ops:
            if op in ('SM', 'ME'):
                s.urc(put(op))
            elif op == 'burst2':
                s.urc(put('SM'), put('SM'))
            elif op == 'burst-mixed':
                s.urc('RING', put('ME'), '^UNKNOWN: 1', put('SM'), put('ME'))
                env.settle(1)        # an unknown line just before a command would become part of its response
            elif op == 'cmd':
                if b.m.write('AT+CGMM') != ['Model 7', 'OK']:
                    raise Violation('a command got a wrong response', key='command')
            elif op in ('list', 'listME'):
                mem = 'ME' if op == 'listME' else None
                b.m.listStoredSms(memory=mem)
            elif op == 'send':
                b.m.sendSms('+2782', 'out')
            elif op == 'reconfig':
                env.settle(3)
                b.m.smsTextMode = not b.m.smsTextMode
        env.settle(5)
        got = [view(b.mod, x) for x in b.sms]
        exp = [want(m, 0) for _, _, m in new]
        # a listing may have marked a message as read before it was delivered
        got = [g[:1] + g[2:] for g in got]
        exp = [g[:1] + g[2:] for g in exp]
        same(got, exp, 'delivered messages', 'delivered')
        left = {(mem, i): id(m) for mem in s.stores for i, m in s.stores[mem].items()}
        if left != {kk: id(v) for kk, v in old.items()}:
            raise Violation('storage holds %r, expected %r' % (s.stores, old), key='storage')
        b.usable()
        b.close()
        return len(new)
    return fn


# ------------------------------------------------------------------ failing steps
FAULTS = ['read:ERROR', 'read:+CMS ERROR: 321', 'read:+CMS ERROR: 500', 'read:silent', 'read:busy', 'delete:ERROR', 'delete:silent', 'delete:busy', 'delete:+CMS ERROR: 500', 'memory:ERROR', 'memory:silent', 'memory:late', 'memory:busy',
          'read:blank', 'callback:raises', 'broken']


def faulty(it):
    mode, fault, mem, when_, kinds = it

    def fn(env):
        b = Bed(env, text=mode == 'text')
        s = b.sim
        old = preload(s)
        step, _, how = fault.partition(':')
        prefix = {'read': 'AT+CMGR', 'delete': 'AT+CMGD', 'memory': 'AT+CPMS'}.get(step)
        hit = [0]

        def intercept(cmd):
            if prefix and cmd.startswith(prefix):
                hit[0] += 1
                if hit[0] != when_:
                    return None
                if how == 'silent':
                    return 'silent'
                if how == 'late':          # carried out, but the answer is lost
                    s.cmd_CPMS(cmd[len(prefix):])
                    return 'silent'
                if how == 'busy':
                    return ['+CMS ERROR: 515']
                if how == 'blank':
                    return ['OK']
                return [how]
            return None
        s.intercepts.append(intercept)
        if fault == 'callback:raises':
            def boom(sms):
                if len(b.sms) == when_:
                    raise ValueError('user code')
            b.on_sms = boom
        new = []
        for n, k in enumerate(kinds):
            m = Msg(text='m%d' % n, ts=TS[n])
            if fault == 'broken' and n + 1 == when_:
                m = Msg(kind='broken')
            i, _ = s.receive(k, m)
            new.append((k, i, m))
            env.settle(16)
        env.settle(8)
        failed = []
        if step in ('read', 'memory') and how != 'busy' or fault == 'broken' and mode == 'pdu':
            failed = [m for kk, i, m in new if s.stores[kk].get(i) is m]
        undeleted = [m for kk, i, m in new if s.stores[kk].get(i) is m and m not in failed] if step == 'delete' and how != 'busy' else []
        if len(failed) > 1 or len(undeleted) > 1:
            raise Violation('%s: %d messages were lost by one failure' % (fault, len(failed) + len(undeleted)), key='fault-spreads')
        got = [view(b.mod, x)[2:] for x in b.sms]
        exp = [want(m)[2:] for _, _, m in new if m not in failed and m.kind == 'deliver']
        if not (fault == 'broken' and mode == 'text'):
            same(got, exp, fault + ': delivered messages', 'fault-delivered')
        left = {id(m) for st in s.stores.values() for m in st.values()}
        keep = {id(m) for m in old.values()} | {id(m) for m in failed} | {id(m) for m in undeleted}
        if left != keep:
            raise Violation('%s: storage holds %r' % (fault, s.stores), key='fault-storage')
        read = set(s.reads)
        for kk, i, m in s.deleted:
            if (kk, i) not in read:
                raise Violation('%s: %s %d was deleted without having been read' % (fault, kk, i), key='deleted-unread')
        # a failed read leaves the message; everything later works
        s.intercepts.remove(intercept)
        m = Msg(text='after', ts=TS[2])
        n = len(b.sms)
        s.receive(mem, m)
        env.settle(3)
        if [view(b.mod, x)[2:] for x in b.sms[n:]] != [want(m)[2:]]:
            raise Violation('%s: the next message was delivered as %r' % (fault, [view(b.mod, x) for x in b.sms[n:]]), key='fault-next')
        b.usable()
        b.close()
        return len(failed), len(undeleted)
    return fn


# ------------------------------------------------------------------ schedules
def sched(name, mode, groups, actions=(), bound=2, handler=None, pieces=1, apart=False):
    """groups: bursts, each a list of memories (or raw lines); actions: user threads."""
    def fn(env):
        b = Bed(env, text=mode == 'text')
        s = b.sim
        old = preload(s)
        s.threaded = True
        s.pieces = pieces
        new, out = [], {}
        n = [0]

        def put(mem):
            n[0] += 1
            m = Msg(number='+2780%d' % n[0], text='text %d' % n[0], ts=TS[n[0] % len(TS)])
            i, line = s.receive(mem, m, notify=False)
            new.append((mem, i, m))
            return line

        if handler:
            def on_sms(sms):
                if handler == 'reply':
                    sms.reply('thanks')
                elif handler == 'list':
                    b.m.listStoredSms(memory='ME')
                elif handler == 'csq':
                    b.m.signalStrength
            b.on_sms = on_sms

        def network(g):
            s.urc(*[put(x) if x in s.stores else x for x in g])

        def act(a):
            if a == 'list':
                out[a] = len(b.m.listStoredSms())
            elif a == 'listME':
                out[a] = len(b.m.listStoredSms(memory='ME'))
            elif a == 'readSM3':
                out[a] = b.m.readStoredSms(3, 'SM').text
                if out[a] != 'old SM 3':
                    raise Violation('reading SM 3 gave %r' % out[a], key='read')
            elif a == 'send':
                out[a] = b.m.sendSms('+2782', 'out').reference
            elif a == 'deleteME2':
                b.m.deleteStoredSms(2, 'ME')
                old.pop(('ME', 2))
            else:
                out[a] = b.m.write(a)
        env.quiesce()
        env.explore()
        if apart:
            ths = [env.spawn(lambda g=g: network(g), 'network') for g in groups]
        else:
            ths = [env.spawn(lambda: [network(g) for g in groups], 'network')]
        ths += [env.spawn(lambda a=a: act(a), 'user') for a in actions]
        env.wait(ths)
        env.quiesce()
        env.sleep(1.5)      # the end of a notification may only show by silence
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(5)
        if s.mixed:
            raise Violation('the modem saw %r' % s.mixed, key='mixed')
        got = [view(b.mod, x)[2:] for x in b.sms]
        same(got, [want(m)[2:] for _, _, m in new], 'delivered messages', 'delivered')
        left = {(mem, i): id(m) for mem in s.stores for i, m in s.stores[mem].items()}
        if left != {kk: id(v) for kk, v in old.items()}:
            raise Violation('storage holds %r, expected %r' % (s.stores, old), key='storage')
        b.usable()
        b.close()
        return [x.text for x in b.sms], sorted(out)
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('two messages in different storages, one burst', 'pdu', [['SM', 'ME']], bound=2 + e),
        sched('two messages in different storages, text mode', 'text', [['SM', 'ME']], bound=2 + e),
        sched('two messages announced apart', 'pdu', [['SM'], ['ME']], bound=2 + e, apart=True),
        sched('three messages', 'pdu', [['SM', 'ME'], ['SM']], bound=2 + e),
        sched('message and a listing of the other storage', 'pdu', [['SM']], ['listME'], bound=2 + e),
        sched('message and a read in the other storage', 'pdu', [['ME']], ['readSM3'], bound=2 + e),
        sched('message and a deletion in another storage', 'pdu', [['SM']], ['deleteME2'], bound=2 + e),
        sched('messages and a command', 'pdu', [['SM'], ['ME']], ['AT+CGMM'], bound=2 + e),
        sched('message and a sender', 'text', [['SM']], ['send'], bound=2 + e),
        sched('handler replies', 'pdu', [['SM', 'ME']], bound=2 + e, handler='reply'),
        sched('handler lists messages', 'pdu', [['SM', 'ME']], bound=2 + e, handler='list'),
        sched('responses in pieces', 'pdu', [['SM', 'ME']], ['AT+CGMM'], bound=2 + e, pieces=3),
        sched('message among other events', 'pdu', [['RING', 'SM', '+CUSD: 2,"x",15', 'ME', 'RING']], bound=2 + e),
    ]


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    items = []
    for mode in ('pdu', 'text'):
        for k in range(len(TEXTS)):
            for num in NUMS:
                for fam in ('generic', 'huawei', 'wavecom', 'zte') if T or k < 2 else ('generic',):
                    for mem, idx in (('SM', None), ('ME', 0), ('SM', 25), ('SR', None), ('ME', 255)) if T else (('SM', None), ('ME', 0), ('SM', 25)):
                        items.append((mode, fam, mem, k, num, idx, 0))
        for idx in sorted(set(range(0, 1100 if T else 131)) | {n + d for n in (128, 199, 255, 256, 299, 500, 512, 999, 1000, 1024, 9999, 10000, 32767, 65535) for d in (-1, 0, 1)}):
            items.append((mode, 'generic', ('SM', 'ME')[idx % 2], 1, NUMS[0], idx, 0))
    core.run_cases(ctx, 'single messages', batch_of(single), chunk(items, 20))
    core.run_cases(ctx, 'single messages' + SLOW, batch_of(slow(single)), chunk(items[::5], 20))
    items = [(mode, ops) for mode in ('pdu', 'text') for n in range(1, 5 if T else 4) for ops in itertools.product(OPS, repeat=n)]
    core.run_cases(ctx, 'histories', batch_of(history), chunk(items, 10))
    core.run_cases(ctx, 'histories' + SLOW, batch_of(slow(history)), chunk(items[::4], 10))
    items = [(mode, f, mem, w, kinds) for mode in ('pdu', 'text') for f in FAULTS for mem in ('SM', 'ME') for n in (1, 2, 3) for w in range(1, n + 1)
             for kinds in itertools.product(('SM', 'ME'), repeat=n)]
    core.run_cases(ctx, 'failing steps', batch_of(faulty), chunk(items, 10))
    endurance.run(ctx, 'C15')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['unsolicited lines arrive neither inside a response nor while the modem collects a message body',
                        'text-mode bodies contain no blank lines and no line that is a final result',
                        'a message arriving while the user lists and deletes all messages of its storage is covered (and excepted) under C17']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C15', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case({'single messages': single, 'histories': history, 'failing steps': faulty}[base(payload)], payload)
