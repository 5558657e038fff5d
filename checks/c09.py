# -*- coding: utf-8 -*-
"""C09: concurrent commands each get exactly their own response."""
from mc import explore, loader
from mc.core import Violation
from mc.sim import Bed
from . import endurance
from .serial_common import Box, call


class Cmd(object):
    """A command, the reply of the modem (segments; None: no reply) and the result its caller must see."""

    def __init__(self, text, segs, result, timeout=30, prompt=None):
        self.text, self.segs, self.result, self.timeout, self.prompt = text, segs, result, timeout, prompt


def ok(name, info=1, split=False):
    lines = ['%s-%d' % (name, i) for i in range(info)]
    s = ''.join('\r\n%s\r\n' % l for l in lines) + '\r\nOK\r\n'
    return Cmd('AT' + name + '\r', [s[:len(s) // 2], s[len(s) // 2:]] if split else [s], ('ok', lines + ['OK']))


def error(name):
    return Cmd('AT' + name + '\r', ['+CME ERROR: 10\r\n'], ('ok', ['+CME ERROR: 10']))


def silent(name, timeout=2, part=None):
    return Cmd('AT' + name + '\r', [part] if part else None, ('timeout', part.split('\r\n')[:-1] if part else None), timeout=timeout)


def prompt(name):
    return Cmd('AT' + name + '\r', ['\r\n> '], ('ok', ['> ']), prompt='> ')


class Wire(object):
    """The modem's side: commands must arrive whole and one at a time."""

    def __init__(self, env, dev, cmds):
        self.env, self.dev = env, dev
        self.by_text = {c.text: c for c in cmds}
        self.buf = ''
        self.current = None      # (cmd, time written), not yet answered
        self.seen = []
        dev.on_write = self.on_write

    def on_write(self, data):
        self.buf += data
        while '\r' in self.buf:
            k = self.buf.index('\r') + 1
            text, self.buf = self.buf[:k], self.buf[k:]
            self.command(text)

    def command(self, text):
        c = self.by_text.get(text)
        if c is None:
            raise Violation('the modem received %r, which nobody sent' % text, key='mixed-commands')
        if c in self.seen:
            raise Violation('the modem received %r twice' % text, key='command-twice')
        if self.current is not None:
            p, t = self.current
            if self.env.now() < t + p.timeout - 1e-6:
                raise Violation('%r was sent although %r is neither answered nor timed out' % (text, p.text), key='overlap')
        self.seen.append(c)
        self.current = (c, self.env.now())
        if c.segs is None:
            return
        self.env.spawn(lambda: self.answer(c), 'modem')

    def answer(self, c):
        for i, s in enumerate(c.segs):
            if i:
                self.env.point('gap')
            if i == len(c.segs) - 1 and c.result[0] == 'ok':
                self.current = None
            self.dev.push(s)


def concurrent(name, plans, bound):
    """plans: per thread, the commands it issues one after the other."""
    def fn(env):
        b = Box(env)
        w = Wire(env, b.dev, [c for p in plans for c in p])
        got = {}

        def client(cmds):
            def go():
                for c in cmds:
                    t0 = env.now()
                    r = call(b.sc.write, c.text, timeout=c.timeout, **({'expectedResponseTermSeq': c.prompt} if c.prompt else {}))
                    got[c.text] = (r, env.now() - t0)
            return go

        env.quiesce()
        env.explore()
        ts = [env.spawn(client(p), 'client%d' % i) for i, p in enumerate(plans)]
        if not env.wait(ts, 300):
            raise Violation('a caller still waits after 300 s; finished: %r' % sorted(got), key='stuck')
        env.quiesce()
        env.explore(False)
        env.settle(4)
        for p in plans:
            for c in p:
                if got[c.text][0] != c.result:
                    raise Violation('%r returned %r instead of %r (arrival order %r)' % (c.text, got[c.text][0], c.result, [x.text for x in w.seen]), key='wrong-response')
        if [x.text for x in w.seen if x in plans[0]] != [c.text for c in plans[0]]:
            raise Violation('commands of one thread arrived out of order', key='order')
        if b.notes:
            raise Violation('notifications %r although the modem only sent responses' % (b.notes,), key='notifications')
        b.check_alive()
        b.probe()
        b.sc.close()
        return tuple(x.text for x in w.seen)
    return explore.Harness(name, fn, bound=bound)


def nowait(name, bound):
    """A command sent without waiting for its response, while another thread waits for its own."""
    def fn(env):
        b = Box(env)
        a, x = ok('A'), Cmd('ATX\r', None, None)
        w = Wire(env, b.dev, [a, x])
        got = []
        env.quiesce()
        env.explore()
        x.timeout = 0        # nothing has to wait for it
        t1 = env.spawn(lambda: got.append(call(b.sc.write, a.text, timeout=30)), 'waiting')
        t2 = env.spawn(lambda: got.append(call(b.sc.write, x.text, waitForResponse=False)), 'not waiting')
        if not env.wait([t1, t2], 100):
            raise Violation('a caller is stuck', key='stuck')
        env.explore(False)
        env.settle(3)
        if sorted(got, key=repr) != sorted([a.result, ('ok', None)], key=repr) or b.notes:
            raise Violation('results %r, notifications %r' % (got, b.notes), key='wrong-response')
        b.probe()
        b.sc.close()
        return tuple(c.text for c in w.seen)
    return explore.Harness(name, fn, bound=bound)


class ModemWire(object):
    """The far side of a whole modem object: whole commands, one at a time; busy: replies of "busy" before the real one."""

    def __init__(self, env, dev, cmds, busy=()):
        self.env, self.dev, self.buf = env, dev, ''
        self.cmds = {c.text: c for c in cmds}
        self.busy = dict(busy)
        self.open = None
        self.seen = []
        dev.on_write = self.on_write

    def on_write(self, data):
        self.buf += data
        while '\r' in self.buf:
            k = self.buf.index('\r') + 1
            text, self.buf = self.buf[:k], self.buf[k:]
            c = self.cmds.get(text)
            if c is None:
                raise Violation('the modem received %r, which nobody sent' % text[:200], key='mixed-commands')
            if self.open is not None and self.env.now() < self.open[1] + self.open[0].timeout - 1e-6:
                raise Violation('%r was sent although %r is neither answered nor timed out' % (text[:60], self.open[0].text[:60]), key='overlap')
            self.seen.append(c)
            self.open = (c, self.env.now())
            if c.segs is None:
                continue
            code = self.busy.get(text)
            if code:
                n, err = code
                self.busy[text] = (n - 1, err) if n > 1 else None
                self.env.spawn(lambda: self.answer(['\r\n%s\r\n' % err]), 'modem')
            else:
                self.env.spawn(lambda c=c: self.answer(c.segs), 'modem')

    def answer(self, segs):
        for i, s in enumerate(segs):
            if i:
                self.env.point('gap')
            else:
                self.env.point('modem answers')
            if i == len(segs) - 1:
                self.open = None
            self.dev.push(s)


def on_modem(name, plans, bound, busy=(), nowait=()):
    """Threads using one GsmModem object."""
    def fn(env):
        bed = Bed(env)
        sim, m = bed.sim, bed.m
        old = sim.on_write
        w = ModemWire(env, sim, [c for p in plans for c in p], busy)
        got = {}

        def client(cmds):
            def go():
                for c in cmds:
                    kw = {'expectedResponseTermSeq': c.prompt} if c.prompt else {}
                    if c.text in nowait:
                        kw['waitForResponse'] = False
                    try:
                        got[c.text] = call(m.write, c.text[:-1], timeout=c.timeout, **kw)
                    except bed.mod.CommandError as e:
                        got[c.text] = ('error', e.type, e.code, e.command)
            return go
        env.quiesce()
        env.explore()
        ts = [env.spawn(client(p), 'client%d' % i) for i, p in enumerate(plans)]
        if not env.wait(ts, 300):
            raise Violation('a caller still waits after 300 s; finished: %r' % sorted(got), key='stuck')
        env.quiesce()
        env.explore(False)
        env.settle(4)
        for p in plans:
            for c in p:
                want = ('ok', None) if c.text in nowait else c.result
                if got[c.text] != want:
                    raise Violation('%r gave %r instead of %r (arrival order %r)' % (c.text[:60], got[c.text], want, [x.text[:60] for x in w.seen]), key='wrong-response')
        once = {}
        for c in w.seen:
            once[c.text] = once.get(c.text, 0) + 1
        for p in plans:
            for c in p:
                n = 1 + (dict(busy).get(c.text) or (0,))[0]
                if once.get(c.text) != n:
                    raise Violation('%r was sent %r times instead of %d' % (c.text[:60], once.get(c.text), n), key='command-twice')
            first = []
            for c in w.seen:
                if c in p and c not in first:
                    first.append(c)
            if first != p:
                raise Violation('commands of one thread arrived out of order', key='order')
        if w.buf:
            raise Violation('%r is left over at the modem' % w.buf, key='mixed-commands')
        sim.on_write = old
        bed.usable()
        bed.close()
        return tuple(x.text[:12] for x in w.seen)
    return explore.Harness(name, fn, bound=bound)


def refused(name, line='+CME ERROR: 10'):
    return Cmd('AT' + name + '\r', ['\r\n%s\r\n' % line], ('error',) + ((line[1:4], int(line.split()[-1])) if line[0] == '+' else (None, None)) + ('AT' + name,))


def modem_harnesses(T):
    e = 1 if T else 0
    long = 'LONG=' + 'x' * 300
    return [
        on_modem('modem: long and short command', [[ok(long)], [ok('B')]], 2 + e),
        on_modem('modem: two long commands', [[ok(long)], [ok(long + 'y')]], 2 + e),
        on_modem('modem: refused and successful', [[refused('A'), ok('A2')], [ok('B'), refused('B2', 'ERROR')]], 2 + e),
        on_modem('modem: busy for one', [[ok('A')], [ok('B'), ok('B2')]], 2 + e, busy=[('ATA\r', (2, '+CME ERROR: 515'))]),
        on_modem('modem: busy for both', [[ok('A')], [ok('B')]], 2 + e, busy=[('ATA\r', (1, '+CMS ERROR: 515')), ('ATB\r', (2, '+CME ERROR: 14'))]),
        on_modem('modem: not waiting', [[ok('A', 1, True)], [Cmd('ATX\r', None, None, timeout=0)]], 2 + e, nowait=['ATX\r']),
        on_modem('modem: prompt', [[prompt('A'), ok('A2')], [ok('B'), refused('B2')]], 2 + e),
        on_modem('modem: unanswered', [[silent('A'), ok('A2')], [ok('B')]], 2 + e),
        on_modem('modem: three threads', [[ok('A')], [refused('B', '+CMS ERROR: 500')], [ok('C', 2)]], 2 + e),
    ]


def harnesses(T):
    e = 2 if T else 1
    hs = [
        concurrent('two threads, one command each', [[ok('A')], [ok('B', 2)]], 3 + e - (not T)),
        concurrent('two threads, two commands each', [[ok('A1'), ok('A2')], [ok('B1'), ok('B2')]], 2 + e),
        concurrent('three threads', [[ok('A')], [ok('B')], [error('C')]], 2 + e - (not T)),
        concurrent('answers in pieces', [[ok('A', 2, True)], [ok('B', 1, True)]], 2 + e),
        concurrent('error and success', [[error('A'), ok('A2')], [ok('B'), error('B2')]], 2 + e),
        concurrent('prompt and command', [[prompt('A'), ok('A2')], [ok('B')]], 2 + e),
        concurrent('two prompts', [[prompt('A'), ok('A2')], [prompt('B'), ok('B2')]], 2 + e),
        concurrent('one command is never answered', [[silent('A'), ok('A2')], [ok('B')]], 2 + e),
        concurrent('one command is partly answered', [[silent('A', part='PART\r\n'), ok('A2')], [ok('B')]], 2 + e),
        concurrent('unanswered prompt command', [[Cmd('ATP\r', None, ('timeout', None), 2, '> '), ok('A2')], [ok('B', 1)]], 2 + e),
        nowait('a command that does not wait', 2 + e),
    ]
    if T:
        hs += [concurrent('three threads, two commands each', [[ok('A1'), ok('A2')], [ok('B1'), ok('B2')], [ok('C1'), ok('C2')]], 3),
               concurrent('four threads', [[ok('A')], [ok('B')], [ok('C')], [prompt('D'), ok('D2')]], 3)]
    return hs + modem_harnesses(T)


def run(ctx):
    loader.load_serial_comms()
    endurance.run(ctx, 'C09')
    explore.explore_many(ctx, harnesses(ctx.thorough))
    ctx.assumptions += ['the modem answers every command it answers at all within the timeout', 'a modem that did not answer in time does not answer later']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C09', payload)
    return explore.replay_harness(harnesses(True) + harnesses(False), payload)
