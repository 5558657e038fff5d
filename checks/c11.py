# -*- coding: utf-8 -*-
"""C11: modem error replies become the right exception and busy replies are retried."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Sim
from . import endurance
from .c01 import chunk

BUSY = {515, 14}
SPECIAL = {('CME', 11): 'PinRequiredError', ('CME', 16): 'IncorrectPinError', ('CME', 12): 'PukRequiredError', ('CMS', 330): 'SmscNumberUnknownError'}


def outcome(fn, *a, **k):
    exc = loader.load_exceptions()
    try:
        return 'ok', fn(*a, **k)
    except exc.GsmModemException as e:
        return 'exc', e


def expected(lines, cmd, raw):
    """What write() must do with this reply (a non-busy one)."""
    last = lines[-1]
    if raw or last == 'OK' or last == '> ':
        return ('ok', lines)
    if last.startswith('+CM'):
        kind, code = last[1:4], int(last.split(':')[1])
        return ('exc', SPECIAL.get((kind, code), {'CME': 'CmeError', 'CMS': 'CmsError'}[kind]), kind, code)
    return ('exc', 'CommandError', None, None)


def compare(got, want, cmd, what):
    exc = loader.load_exceptions()
    if want[0] == 'ok':
        if got != want:
            raise Violation('%s gave %r instead of %r' % (what, got, want), key='result')
        return
    if got[0] == 'ok':
        raise Violation('%s returned %r instead of raising %s' % (what, got[1], want[1]), key='not-raised')
    e = got[1]
    cls, kind, code = want[1:]
    if type(e) is not getattr(exc, cls):
        raise Violation('%s raised %s instead of %s' % (what, type(e).__name__, cls), key='class')
    if e.type != kind or e.code != code:
        raise Violation('%s raised %s with type %r, code %r' % (what, cls, e.type, e.code), key='code')
    if not (e.command == cmd or kind is None and str(e.command).startswith(cmd)):
        raise Violation('%s raised %s for command %r' % (what, cls, e.command), key='command')


class Script(object):
    """Answers the command under test with a sequence of replies; records when it arrived."""

    def __init__(self, env, sim, cmd, replies):
        self.env, self.cmd, self.replies, self.times = env, cmd, list(replies), []
        sim.intercepts.append(self)

    def __call__(self, cmd):
        if cmd != self.cmd:
            return None
        self.times.append(self.env.now())
        if not self.replies:
            raise Violation('the modem received %r %d times' % (cmd, len(self.times)), key='sent-again')
        r = self.replies.pop(0)
        return r


def one(env, b, cmd, replies, raw, prompt=False):
    s = Script(env, b.sim, cmd, ['\r\n'.join([''] + r + ['']) if r[-1] != '> ' else '\r\n> ' for r in replies])
    n, t0 = len(b.sim.log), env.now()
    kw = {'expectedResponseTermSeq': '> '} if prompt else {}
    got = outcome(b.m.write, cmd, parseError=not raw, **kw)
    b.sim.intercepts.remove(s)
    what = 'replies %r (%s)' % (replies, 'raw' if raw else 'parsed')
    compare(got, expected(replies[0] if raw else replies[-1], cmd, raw), cmd, what)
    if b.sim.log[n:] != [cmd] * (1 if raw else len(replies)):
        raise Violation('%s: the modem received %r' % (what, b.sim.log[n:]), key='wire')
    if env.now() - t0 > 0.5 and (raw or len(replies) == 1):
        raise Violation('%s: answered at once, returned after %.1f s' % (what, env.now() - t0), key='held-up')
    gaps = [y - x for x, y in zip(s.times, s.times[1:])]
    if any(g <= 0 for g in gaps) or any(y <= x + 1e-9 for x, y in zip(gaps, gaps[1:])):
        raise Violation('%s: pauses before the retries do not grow: %r' % (what, gaps), key='pauses')
    return len(gaps)


def session(work):
    def fn(env):
        b = Bed(env)
        n = 0
        for cmd, replies, raw, prompt in work:
            n += one(env, b, cmd, replies, raw, prompt)
        b.usable()
        b.close()
        return n
    return fn


def batch(items, emit):
    x = explore.run_once(session(items), (), max_steps=4000000)
    for it in items:
        emit.case(2, state=repr(it))
    emit.steps += x.steps
    if x.violation is not None:
        for it in items:       # find the case that fails
            y = explore.run_once(session([it]), ())
            if y.violation is not None:
                emit.bad(y.violation.what, [it], key=y.violation.key)
                break
        else:
            emit.bad('in a session of %d commands: %s' % (len(items), x.violation.what), items, key=x.violation.key)


def concurrent(name, plan, bound):
    """Threads issue commands; some get busy or error replies. Each must see its own final result."""
    def fn(env):
        b = Bed(env)
        for cmd, replies in plan:
            Script(env, b.sim, cmd, [list(r) for r in replies])
        got = {}
        b.sim.threaded = True
        env.quiesce()
        env.explore()
        ths = [env.spawn(lambda cmd=cmd: got.__setitem__(cmd, outcome(b.m.write, cmd)), 'client' + cmd) for cmd, _ in plan]
        if not env.wait(ths, 120):
            raise Violation('a caller is stuck', key='stuck')
        env.explore(False)
        env.settle(2)
        for cmd, replies in plan:
            compare(got[cmd], expected(list(replies[-1]), cmd, False), cmd, '%r' % cmd)
            if b.sim.log.count(cmd) != len(replies):
                raise Violation('%r was sent %d times' % (cmd, b.sim.log.count(cmd)), key='wire')
        if len(b.sim.log) != sum(len(r) for _, r in plan):
            raise Violation('the modem received %r' % b.sim.log, key='wire')
        b.usable()
        b.close()
        return sorted((c, g[0]) for c, g in got.items())
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    B5, B14, E = ['+CME ERROR: 515'], ['+CME ERROR: 14'], ['+CME ERROR: 11']
    return [
        concurrent('busy then ok, beside another command', [('AT+A', [B5, ['A', 'OK']]), ('AT+B', [['B', 'OK']])], 2 + e),
        concurrent('two busy commands', [('AT+A', [B5, ['A', 'OK']]), ('AT+B', [B14, ['B', 'OK']])], 2 + e),
        concurrent('busy then error, beside another command', [('AT+A', [B14, E]), ('AT+B', [['B', 'OK']])], 2 + e),
        concurrent('error beside another command', [('AT+A', [E]), ('AT+B', [['B', 'OK']]), ('AT+C', [['ERROR']])], 2 + e),
    ]


def cases(T):
    out = []
    for code in list(range(0, 1000)) + [1000, 4095, 65535]:
        for kind in ('CME', 'CMS'):
            r = ['+%s ERROR: %d' % (kind, code)]
            for raw in (False, True):
                if code in BUSY and not raw:
                    continue
                out.append(('AT+X', [r], raw, False))
                out.append(('AT+X=%d,"a b"' % code, [['I: 1'] + r], raw, False))
    finals = [['OK'], ['X', 'OK'], ['X', 'ERROR', ], ['ERROR'], ['COMMAND NOT SUPPORT'], ['+CME ERROR: 11'], ['+CMS ERROR: 330'], ['+CME ERROR: 16'], ['+CME ERROR: 12'], ['+CME ERROR: 3'],
              ['ERROR here', 'OK'], ['+CME ERROR: busy', 'OK'], ['A', 'B', 'C', 'OK'], ['+CMS ERROR: 500'], ['NO CARRIER', 'OK'], ['an ERROR', '+CME ERROR: 100']]
    busy = [['+CME ERROR: 515'], ['+CME ERROR: 14'], ['+CMS ERROR: 515'], ['X', '+CME ERROR: 515']]
    for f in finals:
        for raw in (False, True):
            out.append(('AT', [f], raw, False))
        for n in range(1, 5 if T else 4):
            for seq in itertools.product(busy, repeat=n):
                out.append(('AT+Y', list(seq) + [f], False, False))
    for n in range(0, 3):
        for seq in itertools.product(busy[:2], repeat=n):
            for f in (['> '], ['ERROR'], ['+CMS ERROR: 330'], ['+CME ERROR: 11']):
                out.append(('AT+CMGS=5', list(seq) + [f], False, True))
    for n in (6, 10, 15):
        out.append(('AT+Z', [['+CME ERROR: 515']] * n + [['OK']], False, False))
        out.append(('AT+Z', [['+CME ERROR: 14']] * n + [['OK']], False, False))
    for b in busy:
        out.append(('AT+R', [b], True, False))
    return out


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    cs = cases(T)
    singles = [c for c in cs if len(c[1]) == 1]
    core.run_cases(ctx, 'reply forms and busy sequences', batch, chunk(singles, 60) + [[c] for c in cs if len(c[1]) > 1])
    # histories: what one command leaves behind must not change the next one
    short = [('AT+A', [['+CME ERROR: 515'], ['OK']], False, False), ('AT+A', [['+CME ERROR: 14'], ['+CME ERROR: 11']], False, False), ('AT+A', [['A', 'OK']], False, False),
             ('AT+A', [['+CME ERROR: 515']], True, False), ('AT+A', [['ERROR']], False, False), ('AT+A', [['> ']], False, True),
             ('AT+A', [['+CME ERROR: 515'], ['+CME ERROR: 14'], ['+CMS ERROR: 330']], False, False),
             ('AT+A', [['+CME ERROR: 14'], ['+CME ERROR: 14'], ['+CME ERROR: 515'], ['OK']], False, False)]
    core.run_cases(ctx, 'histories of commands', batch, [list(h) for n in (2, 3, 4) + ((5,) if T else ()) for h in itertools.product(short, repeat=n)])
    endurance.run(ctx, 'C11')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions.append('the modem recovers after finitely many busy replies')


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C11', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    x = explore.run_once(session(payload['case']), (), trace=True)
    print(x.violation and x.violation.what)
    return 1 if x.violation else 0
