# -*- coding: utf-8 -*-
"""C22: USSD requests return their own reply and session state."""
import itertools
import re

from mc import core, explore, loader
from mc.core import Violation
from mc.sim import Bed, Msg, Sim
from . import endurance
from .c01 import chunk
from .modem_common import TS, batch_of, replay_case, view

TEXTS = ['Balance: R1.50', '', '1', 'a "quoted" word', 'x,y;z', u'\u20ac10 \u00e9', '1) One\r\n2) Two', 'Menu:\r\n1. A\r\n2. B\r\n3. C', '+CMTI: in\r\ntext, "x"',
         'many words ' * 14, 'Dial *123#\r\nor *5#']
RELEASES = ['+CUSD: 2', '+CUSD: 2,"",15', '+CUSD: 2,"Session ended",15']


def cusd(code, text=None, dcs=15, form=0):
    head = '+CUSD:%s%s' % ('' if form == 1 else ' ', code)
    return head if text is None else '%s,"%s",%d' % (head, text, dcs)


def line(l):
    return '\r\n%s\r\n' % l


class World(object):
    def __init__(self, env, family='generic', threaded=False, mode='pdu'):
        self.env = env
        self.b = Bed(env, sim=Sim(env, family=family), text=mode == 'text')
        self.s, self.m = self.b.sim, self.b.m
        self.script = {}
        self.asked = []                 # USSD strings that reached the modem
        self.cancels = 0
        self.refuse = None              # the modem's answer to a cancellation
        self.s.cmd_CUSD = self.on_cusd
        env.quiesce()

    def on_cusd(self, a):
        if a == '=2':
            self.cancels += 1
            return [self.refuse or 'OK']
        q = re.match(r'^=1,"(.*)"(?:,\d+)?$', a)
        if not q:
            return ['ERROR']
        self.asked.append(q.group(1))
        return self.script[q.group(1)]()

    def play(self, plan):
        """plan: [(time after the command, raw text)]; the first ones at time 0 are sent at once."""
        env, s = self.env, self.s

        def go():
            t = 0.0
            for at, raw in plan:
                if at > t:
                    env.sleep(at - t)
                    t = at
                s.push(raw)
        if plan and plan[-1][0] == 0:
            go()
        elif plan:
            env.spawn(go, 'network')
        return None


def ask(w, fn, timeout_ok=False):
    exc = loader.load_exceptions()
    t = w.env.now()
    try:
        u = fn()
    except exc.CommandError as e:
        return ('error', type(e).__name__, e.type, e.code), None, w.env.now() - t
    except exc.TimeoutException:
        return ('timeout',), None, w.env.now() - t
    except exc.InvalidStateException:
        return ('invalid',), None, w.env.now() - t
    return ('reply', u.message), u, w.env.now() - t


def again(w, q='*again#', text='second'):
    """A request afterwards must work normally."""
    w.script[q] = lambda: ['OK', cusd(1, text)] if len(w.asked) % 2 else w.play([(0, line('OK')), (0.3, line(cusd(1, text)))])
    r, u, dt = ask(w, lambda: w.m.sendUssd(q))
    if r != ('reply', text) or not u.sessionActive:
        raise Violation('a request afterwards gave %r (session %r), expected %r' % (r, u and u.sessionActive, text), key='again')
    if w.asked[-1] != q:
        raise Violation('the modem was asked for %r, not %r' % (w.asked[-1], q), key='asked')


def finish(w):
    w.env.settle(4)
    if w.b.sms or w.b.calls or w.b.reports:
        raise Violation('callbacks out of nowhere', key='callbacks')
    w.b.usable()
    if w.s.mixed:
        raise Violation('garbled command %r' % w.s.mixed[0], key='garbled')
    w.b.close()


# ------------------------------------------------------------------ one request: every order, grouping and content
def request(item):
    """item: (order, gaps, code, text or None, release form, family, T, query)"""
    order, gaps, code, text, rel, family, T, q = item

    def fn(env):
        w = World(env, family)
        parts = dict(ack='OK', rep=cusd(code, text), rel=RELEASES[rel])
        t, plan = 0.0, []
        for part, gap in zip(order, gaps):
            t += gap
            raw = line(parts[part])
            if plan and gap == 0:
                plan[-1] = (t, plan[-1][1] + raw)
            else:
                plan.append((t, raw))
        w.script[q] = lambda: w.play(plan)
        if T is None:
            r, u, dt = ask(w, lambda: w.m.sendUssd(q))
        else:
            r, u, dt = ask(w, lambda: w.m.sendUssd(q, responseTimeout=T))
        if w.asked != [q]:
            raise Violation('the modem was asked for %r instead of %r' % (w.asked, q), key='asked')
        if r != ('reply', text):
            raise Violation('sendUssd gave %r instead of the reply %r' % (r, text), key='reply')
        if dt > t + 3:
            raise Violation('sendUssd took %.1f s although all had come after %.1f s' % (dt, t), key='slow')
        if code != 1 and u.sessionActive:
            raise Violation('the session is open after code %s' % code, key='session')
        if code == 1 and 'rel' not in order and not u.sessionActive:
            raise Violation('the session is closed although the network expects a reply', key='session')
        env.settle(t + 3)
        if 'rel' in order and order.index('rel') > order.index('rep') and u.sessionActive:
            raise Violation('the session is still open after its release', key='release')
        if 'rel' not in order and u.sessionActive != (code == 1):
            raise Violation('the session state changed by itself to %r' % u.sessionActive, key='session')
        # whatever is open can be answered and cancelled, whatever is closed cannot
        n = len(w.s.log)
        if u.sessionActive:
            w.script['1'] = lambda: ['OK', cusd(0, 'bye')]
            r2, u2, _ = ask(w, lambda: u.reply('1'))
            if r2 != ('reply', 'bye') or u2.sessionActive or u.sessionActive:
                raise Violation('reply in an open session: %r, session %r/%r' % (r2, u2 and u2.sessionActive, u.sessionActive), key='reply-open')
            if w.asked[-1] != '1':
                raise Violation('reply sent %r' % w.asked[-1], key='asked')
            n = len(w.s.log)
        r3, _, _ = ask(w, lambda: u.reply('1'))
        if r3 != ('invalid',) or len(w.s.log) != n:
            raise Violation('reply in a closed session: %r, sent %r' % (r3, w.s.log[n:]), key='reply-closed')
        u.cancel()
        if len(w.s.log) != n:
            raise Violation('cancel of a closed session sent %r' % w.s.log[n:], key='cancel-closed')
        again(w)
        finish(w)
        return r
    return fn


# ------------------------------------------------------------------ failures
def failing(item):
    """item: (kind, arg, T, then)"""
    kind, arg, T, then = item

    def fn(env):
        w = World(env)
        q = '*100#'
        late = None
        if kind == 'error':
            w.script[q] = lambda: [arg]
        elif kind == 'silent':
            w.script[q] = lambda: None
        elif kind == 'ack':
            w.script[q] = lambda: w.play([(arg, line('OK'))])
        elif kind == 'late':            # the reply comes when nobody waits any more
            late = T + arg
            w.script[q] = lambda: w.play([(0, line('OK')), (late, line(cusd(1, 'late')))])
        elif kind == 'late-release':
            late = T + arg
            w.script[q] = lambda: w.play([(0, line('OK')), (late, line(cusd(0, 'late')) + line('+CUSD: 2'))])
        r, u, dt = ask(w, lambda: w.m.sendUssd(q, responseTimeout=T))
        if kind == 'error':
            m = re.match(r'^(?:\+(CME|CMS) ERROR: (\d+)|ERROR)$', arg)
            exp = (m.group(1), int(m.group(2)) if m.group(2) else None)
            if r[0] != 'error' or r[2:] != exp:
                raise Violation('the failure %r of the command gave %r' % (arg, r), key='error')
            if dt > 1:
                raise Violation('a refused request took %.1f s' % dt, key='slow')
        else:
            if r != ('timeout',):
                raise Violation('no reply came, but sendUssd gave %r' % (r,), key='timeout')
            low = T if kind != 'ack' else T
            if dt < low - 0.05 or dt > 2 * T + 1:
                raise Violation('sendUssd(responseTimeout=%s) gave up after %.2f s' % (T, dt), key='duration')
            if kind in ('late', 'late-release') and dt > T + 1:
                raise Violation('sendUssd(responseTimeout=%s) gave up after %.2f s' % (T, dt), key='duration')
        env.settle(3 * T + 5 + (late or 0))
        for i in range(then):
            again(w, '*%d#' % i, 'answer %d' % i)
            env.settle(2)
        finish(w)
        return r
    return fn


# ------------------------------------------------------------------ session histories
OPS = ['send1', 'send0', 'reply1', 'reply0', 'cancel', 'release', 'push0', 'push1', 'fail', 'nothing', 'replyold', 'cmd', 'cancelfail', 'replyfail']


def history(item):
    ops, style = item

    def fn(env):
        w = World(env)
        n = [0]
        cur, old = None, None
        open_ = False                  # of cur; None: not specified

        def answering(code):
            n[0] += 1
            text = 'text %d' % n[0]
            q = '*%d#' % n[0]
            if style == 'after':
                w.script[q] = lambda: w.play([(0, line('OK')), (0.7, line(cusd(code, text)))])
            elif style == 'before':
                w.script[q] = lambda: [cusd(code, text), 'OK']
            else:
                w.script[q] = lambda: ['OK', cusd(code, text)]
            return q, text
        for op in ops:
            a, c, lg = len(w.asked), w.cancels, len(w.s.log)
            if op in ('send1', 'send0'):
                q, text = answering(int(op[-1]))
                r, u, _ = ask(w, lambda: w.m.sendUssd(q))
                if r != ('reply', text) or w.asked[a:] != [q]:
                    raise Violation('%s: got %r, asked %r' % (op, r, w.asked[a:]), key='send')
                cur, old, open_ = u, None, op == 'send1'
            elif op in ('reply1', 'reply0') and cur is not None and open_ is not None:
                q, text = answering(int(op[-1]))
                r, u, _ = ask(w, lambda: cur.reply(q))
                if not open_:
                    if r != ('invalid',) or len(w.s.log) != lg:
                        raise Violation('reply in a closed session gave %r and sent %r' % (r, w.s.log[lg:]), key='reply-closed')
                else:
                    if r != ('reply', text) or w.asked[a:] != [q]:
                        raise Violation('reply in an open session gave %r, asked %r' % (r, w.asked[a:]), key='reply-open')
                    if cur.sessionActive != (op == 'reply1'):
                        raise Violation('after a reply with code %s the session of the first message is %r' % (op[-1], cur.sessionActive), key='session')
                    old, cur, open_ = cur, u, op == 'reply1'
            elif op == 'replyold' and old is not None and open_ is False and not old.sessionActive:
                r, u, _ = ask(w, lambda: old.reply('x'))
                if r != ('invalid',) or len(w.s.log) != lg:
                    raise Violation('reply in a closed session gave %r' % (r,), key='reply-closed')
            elif op == 'cancel' and cur is not None and open_ is not None:
                cur.cancel()
                if w.cancels - c != (1 if open_ else 0) or len(w.s.log) - lg != w.cancels - c:
                    raise Violation('cancel of a session that is %s sent %r' % ('open' if open_ else 'closed', w.s.log[lg:]), key='cancel')
                open_ = False
            elif op == 'cancelfail' and cur is not None and open_:
                w.refuse = '+CME ERROR: 100'
                try:
                    r, _, _ = ask(w, cur.cancel)
                except AttributeError:
                    r = ('no error',)
                w.refuse = None
                if r[0] != 'error' or r[3] != 100 or w.cancels - c != 1:
                    raise Violation('a refused cancellation gave %r' % (r,), key='cancel-refused')
            elif op == 'replyfail' and cur is not None and open_:
                w.script['no'] = lambda: ['+CME ERROR: 30']
                r, _, _ = ask(w, lambda: cur.reply('no'))
                if r[0] != 'error' or r[3] != 30 or w.asked[a:] != ['no']:
                    raise Violation('a refused reply gave %r' % (r,), key='reply-refused')
                open_ = None
            elif op == 'release':
                w.s.urc('+CUSD: 2')
                env.settle(2)
                open_ = False if cur is not None else None
            elif op == 'push0' and not open_:
                w.s.urc(cusd(0, 'pushed'))
                env.settle(2)
            elif op == 'push1' and not open_:
                w.s.urc(cusd(1, 'pushed\r\nmore'))
                env.settle(2)
            elif op == 'fail':
                w.script['*fail#'] = lambda: ['+CME ERROR: 30']
                r, u, _ = ask(w, lambda: w.m.sendUssd('*fail#'))
                if r[0] != 'error' or r[3] != 30:
                    raise Violation('a refused request gave %r' % (r,), key='error')
                cur = None             # what becomes of the earlier session is not specified
            elif op == 'nothing':
                w.script['*no#'] = lambda: ['OK']
                r, u, dt = ask(w, lambda: w.m.sendUssd('*no#', 2))
                if r != ('timeout',) or dt > 5:
                    raise Violation('an unanswered request gave %r after %.1f s' % (r, dt), key='timeout')
                cur = None
            elif op == 'cmd':
                if w.m.write('AT+CGMM') != ['Model 7', 'OK']:
                    raise Violation('a command in between got a wrong response', key='command')
            if cur is not None and open_ is not None and cur.sessionActive != open_:
                raise Violation('after %s the session is %r instead of %r' % (op, cur.sessionActive, open_), key='session')
        again(w)
        finish(w)
        return n[0]
    return fn


# ------------------------------------------------------------------ schedules
def sched(name, shape, queries=('*1#',), bound=2, extra=None, code=1, text='reply to %s', cmd=None, T=15):
    """shape: order of the pieces, '|' separates pieces sent on their own, e.g. 'ack|rep', 'rep+ack', 'ack+rep|rel'."""
    def fn(env):
        w = World(env)
        s = w.s

        def script(q):
            parts = dict(ack='OK', rep=cusd(code, text % q if '%' in text else text), rel='+CUSD: 2')

            def go():
                for g in shape.split('|'):
                    s.busy = False
                    for p in g.split('+'):
                        s.push(line(parts[p]))
                    if 'ack' in g or 'rel' in g:
                        s.flush_urcs()
                    env.point('network')

            def start():
                s.busy = True
                env.spawn(go, 'network')
                return None
            w.script[q] = start
        for q in queries:
            script(q)
        out, resp = {}, []

        def send(q):
            out[q] = ask(w, lambda: w.m.sendUssd(q, T))
        env.explore()
        ths = [env.spawn(lambda q=q: send(q), 'user' + q) for q in queries]
        if extra:
            msg = Msg(text='hi', ts=TS[0])
            ths.append(env.spawn(lambda: s.receive('SM', msg), 'sms'))
        if cmd:
            ths.append(env.spawn(lambda: resp.append(w.m.write(cmd)), 'cmd'))
        env.wait(ths)
        env.quiesce()
        env.sleep(1.5)
        env.quiesce()
        env.explore(False)
        env.settle(3)
        for q in queries:
            r, u, dt = out[q]
            exp = text % q if '%' in text else text
            if r != ('reply', exp):
                raise Violation('sendUssd(%r) gave %r' % (q, r), key='reply')
            if u.sessionActive != (code == 1 and 'rel' not in shape):
                # of several requests only the last one's session can still be open
                if len(queries) == 1 or u.sessionActive:
                    raise Violation('session state %r' % u.sessionActive, key='session')
        if sorted(w.asked) != sorted(queries):
            raise Violation('asked %r' % w.asked, key='asked')
        if cmd and resp != [['Model 7', 'OK']]:
            raise Violation('the command got %r' % resp, key='command')
        if extra:
            got = [view(w.b.mod, x)[:4] for x in w.b.sms]
            if len(got) != 1:
                raise Violation('%d messages handed over instead of one' % len(got), key='sms')
            del w.b.sms[:]
        again(w)
        finish(w)
        return [out[q][0] for q in queries]
    return explore.Harness(name, fn, bound=bound)


def race(name, delta, bound=2, code=1):
    """The reply comes when the sender's patience ends."""
    def fn(env):
        w = World(env)
        s = w.s
        w.script['*1#'] = lambda: w.play([(0, line('OK')), (2 + delta, line(cusd(code, 'just')))])
        env.explore()
        r, u, dt = ask(w, lambda: w.m.sendUssd('*1#', 2))
        env.quiesce()
        env.sleep(1)
        env.quiesce()
        env.explore(False)
        if r == ('reply', 'just'):
            if u.sessionActive != (code == 1):
                raise Violation('session state %r' % u.sessionActive, key='session')
        elif r != ('timeout',):
            raise Violation('sendUssd gave %r' % (r,), key='reply')
        env.settle(2)
        again(w)
        finish(w)
        return r
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('reply after the acknowledgement', 'ack|rep', bound=3 + e),
        sched('reply right behind the acknowledgement', 'ack+rep', bound=2 + e),
        sched('reply before the acknowledgement', 'rep|ack', bound=2 + e),
        sched('reply in front of the acknowledgement', 'rep+ack', bound=2 + e),
        sched('reply and then a release', 'ack|rep|rel', bound=2 + e),
        sched('reply and release together', 'ack|rep+rel', bound=2 + e, code=0),
        sched('release before the reply', 'ack|rel+rep', bound=2 + e, code=0),
        sched('multi-line reply', 'ack|rep', bound=2 + e, text='1) %s\r\n2) more'),
        sched('multi-line reply before the acknowledgement', 'rep|ack', bound=2 + e, text='1) %s\r\n2) more'),
        sched('reply and an arriving message', 'ack|rep', bound=2 + e, extra=True),
        sched('early reply and an arriving message', 'rep+ack', bound=2 + e, extra=True),
        sched('reply and a command', 'ack|rep', bound=2 + e, cmd='AT+CGMM'),
        sched('two requests', 'ack|rep', ('*1#', '*2#'), bound=1 + e),
        sched('two requests, early replies', 'rep+ack', ('*1#', '*2#'), bound=1 + e, code=0),
        race('reply just when the time is up', 0.0, bound=2 + e),
        race('reply just before the time is up', -0.0001, bound=2 + e, code=0),
    ]


def orders():
    out = []
    for o in itertools.permutations(('ack', 'rep')):
        out.append(o)
    for o in itertools.permutations(('ack', 'rep', 'rel')):
        out.append(o)
    return out


def request_items(T):
    items = []
    for o in orders():
        for gaps in itertools.product((0, 0.1, 2.5), repeat=len(o)):
            if 'rel' in o and o.index('rel') < o.index('rep'):
                # a release in front of the reply is only recognised as one of the same burst, or as part of the response
                between = o[o.index('rel') + 1:o.index('rep') + 1]
                if gaps[o.index('rep')] > 0.1 or ('ack' in between) or (o[0] != 'ack' and 'rel' == o[0] and gaps[1] > 0.1):
                    continue
            for code in (0, 1, 2, 4):
                if 'rel' in o and code == 2:
                    continue
                if 'rel' in o and o.index('rel') < o.index('rep') and code == 1:
                    continue
                for text in (TEXTS if T else TEXTS[:1] + TEXTS[6:7]):
                    for rel in (range(3) if 'rel' in o else (0,)):
                        for fam in (('generic', 'huawei') if T or sum(gaps) == 0 else ('generic',)):
                            items.append((o, gaps, code, text, rel, fam, None, '*100#'))
    # contents
    for text in TEXTS:
        for o in orders()[:2]:
            for code in (0, 1, 2, 3, 4, 5):
                for q in ('*100#', '#31#', '1', '*120*3279#', '0', 'yes please'):
                    items.append((o, (0, 0.1), code, text, 0, 'generic', None, q))
    for code in (0, 2, 3, 4, 5):                    # no text at all
        for o in orders()[:2]:
            for g in (0, 0.1, 2.5):
                items.append((o, (0, g), code, None, 0, 'generic', None, '*100#'))
    # timeouts that are just long enough
    for to in (1, 3, 20, 40):
        for ack, rep in itertools.product((0.0, 0.5, 0.9), repeat=2):
            items.append((('ack', 'rep'), (ack * to, rep * to), 1, 'in time', 0, 'generic', to, '*100#'))
            if ack + rep < 1:
                items.append((('rep', 'ack'), (ack * to, rep * to), 1, 'in time', 0, 'generic', to, '*100#'))
    seen, out = set(), []
    for it in items:
        if repr(it) not in seen:
            seen.add(repr(it))
            out.append(it)
    return out


def fail_items(T):
    errors = ['ERROR', '+CME ERROR: 0', '+CME ERROR: 30', '+CME ERROR: 100', '+CMS ERROR: 500', '+CME ERROR: 258', '+CMS ERROR: 302']
    items = [('error', e, to, n) for e in errors for to in (2, 15) for n in (1, 2)]
    for to in (1, 2, 15, 30):
        for n in (1, 2):
            items += [('silent', 0, to, n), ('ack', 0, to, n), ('ack', to * 0.5, to, n), ('ack', to * 0.9, to, n)]
            items += [(k, d, to, n) for k in ('late', 'late-release') for d in (0.5, 1.5, 4)]
    return items


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    core.run_cases(ctx, 'one request', batch_of(request), chunk(request_items(T), 20))
    core.run_cases(ctx, 'failing requests', batch_of(failing), chunk(fail_items(T), 5))
    items = [(ops, st) for n in range(1, 5 if T else 4) for ops in itertools.product(OPS, repeat=n) for st in ('after', 'before', 'behind')
             if st == 'after' or any(o[-1] in '01' for o in ops)]
    core.run_cases(ctx, 'session histories', batch_of(history), chunk(items, 20))
    endurance.run(ctx, 'C22')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['a reply that comes too late does not come while the next request is waiting for its own',
                        'a release in front of the reply arrives in the same burst; the lines of one multi-line reply arrive without silence between them',
                        'a text line of a reply does not end in `",<digits>`; blank lines inside a reply are not specified']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C22', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case({'one request': request, 'failing requests': failing, 'session histories': history}[payload['part']], payload)
