# -*- coding: utf-8 -*-
"""C08: each line the modem sends is delivered exactly once, however it is chunked."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from .serial_common import Box, call, is_final, lines_of, split_ok
from . import endurance
from .c01 import chunk

# ------------------------------------------------------------------ segmentations, one deterministic execution each


def cuts(n, kinds, maxcuts=None):
    """All ways to cut a stream of n characters: tuples of kinds (0 no cut, 1 reader drains, 2 read timeout) per gap."""
    if maxcuts is None:
        for t in itertools.product(range(kinds), repeat=max(0, n - 1)):
            yield t
    else:
        for k in range(maxcuts + 1):
            for ps in itertools.combinations(range(n - 1), k):
                for ks in itertools.product(range(1, kinds), repeat=k):
                    t = [0] * (n - 1)
                    for p, v in zip(ps, ks):
                        t[p] = v
                    yield tuple(t)


def feed(env, dev, stream, cut):
    start = 0
    for i in range(len(stream)):
        k = cut[i] if i < len(cut) else 0
        if k or i == len(stream) - 1:
            dev.push(stream[start:i + 1])
            start = i + 1
            if k == 1:
                env.quiesce()
            elif k == 2:
                env.sleep(1.3)
                env.quiesce()


def idle_case(stream, cut, tail):
    def fn(env):
        b = Box(env)
        feed(env, b.dev, stream, cut)
        env.settle(4)
        want = lines_of(stream)
        if b.noted() != want:
            raise Violation('lines %r were reported as %r' % (want, b.notes))
        if tail:
            feed(env, b.dev, tail, ())
            env.settle(4)
            want = lines_of(stream + tail)
            if b.noted() != want:
                raise Violation('lines %r were reported as %r' % (want, b.notes))
        b.check_alive()
        b.sc.close()
        return len(b.notes)
    return fn


def prompt_at(stream, prompt):
    """Where the expected prompt is: right at the start of a line."""
    k = 0
    while not stream.startswith(prompt, k):
        k = stream.index('\r\n', k) + 2
    return k


def busy_case(before, stream, cut, prompt):
    """before arrives (and is read) before the command, stream is what the modem sends in reply."""
    def fn(env):
        b = Box(env)
        b.dev.on_write = lambda data: env.spawn(lambda: feed(env, b.dev, stream, cut), 'modem')
        if before:
            b.dev.push(before)
            env.settle(2)
        r = call(b.sc.write, 'ATX\r', timeout=600, **({'expectedResponseTermSeq': prompt} if prompt else {}))
        env.settle(600)
        pre = lines_of(before)
        if prompt:
            k = prompt_at(stream, prompt)
            want = lines_of(stream[:k]) + [prompt]
            rest = lines_of(stream[k + len(prompt):])
        else:
            ls = lines_of(stream)
            j = next(i for i, l in enumerate(ls) if is_final(l))
            want, rest = ls[:j + 1], ls[j + 1:]
        if r != ('ok', want):
            raise Violation('reply %r gave %r instead of %r' % (stream, r, want))
        if b.noted() != pre + rest:
            raise Violation('lines outside the response %r were reported as %r' % (pre + rest, b.notes))
        b.check_alive()
        b.sc.close()
        return len(b.notes)
    return fn


def run_case(emit, fn, desc):
    x = explore.run_once(fn, ())
    emit.case(x.steps, state=(desc[0], repr(x.outcome)))
    if x.violation is not None:
        emit.bad('%r: %s' % (desc, x.violation.what), list(desc), key=x.violation.key if x.violation.key != x.violation.what else 'lines:%s' % desc[0])


def idle_batch(item, emit):
    stream, cutlist, tail = item
    for cut in cutlist:
        run_case(emit, idle_case(stream, cut, tail), ('idle', stream, cut, tail))
    emit.sample('%r cut in %d ways' % (stream, len(cutlist)))


def busy_batch(item, emit):
    before, stream, cutlist, prompt = item
    for cut in cutlist:
        run_case(emit, busy_case(before, stream, cut, prompt), ('busy', before, stream, cut, prompt))
    emit.sample('reply %r cut in %d ways' % (stream, len(cutlist)))


IDLE = ['A\r\nB\r\n', '\r\nAB\r\n', 'A\r\n\r\nB\r\n', '\r\nA\r\nB\r\n', 'A\r\r\nB\r\n', 'A\nB\r\n\r\n', '\r\r\nA\r\n', '> A\r\n', 'A\r\nB', '\r\nA\r\n\r', 'OK\r\nA\r\n', '\n\rA\r\n', ' \r\n\r\nA\r\n']
LONG = ['\r\nRING\r\n\r\n+CLIP: "+27820001111",145,,,"",0\r\n', '\r\n+CMTI: "SM",1\r\n\r\n+CMTI: "SM",2\r\n', '+CUSD: 0,"Line 1\r\nLine 2\r\n\r\nLine 4",15\r\n',
        '\r\nOK\r\nERROR\r\n+CME ERROR: 10\r\nCOMMAND NOT SUPPORT\r\n', 'NO CARRIER\r\n> \r\n>\r\n\x1a\r\n']
BUSY = [('', 'OK\r\n', None), ('', 'R\r\nOK\r\n', None), ('', '\r\nR\r\n\r\nOK\r\n', None), ('', 'OK\r\nN\r\n', None), ('X\r\n', 'OK\r\nN', None), ('', 'O\r\nOK\r\nO\r\n', None),
        ('', '> ', '> '), ('', '\r\n> ', '> '), ('', '\r\nA\r\n> ', '> '), ('', '>\r\n> ', '> '), ('', 'a> b\r\n> ', '> '), ('X\r\n', '> ', '> '), ('', 'AT\r\r\n> ', '> ')]
BUSYLONG = [('', '\r\n+CSQ: 20,99\r\n\r\nOK\r\n\r\nRING\r\n\r\n+CLIP: "1",129\r\n', None),
            ('\r\nRING\r\n', 'OKAY\r\nERRORS\r\nNOT OK\r\nOK \r\n OK\r\n+CME ERROR: 1x\r\n+CME ERROR: 1\r\nOK\r\n', None),
            ('', 'ERROR: x\r\nCOMMAND NOT SUPPORTED\r\nok\r\nOK\r\nOK\r\n', None),
            ('', 'my ERROR\r\n+CMS ERROR: busy\r\n+CMS ERROR: 500\r\n+CMTI: "SM",1\r\n', None),
            ('', 'AT+CMGS=12\r\r\n\r\nx > y > z\r\n>> \r\n> ', '> ')]

WORDS = ['OK', 'ERROR', '+CME ERROR: 515', '+CMS ERROR: 330', 'COMMAND NOT SUPPORT']
PIECES = ['', ' ', 'A', '1', ':', '+', '.', 'OK', 'ERROR', '\t']


def word_batch(item, emit):
    """Lines made of a final result word with something before/behind it: only the bare word is final."""
    w, mode = item
    for a in PIECES:
        for z in PIECES:
            line = a + w + z
            if not line.strip('\r\n'):
                continue
            stream = '%s\r\nmore\r\nOK\r\n' % line
            run_case(emit, busy_case('', stream, (), None), ('word', stream))
    emit.sample('variations of %s' % w)


def code_batch(codes, emit):
    for c in codes:
        for t in ('CME', 'CMS'):
            run_case(emit, busy_case('', 'info\r\n+%s ERROR: %d\r\nN1\r\nOK\r\n' % (t, c), (), None), ('code', t, c))


def content_batch(items, emit):
    """Notifications of arbitrary content, together or apart, with every single character."""
    for ls in items:
        stream = ''.join('\r\n%s\r\n' % l for l in ls)
        for cut in ((), (0,) * (len(ls[0]) + 3) + (1,), (0,) * (len(ls[0]) + 3) + (2,), (0,) * (len(ls[0]) + 4) + (1,), (0,) * (len(ls[0]) + 5) + (2,)):
            run_case(emit, idle_case(stream, cut, ''), ('content', stream, cut))


def steady_case(gap, form, count, talk):
    """Notifications that keep coming at an interval below the read timeout must not hold each other up."""
    def fn(env):
        b = Box(env)
        sent, got = {}, {}

        def seen(lines):
            for l in lines:
                got.setdefault(l, env.now())
        b.on_note = seen
        if talk:
            b.dev.on_write = lambda data: env.spawn(lambda: (env.sleep(gap / 2), b.dev.push('R\r\nOK\r\n')), 'modem')

        def go():
            for i in range(count):
                sent['N%d' % i] = env.now()
                b.dev.push(form % ('N%d' % i))
                env.sleep(gap)
        t = env.spawn(go, 'network')
        if talk:
            while len(sent) < count:
                r = call(b.sc.write, 'AT\r', timeout=30)
                if r[0] != 'ok' or r[1][-1] != 'OK':
                    raise Violation('a command between steady notifications gave %r' % (r,), key='steady-command')
                env.sleep(gap)
        env.wait([t])
        env.settle(4)
        if not talk and b.noted() != sorted(sent, key=sent.get):
            raise Violation('lines %r were reported as %r' % (list(sent), b.notes))
        for n, at in sent.items():
            if n in got and got[n] > at + 2.5:
                raise Violation('%s came at %.1f s and was reported at %.1f s, because others kept coming every %.1f s' % (n, at, got[n], gap), key='held-up')
        b.check_alive()
        b.sc.close()
        return len(b.notes)
    return fn


FORMS = ['\r\n%s\r\n', '%s\r\n', '%s\r\n\r\n']


def steady_batch(items, emit):
    for d in items:
        run_case(emit, steady_case(*d), ('steady',) + tuple(d))


# ------------------------------------------------------------------ schedules

def sched(name, before, reply, second=None, prompt=None, during=None, bound=2, close=False):
    """before: segments pushed by a modem thread concurrently with the first command; reply: segments pushed by the
    modem thread after the command arrived; during: segments from another thread at any time."""
    def fn(env):
        sent = []            # lines in wire order are recovered from the stream
        stream = []
        marks = {}

        def push(seg):
            stream.append(seg)
            b.dev.push(seg)

        def pusher(segs):
            def go():
                for i, seg in enumerate(segs):
                    if i:
                        env.point('gap')
                    push(seg)
            return go

        count = [0]

        def on_write(data):
            count[0] += 1
            marks['w%d' % count[0]] = ''.join(stream)
            segs = reply if count[0] == 1 else second
            env.spawn(pusher(segs), 'modem%d' % count[0])

        b = Box(env)
        b.dev.on_write = on_write
        env.quiesce()
        env.explore()
        if before:
            env.spawn(pusher(before), 'early')
        kw = {'expectedResponseTermSeq': prompt} if prompt else {}
        r1 = call(b.sc.write, 'AT1\r', timeout=30, **kw)
        r2 = None
        if second:
            r2 = call(b.sc.write, 'AT2\r', timeout=30)
        env.quiesce()
        env.explore(False)
        env.settle(4)
        s = ''.join(stream)
        if prompt:
            # the prompt is a logical line of its own
            i = len(marks['w1'])
            k = s.index(prompt, i)
            s = s[:k] + prompt + '\r\n' + s[k + len(prompt):]
        allv = lines_of(s)
        notes = b.noted()
        if r1[0] != 'ok' or (r2 and r2[0] != 'ok'):
            raise Violation('answered command gave %r / %r (stream %r)' % (r1, r2, s), key='answered')
        # response 1 begins at the earliest with the first line, at the latest with the first line completed after the write
        lo, hi = 0, len(lines_of(marks['w1']))
        ok = False
        for i in range(lo, hi + 1):
            j = i
            while j < len(allv) and not (is_final(allv[j]) if not prompt else allv[j] == prompt):
                j += 1
            if j >= len(allv) or allv[i:j + 1] != r1[1]:
                continue
            rest = allv[:i] + allv[j + 1:]
            if r2 is None:
                if notes == rest:
                    ok = True
            else:
                for i2 in range(i, len(rest)):
                    j2 = i2
                    while j2 < len(rest) and not is_final(rest[j2]):
                        j2 += 1
                    if j2 < len(rest) and rest[i2:j2 + 1] == r2[1] and rest[:i2] + rest[j2 + 1:] == notes:
                        ok = True
        if not ok:
            raise Violation('stream %r was delivered as responses %r, %r and notifications %r' % (s, r1, r2, b.notes), key='delivery')
        b.check_alive()
        b.probe()
        b.sc.close()
        return r1[1], r2 and r2[1], notes
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('response and notification back to back', None, ['\r\nR\r\nOK\r\n\r\nN\r\n'], bound=3 + e),
        sched('response in pieces, notification behind', None, ['\r\nR\r', '\nOK\r\n', '\r\nN1\r\nN2\r\n'], bound=2 + e),
        sched('notification before the command', ['\r\nN1\r\n', '\r\nN2\r\n'], ['R\r\nOK\r\n'], bound=2 + e),
        sched('partial notification when the command is sent', ['\r\nN1', '\r\n\r\nN2\r\n'], ['R\r\n', 'OK\r\n'], bound=2 + e),
        sched('blank line after a notification', ['N1\r\n', '\r\n'], ['OK\r\n'], bound=2 + e),
        sched('two commands, notification between', None, ['R1\r\nOK\r\nN1\r\n', '\r\n'], second=['R2\r\nOK\r\n', 'N2\r\n'], bound=2 + e),
        sched('prompt then command', None, ['\r\n', '> '], second=['\r\n+CMGS: 1\r\n', '\r\nOK\r\nN\r\n'], prompt='> ', bound=2 + e),
        sched('error result', ['N1\r\n'], ['+CME ERROR: 10\r\n', 'N2\r\n'], second=['OK\r\n'], bound=2 + e),
        sched('lookalike results', None, ['OKAY\r\nERRORS\r\n', 'OK\r\nOK2\r\n'], bound=2 + e),
    ]


def quiet(name, segs, bound):
    """No command at all: segments pushed by a modem thread; reads, waiting counts and read timeouts interleave freely."""
    def fn(env):
        b = Box(env)

        def go():
            for i, seg in enumerate(segs):
                if i:
                    env.point('gap')
                b.dev.push(seg)
        env.quiesce()
        env.explore()
        t = env.spawn(go, 'modem')
        env.wait([t])
        env.quiesce()
        env.explore(False)
        env.settle(4)
        want = lines_of(''.join(segs))
        if b.noted() != want:
            raise Violation('lines %r were reported as %r' % (want, b.notes), key='delivery')
        b.probe()
        b.sc.close()
        return b.notes
    return explore.Harness(name, fn, bound=bound, early_time=True)


def run(ctx):
    T = ctx.thorough
    loader.load_serial_comms()
    items = []
    for s in IDLE:
        for tail in ('', 'C\r\nD\r\n'):
            if tail and not T and len(s) > 7:
                continue
            cl = list(cuts(len(s), 3))
            items += [(s, c, tail) for c in chunk(cl, 400)]
    for s in LONG:
        cl = list(cuts(len(s), 3, 3 if T else 2))
        items += [(s, c, '') for c in chunk(cl, 400)]
        items += [(s, [(1,) * (len(s) - 1), (2,) * (len(s) - 1)], '')]
    core.run_cases(ctx, 'segmentations without a command', idle_batch, items)
    items = []
    for before, s, prompt in BUSY:
        cl = list(cuts(len(s), 3, None if T or len(s) <= 8 else 4))
        items += [(before, s, c, prompt) for c in chunk(cl, 400)]
    for before, s, prompt in BUSYLONG:
        cl = list(cuts(len(s), 3, 2 if T else 1))
        items += [(before, s, c, prompt) for c in chunk(cl, 200)]
        items += [(before, s, [(1,) * (len(s) - 1), (2,) * (len(s) - 1)], prompt)]
    core.run_cases(ctx, 'segmentations of replies', busy_batch, items)
    core.run_cases(ctx, 'words that are (not) final results', word_batch, [(w, 0) for w in WORDS])
    core.run_cases(ctx, 'error codes', code_batch, chunk(range(0, 1000), 50))
    chars = [chr(c) for c in range(1, 256) if chr(c) not in '\r\n']
    core.run_cases(ctx, 'line contents', content_batch, chunk([[a, a + 'x'] for a in chars] + [['y' + a, 'z'] for a in chars] + [[a * 3, 'OK', a] for a in 'AO>+"'], 40))
    core.run_cases(ctx, 'notifications that keep coming', steady_batch, [[(g, f, n, t)] for g in (0.05, 0.2, 0.5, 0.9, 0.99, 1.0, 1.1, 2.5) for f in FORMS for n in (5, 40) for t in (False, True)])
    hs = harnesses(T) + [quiet('two notifications in pieces', ['\r\nN1\r\n', '\r\nN2\r\n'], 3 + T), quiet('three segments cut in line ends', ['N1\r', '\nN2', '\r\n'], 3 + T),
                         quiet('blank lines last', ['N1\r\n', '\r\n', '\r\n'], 3 + T)]
    endurance.run(ctx, 'C08')
    explore.explore_many(ctx, hs)
    ctx.assumptions += ['the port delivers characters in order and without loss', 'a line is what precedes CR LF; empty lines are ignored']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C08', payload)
    if 'harness' in payload:
        hs = harnesses(True) + [quiet('two notifications in pieces', ['\r\nN1\r\n', '\r\nN2\r\n'], 3), quiet('three segments cut in line ends', ['N1\r', '\nN2', '\r\n'], 3),
                                quiet('blank lines last', ['N1\r\n', '\r\n', '\r\n'], 3)]
        return explore.replay_harness(hs, payload)
    d = payload['case']
    fn = steady_case(*d[1:]) if d[0] == 'steady' else idle_case(d[1], d[2] if len(d) > 2 else (), d[3] if len(d) > 3 else '') if d[0] in ('idle', 'content') else busy_case(d[1], d[2], d[3], d[4]) if d[0] == 'busy' else busy_case('', d[1], (), None)
    x = explore.run_once(fn, (), trace=True)
    for t in x.trace:
        print('   ', t)
    print(x.violation and x.violation.what)
    return 1 if x.violation else 0
