# -*- coding: utf-8 -*-
"""C14: sendSms submits exactly the requested message, atomically, or raises."""
import itertools

from mc import core, explore, loader
from mc import gsm_ref as G
from mc.core import Violation
from mc.sim import Bed, Msg, Sim, ESC
from . import endurance
from .c01 import chunk
from .modem_common import batch_of, replay_case
from .submit_common import dest_ok

LONG = ''.join(chr(97 + i % 26) for i in range(200))          # two parts
LONGER = ''.join(chr(65 + i % 26) for i in range(400))        # three parts
WIDE = '\u4e2d' * 75                                          # two UCS2 parts
TEXTS = ['', 'a', 'Hello', 'x' * 159, 'x' * 160, 'x' * 161, '€' * 80, '€' * 81, LONG, LONGER, '\u4e2d' * 70, '\u4e2d' * 71, WIDE, 'line 1\nline 2', 'AT+CMGS=20', '> ',
         'OK', '{}\\^[]|~', '@@@@@@@', '\U0001F600' * 36]
NUMBERS = ['1', '12345', '+27820001111', '0820001111', '+1234567890123']


def judge(entries, dest, text, flash, mode, what):
    """The accepted parts must be exactly this message."""
    if mode == 'text':
        if len(entries) != 1 or entries[0]['mode'] != 'text':
            raise Violation('%s: the modem accepted %d messages' % (what, len(entries)), key='parts')
        if entries[0]['dest'] != dest or entries[0]['body'] != text:
            raise Violation('%s: the modem accepted %r for %r' % (what, entries[0]['body'], entries[0]['dest']), key='content')
        return
    if any(e['mode'] != 'pdu' for e in entries):
        raise Violation('%s: sent in text mode' % what, key='mode')
    subs = [e['submit'] for e in entries]
    if ''.join(s.text for s in subs) != text:
        raise Violation('%s: the accepted text is %r' % (what, ''.join(s.text for s in subs)), key='content')
    n = G.min_parts(text)[1]
    if len(subs) != n:
        raise Violation('%s: %d parts accepted, %d needed' % (what, len(subs), n), key='parts')
    for i, s in enumerate(subs):
        if not dest_ok(s.dest, dest):
            raise Violation('%s: part %d went to %r' % (what, i + 1, s.dest), key='dest')
        if s.flash != flash or not s.srr:
            raise Violation('%s: flash %r, report requested %r' % (what, s.flash, s.srr), key='options')
        if n > 1:
            d = [ie for ie in s.ies if ie[0] in (0, 8)][0][1]
            if (d[-2], d[-1]) != (n, i + 1):
                raise Violation('%s: part %d is labelled %d of %d' % (what, i + 1, d[-1], d[-2]), key='label')


def result_ok(sms, e, dest, text, what):
    if sms.number != dest or sms.text != text or sms.reference != e['ref']:
        raise Violation('%s: sendSms returned number %r, text %r, reference %r; the modem said %r' % (what, sms.number, sms.text, sms.reference, e['ref']), key='result')


# ------------------------------------------------------------------ sequences of messages
def sequence(msgs, mode, refs):
    def fn(env):
        b = Bed(env, text=mode == 'text')
        b.sim.refs = itertools.cycle(refs)
        for dest, text, flash in msgs:
            n = len(b.sim.sent)
            sms = b.m.sendSms(dest, text, sendFlash=flash)
            what = '%s mode, to %s, %d characters %r' % (mode, dest, len(text), text[:20])
            got = b.sim.sent[n:]
            judge(got, dest, text, flash, mode, what)
            result_ok(sms, got[-1], dest, text, what)
        if b.sim.mixed or b.sim.collect is not None:
            raise Violation('the modem saw %r' % b.sim.mixed, key='mixed')
        b.usable()
        b.close()
        return len(b.sim.sent)
    return fn


def seq_batch(items, emit):
    for it in items:
        x = explore.run_once(sequence(*it), ())
        emit.case(1, state=repr(it))
        emit.steps += x.steps
        if x.violation is not None:
            emit.bad(x.violation.what, list(it), key=x.violation.key)


# ------------------------------------------------------------------ replies to received messages
def reply_case(it):
    mode, source, nums, texts, late = it

    def fn(env):
        b = Bed(env, text=mode == 'text')
        s = b.sim
        got = []
        if source == 'handler':
            k = iter(texts)
            b.on_sms = lambda sms: got.append((sms, sms.reply(next(k))))
        msgs = [Msg(number=n, text='question %d' % i) for i, n in enumerate(nums)]
        if source in ('incoming', 'handler'):
            for m in msgs:
                s.receive('SM', m)
                env.settle(3)
            subjects = list(b.sms)
        else:
            at = [s.store('SM', m, None) for m in msgs]
            subjects = b.m.listStoredSms(memory='SM') if source == 'list' else [b.m.readStoredSms(i, 'SM') for i in at]
        if late:
            s.receive('SM', Msg(number='+2789', text='meanwhile'))
            env.settle(3)
            b.m.sendSms('+2788', 'meanwhile')
            s.sent.pop()
        if source != 'handler':
            for sms, t in list(zip(subjects, texts))[::-1 if late else 1]:
                got.append((sms, sms.reply(t)))
        what = '%s mode, replies %r to %r (%s)' % (mode, texts, nums, source)
        if [x.number for x, _ in got] != list(nums)[::-1 if late and source != 'handler' else 1]:
            raise Violation('%s: senders %r' % (what, [x.number for x, _ in got]), key='sender')
        entries = list(s.sent)
        for (sms, sent), t in zip(got, list(texts)[::-1 if late and source != 'handler' else 1]):
            n = 1 if mode == 'text' else G.min_parts(t)[1]
            judge(entries[:n], sms.number, t, False, mode, what)
            result_ok(sent, entries[n - 1], sms.number, t, what)
            entries = entries[n:]
        if entries:
            raise Violation('%s: %d more messages were sent' % (what, len(entries)), key='foreign')
        b.usable()
        b.close()
    return fn


def reply_items(T):
    nums = ['+27820001111', '0821234567', '12345', '1', 'Bank'] + (['+1', 'A', 'Vodacom SA', '27820001111'] if T else [])
    for mode in ('pdu', 'text'):
        for source in ('incoming', 'handler', 'list', 'read'):
            for late in (False, True):
                for n in (1, 2):
                    for c in itertools.permutations(nums, n):
                        for texts in (('thanks', 'no'),) + ((('', LONG), (WIDE, '{}')) if mode == 'pdu' and (T or n == 1) else ()):
                            yield mode, source, c, texts[:n], late


# ------------------------------------------------------------------ a step fails
FAULTS = ['ERROR', '+CMS ERROR: 38', '+CMS ERROR: 330', '+CME ERROR: 30', 'silent', 'late', 'noref', 'busy515', 'busy14']
CLASSES = {'ERROR': ('CommandError', None), '+CMS ERROR: 38': ('CmsError', 38), '+CMS ERROR: 330': ('SmscNumberUnknownError', 330), '+CME ERROR: 30': ('CmeError', 30),
           'silent': ('TimeoutException', None), 'late': ('TimeoutException', None), 'noref': ('CommandError', None)}


def faulty(mode, text, step, part, fault, after):
    """step 'prompt' or 'body' of part number `part` fails; afterwards another command or message."""
    def fn(env):
        exc = loader.load_exceptions()
        b = Bed(env, text=mode == 'text')
        s = b.sim
        seen = [0]

        def intercept(cmd):
            isbody = cmd.startswith('<body>')
            if not isbody and not cmd.startswith('AT+CMGS'):
                return None
            if isbody != (step == 'body'):
                return None
            seen[0] += 1
            if seen[0] != part:
                return None
            if fault == 'silent':
                return 'silent'
            if fault == 'late':               # the prompt comes after the caller gave up
                h = s.cmd_CMGS
                real, s.emit = s.emit, lambda out, then=None: None
                h(cmd[len('AT+CMGS'):])
                s.emit = real
                env.spawn(lambda: (env.sleep(3.5), s.push('\r\n> ') if s.collect is not None else None), 'late prompt')
                return 'silent'
            if fault == 'noref':
                return ['OK']
            if fault.startswith('busy'):
                return ['+CMS ERROR: ' + fault[4:] if fault == 'busy515' else '+CME ERROR: 14']
            return [fault]
        s.intercepts.append(intercept)
        what = '%s mode, %s of part %d: %s' % (mode, step, part, fault)
        try:
            sms = b.m.sendSms('+2782', text)
            got = None
        except exc.GsmModemException as e:
            got = e
        if fault.startswith('busy'):
            if got is not None:
                raise Violation('%s: %s %s' % (what, type(got).__name__, got), key='busy')
            judge(s.sent, '+2782', text, False, mode, what)
            result_ok(sms, s.sent[-1], '+2782', text, what)
        else:
            if got is None:
                raise Violation('%s: sendSms returned normally' % what, key='not-raised')
            cls, code = CLASSES[fault]
            if type(got).__name__ != cls or code is not None and got.code != code:
                raise Violation('%s: sendSms raised %s (code %r)' % (what, type(got).__name__, getattr(got, 'code', None)), key='class')
            if len(s.sent) != part - 1:
                raise Violation('%s: %d parts accepted' % (what, len(s.sent)), key='submitted-after-failure')
        s.intercepts.remove(intercept)
        if after == 'wait':
            env.settle(6)
        n = len(s.sent)
        sms = b.m.sendSms('+2783', 'next')
        judge(s.sent[n:], '+2783', 'next', False, mode, what + '; next message')
        result_ok(sms, s.sent[-1], '+2783', 'next', what + '; next message')
        if s.mixed or s.collect is not None:
            raise Violation('%s: the modem saw %r' % (what, s.mixed), key='mixed')
        b.usable(what)
        b.close()
        return type(got).__name__
    return fn


def fault_items(T):
    for mode in ('pdu', 'text'):
        for text in (('Hello', LONG, LONGER) if mode == 'pdu' else ('Hello',)):
            for part in range(1, G.min_parts(text)[1] + 1):
                for step in ('prompt', 'body'):
                    for fault in FAULTS:
                        if fault in ('late', 'noref') and (fault == 'late') != (step == 'prompt'):
                            continue
                        if fault == 'silent' and step == 'prompt':
                            pass
                        for after in ('at once', 'wait'):
                            yield (mode, text, step, part, fault, after)


# ------------------------------------------------------------------ a modem that takes its time
def patient(it):
    """(mode, texts, prompt delays, acceptance delays, busy steps): every answer in time, but late, some after a busy reply."""
    mode, texts, pd, ad, busy = it

    def fn(env):
        b = Bed(env, text=mode == 'text')
        s = b.sim
        real, pds, ads, steps = s.emit, itertools.cycle(pd), itertools.cycle(ad), itertools.count()
        delay, refusals = [0], dict(busy)

        def intercept(cmd):
            body = cmd.startswith('<body>')
            if not body and not cmd.startswith('AT+CMGS'):
                return None
            n = next(steps)
            if n in refusals:
                return [refusals[n]]
            delay[0] = next(ads if body else pds)
            return None

        def emit(out, then=None):
            d, delay[0] = delay[0], 0
            if d:
                env.spawn(lambda: (env.sleep(d), real(out, then)), 'slow modem')
            else:
                real(out, then)
        s.emit = emit
        s.intercepts.append(intercept)
        what = '%s mode, prompt after %r s, accepted after %r s, busy at %r' % (mode, pd, ad, busy)
        for i, t in enumerate(texts):
            n = len(s.sent)
            sms = b.m.sendSms('+278%d' % i, t)
            judge(s.sent[n:], '+278%d' % i, t, False, mode, what)
            result_ok(sms, s.sent[-1], '+278%d' % i, t, what)
        s.intercepts.remove(intercept)
        s.emit = real
        if s.mixed or s.collect is not None:
            raise Violation('%s: the modem saw %r' % (what, s.mixed), key='mixed')
        b.usable(what)
        b.close()
    return fn


def patient_items(T):
    P, A = (0, 0.5, 1.7, 2.9), (0, 0.3, 2, 4.9, 5.2, 9, 14.5)
    for mode in ('pdu', 'text'):
        texts = [['Hello'], ['Hello', 'again']] + ([[LONG], [LONGER, 'x']] if mode == 'pdu' else [])
        for ts in texts:
            for p in P:
                for a in A:
                    yield mode, ts, (p,), (a,), []
            for p in itertools.product(P if T else (0, 2.9), repeat=2):
                for a in itertools.product(A if T else (0, 5.2, 14.5), repeat=2):
                    yield mode, ts, p, a, []
            for n in range(1, 4 if T else 3):
                for at in itertools.combinations(range(6 if n < 3 else 5), n):
                    for codes in itertools.product(('+CMS ERROR: 515', '+CME ERROR: 14'), repeat=n):
                        for p, a in ((0, 0), (1.7, 5.2)):
                            yield mode, ts, (p,), (a,), list(zip(at, codes))


def fault_batch(items, emit):
    for it in items:
        x = explore.run_once(faulty(*it), ())
        emit.case(1, state=repr(it))
        emit.steps += x.steps
        if x.violation is not None:
            emit.bad(x.violation.what, list(it), key=x.violation.key)


# ------------------------------------------------------------------ schedules
def senders(name, mode, texts, others=(), urcs=(), bound=2, connect_threaded=True):
    def fn(env):
        b = Bed(env, text=mode == 'text')
        s = b.sim
        s.threaded = True
        out = {}
        env.quiesce()
        env.explore()

        def send(i, text):
            out[i] = b.m.sendSms('+2780%d' % i, text)

        def command(cmd):
            out[cmd] = b.m.write(cmd)

        ths = [env.spawn(lambda i=i, t=t: send(i, t), 'sender%d' % i) for i, t in enumerate(texts)]
        ths += [env.spawn(lambda c=c: command(c), 'cmd') for c in others]
        if urcs:
            def push():
                for u in urcs:
                    if u == 'sms':
                        s.receive('SM', Msg(text='in'))
                    else:
                        s.urc(*u)
            ths.append(env.spawn(push, 'network'))
        env.wait(ths)
        env.quiesce()
        env.explore(False)
        s.threaded = False
        env.settle(3)
        if s.mixed or s.collect is not None:
            raise Violation('the modem saw %r' % (s.mixed,), key='mixed')
        total = 0
        for i, t in enumerate(texts):
            dest = '+2780%d' % i
            mine = [e for e in s.sent if (e['dest'] if mode == 'text' else '+' + e['submit'].dest[1]) == dest]
            total += len(mine)
            judge(mine, dest, t, False, mode, 'sender %d' % i)
            result_ok(out[i], mine[-1], dest, t, 'sender %d' % i)
        if total != len(s.sent):
            raise Violation('%d parts accepted, %d belong to the senders' % (len(s.sent), total), key='foreign')
        for c in others:
            if out[c] != {'AT+CSQ': ['+CSQ: 20,99', 'OK'], 'AT+CGMM': ['Model 7', 'OK']}[c]:
                raise Violation('%s returned %r' % (c, out[c]), key='command')
        if 'sms' in urcs and [x.text for x in b.sms] != ['in'] * urcs.count('sms'):
            raise Violation('received messages: %r' % [x.text for x in b.sms], key='received')
        b.usable()
        b.close()
        return tuple(c.split('=')[0][:8] for c in s.log)
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        senders('two senders, PDU mode', 'pdu', ['one', 'two'], bound=2 + e),
        senders('two senders, text mode', 'text', ['one', 'two'], bound=2 + e),
        senders('three senders, PDU mode', 'pdu', ['one', 'two', 'three'], bound=2 + e),
        senders('two senders, several parts', 'pdu', [LONG, WIDE], bound=2 + e),
        senders('sender and commands, PDU mode', 'pdu', ['one'], ['AT+CSQ', 'AT+CGMM'], bound=2 + e),
        senders('sender and commands, text mode', 'text', ['one'], ['AT+CSQ', 'AT+CGMM'], bound=2 + e),
        senders('sender and a received message, PDU mode', 'pdu', [LONG], urcs=['sms'], bound=2 + e),
        senders('sender and a received message, text mode', 'text', ['one'], urcs=['sms'], bound=2 + e),
        senders('sender, command and events', 'pdu', ['one'], ['AT+CSQ'], urcs=[['RING'], ['+CUSD: 2,"bye",15']], bound=2 + e),
    ]


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    seqs = []
    for mode in ('pdu', 'text'):
        for t in TEXTS:
            for d in NUMBERS:
                for fl in ((False, True) if mode == 'pdu' else (False,)):
                    for refs in ([0], [1, 2, 3], [254, 255, 0, 1], [7]):
                        seqs.append(([(d, t, fl)], mode, refs))
        short = ['a', 'Hello', LONG, WIDE] if mode == 'pdu' else ['a', 'Hello', 'l1\nl2', 'OK']
        for n in (2, 3) if not T else (2, 3, 4):
            for c in itertools.product(short, repeat=n):
                seqs.append(([('+2780%d' % i, t, False) for i, t in enumerate(c)], mode, [253, 254, 255, 0, 1]))
    if T:
        for n in range(0, 481):
            seqs.append(([('+2780', LONGER[:n] if n <= 400 else (LONGER + LONG)[:n], False)], 'pdu', [9, 10, 11]))
    core.run_cases(ctx, 'sequences of messages', seq_batch, chunk(seqs, 20))
    core.run_cases(ctx, 'replies', batch_of(reply_case), chunk(list(reply_items(T)), 12))
    core.run_cases(ctx, 'every step failing', fault_batch, chunk(list(fault_items(T)), 6))
    core.run_cases(ctx, 'a modem that takes its time', batch_of(patient), chunk(list(patient_items(T)), 10))
    endurance.run(ctx, 'C14')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['texts contain no Ctrl-Z or Escape', 'unsolicited lines arrive neither inside a response nor while the modem collects a message body',
                        'the modem accepts Escape as the end of a pending message prompt']


def replay(ctx, payload):
    if payload.get('part') == endurance.PART:
        return endurance.replay('C14', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    c = payload['case']
    if payload['part'].startswith('a modem'):
        return replay_case(patient, payload)
    if payload['part'] == 'replies':
        return replay_case(reply_case, payload)
    if payload['part'].startswith('every'):
        x = explore.run_once(faulty(*c), (), trace=True)
    else:
        x = explore.run_once(sequence([tuple(m) for m in c[0]], c[1], c[2]), (), trace=True)
    print(x.violation and x.violation.what)
    return 1 if x.violation else 0
