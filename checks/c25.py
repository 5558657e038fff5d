# -*- coding: utf-8 -*-
"""C25: the terminal edits and transmits the line exactly as typed."""
import itertools
import os
import sys

from mc import core, explore, loader
from mc.core import Violation
from . import endurance
from .c01 import chunk
from .modem_common import replay_case
from .term_common import (BS, CTRLD, CTRLZ, DELETE, DOWN, END, ENTER, ESC, EXIT, HOME, LEFT, RIGHT, UP, Editor, Term, agree, load_terminal, spell)

KEYS = ['a', 'B', ' ', LEFT, RIGHT, UP, DOWN, HOME, END, BS, DELETE, ENTER, CTRLZ, ESC, '\x1b[5~']
SMSKEYS = ['a', 'B', ' ', LEFT, RIGHT, HOME, END, BS, DELETE, ENTER, CTRLZ, ESC]


def type_(t, ed, keys, what, watch=True):
    for k in keys:
        t.press(k)
        ed.key(k)
        if watch and k != ESC and not (k == ENTER or k == CTRLZ):
            agree(t, ed, what)
        else:
            agree(t, ed, what, screen=False)


def editing(item):
    """item: (setup, [key sequences]): each one is typed, marked at the cursor, and submitted."""
    setup, seqs = item

    def fn(env):
        t, ed = Term(env, color=setup != 'plain'), Editor()
        for seq in seqs:
            if setup == 'history':
                type_(t, ed, ['o', ENTER, 't', 'w', ENTER], 'history', watch=False)
            elif setup == 'line':
                type_(t, ed, ['x', 'y', 'z', LEFT], 'line', watch=False)
            elif setup == 'sms':
                type_(t, ed, list('AT+CMGS="1"') + [ENTER], 'AT+CMGS', watch=False)
                t.press('p', 'q')
                ed.key('p')
                ed.key('q')
            what = spell(seq)
            type_(t, ed, seq, what)
            # show where the cursor is, and what the line holds
            tail = ['X', CTRLZ] if ed.sms else ['X', ENTER]
            if setup == 'sms' and not ed.sms:
                tail = ['X', ENTER]
            type_(t, ed, tail, what + ' X submitted', watch=False)
            if ed.sms:                # left inside a message: end it
                type_(t, ed, [CTRLZ], what, watch=False)
            t.screen.clear()
        t.leave()
        return len(ed.lines)
    return fn


def edit_batch(items, emit):
    for it in items:
        x = explore.run_once(editing(it), (), max_steps=20000000, wall=200)
        emit.cases += len(it[1])
        for q in it[1]:
            emit.states.add(hash((it[0], tuple(q))))
        emit.steps += x.steps
        if x.violation is not None:
            # narrow it down to one sequence if possible
            for q in it[1]:
                y = explore.run_once(editing((it[0], [q])), ())
                if y.violation is not None:
                    emit.bad('%s  [keys: %s; start: %s]' % (y.violation.what, spell(q), it[0]), (it[0], [q]), key=y.violation.key)
                    break
            else:
                emit.bad('%s  [start: %s, %d sequences]' % (x.violation.what, it[0], len(it[1])), it, key=x.violation.key)


# ------------------------------------------------------------------ whole lines
LINES = ['AT', 'ATI', 'at+cmgf=1', 'AT+CPIN="1234"', 'ATD+27820001111;', 'AT+CUSD=1,"*100#",15', 'A/', 'AT+CSQ;+CREG?', 'AT+CMGF?', 'AT+CPMS=?', 'x', '+++',
         'AT+CSCS="GSM"', "!#$%&'()*+,-./:;<=>@[\\]^_`{|}~", 'hel', 'lo', 'loa', 'l', '?', '??', 'a?', 'AT + C', 'CMGS=1', 'at+cmgl="ALL"', 'AT+CMGW=3', 'AT+CMGS', 'AT+CMGS?']


def whole(item):
    lines, pad, answer = item

    def fn(env):
        t, ed = Term(env), Editor()
        t.modem.answer = answer
        for l in lines:
            text = pad[0] + l + pad[1]
            for k in text:
                t.press(k)
                ed.key(k)
            agree(t, ed, 'typing %r' % text)
            t.press(ENTER)
            ed.key(ENTER)
            t.idle(2 if answer else 0)
            agree(t, ed, 'line %r' % text, screen=False)
            if answer:
                for a in answer:
                    if a not in t.screen.text():
                        raise Violation('the response %r of the modem is not shown' % a, key='shown')
                t.screen.clear()
        t.leave()
        return len(ed.lines)
    return fn


def history_long(item):
    """More lines than the history keeps, then all the way up and down."""
    n, ups, downs = item

    def fn(env):
        t, ed = Term(env), Editor()
        for i in range(n):
            for k in 'c%d' % i + ENTER:
                t.press(k)
                ed.key(k)
        type_(t, ed, [UP] * ups + [DOWN] * downs, '%d lines, %d up, %d down' % (n, ups, downs))
        type_(t, ed, ['!', ENTER, UP, UP, 'x', ENTER], 'history')
        t.leave()
        return n
    return fn


# ------------------------------------------------------------------ messages
BODIES = ['', 'a', 'Hello there', 'at+cmgs="2"', 'help', 'ls', '?x', 'load x', 'one\ntwo', '\n', 'a\n\nb', 'AT??', ' lead', 'trail ']


def message(item):
    kind, cmd, body, end, after = item

    def fn(env):
        t, ed = Term(env), Editor()
        t.modem.cmgs = kind
        ed.prompting = kind in ('prompt', 'echo', 'slow')
        for k in cmd + ENTER:
            t.press(k)
            ed.key(k)
        t.idle(4)
        agree(t, ed, 'after %s (%s)' % (cmd, kind))
        if kind not in ('prompt', 'echo', 'slow', 'silent') and kind not in t.screen.text():
            raise Violation('the modem answered %r, which is not shown' % kind, key='shown')
        if ed.sms:
            for k in body:
                t.press(k)
                ed.key(k)
                agree(t, ed, 'typing the message', screen=k != '\n')
            t.press(end)
            ed.key(end)
            agree(t, ed, 'message %r' % body, screen=False)
        for k in after + ENTER:
            t.press(k)
            ed.key(k)
        agree(t, ed, '%r after the message' % after, screen=False)
        t.leave()
        return kind
    return fn


# ------------------------------------------------------------------ notifications while typing
def notified(item):
    sms, before, after, lines = item[:4]

    def fn(env):
        t, ed = Term(env, color=item[4:] != ('plain',)), Editor()
        if sms:
            type_(t, ed, list('AT+CMGS=5') + [ENTER], 'cmgs', watch=False)
        type_(t, ed, before, spell(before))
        t.modem.push(''.join('\r\n%s\r\n' % l for l in lines))
        t.idle(2)
        rows = [''.join(r).rstrip() for r in t.screen.rows]
        for l in lines:
            if l not in rows:
                raise Violation('the line %r of the modem is not shown by itself: %r' % (l, rows[-4:]), key='shown')
        agree(t, ed, 'a notification after %s' % spell(before))
        type_(t, ed, after, '%s, notification, %s' % (spell(before), spell(after)))
        type_(t, ed, ['X', CTRLZ if sms else ENTER], 'submitted', watch=False)
        if sms:
            type_(t, ed, ['n', 'e', 'x', 't'], 'after the message')
            type_(t, ed, [ENTER], 'after the message', watch=False)
        t.leave()
        return 1
    return fn


# ------------------------------------------------------------------ scripts and the raw terminal
def script(item):
    lines = item

    def fn(env):
        import tempfile
        t = Term(env)
        d = tempfile.mkdtemp(prefix='c25-')
        f = os.path.join(d, 's.txt')
        try:
            with open(f, 'w') as h:
                h.write('\n'.join(lines) + '\n')
            for k in 'load ' + f + ENTER:
                t.press(k)
            t.idle(0.5 * len(lines) + 1)
        finally:
            os.remove(f)
            os.rmdir(d)
        exp = [l.strip() for l in lines if l.strip() and not l.strip().startswith('#')]
        if t.modem.lines != exp or t.modem.buf:
            raise Violation('a script %r sent %r' % (lines, t.modem.lines), key='script')
        t.press('A', 'T', ENTER)
        if t.modem.lines != exp + ['AT']:
            raise Violation('after a script %r was sent' % t.modem.lines, key='script')
        for k in 'load ' + f + ENTER:         # gone
            t.press(k)
        t.press('A', 'T', ENTER)
        if t.modem.lines != exp + ['AT', 'AT']:
            raise Violation('loading a missing script: %r was sent' % t.modem.lines, key='script')
        t.leave()
        return len(exp)
    return fn


def raw(item):
    keys = item

    def fn(env):
        t = Term(env, raw=True)
        exp = ''
        for k in keys:
            t.press(k)
            exp += '\r' if k == '\n' else k
            if t.modem.got != exp:
                raise Violation('the raw terminal sent %r instead of %r' % (t.modem.got, exp), key='raw')
        t.modem.push('\r\nRING\r\n')
        t.idle(2)
        if 'RING' not in ''.join(t.screen.raw):
            raise Violation('the raw terminal does not show what the modem sends', key='shown')
        t.leave()
        if t.modem.got != exp:
            raise Violation('the exit key was sent', key='raw')
        return exp
    return fn


def leaving(item):
    before, key = item

    def fn(env):
        t, ed = Term(env), Editor()
        type_(t, ed, before, 'before')
        n = t.modem.got
        t.press(key)
        t.idle(3)
        if t.t.alive or t.modem.is_open or t.modem.got != n:
            raise Violation('%s: alive %r, port open %r, sent %r' % (spell([key]), t.t.alive, t.modem.is_open, t.modem.got[len(n):]), key='exit')
        return 1
    return fn


# ------------------------------------------------------------------ schedules
def sched(name, keys, lines, bound=2):
    def fn(env):
        t, ed = Term(env), Editor()
        sys.stdout = t.screen
        try:
            env.explore()
            def type_it():
                for k in keys:
                    t.keys.append(k)
                    env.point('key')

            def net():
                for l in lines:
                    t.modem.push('\r\n%s\r\n' % l)
                    env.point('line')
            ths = [env.spawn(type_it, 'user'), env.spawn(net, 'network')]
            env.wait(ths)
            env.quiesce()
            env.explore(False)
            env.settle(4)
        finally:
            sys.stdout = t.real
        for k in keys:
            ed.key(k)
        agree(t, ed, name, screen=False)
        for l in lines:
            if l not in ''.join(t.screen.raw):
                raise Violation('the line %r of the modem is not shown' % l, key='shown')
        type_(t, ed, ['X', CTRLZ if ed.sms else ENTER], 'afterwards', watch=False)
        t.leave()
        return len(ed.lines)
    return explore.Harness(name, fn, bound=bound)


def harnesses(T):
    e = 1 if T else 0
    return [
        sched('typing while the modem reports', list('AT') + [ENTER], ['RING'], bound=2 + e),
        sched('editing while the modem reports', ['a', 'b', LEFT, BS, 'c', ENTER], ['RING', '+CMTI: "SM",1'], bound=1 + e),
        sched('recalling while the modem reports', ['a', ENTER, UP, 'b', ENTER], ['NO CARRIER'], bound=1 + e),
    ]


FACT = {'lines': whole, 'long history': history_long, 'messages': message, 'notifications': notified, 'scripts': script, 'raw terminal': raw, 'leaving': leaving}


def one_batch(factory):
    def fn(items, emit):
        for it in items:
            x = explore.run_once(factory(it), (), max_steps=20000000)
            emit.case(1, state=repr(it))
            emit.steps += x.steps
            emit.sample(dict(case=repr(it)[:200], outcome=repr(x.outcome)[:100]))
            if x.violation is not None:
                emit.bad('%s  [case %s]' % (x.violation.what, repr(it)[:300]), it, key=x.violation.key)
    return fn


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    load_terminal()
    size = 100
    items = []
    for setup, keys, depth in (('empty', KEYS, 5 if T else 4), ('history', KEYS, 5 if T else 4), ('line', KEYS, 5 if T else 4), ('plain', KEYS, 2),
                               ('sms', SMSKEYS, 5 if T else 4)):
        for n in range(0, depth + 1):
            for b in chunk(list(itertools.product(keys, repeat=n)), size):
                items.append((setup, b))
    core.run_cases(ctx, 'key sequences', edit_batch, chunk(items, 4))
    parts = {}
    parts['lines'] = [([l], p, a) for l in LINES for p in (('', ''), (' ', ''), ('', '  ')) for a in (None, ['OK'], ['+CSQ: 1,2', 'OK'], ['ERROR'])] + \
        [([a, b], ('', ''), None) for a in LINES for b in LINES] + [([chr(c)], ('', ''), None) for c in range(33, 127)] + [(['A%sT' % chr(c)], ('', ''), None) for c in range(32, 127)]
    parts['long history'] = [(n, u, d) for n in (1, 5, 99, 100, 101, 105) for u in (1, 2, n, n + 3) for d in (0, 1, n + 3)]
    parts['messages'] = [(kind, cmd, body, end, after) for kind in ('prompt', 'echo', 'slow', 'ERROR', '+CMS ERROR: 304', 'silent') for cmd in ('AT+CMGS="+123"', 'at+cmgs=23', ' AT+CMGS="1"')
                         for body in (BODIES if kind in ('prompt', 'echo', 'slow') else BODIES[:1]) for end in (CTRLZ, ESC) for after in ('AT', 'at+cmgf=1')]
    eds = [[], ['a'], ['a', 'b', 'c'], ['a', 'b', 'c', LEFT], ['a', 'b', HOME], ['a', BS], list('abcdef') + [LEFT, LEFT, DELETE]]
    parts['notifications'] = [(sms, b, a, ls) for sms in (False, True) for b in eds for a in eds for ls in (['RING'], ['+CMTI: "SM",3', 'RING'], ['ERROR'], ['OK'])]
    parts['notifications'] += [(sms, b, [], ls, 'plain') for sms in (False, True) for b in eds + [list('a long line of text') + [HOME]] for ls in (['RING'], ['+CMTI: "SM",3', 'RING'], ['ERROR'], ['A'])]
    ls = ['AT', 'ATI', '# comment', '', ' at+cmgf=1 ', 'AT+CUSD=1,"*100#",15']
    parts['scripts'] = [list(x) for n in (0, 1, 2, 3) for x in itertools.product(ls, repeat=n)]
    rk = ['a', '\n', ' ', '\x1a', '\x1b', '\t', '\x7f', UP, '\x03', '\x04']
    parts['raw terminal'] = [list(x) for n in range(0, 4) for x in itertools.product(rk, repeat=n)]
    parts['leaving'] = [(b, k) for b in eds for k in (EXIT, CTRLD)]
    for name in parts:
        core.run_cases(ctx, name, one_batch(FACT[name]), chunk(parts[name], 20))
    endurance.run(ctx, 'C25')
    explore.explore_many(ctx, harnesses(T))
    ctx.assumptions += ['keys arrive as the console class delivers them (one key per read, as str); history recall inside a message, control characters and the line break '
                        'of Enter inside a message are not specified', 'lines starting with help, ls, load, ? or ending in ?? are requests to the terminal itself']


def replay(ctx, payload):
    load_terminal()
    if payload.get('part') == endurance.PART:
        return endurance.replay('C25', payload)
    if 'harness' in payload:
        return explore.replay_harness(harnesses(True), payload)
    return replay_case(editing if payload['part'] == 'key sequences' else FACT[payload['part']], payload)
