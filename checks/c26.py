# -*- coding: utf-8 -*-
"""C26: AT command completion only ever completes, never corrupts, the input."""
import itertools
import os
import re

from mc import core, explore, loader
from mc.core import Violation
from .c01 import chunk
from .modem_common import replay_case
from .term_common import CTRLZ, END, ENTER, HOME, LEFT, TAB, Editor, Term, agree, load_terminal, spell


ESCAPES = re.compile('\x1b\\[[0-9;]*[A-Za-z]')


def table():
    return loader.load_tools('atcommands')


def commands():
    return sorted({c for c, _ in table().ATCOMMANDS})


def expected(line, cur, cmds):
    """(line after TAB or None for 'same up to case and blanks', cursor or None, commands to be listed)"""
    p = ''.join(line).strip().upper()
    ms = [c for c in cmds if c.upper().startswith(p)]
    if not ms:
        return ''.join(line), cur, []
    if len(ms) == 1:
        if ms[0] == p:
            return None, None, []
        return ms[0], len(ms[0]), []
    return os.path.commonprefix(ms), None, ms


def tab(t, ed, cmds, what):
    """Press TAB and compare; the reference takes over what the screen shows where letter case is free."""
    before = ''.join(ed.line)
    line, cur, listed = expected(ed.line, ed.cur, cmds)
    n = len(t.screen.raw)
    t.press('\t')
    if not t.t.alive:
        raise Violation('%s: TAB stopped the terminal' % what, key='dead')
    s = t.shown()
    if s is None:
        if before or line:
            raise Violation('%s: no prompt after TAB' % what, key='screen')
        s = ('GSM> ', '', 0)
    got = s[1]
    if line is None:
        if got.strip().upper() != before.strip().upper():
            raise Violation('%s: TAB after the command %r leaves %r' % (what, before, got), key='exact')
    elif not listed and line == before:
        if got.rstrip() != before.rstrip():
            raise Violation('%s: TAB after %r, which begins no command, leaves %r' % (what, before, got), key='unknown')
    elif got.strip().upper() != line.upper():
        raise Violation('%s: TAB after %r leaves %r instead of %r' % (what, before, got, line), key='complete')
    if cur is not None and s[2] != cur:
        raise Violation('%s: TAB after %r leaves the cursor at %d' % (what, before, s[2]), key='cursor')
    out = ''.join(t.screen.raw[n:])
    if listed:
        words = out.rsplit('\n', 1)[0].split()
        miss = [c for c in listed if c not in words]
        more = re.search(r'(\d+) more', out)
        if len(miss) != (int(more.group(1)) if more else 0):
            raise Violation('%s: TAB after %r does not list %s%s' % (what, before, ' '.join(miss[:20]), ' (%s)' % more.group() if more else ''), key='list')
    if line is None:
        plain = ESCAPES.sub('', out)
        entry = dict(table().ATCOMMANDS)[before.strip().upper()]
        if len(entry) > 2 and entry[2] and ('|' if len(entry) > 5 else ',').join(v[0] for v in entry[2]) not in plain:
            raise Violation('%s: TAB after %r does not show its parameters: %r' % (what, before, plain), key='explain')
    # letter case and blanks around it are free: go on with what is on the screen
    shown = got if len(got) >= s[2] else got + ' ' * (s[2] - len(got))
    if line is not None and not listed and line == before:
        return                         # untouched, blanks included
    ed.line, ed.cur = list(shown), s[2]


def local(text):
    l = text.strip().lower()
    return len(l) > 2 and (l[0] == '?' or l.endswith('??')) or l.startswith(('help', 'ls', 'load'))


def run_keys(t, ed, keys, cmds, what):
    for k in keys:
        if k == TAB:
            tab(t, ed, cmds, what)
        else:
            t.press(k)
            ed.key(k)
            agree(t, ed, what)


def completing(item):
    """A list of key sequences; after each the line is marked and submitted."""
    def fn(env):
        cmds = commands()
        t, ed = Term(env), Editor()
        for keys in item:
            what = spell(keys)
            run_keys(t, ed, keys, cmds, what)
            t.press('X')
            ed.key('X')
            agree(t, ed, what + ' X')
            if local(''.join(ed.line)):
                t.press('Z', 'Z', HOME, 'Z', ENTER)
                for k in ('Z', 'Z', HOME, 'Z', ENTER):
                    ed.key(k)
            else:
                t.press(ENTER)
                ed.key(ENTER)
            agree(t, ed, what + ' submitted', screen=False)
            if ed.sms:
                t.press(CTRLZ)
                ed.key(CTRLZ)
            t.screen.clear()
        t.leave()
        return len(item)
    return fn


def batch_fn(factory):
    def fn(items, emit):
        for it in items:
            x = explore.run_once(factory(it), (), max_steps=50000000, wall=300)
            emit.cases += len(it)
            emit.steps += x.steps
            for q in it:
                emit.states.add(hash(tuple(q)))
            if x.violation is not None:
                for q in it:
                    y = explore.run_once(factory([q]), ())
                    if y.violation is not None:
                        emit.bad('%s  [keys: %s]' % (y.violation.what, spell(q)), [q], key=y.violation.key)
                        break
                else:
                    emit.bad(x.violation.what, it, key=x.violation.key)
    return fn


def helping(item):
    """Requests to the terminal itself: they show something, send nothing, and do no harm."""
    def fn(env):
        atc = table()
        t, ed = Term(env), Editor()
        for (text, shows) in item:
            n = len(t.screen.raw)
            t.press(*(list(text) + [ENTER]))
            t.idle()
            if not t.t.alive:
                raise Violation('%r stopped the terminal' % text, key='dead')
            if t.modem.got:
                raise Violation('%r sent %r' % (text, t.modem.got), key='sent')
            out = ''.join(t.screen.raw[n:])
            seen = ' '.join(ESCAPES.sub('', out).split())
            for w in shows:
                if ' '.join(w.split()) not in seen:
                    raise Violation('%r does not show %r' % (text, w), key='help')
            t.press('a', 'T', ENTER)
            if t.modem.got != 'aT\r':
                raise Violation('after %r the line aT is sent as %r' % (text, t.modem.got), key='after')
            t.modem.got = ''
            t.screen.clear()
        t.leave()
        return len(item)
    return fn


def sms_text(item):
    """TAB in a message is no command completion: the text arrives as typed."""
    def fn(env):
        t, ed = Term(env), Editor()
        for keys in item:
            for k in list('AT+CMGS=5') + [ENTER]:
                t.press(k)
                ed.key(k)
            t.press(*keys)
            for k in keys:
                if k != TAB:
                    ed.key(k)
            t.press(CTRLZ)
            ed.key(CTRLZ)
            if t.modem.bodies:
                t.modem.bodies[-1] = (t.modem.bodies[-1][0].replace('\t', ''), t.modem.bodies[-1][1])
            agree(t, ed, 'message ' + spell(keys), screen=False)
            t.screen.clear()
        t.leave()
        return len(item)
    return fn


def mixed(s):
    return ''.join(c.lower() if i % 2 else c.upper() for i, c in enumerate(s))


def described(h):
    """What the help on a command must show."""
    if not h:
        return []
    shows = [h[1], h[0]] + list(h[4:6])
    if len(h) > 2 and h[2]:
        shows.append(('|' if len(h) > 5 else ',').join(v[0] for v in h[2]))
    for vs in h[2:4]:
        for v in vs or ():
            shows.append('%s %s' % (v[0], v[1] or ''))
    return shows


def all_prefixes(cmds):
    return sorted({c[:n] for c in cmds for n in range(len(c) + 1)})


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    load_terminal()
    cmds = commands()
    ps = all_prefixes(cmds)
    seqs = []
    for p in ps:
        for form in (p.upper(), p.lower(), mixed(p)):
            seqs.append(list(form) + [TAB])
            seqs.append(list(form) + [TAB, TAB])
        seqs += [list(p) + list(x) + [TAB] for x in ('=', '?', '=?', '=1', '??', '=??', 'z', '#', '= ', ' x', ';')]
        seqs += [list(p.lower()) + list(x) + [TAB] for x in ('=', '?', 'z')]
        seqs += [[' '] + list(p) + [TAB], list(p.lower()) + [' ', TAB], list(p) + [HOME, TAB], list(p.lower()) + [LEFT, TAB]]
    # what can be typed next after a completion
    for p in ps:
        for nxt in (sorted({c[len(p)] for c in cmds if len(c) > len(p) and c.startswith(p)})):
            seqs.append(list(p) + [TAB, nxt, TAB])
            seqs.append(list(p.lower()) + [TAB, nxt.lower(), TAB])
    alpha = ['A', 't', '+', 'C', 'm', '=', ' ', TAB, '?'] if T else ['A', 't', '+', 'c', '=', ' ', TAB]
    for n in range(1, 7 if T else 6):
        seqs += [list(x) for x in itertools.product(alpha, repeat=n) if TAB in x]
    for x in ('', 'x', '=', '?', '==', 'foo=', 'FOO=', '"', 'AT+NOSUCH=', 'AT+NOSUCH', 'at+=', '?AT+C', '?at', 'help', 'help at', 'ls', 'ls sm', '  ', '=?', 'AT+CMGF=1;+CMG'):
        seqs += [list(x) + [TAB], list(x) + [TAB, TAB], list(x) + [HOME, TAB], [TAB] + list(x) + [TAB]]
    uniq, seen = [], set()
    for s in seqs:
        if tuple(s) not in seen:
            seen.add(tuple(s))
            uniq.append(s)
    core.run_cases(ctx, 'completions', batch_fn(completing), chunk(chunk(uniq, 60), 3))
    helps = []
    atc = table()
    for c, h in sorted(dict(atc.ATCOMMANDS).items()):         # a command described twice: the last one counts
        shows = described(h)
        for f in ('help %s', '?%s', '%s??', '%s=??', 'HELP %s', ' ?%s ', 'help  %s'):
            for cc in (c, c.lower()):
                t = f % cc
                if len(t.strip()) > 2:
                    helps.append((t, shows))
    helps += [(x, []) for x in ('help', 'help ', 'help nosuch', '?nosuch', 'nosuch??', '???', '=??', 'x=??', '????', '?  x', 'help ?', 'load /nosuch/file')]
    helps += [('ls', cmds), ('lscat', list(atc.CATEGORIES)), ('LS', cmds), ('LSCAT', list(atc.CATEGORIES))]
    for cat in atc.CATEGORIES:
        for x in (cat, cat.lower(), cat.upper()):
            helps.append(('ls ' + x, [c for c, h in dict(atc.ATCOMMANDS).items() if h[0] == cat]))
    core.run_cases(ctx, 'help and listings', batch_fn_help, chunk(chunk(helps, 40), 2))
    ws = ['a', 'At', 'at+c', 'AT+CMGF', 'hello', 'FOO=', 'x', '', 'at+cmgf=', '?', 'help']
    seqs = [list(w) + [TAB] + list(v) for w in ws for v in ('', 'b', '\t', ' at\t')]
    core.run_cases(ctx, 'messages', batch_fn(sms_text), chunk(chunk(seqs, 10), 1))
    ctx.assumptions += ['the command table is the one in tools/gsmtermlib/atcommands.py; letter case and blanks around the line may change when it is completed',
                        'a listing may be shortened if it says by how many']


def batch_fn_help(items, emit):
    for it in items:
        x = explore.run_once(helping(it), (), max_steps=50000000, wall=300)
        emit.cases += len(it)
        emit.steps += x.steps
        for q in it:
            emit.states.add(q[0])
        if x.violation is not None:
            for q in it:
                y = explore.run_once(helping([q]), ())
                if y.violation is not None:
                    emit.bad(y.violation.what, [q], key=y.violation.key)
                    break
            else:
                emit.bad(x.violation.what, it, key=x.violation.key)


def replay(ctx, payload):
    loader.load_modem()
    load_terminal()
    return replay_case({'completions': completing, 'help and listings': helping, 'messages': sms_text}[payload['part']], payload)
