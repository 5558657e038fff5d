# -*- coding: utf-8 -*-
"""C02: every SMS part fits in one message and is labelled correctly."""
import itertools
from datetime import timedelta

from mc import core
from mc import gsm_ref as g
from mc import loader
from . import submit_common as sc
from .c01 import chunk, text_of, NUM


def judge(emit, number, text, kw):
    why = sc.judge_layout(number, text, kw)
    emit.case(steps=max(1, len(text)))
    if why:
        emit.bad('%s -> %s' % (sc.describe(number, text, kw), why), dict(number=number, text=text, kw=repr(kw)))


def length_batch(item, emit):
    kind, ns, ps, kw = item
    for n in ns:
        for p in (ps if ps is not None else [None]):
            if p is not None and not 0 <= p < n:
                continue
            t = text_of(kind, n, p)
            judge(emit, NUM, t, kw)
            emit.states.add((kind, n, g.min_parts(t)))
    emit.sample('%s texts of length %s, wide character at %s' % (kind, list(ns)[:3], None if ps is None else list(ps)[:3]))


def pattern_batch(item, emit):
    """All narrow/wide patterns of `width` characters placed after `prefix` narrow ones."""
    kind, prefix, width, extra = item
    narrow, wide = ('a', sc.WIDE7) if kind == 'g' else ('ж', sc.ASTRAL)
    for pat in itertools.product((narrow, wide), repeat=width):
        t = narrow * prefix + ''.join(pat) + narrow * extra
        judge(emit, NUM, t, {})
        emit.states.add((kind, prefix, pat, extra))
    emit.sample('%s + all patterns of %d + %s' % (narrow * prefix, width, narrow * extra))


def wide_batch(item, emit):
    """Texts consisting of wide characters mostly (their doubled size decides the part count)."""
    kind, ns = item
    narrow, wide = ('a', sc.WIDE7) if kind == 'g' else ('ж', sc.ASTRAL)
    for n in ns:
        for t in (wide * n, narrow + wide * n, wide * n + narrow, (narrow + wide) * (n // 2) + wide * (n % 2)):
            judge(emit, NUM, t, {})
            emit.states.add((kind, n, g.min_parts(t)))
    emit.sample('%d..%d wide characters' % (ns[0], ns[-1]))


def mixed_batch(item, emit):
    """A single non-GSM-7 character anywhere turns the whole text into UCS2."""
    ns = item
    for n in ns:
        for p in sorted({0, n // 2, n - 1}):
            for ch in ('ж', sc.ASTRAL, '\x1b', 'ç', '`'):
                t = ('abc€^{}' * (n // 7 + 1))[:n]
                t = t[:p] + ch + t[p + 1:]
                judge(emit, NUM, t, {})
                emit.states.add((n, p, ch))
    emit.sample('lengths %d..%d with one UCS2 character' % (ns[0], ns[-1]))


def option_batch(cases, emit):
    for num, text, kw in cases:
        judge(emit, num, text, kw)
        emit.states.add((num, len(text), repr(sorted(kw.items()))))
    emit.sample(repr(cases[0])[:200])


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    top = 2500 if T else 1000
    items = []
    for kind in ('gx', 'ux'):
        items += [(kind, range(n, min(n + 20, top + 1)), None, {}) for n in range(0, top + 1, 20)]
    win = list(range(148, 164)) + list(range(300, 322)) + list(range(453, 470))
    winu = list(range(62, 74)) + list(range(129, 142)) + list(range(195, 210))
    if T:
        win = list(range(0, 480))
        winu = list(range(0, 280))
    items += [('gx', [n], range(0, n), {}) for n in win]
    items += [('uA', [n], range(0, n), {}) for n in winu]
    core.run_cases(ctx, 'lengths and wide characters', length_batch, items)
    w = 11 if T else 8
    pats = [('g', pre, w, ex) for pre in range(146, 161) for ex in (0, 1, 6)]
    pats += [('u', pre, w, ex) for pre in range(58, 71) for ex in (0, 1, 6)]
    pats += [(k, pre, 6, ex) for k, lo, hi in (('g', 298, 312), ('u', 126, 140)) for pre in range(lo, hi) for ex in (0, 3)]
    core.run_cases(ctx, 'wide patterns at part boundaries', pattern_batch, pats)
    core.run_cases(ctx, 'wide texts', wide_batch, [(k, list(range(lo, lo + 10))) for k in 'gu' for lo in range(1, 400 if T else 240, 10)])
    core.run_cases(ctx, 'one UCS2 character', mixed_batch, [list(range(lo, lo + 10)) for lo in range(1, 480 if T else 330, 10)])
    ks = range(1, 256) if T else list(range(1, 9)) + [16, 63, 127, 128, 200, 254, 255]
    items = [('gx', [153 * k - 1, 153 * k, 153 * k + 1] if k < 255 else [153 * k - 1, 153 * k], None, {}) for k in ks]
    items += [('ux', [67 * k - 1, 67 * k, 67 * k + 1] if k < 255 else [67 * k - 1, 67 * k], None, {}) for k in ks]
    core.run_cases(ctx, 'many parts', length_batch, items)
    cases = []
    for num in ['1', '12', '123', '+1', '+12345678901234567890', 'Ab', 'Company', 'CompanyName'] + ['+' + '7' * n for n in range(1, 20)]:
        for text in ('', 'Hi', 'x' * 160, 'x' * 161, 'ж' * 70, 'ж' * 71):
            for smsc in (None, '+1', '+12', '12345', '123456', '+12345678901234567890'):
                for v in (None, timedelta(days=1)):
                    cases.append((num, text, dict(smsc=smsc, validity=v)))
    for ref in range(256):
        for text in ('Hi', 'y' * 400, 'ж' * 200):
            cases.append((NUM, text, dict(reference=ref, sendFlash=bool(ref & 1), requestStatusReport=bool(ref & 2), rejectDuplicates=bool(ref & 4))))
    core.run_cases(ctx, 'addresses, references and options', option_batch, chunk(cases, 100))
    ctx.assumptions += ['texts without lone surrogates', 'the reference decoder follows 3GPP TS 23.040/23.038']


def replay(ctx, payload):
    c = payload['case']
    why = sc.judge_layout(c['number'], c['text'], eval(c['kw'], sc.EVAL))
    print(why or 'holds')
    return 1 if why else 0
