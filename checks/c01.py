# -*- coding: utf-8 -*-
"""C01: encoded SMS-SUBMIT PDUs carry exactly the requested text, number and options."""
import itertools
from datetime import datetime, timedelta, timezone

from mc import core
from mc import gsm_ref as g
from mc import loader
from . import submit_common as sc

NUM = '+27821234567'


def judge(emit, number, text, kw, steps=None):
    why = sc.judge_content(number, text, kw)
    emit.case(steps=max(1, len(text)))
    if why:
        emit.bad('%s -> %s' % (sc.describe(number, text, kw), why), dict(number=number, text=text, kw=repr(kw)))


def chars_batch(rng, emit):
    lo, hi = rng
    for cp in range(lo, hi):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        ch = chr(cp)
        for t in (ch, 'a' + ch + 'b'):
            judge(emit, NUM, t, {})
        emit.states.add((0 if ch in g.TO_CODE else 2, cp >> 4))
    emit.sample('U+%04X..U+%04X alone and between letters' % (lo, hi - 1))


def pairs_batch(texts, emit):
    for t in texts:
        sc.note_septets(emit, t)
        judge(emit, NUM, t, {})
    emit.sample(texts[0])


def text_of(kind, n, p=None):
    base = {'g': 'abcdefghij', 'u': 'абвгдежзик'}[kind[0]]
    t = (base * (n // 10 + 1))[:n]
    if p is not None and p < n:
        w = {'x': sc.WIDE7, 'A': sc.ASTRAL, '@': '@', 'u': 'ж'}[kind[1]]
        t = t[:p] + w + t[p + 1:]
    return t


def length_batch(item, emit):
    kind, ns, ps = item
    for n in ns:
        for p in (ps if ps is not None else [None]):
            if p is not None and p < 0:
                p = n + p
            if p is not None and not 0 <= p < n:
                continue
            t = text_of(kind, n, p)
            judge(emit, NUM, t, {})
            emit.states.add((kind, n, g.min_parts(t)))
    emit.sample('%s texts of length %s, wide character at %s' % (kind, list(ns)[:3], None if ps is None else list(ps)[:3]))


def pattern_batch(item, emit):
    kind, prefix, width, extra = item
    narrow, wide = ('a', sc.WIDE7) if kind == 'g' else ('ж', sc.ASTRAL)
    for pat in itertools.product((narrow, wide), repeat=width):
        t = narrow * prefix + ''.join(pat) + narrow * extra
        judge(emit, NUM, t, {})
        emit.states.add((kind, prefix, pat, extra))


def tz(q):
    return timezone(timedelta(minutes=15 * q))


def options():
    texts = ['', 'Hello', 'x' * 200, 'ж' * 10, 'ж' * 100, 'Q' * 160, sc.ASTRAL + '[]']
    smscs = [None, '+2782913593', '+27829135934', '0829135934', '12345']
    vals = [None, timedelta(minutes=5), timedelta(hours=13), timedelta(days=3), timedelta(weeks=40),
            datetime(2013, 5, 6, 7, 8, 9, tzinfo=tz(8)), datetime(2031, 12, 31, 23, 59, 58, tzinfo=tz(-14)),
            datetime(2020, 2, 29, 0, 0, 0, tzinfo=tz(23))]
    for smsc, v in itertools.product(smscs, vals):
        yield [(text, dict(reference=ref, smsc=smsc, validity=v, requestStatusReport=srr, rejectDuplicates=rd, sendFlash=fl))
               for text in texts for ref in (0, 1, 200, 255) for srr in (False, True) for rd in (False, True) for fl in (False, True)]


def option_batch(cases, emit):
    for text, kw in cases:
        judge(emit, NUM, text, kw)
        emit.states.add(repr((len(text), sorted((k, repr(v)) for k, v in kw.items()))))
    emit.sample(repr(cases[-1]))


def default_batch(cases, emit):
    """Every option on its own, by keyword, and the defaults."""
    for text, kw in cases:
        judge(emit, NUM, text, kw)
        emit.states.add((text, repr(kw)))


def dest_batch(cases, emit):
    for num, text, kw in cases:
        judge(emit, num, text, kw, steps=len(num))
        emit.states.add((num[:1] == '+', num.isalnum(), len(num)))
    emit.sample(repr(cases[0]))


SEQ = [('+27821234567', 'Hello', {}), ('0821234567', '\u20ac' * 100, dict(reference=9, requestStatusReport=False)),
       ('Company', '\u0436', dict(sendFlash=True, rejectDuplicates=True)), ('12345', '\u0436' * 150, dict(smsc='+2782913593', validity=timedelta(days=1))),
       ('+1', '', dict(validity=datetime(2013, 5, 6, 7, 8, 9, tzinfo=timezone(timedelta(hours=2))))), ('+27821234567', 'q' * 500, dict(smsc='12345', reference=255)),
       ('+1', '\ud800', {}), ('', 'x', dict(validity='never')), ('+1', 'x', dict(reference=300))]  # the last three are not judged, only what they leave behind


def raw(pdus):
    return [(bytes(p.data), p.tpduLength, str(p)) for p in pdus]


def sequence(idx):
    """Encode in order: each right when given, and its PDUs the same at the end, also after another result was changed by the caller."""
    kept = []
    for i in idx:
        number, text, kw = SEQ[i]
        if i >= len(SEQ) - 3:
            try:
                sc.encode(number, text, **kw)
            except Exception:
                pass
            continue
        why = sc.judge_content(number, text, kw)
        if why:
            return why
        pdus = sc.encode(number, text, **kw)
        kept.append((i, pdus, raw(pdus)))
    for i, pdus, was in kept:
        if raw(pdus) != was:
            return 'the PDUs of %r changed while others were encoded' % (SEQ[i],)
    for k, (i, pdus, was) in enumerate(kept):
        for p in pdus:
            del p.data[:]
        del pdus[:]
        for j, q, qwas in kept[k + 1:]:
            if raw(q) != qwas:
                return 'the PDUs of %r changed with those of %r' % (SEQ[j], SEQ[i])
    for i, _, was in kept:
        if raw(sc.encode(SEQ[i][0], SEQ[i][1], **SEQ[i][2])) != was:
            return 'encoding %r again gives other PDUs' % (SEQ[i],)
    return None


def sequence_batch(item, emit):
    first, depth = item
    for rest in itertools.product(range(len(SEQ)), repeat=depth - 1):
        idx = (first,) + rest
        why = sequence(idx)
        emit.case(steps=depth)
        emit.states.add(idx)
        if why:
            emit.bad('encoding in the order %r: %s' % ([SEQ[i] for i in idx], why), dict(seq=list(idx)))


def chunk(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    rngs = [(lo, lo + 1024) for lo in range(0, 0x10000, 1024)]
    if T:
        rngs += [(lo, lo + 4096) for lo in range(0x10000, 0x110000, 4096)]
    else:
        for plane in range(1, 17):
            b = plane << 16
            rngs += [(b, b + 64), (b + 0x3FF - 8, b + 0x408), (b + 0xF600, b + 0xF640), (b + 0xFFC0, b + 0x10000)]
    core.run_cases(ctx, 'characters', chars_batch, rngs)
    core.run_cases(ctx, 'septet transitions', pairs_batch, chunk(sc.alphabet_texts(), 100))
    items = []
    top = 1700 if T else 700
    for kind in ('gx', 'ux'):
        items += [(kind, range(n, min(n + 20, top + 1)), None) for n in range(0, top + 1, 20)]
    win = list(range(150, 164)) + list(range(302, 322)) + list(range(455, 470))
    winu = list(range(64, 74)) + list(range(131, 142)) + list(range(197, 210))
    for n in win:
        for kind in ('gx', 'g@') + (('gu',) if T else ()):
            items.append((kind, [n], range(0, n)))
    for n in winu:
        items.append(('uA', [n], range(0, n)))
    for n in (1, 2, 7, 8, 9, 15, 16, 152, 153, 154, 158, 159, 160, 161):
        items.append(('gu', [n], range(0, n)))
    if T:
        for n in list(range(0, 150)) + list(range(164, 302)):
            items.append(('gx', [n], range(0, n)))
        for n in list(range(0, 64)) + list(range(74, 131)):
            items.append(('uA', [n], range(0, n)))
    core.run_cases(ctx, 'lengths and wide characters', length_batch, items)
    w = 9 if T else 7
    pats = [('g', pre, w, ex) for pre in range(145, 161) for ex in (0, 1, 5)]
    pats += [('u', pre, w, ex) for pre in range(59, 71) for ex in (0, 1, 5)]
    if T:
        pats += [('g', pre, w, 0) for pre in range(296, 312)] + [('u', pre, w, 0) for pre in range(126, 142)]
    core.run_cases(ctx, 'wide patterns at part boundaries', pattern_batch, pats)
    ks = range(1, 256) if T else list(range(1, 9)) + [127, 128, 254, 255]
    items = [('gx', [153 * k, 153 * k + 1] if k < 255 else [153 * k], None) for k in ks]
    items += [('ux', [67 * k, 67 * k + 1] if k < 255 else [67 * k], None) for k in ks]
    core.run_cases(ctx, 'many parts', length_batch, items)
    core.run_cases(ctx, 'option combinations', option_batch, list(options()))
    dflt = [(t, kw) for t in ('', 'Hello', 'y' * 161, 'ж', 'ж' * 71)
            for kw in [dict()] + [dict(reference=r) for r in range(256)] + [dict(requestStatusReport=False), dict(rejectDuplicates=True), dict(sendFlash=True)]]
    core.run_cases(ctx, 'references and defaults', default_batch, chunk(dflt, 200))
    dests = []
    for n in range(1, 21):
        for off in range(10):
            d = ''.join(str((off + 7 * i) % 10) for i in range(n))
            for pre in ('', '+'):
                dests += [(pre + d, 'Hi', {}), (pre + d, 'z' * 161, {}), (NUM, 'Hi', dict(smsc=pre + d)), (pre + d, 'ж', dict(validity=timedelta(days=1), smsc='+1234'))]
    for a, b in itertools.product('0123456789', repeat=2):
        dests += [(a + b, 'x', {}), ('+1' + a + b, 'x', {}), (a + b + '7', 'x', dict(smsc='+' + b + a))]
    chars = sorted(g.TO_CODE)
    for n in range(1, 12):
        for base in ('Company Name', 'abcDEFghiJKL', '@@@@@@@@@@@@', 'a1b2c3d4e5f6'):
            dests.append((base[:n], 'Hi', {}))
    for ch in chars:
        if ch in '\n\r\x0c':
            continue
        for n in range(0, 10 if len(g.TO_CODE[ch]) == 1 else 9):
            name = 'X' * n + ch
            if not name.isdigit() and not (name[0] == '+' and name[1:].isdigit()):
                dests.append((name, 'Hi', {}))
                dests.append((ch + 'Y' * n, 'Hi', {})) if not (ch.isdigit() and n == 0) else None
    dests = [d for d in dests if d[0] not in ('+',)]
    core.run_cases(ctx, 'destinations', dest_batch, chunk(dests, 150))
    core.run_cases(ctx, 'one message after another', sequence_batch, [(i, 4 if T else 3) for i in range(len(SEQ))])
    ctx.assumptions += ['texts without lone surrogates', 'the reference decoder follows 3GPP TS 23.040/23.038']


def replay(ctx, payload):
    c = payload['case']
    why = sequence(c['seq']) if 'seq' in c else sc.judge_content(c['number'], c['text'], eval(c['kw'], sc.EVAL))
    print(why or 'holds')
    return 1 if why else 0
