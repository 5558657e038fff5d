# -*- coding: utf-8 -*-
"""C05: the GSM 7-bit alphabet and septet packing are exact and invertible."""
import itertools

from mc import core
from mc import gsm_ref as g
from mc import loader
from .c01 import chunk


def safe(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def char_batch(rng, emit):
    pdu = loader.load_pdu()
    lo, hi = rng
    for cp in range(lo, hi):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        ch = chr(cp)
        code = g.TO_CODE.get(ch)
        for text, pre, post in ((ch, (), ()), ('a' + ch + '@', (0x61,), (0x00,)), (ch + '€', (), (0x1B, 0x65))):
            emit.case()
            if code is None:
                try:
                    r = pdu.encodeGsm7(text)
                except ValueError:
                    pass
                except Exception as e:
                    emit.bad('encodeGsm7(%r) raised %s: %s' % (text, type(e).__name__, e))
                else:
                    emit.bad('encodeGsm7(%r) accepted U+%04X as %r' % (text, cp, bytes(r)))
                want = pre + post
            else:
                want = pre + code + post
                r = safe(pdu.encodeGsm7, text)
                if isinstance(r, str) or tuple(r) != want:
                    emit.bad('encodeGsm7(%r) is %r instead of %r' % (text, r, bytes(want)))
                else:
                    d = safe(pdu.decodeGsm7, r)
                    if d != text:
                        emit.bad('decodeGsm7(encodeGsm7(%r)) is %r' % (text, d))
            for kw in (dict(discardInvalid=True),):
                r = safe(pdu.encodeGsm7, text, **kw)
                if isinstance(r, str) or tuple(r) != want:
                    emit.bad('encodeGsm7(%r, discardInvalid=True) is %r instead of %r' % (text, r, bytes(want)))
        # UCS2
        for text in (ch, 'x' + ch, ch + 'ж'):
            emit.case()
            e = safe(pdu.encodeUcs2, text)
            if isinstance(e, str) or bytes(e) != g.ucs2(text):
                emit.bad('encodeUcs2(%r) is %r' % (text, e))
            else:
                d = safe(pdu.decodeUcs2, iter(e), len(e))
                if d != text:
                    emit.bad('decodeUcs2(encodeUcs2(%r)) is %r' % (text, d))
        if code is not None:
            emit.states.add(code)
    emit.states.add(('range', lo))
    emit.sample('U+%04X..U+%04X' % (lo, hi - 1))


def pair_batch(chars, emit):
    pdu = loader.load_pdu()
    allc = sorted(g.TO_CODE)
    for a in chars:
        for b in allc:
            for t in (a + b, a + b + a, b + 'x' + a):
                emit.case(len(t))
                want = g.to_septets(t)
                r = safe(pdu.encodeGsm7, t)
                if isinstance(r, str) or list(r) != want:
                    emit.bad('encodeGsm7(%r) is %r instead of %r' % (t, r, want))
                    continue
                for form in (r, bytes(r), bytes(r).decode('latin-1')) if a == allc[0] else (r,):
                    if isinstance(form, bytes):
                        form = bytearray(form)
                    d = safe(pdu.decodeGsm7, form)
                    if d != t:
                        emit.bad('decodeGsm7(%r) is %r instead of %r' % (form, d, t))
            emit.states.add((a, b))
    emit.sample('pairs with each of %r' % ''.join(chars))


def check_pack(emit, seq, as_str=False):
    pdu = loader.load_pdu()
    emit.case(max(1, len(seq)))
    want = g.pack(seq)
    src = bytes(seq).decode('latin-1') if as_str else bytearray(seq)
    r = safe(pdu.packSeptets, src)
    if isinstance(r, str) or bytes(r) != want:
        emit.bad('packSeptets(%r) is %r instead of %r' % (src, r, want), list(seq))
        return
    prev = 0
    for i, c in enumerate(seq[:64]):
        emit.bits |= 1 << (((i & 7) << 14) | (prev << 7) | c)
        prev = c
    src = want.decode('latin-1') if as_str else bytearray(want)
    u = safe(pdu.unpackSeptets, src)
    ok = not isinstance(u, str) and (list(u) == list(seq) or (len(seq) and len(seq) % 8 == 0 and seq[-1] == 0 and list(u) == list(seq[:-1])))
    if not ok:
        emit.bad('unpackSeptets(%r) is %r instead of %r' % (src, u, list(seq)), list(seq))


def small_batch(item, emit):
    pre, depth, vals = item
    for n in range(depth + 1):
        for t in itertools.product(vals, repeat=n):
            check_pack(emit, list(pre) + list(t))
    emit.sample('all sequences %r + up to %d of %d septet values' % (list(pre), depth, len(vals)))


def align_batch(item, emit):
    """All (previous, current) septet pairs at one alignment, followed by 0, 1 or 9 more septets."""
    shift, a = item
    for b in range(128):
        for tail in ([], [0x2A], [0x7F] * 9):
            seq = [0x55] * shift + [a, b] + tail
            check_pack(emit, seq)
            if a % 16 == 1:
                check_pack(emit, seq, as_str=True)
    emit.sample('alignment %d, septet %d, all successors' % (shift, a))


def len_batch(ns, emit):
    for n in ns:
        for f in (lambda i: 0x7F, lambda i: 0, lambda i: 1, lambda i: 0x40, lambda i: (i * 37 + n) & 0x7F, lambda i: 0x55 if i % 2 else 0x2A,
                  lambda i: 0x7F if i == n - 1 else 0, lambda i: 0 if i == n - 1 else 0x7F, lambda i: 1 if i == 0 else 0):
            check_pack(emit, [f(i) for i in range(n)])
        emit.states.add(('len', n))


def str_batch(ns, emit):
    for n in ns:
        for f in (lambda i: 0x41 + i % 26, lambda i: (i * 53 + 7 * n) & 0x7F):
            check_pack(emit, [f(i) for i in range(n)], as_str=True)


def bits_batch(item, emit):
    """One-hot and one-cold septet sequences: every single bit position of every length."""
    n = item
    for i in range(n):
        for bit in range(7):
            seq = [0] * n
            seq[i] = 1 << bit
            check_pack(emit, seq)
            seq = [0x7F] * n
            seq[i] ^= 1 << bit
            check_pack(emit, seq)
    emit.sample('every single bit in sequences of %d septets' % n)


def ucs_batch(_, emit):
    pdu = loader.load_pdu()
    edge = ['\0', 'A', '\u00ff', '\u0100', '\u07ff', '\ud7ff', '\ue000', '\ufffe', '\uffff', '\U00010000', '\U000103ff', '\U00010400', '\U0001F600', '\U0010FC00', '\U0010ffff']
    for n in range(0, 5):
        for t in itertools.product(edge, repeat=n):
            t = ''.join(t)
            emit.case(max(1, n))
            e = safe(pdu.encodeUcs2, t)
            if isinstance(e, str) or bytes(e) != g.ucs2(t):
                emit.bad('encodeUcs2(%r) is %r' % (t, e))
                continue
            d = safe(pdu.decodeUcs2, iter(e), len(e))
            if d != t:
                emit.bad('decodeUcs2(encodeUcs2(%r)) is %r' % (t, d))
            # a limit shorter than the data stops there
            if n and all(ord(c) < 0x10000 for c in t):
                d = safe(pdu.decodeUcs2, iter(e), len(e) - 2)
                if d != t[:-1]:
                    emit.bad('decodeUcs2 of %d octets of %r is %r' % (len(e) - 2, t, d))
            emit.states.add(t)


def reject_batch(_, emit):
    """discardInvalid drops just the characters that cannot be encoded."""
    pdu = loader.load_pdu()
    for n in range(0, 6):
        for t in itertools.product('a€ж\x1b\U0001F600@', repeat=n):
            t = ''.join(t)
            emit.case(max(1, n))
            keep = ''.join(c for c in t if c in g.TO_CODE)
            want = g.to_septets(keep)
            r = safe(pdu.encodeGsm7, t, True)
            if isinstance(r, str) or list(r) != want:
                emit.bad('encodeGsm7(%r, True) is %r instead of %r' % (t, r, want))
            if keep != t:
                try:
                    pdu.encodeGsm7(t)
                except ValueError:
                    pass
                except Exception as e:
                    emit.bad('encodeGsm7(%r) raised %r' % (t, e))
                else:
                    emit.bad('encodeGsm7(%r) was accepted' % t)


# ------------------------------------------------------------------ one call after another
CALLS = [('encodeGsm7', 'hello @'), ('encodeGsm7', '\u20ac[x]'), ('encodeGsm7', 'hello @\u0436'), ('encodeGsm7', ''),
         ('discard', 'hello @\u0436'), ('discard', 'hello @'),
         ('decodeGsm7', (0x68, 0x1B, 0x65, 0x00)), ('decodeGsm7 str', (0x68, 0x41)),
         ('packSeptets', (0x68, 0x65, 0x6C)), ('packSeptets str', (0x68, 0x65, 0x6C)), ('packSeptets', ()), ('packSeptets', (1, 2, 3, 4, 5, 6, 7, 8)),
         ('unpackSeptets', (0x68, 0x65, 0x6C)), ('unpackSeptets str', (0x68, 0x65, 0x6C)), ('unpackSeptets', ()), ('unpackSeptets', (1, 2, 3, 4, 5, 6, 7, 8)),
         ('encodeUcs2', 'hello @'), ('encodeUcs2', '\U0001F600'), ('decodeUcs2', 'x\U0001F600'), ('decodeUcs2', '')]


def perform(pdu, op, arg):
    """(the result, what it has to be, the argument passed, a copy of that)"""
    fn = op.split()[0]
    if fn in ('encodeGsm7', 'discard'):
        keep = ''.join(c for c in arg if c in g.TO_CODE)
        want = g.to_septets(keep) if fn == 'discard' or keep == arg else 'ValueError'
        try:
            return (pdu.encodeGsm7(arg, True) if fn == 'discard' else pdu.encodeGsm7(arg)), want, arg, arg
        except ValueError:
            return 'ValueError', want, arg, arg
    if fn == 'encodeUcs2':
        return pdu.encodeUcs2(arg), list(g.ucs2(arg)), arg, arg
    if fn == 'decodeUcs2':
        src = bytearray(g.ucs2(arg))
        return pdu.decodeUcs2(iter(src), len(src)), arg, src, bytearray(src)
    raw = bytes(arg) if fn != 'unpackSeptets' else g.pack(list(arg))
    src = raw.decode('latin-1') if op.endswith(' str') else bytearray(raw)
    was = src if isinstance(src, str) else bytearray(src)
    want = {'decodeGsm7': lambda: g.from_septets(list(arg)), 'packSeptets': lambda: list(g.pack(list(arg))), 'unpackSeptets': lambda: list(arg)}[fn]()
    return getattr(pdu, fn)(src), want, src, was


def call_sequence(idx):
    pdu = loader.load_pdu()
    results = []
    for i in idx:
        op, arg = CALLS[i]
        try:
            got, want, src, was = perform(pdu, op, arg)
        except Exception as e:
            return '%s(%r) raised %s: %s' % (op, arg, type(e).__name__, e)
        plain = got if isinstance(got, str) else list(got)
        if plain != want:
            return '%s(%r) is %r instead of %r' % (op, arg, got, want)
        if src != was:
            return '%s(%r) changed its argument to %r' % (op, was, src)
        for j, other, owant in results:
            if (other if isinstance(other, str) else list(other)) != owant:
                return '%s(%r) changed the result of %s(%r) to %r' % (op, arg, CALLS[j][0], CALLS[j][1], other)
        results.append((i, got, want))
        if len(results) % 2 and isinstance(got, bytearray):
            got.extend(b'zz')                               # a result belongs to the caller
            del got[0]
            results.pop()
    return None


def call_batch(item, emit):
    first, depth = item
    for n in range(depth):
        for rest in itertools.product(range(len(CALLS)), repeat=n):
            idx = (first,) + rest
            why = call_sequence(idx)
            emit.case(steps=len(idx))
            emit.states.add(idx)
            if why:
                emit.bad('calls one after another: ' + why, dict(seq=list(idx)))
    emit.sample('every sequence of up to %d calls that starts with %s(%r)' % ((depth,) + CALLS[first]))


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    rngs = [(lo, lo + 1024) for lo in range(0, 0x10000, 1024)]
    if T:
        rngs += [(lo, lo + 4096) for lo in range(0x10000, 0x110000, 4096)]
    else:
        for plane in range(1, 17):
            b = plane << 16
            rngs += [(b, b + 256), (b + 0x3F0, b + 0x410), (b + 0xF600, b + 0xF640), (b + 0xFF00, b + 0x10000)]
    core.run_cases(ctx, 'characters', char_batch, rngs)
    chars = sorted(g.TO_CODE)
    core.run_cases(ctx, 'character pairs', pair_batch, chunk(chars, 4))
    core.run_cases(ctx, 'discarding', reject_batch, [0])
    core.run_cases(ctx, 'septets at every alignment', align_batch, [(s, a) for s in range(8) for a in range(128)])
    vals = (0x00, 0x01, 0x40, 0x7F) if not T else (0x00, 0x01, 0x2A, 0x40, 0x7F)
    core.run_cases(ctx, 'all short sequences', small_batch, [((), 2, range(128))] + [((a, b), 7, vals) for a in vals for b in vals])
    core.run_cases(ctx, 'single bits', bits_batch, list(range(1, 34 if T else 26)))
    core.run_cases(ctx, 'lengths', len_batch, chunk(range(0, 600 if T else 330), 20))
    core.run_cases(ctx, 'str input', str_batch, chunk(range(0, 200), 20))
    core.run_cases(ctx, 'UCS2 sequences', ucs_batch, [0])
    core.run_cases(ctx, 'one call after another', call_batch, [(i, 4 if T else 3) for i in range(len(CALLS))])
    ctx.assumptions.append('texts without lone surrogates')
