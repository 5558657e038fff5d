# -*- coding: utf-8 -*-
"""C04: undecodable PDU data only ever raises the documented encoding error."""
import itertools

from mc import core
from mc import gsm_ref as g
from mc import loader
from .c01 import chunk

TS = (2013, 5, 6, 7, 8, 9, 8)
TS2 = (2014, 12, 31, 23, 59, 58, -14)
NAMES = []


def corpus():
    """(name, hex, number of octets up to the end of the mandatory fields)"""
    out = []

    def add(name, h, tail):
        out.append((name, h, len(h) // 2 - tail))

    cc = ((0, b'\x05\x02\x01'),)
    for smsc in (None, '+2782913593'):
        for num in ('+27821234567', '12345', 'Company'):
            for name, text, al, ies in (('gsm7', 'Hello w@rld €', 0, ()), ('gsm7 header', 'part one', 0, cc), ('ucs2', 'жук\U0001F600', 2, ()), ('ucs2 header', 'ж', 2, cc),
                                        ('8-bit', 'data', 1, ((5, b'\x0b\x84\x23\xf0'),)), ('empty', '', 0, ())):
                if smsc and num != '+27821234567':
                    continue
                h = g.deliver(num, text, TS, smsc=smsc, alphabet=al, ies=ies)
                add('deliver %s %s %s' % (name, num, smsc), h, len(g.user_data(text, al, ies)[1]))
        for vp in (None, 167, TS2):
            h = g.submit(9, '+27821234567', 'Hello', smsc=smsc, vp=vp)
            add('submit vp %r %s' % (vp, smsc), h, len(g.user_data('Hello', 0)[1]))
        h = g.submit(9, '+27821234567', 'Hello', smsc=smsc, ies=cc)
        add('submit header %s' % smsc, h, len(g.user_data('Hello', 0, cc)[1]))
        add('report %s' % smsc, g.report(66, '+27821234567', TS, TS2, 0, smsc=smsc), 0)
    return out


def attempt(data):
    """('ok'|'enc'|description, result)"""
    pdu = loader.load_pdu()
    exc = loader.load_exceptions()
    try:
        r = pdu.decodeSmsPdu(data)
    except exc.EncodingError:
        return 'enc', None
    except BaseException as e:
        return 'raised %s: %s' % (type(e).__name__, e), None
    if not isinstance(r, dict):
        return 'returned %r' % (r,), None
    return 'ok', r


def judge(emit, data, must_fail=False):
    kind, r = attempt(data)
    emit.case(steps=max(1, len(data)))
    emit.states.add((kind, r and r.get('type'), len(data)) if kind in ('ok', 'enc') else kind)
    if kind not in ('ok', 'enc'):
        emit.bad('decodeSmsPdu(%r) %s' % (data, kind), dict(data=repr(data), must_fail=must_fail))
    elif kind == 'ok' and must_fail:
        emit.bad('decodeSmsPdu(%r) returned %r although mandatory fields are missing' % (data, r), dict(data=repr(data), must_fail=must_fail))


def truncation_batch(items, emit):
    for name, h, mand in items:
        raw = bytes.fromhex(h)
        assert attempt(h)[0] == 'ok', (name, h, attempt(h))
        for n in range(len(raw)):
            judge(emit, raw[:n].hex().upper(), must_fail=n < mand)
            judge(emit, bytearray(raw[:n]), must_fail=n < mand)
            judge(emit, h[:2 * n + 1])
            judge(emit, h[1:2 * n + 1])
        for n in range(1, len(raw)):
            judge(emit, bytearray(raw[n:]))
    emit.sample('all truncations of ' + items[0][0])


def byte_batch(item, emit):
    """All 256 values of one octet, combined with all truncations nearby."""
    (name, h, mand), pos = item
    raw = bytearray.fromhex(h)
    for v in range(256):
        m = bytearray(raw)
        m[pos] = v
        judge(emit, bytearray(m))
        judge(emit, bytes(m).hex())
    emit.sample('octet %d of %s' % (pos, name))


SPECIAL = (0x00, 0x01, 0x02, 0x05, 0x0B, 0x40, 0x7F, 0x80, 0x99, 0xD0, 0xF5, 0xFF)


def double_batch(item, emit):
    (name, h, mand), p, ps = item
    raw = bytearray.fromhex(h)
    for q in ps:
        if p >= q:
            continue
        for v, w in itertools.product(SPECIAL, repeat=2):
            m = bytearray(raw)
            m[p], m[q] = v, w
            judge(emit, m)
    for v in SPECIAL:
        for n in range(p + 1, len(raw)):
            m = bytearray(raw)
            m[p] = v
            judge(emit, m[:n])
    emit.sample('octets %d and another of %s' % (p, name))


def delins_batch(items, emit):
    for name, h, mand in items:
        raw = bytearray.fromhex(h)
        for p in range(len(raw) + 1):
            for v in SPECIAL:
                judge(emit, raw[:p] + bytearray([v]) + raw[p:])
            judge(emit, raw[:p] + raw[p + 1:])
            judge(emit, raw[:p] + raw[p:p + 1] * 2 + raw[p + 1:])
            judge(emit, raw + raw[:p])
    emit.sample('insertions and deletions in ' + items[0][0])


def text_batch(items, emit):
    bad = ['', ' ', 'G', 'g', '0', 'zz', 'é', '\u0416', '\U0001F600', '\n', '\r\n', '-1', '+1', '0x', 'OK', '"', '\0', '٣', '\udc80']
    for name, h, mand in items:
        for p in range(len(h) + 1):
            for b in bad:
                judge(emit, h[:p] + b + h[p:])
                judge(emit, h[:p] + b + h[p + 1:])
        for b in bad:
            try:
                judge(emit, (h + b).encode('latin-1'))
                judge(emit, (b + h).encode('latin-1'))
            except UnicodeEncodeError:
                pass
    emit.sample('non-hexadecimal characters in ' + items[0][0])


def short_batch(item, emit):
    prefix, depth = item
    for n in range(depth + 1):
        for t in itertools.product(range(256), repeat=n):
            judge(emit, bytearray(prefix + list(t)), must_fail=True)
    emit.sample('all octet strings %r + up to %d octets' % (prefix, depth))


def ascii_batch(_, emit):
    for n in (0, 1):
        for t in itertools.product([chr(c) for c in range(0, 256)] + ['\u0416', '\u3000', '\uffff'], repeat=n):
            judge(emit, ''.join(t), must_fail=True)
    for a in range(0, 256):
        for b in range(0, 256):
            judge(emit, chr(a) + chr(b), must_fail=True)
    for s in ('OK', 'ERROR', '+CMGL: 1,1,,20', 'Hello world', '0x00', '00 11', 'AT', '>', '\x1a', '\x1b'):
        judge(emit, s, must_fail=True)
        judge(emit, s.encode('ascii'), must_fail=True)
    emit.sample('all one and two character strings')


def semantic_batch(item, emit):
    """Fields with every octet value pairwise: address length x type, UDL x UDHL x IE length, date fields."""
    what, v = item
    base = bytearray.fromhex(g.deliver('+27821234567', 'Hello', TS, smsc='+2782913593', ies=((0, b'\1\2\1'),)))
    sl = g.smsc_len(base.hex())
    addr = sl + 1
    udl = addr + 2 + 6 + 2 + 7
    if what == 'addr':
        for t in range(256):
            m = bytearray(base)
            m[addr], m[addr + 1] = v, t
            judge(emit, m)
    elif what == 'smsc':
        for t in range(256):
            m = bytearray(base)
            m[0], m[1] = v, t
            judge(emit, m)
    elif what == 'udl':
        for t in range(256):
            m = bytearray(base)
            m[udl], m[udl + 1] = v, t
            judge(emit, m)
    elif what == 'ie':
        for t in range(256):
            m = bytearray(base)
            m[udl + 2], m[udl + 3] = v, t
            judge(emit, m)
    elif what == 'fo':
        for t in range(256):
            m = bytearray(base)
            m[sl], m[udl - 8] = v, t
            judge(emit, m)
    emit.sample('%s octets' % what)


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    loader.load_exceptions()
    co = corpus()
    core.run_cases(ctx, 'truncations', truncation_batch, chunk(co, 3))
    core.run_cases(ctx, 'single octets', byte_batch, [(c, p) for c in co for p in range(len(c[1]) // 2)])
    sel = co if T else [c for i, c in enumerate(co) if i in (1, 7, 19, 25)]
    core.run_cases(ctx, 'two octets', double_batch, [(c, p, list(range(len(c[1]) // 2))) for c in sel for p in range(len(c[1]) // 2)])
    core.run_cases(ctx, 'insertions and deletions', delins_batch, chunk(co, 2))
    core.run_cases(ctx, 'not hexadecimal', text_batch, chunk(co, 2))
    core.run_cases(ctx, 'length and type fields', semantic_batch, [(w, v) for w in ('addr', 'smsc', 'udl', 'ie', 'fo') for v in range(256)])
    shorts = [([], 2)] + [([a], 1) for a in range(256)]
    if T:
        shorts += [([a], 2) for a in range(256)]
    core.run_cases(ctx, 'short octet strings', short_batch, shorts)
    core.run_cases(ctx, 'short character strings', ascii_batch, [0])
    ctx.assumptions.append('a PDU is a str, bytes or bytearray')


def replay(ctx, payload):
    c = payload['case']
    kind, r = attempt(eval(c['data']))
    print(kind, r)
    return 1 if kind not in ('ok', 'enc') or (kind == 'ok' and c['must_fail']) else 0
