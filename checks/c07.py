# -*- coding: utf-8 -*-
"""C07: phone numbers and sender names survive the PDU address fields."""
import itertools

from mc import core
from mc import gsm_ref as g
from mc import loader
from .c01 import chunk
from .submit_common import dest_ok
from .c03 import ts_ok

NUM = '+27821234567'
TS = (2013, 5, 6, 7, 8, 9, 8)
TEXT = 'Hi @€'
TEXT2 = 'ж\U0001F600'


def call(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def encode_side(number, smsc, text=TEXT, ref=77):
    """None or what is wrong with the encoder's address fields."""
    pdu = loader.load_pdu()
    r = call(pdu.encodeSmsSubmitPdu, number, text, reference=ref, smsc=smsc)
    if isinstance(r, str):
        return 'encoder: ' + r
    try:
        p = g.parse_submit(bytes(r[0].data))
    except Exception as e:
        return 'malformed PDU %s: %s' % (r[0], e)
    if not dest_ok(p.dest, number):
        return 'destination encoded as %r in %s' % (p.dest, r[0])
    if (smsc is None and p.smsc is not None) or (smsc is not None and (p.smsc is None or not dest_ok(p.smsc, smsc))):
        return 'SMSC encoded as %r in %s' % (p.smsc, r[0])
    if p.text != text or p.reference != ref or p.pid != 0:
        return 'other fields disturbed in %s' % r[0]
    for form in (str(r[0]), r[0].data):
        d = call(pdu.decodeSmsPdu, form)
        if isinstance(d, str):
            return 'decoder: %s for %s' % (d, r[0])
        if d.get('number') != number or d.get('smsc') != smsc or d.get('text') != text or d.get('reference') != ref:
            return 'decodes back to number %r smsc %r text %r reference %r' % (d.get('number'), d.get('smsc'), d.get('text'), d.get('reference'))
    return None


def decode_side(number, smsc, text=TEXT):
    pdu = loader.load_pdu()
    h = g.deliver(number, text, TS, smsc=smsc)
    d = call(pdu.decodeSmsPdu, h)
    if isinstance(d, str):
        return 'decoder: %s for %s' % (d, h)
    if d.get('number') != number or d.get('smsc') != smsc or d.get('text') != text or not ts_ok(d.get('time'), TS) or d.get('protocol_id') != 0:
        return 'SMS-DELIVER %s decodes to number %r smsc %r text %r time %s' % (h, d.get('number'), d.get('smsc'), d.get('text'), d.get('time'))
    h = g.report(77, number, TS, TS, 68, smsc=smsc)
    d = call(pdu.decodeSmsPdu, h)
    if isinstance(d, str):
        return 'decoder: %s for %s' % (d, h)
    if d.get('number') != number or d.get('smsc') != smsc or not ts_ok(d.get('time'), TS) or d.get('status') != 68 or d.get('reference') != 77:
        return 'status report %s decodes to number %r smsc %r status %r' % (h, d.get('number'), d.get('smsc'), d.get('status'))
    return None


def judge(emit, number, smsc, text=TEXT):
    for side in (encode_side, decode_side):
        why = side(number, smsc, text)
        emit.case(len(number))
        if why:
            emit.bad('number %r smsc %r: %s' % (number, smsc, why), dict(number=number, smsc=smsc, text=text))


def digits_batch(ds, emit):
    for d in ds:
        for pre in ('', '+'):
            judge(emit, pre + d, None)
            judge(emit, NUM, pre + d)
        emit.states.add((len(d), d[:2], d[-1]))
    emit.sample('digit strings %s..%s' % (ds[0], ds[-1]))


def position_batch(item, emit):
    n = item
    for p in range(n):
        for v in '0123456789':
            for base in ('5', '0', '9'):
                d = base * p + v + base * (n - 1 - p)
                for pre in ('', '+'):
                    judge(emit, pre + d, None)
                    judge(emit, pre + d, '+' + d, TEXT2)
                    judge(emit, NUM, pre + d)
        emit.states.add((n, p))
    emit.sample('every digit at every position of %d-digit numbers' % n)


def cross_batch(item, emit):
    """All combinations of number length and SMSC length, both types."""
    n, = item
    for m in range(1, 21):
        for a, b in itertools.product(('', '+'), repeat=2):
            judge(emit, a + ('1234567890' * 2)[:n], b + ('9876543210' * 2)[:m])
        emit.states.add((n, m))


def is_name(t):
    if t.isdigit() or (t[:1] == '+' and (t[1:].isdigit() or t == '+')):
        return False
    return len(g.to_septets(t)) <= 11


def names_batch(names, emit):
    for t in names:
        if not is_name(t):
            continue
        judge(emit, t, None)
        if len(t) % 3 == 0:
            judge(emit, t, '+2782913593', TEXT2)
        s = g.to_septets(t)
        emit.states.add((len(s), s[-1]))
    emit.sample('names such as %r' % names[0])


def semi_batch(ds, emit):
    pdu = loader.load_pdu()
    for d in ds:
        emit.case(max(1, len(d)))
        e = call(pdu.encodeSemiOctets, d)
        if isinstance(e, str) or bytes(e) != g.semi(d):
            emit.bad('encodeSemiOctets(%r) is %r' % (d, e), d)
            continue
        for form in (bytearray(e), iter(bytearray(e)), bytes(e).hex()):
            r = call(pdu.decodeSemiOctets, form)
            if r != d:
                emit.bad('decodeSemiOctets(%r) is %r instead of %r' % (form, r, d), d)
        n = len(e)
        if n:
            it = iter(bytearray(e) + bytearray([0x21, 0x43]))
            r = call(pdu.decodeSemiOctets, it, n)
            if r != d or (len(d) % 2 == 0 and list(it) != [0x21, 0x43]):
                emit.bad('decodeSemiOctets(..., %d) is %r instead of %r' % (n, r, d), d)
        emit.states.add(len(d))


def raw_batch(toas, emit):
    """Every type-of-address octet, with numbers of every length, in all three kinds of address field."""
    pdu = loader.load_pdu()
    tail = g.timestamp(*TS)
    for toa in toas:
        for n in range(1, 21):
            num = ('1234567890' * 2)[:n]
            exp = ('+' if toa & 0x70 == 0x10 else '') + num
            body = g.semi(num)
            addr = bytes([n, toa]) + body
            udl, ud = g.user_data(TEXT, 0)
            dlv = bytes([0]) + bytes([0x04]) + addr + bytes([0, 0]) + tail + bytes([udl]) + ud
            rep = bytes([0]) + bytes([0x06, 77]) + addr + tail + tail + bytes([68])
            smsc = bytes([len(body) + 1, toa]) + body + bytes([0x04]) + g.address('123') + bytes([0, 0]) + tail + bytes([udl]) + ud
            for kind, data, field in (('deliver', dlv, 'number'), ('report', rep, 'number'), ('smsc', smsc, 'smsc')):
                emit.case(n)
                d = call(pdu.decodeSmsPdu, data.hex())
                if isinstance(d, str):
                    emit.bad('type of address %02X: %s for %s' % (toa, d, data.hex()), [toa, n, kind])
                elif d.get(field) != exp or (kind == 'smsc' and d.get('number') != '123') or (kind == 'report' and d.get('status') != 68) or (kind != 'report' and d.get('text') != TEXT):
                    emit.bad('type of address %02X, %d digits, %s: decodes to %r instead of %r (%r)' % (toa, n, kind, d.get(field), exp, d), [toa, n, kind])
        emit.states.add(toa)
    emit.sample('type of address %02X' % toas[0])


def all_digits(n):
    return [''.join(t) for t in itertools.product('0123456789', repeat=n)]


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    ds = [d for n in range(1, 5 if T else 4) for d in all_digits(n)]
    core.run_cases(ctx, 'all short numbers', digits_batch, chunk(ds, 100))
    core.run_cases(ctx, 'digit positions', position_batch, list(range(1, 21)))
    core.run_cases(ctx, 'number and SMSC lengths', cross_batch, [(n,) for n in range(1, 21)])
    chars = sorted(g.TO_CODE)
    names = list(chars) + [a + b for a in chars for b in chars]
    for ch in chars:
        for n in range(1, 11):
            for f in ('N', '@', 'a1', '7', ' '):
                fill = (f * 11)[:n]
                names += [fill + ch, ch + fill, (fill[:n // 2] + ch + fill[n // 2:])]
    if T:
        names += [''.join(t) for n in range(3, 7) for t in itertools.product('@a+1€', repeat=n)]
        names += [a + b + c for a in chars[::3] for b in chars[::3] for c in chars]
    else:
        names += [''.join(t) for n in range(3, 6) for t in itertools.product('@a+1€', repeat=n)]
    core.run_cases(ctx, 'names', names_batch, chunk(dict.fromkeys(names), 400))
    ds = [d for n in range(0, 6 if T else 5) for d in all_digits(n)]
    ds += [('1234567890' * 3)[o:o + n] for n in range(5, 21) for o in range(10)]
    core.run_cases(ctx, 'semi-octets', semi_batch, chunk(ds, 3000))
    core.run_cases(ctx, 'types of address', raw_batch, chunk([t for t in range(0x80, 0x100) if t & 0x70 != 0x50], 16))
    ctx.assumptions.append('names occupy at most 11 septets and are not of the form of a number')


def replay(ctx, payload):
    c = payload['case']
    if payload['part'] == 'types of address':
        return core.replay_batch(raw_batch, [c[0]])
    if not isinstance(c, dict):
        return 0
    why = encode_side(c['number'], c['smsc'], c['text']) or decode_side(c['number'], c['smsc'], c['text'])
    print(why or 'holds')
    return 1 if why else 0
