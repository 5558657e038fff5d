# -*- coding: utf-8 -*-
"""C03: well-formed received PDUs decode to exactly the fields they carry."""
import itertools
from datetime import datetime, timedelta

from mc import core
from mc import gsm_ref as g
from mc import loader
from .c01 import chunk

TS = (2013, 5, 6, 7, 8, 9, 8)
TS2 = (2031, 12, 31, 23, 59, 58, -14)
CLASSES = {0: 'Concatenation', 8: 'Concatenation', 4: 'PortAddress', 5: 'PortAddress'}


def ts_ok(t, ts):
    try:
        return (t.year, t.month, t.day, t.hour, t.minute, t.second) == tuple(ts[:6]) and t.utcoffset() == timedelta(minutes=15 * ts[6])
    except Exception:
        return False


def ie_ok(el, ie):
    iid, d = ie
    if el.id != iid or el.dataLength != len(d) or list(el.data) != list(d):
        return False
    if iid == 0:
        return (el.reference, el.parts, el.number) == tuple(d)
    if iid == 8:
        return (el.reference, el.parts, el.number) == (d[0] << 8 | d[1], d[2], d[3])
    if iid == 4:
        return (el.destination, el.source) == tuple(d)
    if iid == 5:
        return (el.destination, el.source) == (d[0] << 8 | d[1], d[2] << 8 | d[3])
    return True


def check(hexpdu, want, form=0):
    pdu = loader.load_pdu()
    data = hexpdu if form == 0 else hexpdu.lower() if form == 1 else bytearray.fromhex(hexpdu) if form == 2 else hexpdu.encode('ascii')
    try:
        r = pdu.decodeSmsPdu(data)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    if form == 2 and bytes(data).hex().upper() != hexpdu:
        return 'the byte array given was modified'
    return compare(r, want)


def compare(r, want):
    for k, v in want.items():
        if k in ('time', 'discharge'):
            if not ts_ok(r.get(k), v):
                return '%s %r instead of %r' % (k, str(r.get(k)), v)
        elif k == 'validity':
            got = r.get(k)
            if isinstance(v, tuple):
                if not ts_ok(got, v):
                    return 'validity %r instead of %r' % (str(got), v)
            elif got != v:
                return 'validity %r instead of %r' % (got, v)
        elif k == 'udh':
            got = r.get('udh') or []
            if len(got) != len(v) or not all(ie_ok(a, b) for a, b in zip(got, v)):
                return 'header elements %r instead of %r' % ([(e.id, e.dataLength, e.data) for e in got], v)
        elif r.get(k) != v:
            return '%s is %r instead of %r' % (k, r.get(k), v)
    return None


def judge(emit, hexpdu, want, forms=(0,), steps=1):
    for f in forms:
        why = check(hexpdu, want, f)
        emit.case(steps=steps)
        if why:
            emit.bad('PDU %s form %d -> %s' % (hexpdu, f, why), dict(pdu=hexpdu, want=repr(want), form=f))


def common(number, smsc, hexpdu, pid=0, **kw):
    d = dict(number=number, smsc=smsc, protocol_id=pid, tpdu_length=len(hexpdu) // 2 - g.smsc_len(hexpdu))
    d.update(kw)
    return d


def deliver(emit, number, text, ts=TS, forms=(0,), want_text=None, **kw):
    h = g.deliver(number, text, ts, **kw)
    w = common(number, kw.get('smsc'), h, kw.get('pid', 0), type='SMS-DELIVER', text=text if want_text is None else want_text, time=ts, udh=list(kw.get('ies') or ()))
    judge(emit, h, w, forms, steps=max(1, len(text)))


def submit(emit, number, text, ref=7, forms=(0,), vp=None, **kw):
    h = g.submit(ref, number, text, vp=vp, **kw)
    v = None if vp is None else timedelta(minutes=g.vp_minutes(vp)) if isinstance(vp, int) else vp
    w = common(number, kw.get('smsc'), h, kw.get('pid', 0), type='SMS-SUBMIT', text=text, reference=ref, validity=v, udh=list(kw.get('ies') or ()))
    judge(emit, h, w, forms, steps=max(1, len(text)))


def headers():
    """Header element lists, one per header length 2..32 and the recognised kinds."""
    hs = [()]
    hs += [((0, bytes([r, p, n])),) for r, p, n in ((0, 2, 1), (255, 255, 255), (7, 3, 0))]
    hs += [((8, bytes([1, 2, 3, 1])),), ((8, bytes([255, 254, 2, 2])),), ((4, bytes([245, 0])),), ((5, bytes([0x0B, 0x84, 0x23, 0xF0])),)]
    hs += [((0, bytes([9, 2, 2])), (5, bytes([0x15, 0x8A, 0, 0]))), ((5, bytes([0, 1, 255, 255])), (0, bytes([1, 2, 1])), (0x70, b'\x01\x02')),
           ((0x24, b'\x01'), (8, bytes([0, 5, 2, 1]))), ((4, bytes([1, 2])), (4, bytes([3, 4])))]
    hs += [((0x70, bytes(range(n))),) for n in range(0, 33)]
    return hs


def maxlen(alpha, ies):
    hdr = (1 + sum(2 + len(d) for _, d in ies)) if ies else 0
    if alpha == 0:
        return 160 - (hdr * 8 + 6) // 7
    return (140 - hdr) // (2 if alpha == 2 else 1)


G = 'ab@£cdefgè€hij^k|lmÑno[p'
U = 'жa你\u00ff\u0100\uffff'


def text7(n, last=None):
    t, k, i = '', 0, 0
    while k < n:
        c = G[i % len(G)]
        w = len(g.TO_CODE[c])
        if k + w > n:
            c, w = 'z', 1
        t, k, i = t + c, k + w, i + 1
    if last is not None and n:
        t = 'q' * (n - len(g.TO_CODE[last])) + last
    return t


def header_batch(item, emit):
    ies, kind = item
    for alpha in (0, 1, 2):
        m = maxlen(alpha, ies)
        for n in range(0, m + 1):
            if alpha == 0:
                texts = [text7(n)] + ([text7(n, '@'), text7(n, 'a')] if n else []) + ([text7(n, '€')] if n > 1 else [])
            elif alpha == 1:
                texts = [''.join(chr((i * 7 + n) & 255) for i in range(n))]
            else:
                texts = [(U * 30)[:n]]
                if n >= 2:
                    texts.append((U * 30)[:n - 2] + '\U0001F600')
            for t in texts:
                if kind == 'd':
                    deliver(emit, '+27821234567', t, alphabet=alpha, ies=ies)
                else:
                    submit(emit, '0821234567', t, alphabet=alpha, ies=ies, vp=167)
            emit.states.add((kind, repr(ies), alpha, n))
    emit.sample('%s with header %r, all alphabets and lengths' % ({'d': 'SMS-DELIVER', 's': 'SMS-SUBMIT'}[kind], ies))


def final_batch(chars, emit):
    """Every character last (and first) at every length 1..24 and near the maximum, with three header sizes."""
    for ch in chars:
        for ies in ((), ((0, b'\1\2\1'),), ((8, b'\0\1\2\1'),), ((0x70, b'\1'),)):
            m = maxlen(0, ies)
            for n in list(range(1, 25)) + [m - 1, m]:
                if n >= len(g.TO_CODE[ch]):
                    t = text7(n, ch)
                    deliver(emit, '+1234567', t, ies=ies, alphabet=0)
                    deliver(emit, '+1234567', t[::-1], ies=ies, alphabet=0)
        emit.states.add(ch)
    emit.sample('texts ending in each of %r at every alignment' % ''.join(chars))


def ucs_batch(rng, emit):
    lo, hi = rng
    for cp in range(lo, hi):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        deliver(emit, '+1234567', 'x' + chr(cp), alphabet=2)
    emit.states.add(lo)


def pair7_batch(chars, emit):
    for a in chars:
        for b in sorted(g.TO_CODE):
            for k in range(8):
                deliver(emit, '12345', 'k' * k + a + b, alphabet=0)
            emit.states.add((a, b))


def dcs_batch(_, emit):
    table = [(d, (d >> 2) & 3) for d in range(0x00, 0x80) if not d & 0x20 and ((d >> 2) & 3) != 3]
    table += [(d, (d >> 2) & 1) for d in range(0xF0, 0xF8)]
    table += [(d, 0) for d in range(0xC0, 0xE0)] + [(d, 2) for d in range(0xE0, 0xF0)]
    for dcs, alpha in table:
        for t in ('', 'Hello', 'x' * 20 + '@'):
            deliver(emit, '+12345', t, alphabet=alpha, dcs=dcs)
        emit.states.add(dcs)
    emit.sample('%d data coding values' % len(table))


def address_batch(item, emit):
    for number, nat, smsc in item:
        kw = {} if nat is None else dict(national=nat)
        deliver(emit, number, 'Hi there @', smsc=smsc, forms=(0, 1, 2), **kw)
        if nat is None:
            submit(emit, number, 'Hi', smsc=smsc, forms=(0, 2))
            h = g.report(66, number, TS, TS2, 0, smsc=smsc)
            judge(emit, h, dict(type='SMS-STATUS-REPORT', number=number, smsc=smsc, reference=66, time=TS, discharge=TS2, status=0,
                                tpdu_length=len(h) // 2 - g.smsc_len(h)), (0, 1, 2))
        emit.states.add((number[:1], len(number), nat, smsc))
    emit.sample(repr(item[0]))


def field_batch(item, emit):
    what = item
    if what == 'pid':
        for pid in range(256):
            deliver(emit, '+12345', 'abc', pid=pid)
            submit(emit, '+12345', 'abc', pid=pid)
            emit.states.add(('pid', pid))
    elif what == 'fo':
        for mms, sri, rp in itertools.product((False, True), repeat=3):
            for ies in ((), ((0, b'\1\2\1'),)):
                deliver(emit, '+12345', 'abc', mms=mms, sri=sri, rp=rp, ies=ies)
                emit.states.add(('fo', mms, sri, rp, len(ies)))
        for fo in (0, 4, 0x20, 0x80, 0xA4):
            submit(emit, '+12345', 'abc', fo=fo)
    elif what == 'ref':
        for ref in range(256):
            submit(emit, '+12345', 'abc', ref=ref)
            for st in (0, 1, 2, 32, 48, 64, 68, 70, 96, 127, 255) if ref % 16 else range(256):
                for smsc in (None, '+123456'):
                    for tail in ('', '00', '0700000548656C6C6F'):
                        for fo in (0x02, 0x06, 0x22):
                            h = g.report(ref, '+27821234567', TS2, TS, st, smsc=smsc, fo=fo) + tail
                            judge(emit, h, dict(type='SMS-STATUS-REPORT', number='+27821234567', smsc=smsc, reference=ref, time=TS2, discharge=TS,
                                                status=st, tpdu_length=len(h) // 2 - g.smsc_len(h)), (0,))
            emit.states.add(('ref', ref))
    elif what == 'vp':
        for vp in range(256):
            submit(emit, '+12345', 'abc', vp=vp)
            emit.states.add(('vp', vp))
        for ts in (TS, TS2, (2000, 1, 1, 0, 0, 0, 0), (2068, 2, 29, 23, 59, 59, 79)):
            submit(emit, '+12345', 'abc', vp=ts)
    elif what == 'forms':
        for t in ('', 'Hello', 'жук', '\U0001F600'):
            for ies in ((), ((0, b'\1\2\1'),)):
                deliver(emit, '+12345', t, ies=ies, forms=(0, 1, 2, 3))
                for alpha in [a for a in (0, 1, 2) if a == 2 or (g.to_septets(t) is not None if a == 0 else t.isascii())]:
                    for tail in ('00', 'FF', '1A', '00' * 8):     # octets behind the user data that TP-UDL tells
                        h = g.deliver('+12345', t, TS, ies=ies, alphabet=alpha)
                        judge(emit, h + tail, dict(type='SMS-DELIVER', number='+12345', text=t, time=TS, udh=list(ies)), (0, 2))
                submit(emit, '+12345', t, ies=ies, forms=(0, 1, 2, 3))
    emit.sample('all values of ' + what)


def time_batch(years, emit):
    for y in years:
        for mo in range(1, 13):
            for d in (1, 28) if mo != 2 or y % 4 else (1, 28, 29):
                for h, mi, s, q in ((0, 0, 0, 0), (23, 59, 59, -79), (12, 34, 56, 79), (1, 2, 3, (y * 12 + mo) % 159 - 79)):
                    deliver(emit, '+12345', 'abc', ts=(y, mo, d, h, mi, s, q))
                    emit.states.add((y, mo))


def corpus():
    """(PDU, expected fields): PDUs that differ in which fields they carry."""
    out = []

    def rec(kind, number, text, **kw):
        ies, vp = kw.get('ies') or (), kw.get('vp')
        if kind == 'd':
            ts = kw.pop('ts', TS)
            h = g.deliver(number, text, ts, **kw)
            w = dict(type='SMS-DELIVER', time=ts)
        else:
            h = g.submit(7, number, text, **kw)
            v = None if vp is None else timedelta(minutes=g.vp_minutes(vp)) if isinstance(vp, int) else vp
            w = dict(type='SMS-SUBMIT', reference=7, validity=v)
        out.append((h, common(number, kw.get('smsc'), h, kw.get('pid', 0), text=text, udh=list(ies), **w)))
    cat, cat2, port = (0, b'\1\2\1'), (8, b'\0\1\2\2'), (5, b'\x0b\x84\x23\xf0')
    rec('d', '+27821234567', 'Hello', alphabet=0)
    rec('d', 'Company', 'a@ € {', alphabet=0, ies=(cat,), smsc='+2782913593', ts=TS2)
    rec('d', '12345', '\u0436\u4f60', alphabet=2, ies=(port, cat), smsc='+27829135934')
    rec('d', '+1', '', alphabet=0, pid=64)
    rec('d', '+27821234567', 'z' * 160, alphabet=0, smsc='+1')
    rec('s', '+27821234567', 'Hello', alphabet=0)
    rec('s', '0821234567', 'part two', alphabet=0, vp=167, ies=(cat2,))
    rec('s', '+12', '\u0436', alphabet=2, vp=TS2, smsc='+12345')
    rec('s', '+12', 'x' * 140, alphabet=1, vp=TS)
    for n, smsc, a, b, st in (('+27821234567', None, TS, TS2, 0), ('12345', '+2782913593', TS2, TS, 70)):
        h = g.report(66, n, a, b, st, smsc=smsc)
        out.append((h, dict(type='SMS-STATUS-REPORT', number=n, smsc=smsc, reference=66, time=a, discharge=b, status=st, tpdu_length=len(h) // 2 - g.smsc_len(h))))
    for bad in ('', '00', '0004', out[0][0][:-6], out[1][0][:20], 'zz'):
        out.append((bad, None))  # what these give is not judged here, only what they leave behind
    return out


ABSENT = ('udh', 'text', 'validity', 'discharge', 'status', 'reference')


def one(h, want):
    """Decode: (result or None, complaint)."""
    pdu = loader.load_pdu()
    try:
        r = pdu.decodeSmsPdu(h)
    except Exception as e:
        return None, None if want is None else '%s: %s' % (type(e).__name__, e)
    return r, settled(r, want)


def settled(r, want):
    if want is None or r is None:
        return None
    why = compare(r, want)
    for k in ABSENT:
        if not why and k not in want and r.get(k):
            why = '%s is %r in a PDU without one' % (k, r.get(k))
    return why


def spoil(r):
    """What a careless caller may do to a result of its own."""
    for v in list((r or {}).values()):
        if isinstance(v, list):
            for el in v:
                if isinstance(getattr(el, 'data', None), list):
                    del el.data[:]
            del v[:]
    if r:
        r.clear()
        r['text'] = 'spoilt'


def sequence(items):
    """Decode in order; every result must be right when given and still right at the end; then spoil all of them and decode once more."""
    got = []
    for h, want in items:
        r, why = one(h, want)
        if why:
            return 'decoding %s after %r: %s' % (h, [i[0] for i in items[:len(got)]], why)
        got.append(r)
    for (h, want), r in zip(items, got):
        why = settled(r, want)
        if why:
            return 'the result for %s changed after the later decodings of %r: %s' % (h, [i[0] for i in items], why)
    for k, r in enumerate(got):
        spoil(r)
        for (h, want), q in list(zip(items, got))[k + 1:]:
            why = settled(q, want)
            if why:
                return 'the result for %s changed when another result was changed: %s' % (h, why)
    for h, want in items:
        _, why = one(h, want)
        if why:
            return 'decoding %s again after the caller changed its results: %s' % (h, why)
    return None


def sequence_batch(item, emit):
    first, depth = item
    c = corpus()
    for rest in itertools.product(range(len(c)), repeat=depth - 1):
        idx = (first,) + rest
        why = sequence([c[i] for i in idx])
        emit.case(steps=depth)
        emit.states.add(idx)
        if why:
            emit.bad('decoding one PDU after another: ' + why, dict(seq=list(idx)))
    emit.sample('every sequence of %d PDUs from the corpus that starts with %s' % (depth, c[first][0]))


# ------------------------------------------------------------------ header elements on their own
def ie_meaning(raw):
    """What the octets of one header element say (None: not well-formed)."""
    raw = bytes(raw)
    if len(raw) < 2 or raw[1] != len(raw) - 2:
        return None
    i, d = raw[0], raw[2:]
    if i in (0, 8):
        if len(d) != (3 if i == 0 else 4):
            return None
        return ('concat', int.from_bytes(d[:-2], 'big'), d[-2], d[-1])
    if i in (4, 5):
        n = 1 if i == 4 else 2
        if len(d) != 2 * n:
            return None
        return ('ports', int.from_bytes(d[:n], 'big'), int.from_bytes(d[n:], 'big'))
    return (i, d)


def ie_fields(e):
    """The same as told by an element object."""
    n = type(e).__name__
    if n == 'Concatenation':
        return ('concat', e.reference, e.parts, e.number)
    if n == 'PortAddress':
        return ('ports', e.destination, e.source)
    return (e.id, bytes(bytearray(e.data)))


def ie_check(raw, want, built=None):
    """Octets -> element -> octets; or an element built from its fields."""
    P = loader.load_pdu()
    try:
        if built is None:
            it = iter(bytearray(raw) + b'\x77')
            e = P.InformationElement.decode(it)
            if next(it) != 0x77:
                return 'too much was read'
            if ie_fields(e) != want or len(e) != len(raw):
                return 'decoded as %r, %d octets' % (ie_fields(e), len(e))
        else:
            e = P.Concatenation() if built == 'concat' else P.PortAddress()
            if built == 'concat':
                e.reference, e.parts, e.number = want[1:]
            else:
                e.destination, e.source = want[1:]
        out = e.encode()
        if ie_meaning(out) != want:
            return 'encoded as %r' % bytes(out)
        if len(e) != len(out):
            return 'len is %d, encoded as %d octets' % (len(e), len(out))
        if bytes(e.encode()) != bytes(out) or ie_fields(e) != want:
            return 'encoding it changed it'
        f = P.InformationElement.decode(iter(out))
        if ie_fields(f) != want:
            return 'decoded again as %r' % (ie_fields(f),)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    return None


PORTS = [0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 9200, 32767, 32768, 65280, 65534, 65535]


def ie_cases(kind, lo, hi):
    two = lambda v: bytes([v >> 8, v & 255])
    if kind == 'references':
        for r in range(lo, hi):
            for n, k in ((2, 1), (255, 255), (3, 2)):
                w = ('concat', r, n, k)
                yield b'\x08\x04' + two(r) + bytes([n, k]), w, None
                if r < 256:
                    yield b'\x00\x03' + bytes([r, n, k]), w, None
                yield None, w, 'concat'
    elif kind == 'parts':
        for n in range(lo, hi):
            for k in range(256):
                for r in (0, 7, 255, 256, 65535):
                    w = ('concat', r, n, k)
                    yield b'\x08\x04' + two(r) + bytes([n, k]), w, None
                    if r < 256:
                        yield b'\x00\x03' + bytes([r, n, k]), w, None
                    yield None, w, 'concat'
    elif kind == 'ports':
        for a in range(lo, hi):
            for b in PORTS:
                for x, y in ((a, b), (b, a)):
                    w = ('ports', x, y)
                    yield b'\x05\x04' + two(x) + two(y), w, None
                    if x < 256 and y < 256:
                        yield b'\x04\x02' + bytes([x, y]), w, None
                    yield None, w, 'ports'
    else:
        for i in range(lo, hi):
            if i not in (0, 4, 5, 8):
                for n in (0, 1, 2, 3, 4, 10, 100, 137):
                    for first in (0, 1, 127, 128, 255):
                        d = bytes((first + 37 * j) & 255 for j in range(n))
                        yield bytes([i, n]) + d, (i, d), None


def ie_batch(item, emit):
    for raw, want, built in ie_cases(*item):
        why = ie_check(raw, want, built)
        emit.case(1)
        if why:
            emit.bad('header element %r (%s): %s' % (want, 'built' if built else raw, why), dict(ie=[list(raw) if raw is not None else None, repr(want), built]), key='element:%s' % (want[0],))
    emit.states.add(item)
    emit.sample('header elements: %s %d-%d' % item)


def ie_items(T):
    out = [('references', lo, lo + 4096) for lo in range(0, 65536, 4096)] + [('parts', lo, lo + 16) for lo in range(0, 256, 16)] + [('other', 0, 256)]
    return out + ([('ports', lo, lo + 2048) for lo in range(0, 65536, 2048)] if T else [('ports', max(0, p - 2), min(65536, p + 3)) for p in PORTS] + [('ports', 0, 600)])


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    hs = headers()
    core.run_cases(ctx, 'headers x alphabets x text lengths', header_batch, [(h, k) for h in hs for k in 'ds'])
    chars = sorted(g.TO_CODE)
    core.run_cases(ctx, 'final and first characters', final_batch, chunk(chars, 6))
    core.run_cases(ctx, 'character pairs at every alignment', pair7_batch, chunk(chars, 6))
    rngs = [(lo, lo + 1024) for lo in range(0, 0x10000, 1024)]
    if T:
        rngs += [(lo, lo + 4096) for lo in range(0x10000, 0x110000, 4096)]
    else:
        for plane in range(1, 17):
            b = plane << 16
            rngs += [(b, b + 64), (b + 0x3F0, b + 0x410), (b + 0xFFC0, b + 0x10000)]
    core.run_cases(ctx, 'UCS2 characters', ucs_batch, rngs)
    core.run_cases(ctx, 'data coding', dcs_batch, [0])
    addrs = []
    smscs = [None, '+1', '+12', '+2782913593', '+27829135934', '+12345678901234567890']
    for n in range(1, 21):
        for off in range(0, 10, 1 if T else 3):
            d = ''.join(str((off + 3 * i) % 10) for i in range(n))
            addrs += [('+' + d, None, s) for s in smscs] + [(d, None, None), (d, None, '+1234567')]
            addrs += [(d, ton, None) for ton in (0x81, 0xA1, 0xB1, 0xC1, 0xE1, 0x80, 0xA0)]
            addrs += [('+12345', None, '+' + d)]
    for n in range(1, 12):
        for base in ('Company Name', 'abcDEFghiJKL', '@@@@@@@@@@@@', 'a1b2c3d4e5f6', 'x@@@@@@@@@@@'):
            addrs += [(base[:n], None, None), (base[:n], None, '+2782913593')]
    for ch in chars:
        for n in range(0, 11 if len(g.TO_CODE[ch]) == 1 else 10):
            if (n or not ch.isdigit()):
                addrs.append(('N' * n + ch, None, None))
    addrs = [a for a in addrs if a[0] != '+']
    core.run_cases(ctx, 'addresses', address_batch, chunk(addrs, 60))
    core.run_cases(ctx, 'other fields', field_batch, ['pid', 'fo', 'ref', 'vp', 'forms'])
    core.run_cases(ctx, 'time stamps', time_batch, chunk(range(2000, 2069), 9))
    core.run_cases(ctx, 'one PDU after another', sequence_batch, [(i, 4 if T else 3) for i in range(len(corpus()))])
    core.run_cases(ctx, 'header elements', ie_batch, ie_items(T))
    ctx.assumptions += ['the reference encoder follows 3GPP TS 23.040/23.038', 'unused bits are zero']


def replay(ctx, payload):
    import datetime as dt
    c = payload['case']
    if 'ie' in c:
        raw, want, built = c['ie']
        why = ie_check(bytes(raw) if raw is not None else None, eval(want), built)
        print(why or 'holds')
        return 1 if why else 0
    if 'seq' in c:
        every = corpus()
        why = sequence([every[i] for i in c['seq']])
        print(why or 'holds')
        return 1 if why else 0
    why = check(c['pdu'], eval(c['want'], dict(datetime=dt)), c['form'])
    print(why or 'holds')
    return 1 if why else 0
