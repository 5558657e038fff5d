# -*- coding: utf-8 -*-
"""Shared by C01/C02: run the encoder and read its PDUs with the independent strict decoder."""
from datetime import datetime, timedelta, timezone

from mc import gsm_ref as g
from mc import loader

import datetime as _dt
EVAL = dict(datetime=_dt, timedelta=timedelta, timezone=timezone)
WIDE7 = '€'
ASTRAL = '\U0001F600'


def encode(number, text, **kw):
    pdu = loader.load_pdu()
    return pdu.encodeSmsSubmitPdu(number, text, **kw)


def expected_dest(number):
    if number.startswith('+') and number[1:].isdigit():
        return ('int', number[1:])
    if number.isdigit():
        return ('nat', number)
    return ('alnum', number)


def dest_ok(got, number):
    exp = expected_dest(number)
    if exp[0] == 'nat':
        return got[1] == exp[1] and got[0] in ('nat', 'unknown')
    return got == exp


def run(number, text, **kw):
    """-> (list of parsed parts, list of Pdu objects) or raises ValueError/Exception with a reason."""
    pdus = encode(number, text, **kw)
    if not isinstance(pdus, (list, tuple)) or not pdus:
        raise ValueError('no PDUs returned: %r' % (pdus,))
    parts = []
    for p in pdus:
        raw = bytes(p.data)
        if str(p) != raw.hex().upper():
            raise ValueError('hex form %s differs from data %s' % (str(p), raw.hex().upper()))
        parts.append(g.parse_submit(raw))
    return parts, pdus


def describe(number, text, kw):
    t = text if len(text) <= 60 else '%s...%s (%d chars)' % (text[:20], text[-20:], len(text))
    return 'number=%r text=%r %s' % (number, t, ' '.join('%s=%r' % kv for kv in sorted(kw.items())))


def judge_content(number, text, kw):
    """None or a description of how C01 is broken."""
    try:
        parts, pdus = run(number, text, **kw)
    except Exception as e:
        return 'cannot be encoded/decoded: %s: %s' % (type(e).__name__, e)
    got = ''.join(p.text for p in parts)
    if got != text:
        i = next((k for k in range(min(len(got), len(text))) if got[k] != text[k]), min(len(got), len(text)))
        return 'text differs at %d: %r instead of %r (length %d instead of %d)' % (i, got[i:i + 8], text[i:i + 8], len(got), len(text))
    want_alpha = 0 if g.to_septets(text) is not None else 2
    for p in parts:
        if p.alphabet != want_alpha:
            return 'alphabet %d instead of %d' % (p.alphabet, want_alpha)
        if not dest_ok(p.dest, number):
            return 'destination %r' % (p.dest,)
        if p.reference != kw.get('reference', 0):
            return 'reference %d' % p.reference
        if p.srr != bool(kw.get('requestStatusReport', True)):
            return 'status report request %r' % p.srr
        if p.reject_duplicates != bool(kw.get('rejectDuplicates', False)):
            return 'reject duplicates %r' % p.reject_duplicates
        if p.flash != bool(kw.get('sendFlash', False)):
            return 'flash %r' % p.flash
        if p.reply_path:
            return 'reply path set'
        if p.pid != 0:
            return 'protocol id %d' % p.pid
        smsc = kw.get('smsc')
        if smsc is None:
            if p.smsc is not None:
                return 'SMSC %r' % (p.smsc,)
        elif p.smsc is None or not dest_ok(p.smsc, smsc):
            return 'SMSC %r instead of %r' % (p.smsc, smsc)
        v = kw.get('validity')
        if v is None:
            if p.validity is not None:
                return 'validity %r' % (p.validity,)
        elif isinstance(v, timedelta):
            m = v.days * 1440 + v.seconds / 60.0
            best = max(c for c in range(256) if g.vp_minutes(c) <= m)
            if p.validity is None or p.validity[0] != 'rel' or g.vp_minutes(p.validity[1]) != g.vp_minutes(best):
                return 'validity %r for %r' % (p.validity, v)
        else:
            off = v.utcoffset()
            q = int((off.days * 86400 + off.seconds) / 900)
            want = ('abs', (v.year % 100, v.month, v.day, v.hour, v.minute, v.second, q))
            if p.validity != want:
                return 'validity %r instead of %r' % (p.validity, want)
    return None


def judge_layout(number, text, kw):
    """None or a description of how C02 is broken."""
    try:
        parts, pdus = run(number, text, **kw)
    except Exception as e:
        return 'malformed PDU: %s: %s' % (type(e).__name__, e)
    alpha, n = g.min_parts(text)
    for p, o in zip(parts, pdus):
        if len(p.ud) > 140:
            return 'user data of %d octets' % len(p.ud)
        if o.tpduLength != len(bytes(o.data)) - p.smsc_octets:
            return 'TPDU length %d, %d octets present' % (o.tpduLength, len(bytes(o.data)) - p.smsc_octets)
    if len(parts) != n:
        return '%d parts, %d needed' % (len(parts), n)
    if n == 1:
        if parts[0].udhi:
            return 'single message with a user data header'
        return None
    refs = set()
    for i, p in enumerate(parts):
        if not p.udhi:
            return 'part %d without header' % (i + 1)
        cc = [ie for ie in p.ies if ie[0] in (0, 8)]
        if len(cc) != 1 or len(p.ies) != 1:
            return 'part %d has header elements %r' % (i + 1, p.ies)
        iei, d = cc[0]
        if len(d) != (3 if iei == 0 else 4):
            return 'concatenation element of %d octets' % len(d)
        refs.add((iei, d[:-2]))
        if d[-2] != n or d[-1] != i + 1:
            return 'part %d of %d labelled %d of %d' % (i + 1, n, d[-1], d[-2])
        if not p.units:
            return 'part %d is empty' % (i + 1)
    if len(refs) != 1:
        return 'parts carry different references %r' % (refs,)
    # (text decoding of each part separately has already rejected split pairs)
    return None


def alphabet_texts():
    """Texts covering every (bit alignment, previous septet, current septet) transition of the packer."""
    chars = sorted(g.TO_CODE)
    one = [c for c in chars if len(g.TO_CODE[c]) == 1]
    # all ordered pairs (a, b) laid out so that b falls on each of the 8 alignments
    texts = []
    for a_i, a in enumerate(chars):
        wa = len(g.TO_CODE[a])
        for shift in range(8):
            t = []
            n = 0
            while n < shift:
                t.append('a')
                n += 1
            cur = ''.join(t)
            cnt = n
            for b in chars:
                w = wa + len(g.TO_CODE[b])
                if cnt + w + 8 > 160:
                    texts.append(cur)
                    cur, cnt = 'a' * shift, shift
                # keep alignment: pad to shift mod 8
                cur += a + b
                cnt += w
                while cnt % 8 != shift % 8:
                    cur += 'a'
                    cnt += 1
            texts.append(cur)
    return texts


def note_septets(emit, text):
    s = g.to_septets(text)
    if s is None:
        return
    prev = 0
    for i, c in enumerate(s[:160]):
        emit.bits |= 1 << (((i & 7) << 14) | (prev << 7) | c)
        prev = c
