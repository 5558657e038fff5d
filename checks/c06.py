# -*- coding: utf-8 -*-
"""C06: time stamps and validity periods are represented faithfully."""
import calendar
from datetime import datetime, timedelta, timezone

from mc import core
from mc import gsm_ref as g
from mc import loader
from .c01 import chunk

NUM = '+27821234567'


def ts_hex(ts):
    return g.timestamp(*ts).hex().upper()


_base = (2011, 11, 11, 11, 11, 11, 0)
_d = g.deliver('+12345', 'abc', _base)
_s = g.submit(1, '+12345', 'abc', vp=_base)
_r = g.report(1, '+12345', _base, (2012, 12, 12, 12, 12, 12, 0), 0)



def same(t, ts):
    try:
        return isinstance(t, datetime) and (t.year, t.month, t.day, t.hour, t.minute, t.second) == tuple(ts[:6]) and t.microsecond == 0 \
            and t.utcoffset() == timedelta(minutes=15 * ts[6])
    except Exception:
        return False


def call(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def text_form(ts):
    return '%02d/%02d/%02d,%02d:%02d:%02d%s%02d' % (ts[0] % 100, ts[1], ts[2], ts[3], ts[4], ts[5], '-' if ts[6] < 0 else '+', abs(ts[6]))


def judge(emit, ts, full):
    pdu, util = loader.load_pdu(), loader.load_util()
    h = ts_hex(ts)
    emit.case()
    r = call(pdu.decodeSmsPdu, _d.replace(ts_hex(_base), h))
    if isinstance(r, str) or not same(r.get('time'), ts):
        emit.bad('SMS-DELIVER time stamp %s decodes to %r instead of %r' % (h, r if isinstance(r, str) else str(r.get('time')), ts), ts)
    t = text_form(ts)
    r = call(util.parseTextModeTimeStr, t)
    if not same(r, ts):
        emit.bad('text-mode time %s parses as %s instead of %r' % (t, r, ts), ts)
    v = datetime(*ts[:6], tzinfo=timezone(timedelta(minutes=15 * ts[6])))
    judge_encode(emit, v, ts)
    if full:
        judge_encode(emit, datetime(*ts[:6], tzinfo=util.SimpleOffsetTzInfo(ts[6] / 4.0)), ts)
        r = call(pdu.decodeSmsPdu, _s.replace(ts_hex(_base), h))
        if isinstance(r, str) or not same(r.get('validity'), ts):
            emit.bad('SMS-SUBMIT validity %s decodes to %r instead of %r' % (h, r if isinstance(r, str) else str(r.get('validity')), ts), ts)
        other = (2012, 12, 12, 12, 12, 12, 0)
        for hexs, w in ((_r.replace(ts_hex(_base), h), (ts, other)), (_r.replace(ts_hex(other), h), (_base, ts))):
            r = call(pdu.decodeSmsPdu, hexs)
            if isinstance(r, str) or not same(r.get('time'), w[0]) or not same(r.get('discharge'), w[1]):
                emit.bad('status report %s decodes to %r, expected %r' % (hexs, r if isinstance(r, str) else (str(r.get('time')), str(r.get('discharge'))), w), ts)
        emit.case(4)


def judge_encode(emit, v, ts):
    pdu = loader.load_pdu()
    emit.case()
    r = call(pdu.encodeSmsSubmitPdu, NUM, 'abc', validity=v)
    if isinstance(r, str):
        emit.bad('encoding validity %s: %s' % (v, r), ts)
        return
    try:
        p = g.parse_submit(bytes(r[0].data))
    except Exception as e:
        emit.bad('encoding validity %s gives a malformed PDU: %s' % (v, e), ts)
        return
    want = (ts[0] % 100,) + tuple(ts[1:])
    if p.validity != ('abs', want):
        emit.bad('absolute validity %s is encoded as %r' % (v, p.validity), ts)


def year_batch(years, emit):
    for y in years:
        q = 0
        for mo in range(1, 13):
            for d in range(1, calendar.monthrange(y, mo)[1] + 1):
                for h, mi, s in ((0, 0, 0), (23, 59, 59), (d % 24, (d * mo) % 60, (y + d) % 60)):
                    q = (q + 7) % 159
                    judge(emit, (y, mo, d, h, mi, s, q - 79), False)
                    emit.states.add((y, mo, d))
    emit.sample('every day of %s' % list(years))


def offset_batch(qs, emit):
    for q in qs:
        for y in (2000, 2013, 2068):
            for mo, d, h, mi, s in ((1, 1, 0, 0, 0), (12, 31, 23, 59, 59), (6, 15, 12, 30, 30), (2, 28, 9, 9, 9), (10, 10, 10, 10, 10), (8, 8, 8, 8, 8)):
                judge(emit, (y, mo, d, h, mi, s, q), True)
        emit.states.add(q)
    emit.sample('all fields with offsets %s quarter hours' % list(qs))


def hms_batch(hs, emit):
    for h in hs:
        for mi in range(60):
            for s in range(0, 60):
                judge(emit, (2014, 3, 9, h, mi, s, (h + mi + s) % 97 - 48), False)
                emit.states.add((h, mi, s))
    emit.sample('every second of hours %s' % list(hs))


def validity_batch(rng, emit):
    """Relative periods: every code's exact value and its surroundings."""
    pdu = loader.load_pdu()
    for secs in rng:
        td = timedelta(seconds=secs)
        emit.case()
        best = max(c for c in range(256) if g.vp_minutes(c) * 60 <= secs)
        r = call(pdu.encodeSmsSubmitPdu, NUM, 'abc', validity=td)
        if isinstance(r, str):
            emit.bad('validity %s: %s' % (td, r), secs)
            continue
        try:
            p = g.parse_submit(bytes(r[0].data))
        except Exception as e:
            emit.bad('validity %s gives a malformed PDU: %s' % (td, e), secs)
            continue
        if p.validity is None or p.validity[0] != 'rel' or g.vp_minutes(p.validity[1]) != g.vp_minutes(best):
            emit.bad('validity %s is encoded as %r (%s) instead of code %d' % (
                td, p.validity, p.validity and p.validity[0] == 'rel' and timedelta(minutes=g.vp_minutes(p.validity[1])), best), secs)
        emit.states.add(best)
    emit.sample('periods of %d..%d seconds' % (rng[0], rng[-1]))


def code_batch(codes, emit):
    pdu = loader.load_pdu()
    for c in codes:
        emit.case()
        h = g.submit(1, '+12345', 'abc', vp=c)
        r = call(pdu.decodeSmsPdu, h)
        if isinstance(r, str) or r.get('validity') != timedelta(minutes=g.vp_minutes(c)):
            emit.bad('relative validity code %d decodes to %r' % (c, r if isinstance(r, str) else r.get('validity')), c)
        emit.states.add(c)


def run(ctx):
    T = ctx.thorough
    loader.load_pdu()
    loader.load_util()
    core.run_cases(ctx, 'every day 2000-2068', year_batch, [[y] for y in range(2000, 2069)])
    core.run_cases(ctx, 'every offset', offset_batch, chunk(range(-79, 80), 8))
    core.run_cases(ctx, 'every second of the day', hms_batch, chunk(range(24), 1) if T else chunk((0, 9, 10, 11, 19, 20, 23), 1))
    secs = set()
    for c in range(256):
        v = g.vp_minutes(c) * 60
        secs |= {v, v + 1, v - 1, v + 59, v + 60, v + 299, v + 300, v + 3600, v + 86399}
    secs |= set(range(300, 90000, 60)) | set(range(0, 441 * 86400 + 1, 3600 if not T else 600)) | {d * 86400 + x for d in range(1, 441) for x in (0, 1, 43200, 86399)}
    secs = sorted(s for s in secs if 300 <= s <= 441 * 86400)
    core.run_cases(ctx, 'relative periods', validity_batch, chunk(secs, 1500))
    core.run_cases(ctx, 'relative codes', code_batch, [list(range(256))])
    ctx.assumptions.append('two-digit years 00-68 denote 2000-2068; the encoder is given whole-quarter-hour offsets')
