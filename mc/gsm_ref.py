# -*- coding: utf-8 -*-
"""Independent reference implementation of the parts of 3GPP TS 23.038 / 23.040 the library uses.

Written from the standard, bit strings instead of shifting state machines; shares no code with the
library under test."""

# 23.038 6.2.1: default alphabet, code -> code point
DEFAULT = [
    0x40, 0xA3, 0x24, 0xA5, 0xE8, 0xE9, 0xF9, 0xEC, 0xF2, 0xC7, 0x0A, 0xD8, 0xF8, 0x0D, 0xC5, 0xE5,
    0x394, 0x5F, 0x3A6, 0x393, 0x39B, 0x3A9, 0x3A0, 0x3A8, 0x3A3, 0x398, 0x39E, None, 0xC6, 0xE6, 0xDF, 0xC9,
    0x20, 0x21, 0x22, 0x23, 0xA4, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E, 0x2F,
    0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x3E, 0x3F,
    0xA1, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x4B, 0x4C, 0x4D, 0x4E, 0x4F,
    0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5A, 0xC4, 0xD6, 0xD1, 0xDC, 0x60,
    0xBF, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F,
    0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0xE4, 0xF6, 0xF1, 0xFC, 0xE0,
]
DEFAULT[0x5F] = 0xA7   # section sign
# 6.2.1.1 extension table
EXT = {0x0A: 0x0C, 0x14: 0x5E, 0x28: 0x7B, 0x29: 0x7D, 0x2F: 0x5C, 0x3C: 0x5B, 0x3D: 0x7E, 0x3E: 0x5D, 0x40: 0x7C, 0x65: 0x20AC}

TO_CODE = {}
for _i, _cp in enumerate(DEFAULT):
    if _cp is not None:
        TO_CODE[chr(_cp)] = (_i,)
for _i, _cp in EXT.items():
    TO_CODE[chr(_cp)] = (0x1B, _i)
assert len([c for c in DEFAULT if c is not None]) == 127 and len(TO_CODE) == 137


def to_septets(text):
    """Septets of a text, or None when it is not expressible in the 7-bit alphabet."""
    out = []
    for ch in text:
        c = TO_CODE.get(ch)
        if c is None:
            return None
        out.extend(c)
    return out


def from_septets(sept):
    out = []
    i = 0
    while i < len(sept):
        s = sept[i]
        if s == 0x1B:
            i += 1
            if i >= len(sept):
                raise ValueError('dangling escape')
            if sept[i] not in EXT:
                raise ValueError('undefined extension %#x' % sept[i])
            out.append(chr(EXT[sept[i]]))
        else:
            out.append(chr(DEFAULT[s]))
        i += 1
    return ''.join(out)


def pack(sept, fill=0):
    """Pack septets, lowest bit first, after `fill` zero bits; bytes."""
    v, n = 0, fill
    for s in sept:
        v |= s << n
        n += 7
    return v.to_bytes((n + 7) // 8, 'little')


def unpack(data, count, fill=0):
    v = int.from_bytes(bytes(data), 'little') >> fill
    if count * 7 + fill > len(data) * 8:
        raise ValueError('too few octets for %d septets' % count)
    return [(v >> (7 * i)) & 0x7F for i in range(count)]


def padding(data, count, fill=0):
    """The unused bits behind the last septet."""
    return int.from_bytes(bytes(data), 'little') >> (fill + 7 * count)


def ucs2(text):
    return text.encode('utf-16-be')


def semi(digits):
    d = digits + ('F' if len(digits) % 2 else '')
    return bytes(int(d[i + 1] + d[i], 16) for i in range(0, len(d), 2))


def unsemi(data):
    return ''.join('%X%X' % (b & 15, b >> 4) for b in data)


def address(addr, smsc=False, national=None):
    """Address field octets. addr: '+digits', 'digits' or alphanumeric text; None -> empty."""
    if addr is None:
        return b'\0'
    num = addr[1:] if addr.startswith('+') else addr
    if num and all(c in '0123456789' for c in num):
        toa = 0x91 if addr.startswith('+') else (0xA1 if national is None else national)
        body = semi(num)
        return bytes([len(body) + 1 if smsc else len(num), toa]) + body
    sept = to_septets(addr)
    body = pack(sept)
    return bytes([(len(sept) * 7 + 3) // 4, 0xD0]) + body


class Cursor(object):
    def __init__(self, data):
        self.d, self.i = bytes(data), 0

    def get(self, n=1):
        if self.i + n > len(self.d):
            raise ValueError('PDU too short')
        r = self.d[self.i:self.i + n]
        self.i += n
        return r

    def byte(self):
        return self.get(1)[0]

    def rest(self):
        return self.d[self.i:]


def parse_address(c, smsc=False):
    n = c.byte()
    if n == 0 and smsc:
        return None
    toa = c.byte()
    if smsc:
        body = c.get(n - 1)
        digits = unsemi(body).rstrip('F')
    else:
        body = c.get((n + 1) // 2)
        if toa & 0x70 == 0x50:
            count = n * 4 // 7
            txt = from_septets(unpack(body, count))
            if padding(body, count):
                raise ValueError('nonzero padding in alphanumeric address')
            return ('alnum', txt)
        digits = unsemi(body)
        if n % 2:
            if digits[-1] != 'F':
                raise ValueError('odd address without filler')
            digits = digits[:-1]
    if not all(ch in '0123456789' for ch in digits):
        raise ValueError('bad digits %r' % digits)
    kind = {0x10: 'int', 0x20: 'nat', 0x00: 'unknown'}.get(toa & 0x70, 'ton%02X' % (toa & 0x70))
    if toa & 0x80 == 0:
        raise ValueError('TOA bit 8 clear')
    return (kind, digits)


def timestamp(y, mo, d, h, mi, s, quarters):
    """7 octets; quarters: offset from UTC in quarter hours (-79..79)."""
    out = [semi('%02d' % v)[0] for v in (y % 100, mo, d, h, mi, s)]
    q = abs(quarters)
    tens, units = q // 10, q % 10
    if quarters < 0:
        tens |= 8
    out.append(units << 4 | tens)
    return bytes(out)


def parse_timestamp(b):
    vals = [(x & 15) * 10 + (x >> 4) for x in b[:6]]
    tens, units = b[6] & 15, b[6] >> 4
    q = (tens & 7) * 10 + units
    return tuple(vals) + ((-q if tens & 8 else q),)


def vp_minutes(code):
    """Relative validity in minutes."""
    if code <= 143:
        return (code + 1) * 5
    if code <= 167:
        return 720 + (code - 143) * 30
    if code <= 196:
        return (code - 166) * 1440
    return (code - 192) * 7 * 1440


class Submit(object):
    pass


def parse_submit(data):
    """Strict decoder for one SMS-SUBMIT including its SMSC field."""
    c = Cursor(data)
    r = Submit()
    r.smsc = parse_address(c, smsc=True)
    r.smsc_octets = c.i
    fo = c.byte()
    if fo & 3 != 1:
        raise ValueError('not an SMS-SUBMIT: first octet %02X' % fo)
    r.reject_duplicates = bool(fo & 4)
    vpf = (fo >> 3) & 3
    r.srr = bool(fo & 0x20)
    r.udhi = bool(fo & 0x40)
    r.reply_path = bool(fo & 0x80)
    r.reference = c.byte()
    r.dest = parse_address(c)
    r.pid = c.byte()
    r.dcs = c.byte()
    r.validity = None
    if vpf == 2:
        r.validity = ('rel', c.byte())
    elif vpf == 3:
        r.validity = ('abs', parse_timestamp(c.get(7)))
    elif vpf == 1:
        raise ValueError('enhanced validity format')
    udl = c.byte()
    ud = c.rest()
    r.ud = ud
    r.udl = udl
    if r.dcs & 0xC0 != 0 or r.dcs & 0x20:
        raise ValueError('unexpected DCS %02X' % r.dcs)
    alpha = (r.dcs >> 2) & 3
    r.alphabet = alpha
    r.flash = bool(r.dcs & 0x10) and (r.dcs & 3) == 0
    if r.dcs & 0x10 == 0 and r.dcs & 3:
        raise ValueError('reserved class bits set')
    if r.dcs & 0x10 and r.dcs & 3:
        raise ValueError('class %d' % (r.dcs & 3))
    want = (udl * 7 + 7) // 8 if alpha == 0 else udl
    if len(ud) != want:
        raise ValueError('user data length %d announces %d octets, %d present' % (udl, want, len(ud)))
    r.ies = []
    hdr = 0
    if r.udhi:
        if not ud:
            raise ValueError('UDHI without user data')
        hl = ud[0]
        hdr = hl + 1
        if hdr > len(ud):
            raise ValueError('UDH longer than user data')
        i = 1
        while i < hdr:
            n = ud[i + 1]
            if i + 2 + n > hdr:
                raise ValueError('IE overruns UDH')
            r.ies.append((ud[i], bytes(ud[i + 2:i + 2 + n])))
            i += 2 + n
    if alpha == 0:
        hs = (hdr * 8 + 6) // 7
        fill = hs * 7 - hdr * 8
        body = ud[hdr:]
        count = udl - hs
        if count < 0:
            raise ValueError('UDL smaller than header')
        r.septets = unpack(body, count, fill)
        if fill and body and body[0] & ((1 << fill) - 1):
            raise ValueError('nonzero fill bits')
        if padding(body, count, fill):
            raise ValueError('nonzero padding bits')
        r.units = r.septets
        r.text = from_septets(r.septets)
    elif alpha == 2:
        body = ud[hdr:]
        if len(body) % 2:
            raise ValueError('odd UCS2 length')
        r.units = [body[i] << 8 | body[i + 1] for i in range(0, len(body), 2)]
        r.text = body.decode('utf-16-be')      # strict: a lone surrogate raises
    else:
        raise ValueError('alphabet %d' % alpha)
    return r


def user_data(text, alphabet, ies=()):
    """(udl, octets) for text with information elements [(id, bytes)]. alphabet 0/1/2; text is str
    (for 1: latin-1 characters standing for octets)."""
    hdr = b''
    if ies is not None and len(ies):
        h = b''.join(bytes([i, len(d)]) + d for i, d in ies)
        hdr = bytes([len(h)]) + h
    if alphabet == 0:
        sept = to_septets(text) if isinstance(text, str) else list(text)
        hs = (len(hdr) * 8 + 6) // 7
        fill = hs * 7 - len(hdr) * 8
        if not sept:
            # header only; fill bits complete the last header septet
            v = hdr + (b'\0' * ((hs * 7 + 7) // 8 - len(hdr)))
            return hs, v
        return hs + len(sept), hdr + pack(sept, fill)
    if alphabet == 2:
        b = ucs2(text)
    else:
        b = text.encode('latin-1')
    return len(hdr) + len(b), hdr + b


def deliver(number, text, ts, alphabet=None, smsc=None, pid=0, dcs=None, ies=(), national=None, mms=True, sri=False, rp=False):
    """SMS-DELIVER as hex string (upper case)."""
    if alphabet is None:
        alphabet = 0 if to_septets(text) is not None else 2
    udl, ud = user_data(text, alphabet, ies)
    fo = (0x04 if mms else 0) | (0x20 if sri else 0) | (0x40 if ies else 0) | (0x80 if rp else 0)
    b = address(smsc, smsc=True) + bytes([fo]) + address(number, national=national) + bytes([pid, alphabet << 2 if dcs is None else dcs])
    b += timestamp(*ts) + bytes([udl]) + ud
    return b.hex().upper()


def report(ref, number, ts, discharge, status, smsc=None, fo=0x06):
    b = address(smsc, smsc=True) + bytes([fo, ref]) + address(number) + timestamp(*ts) + timestamp(*discharge) + bytes([status])
    return b.hex().upper()


def submit(ref, number, text, alphabet=None, smsc=None, vp=None, pid=0, ies=(), fo=0):
    if alphabet is None:
        alphabet = 0 if to_septets(text) is not None else 2
    udl, ud = user_data(text, alphabet, ies)
    vpf = 0 if vp is None else (0x10 if isinstance(vp, int) else 0x18)
    vpb = b'' if vp is None else (bytes([vp]) if isinstance(vp, int) else timestamp(*vp))
    b = address(smsc, smsc=True) + bytes([0x01 | vpf | (0x40 if ies else 0) | fo, ref]) + address(number) + bytes([pid, alphabet << 2]) + vpb
    return (b + bytes([udl]) + ud).hex().upper()


def smsc_len(hexpdu):
    return int(hexpdu[:2], 16) + 1


def min_parts(text):
    """(alphabet, number of parts) by greedy filling that keeps pairs together."""
    sept = to_septets(text)
    if sept is not None:
        if len(sept) <= 160:
            return 0, 1
        parts, room = 1, 153
        for ch in text:
            w = len(TO_CODE[ch])
            if w > room:
                parts, room = parts + 1, 153
            room -= w
        return 0, parts
    n16 = len(text.encode('utf-16-be')) // 2
    if n16 <= 70:
        return 2, 1
    parts, room = 1, 67
    for ch in text:
        w = 2 if ord(ch) > 0xFFFF else 1
        if w > room:
            parts, room = parts + 1, 67
        room -= w
    return 2, parts
