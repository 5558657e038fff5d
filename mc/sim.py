# -*- coding: utf-8 -*-
"""A simulated GSM modem (3GPP TS 27.005 / 27.007 command interface) behind the fake serial port.

It is the independent model the GsmModem-level properties are checked against: it holds message storages, the
current memories, the SMS mode, the SMSC number, the SIM state, a call table and the list of submitted messages,
and only ever changes them because of characters that really arrived at the port.

Unsolicited lines are emitted where real modems emit them: at any time except between the first character of a
response and its final result, and except while the modem collects a message body after its prompt."""
import collections
import re
import traceback

from . import fakeserial as fs
from . import gsm_ref as G
from .core import Violation

CTRL_Z, ESC = '\x1a', '\x1b'
STAT_TEXT = ['REC UNREAD', 'REC READ', 'STO UNSENT', 'STO SENT']


def ts_text(ts):
    y, mo, d, h, mi, s, q = ts
    return '%02d/%02d/%02d,%02d:%02d:%02d%s%02d' % (y % 100, mo, d, h, mi, s, '-' if q < 0 else '+', abs(q))


class Msg(object):
    """A stored message. kind: deliver / report / broken (undecodable PDU) / submit."""

    def __init__(self, kind='deliver', number='+27820001111', text='hello', ts=(2013, 5, 6, 7, 8, 9, 8), status=0, smsc='+2799', ref=0,
                 discharge=(2013, 5, 6, 7, 8, 10, 8), st=0, alphabet=None, pdu=None):
        self.kind, self.number, self.text, self.ts, self.status, self.smsc = kind, number, text, ts, status, smsc
        self.ref, self.discharge, self.st, self.alphabet = ref, discharge, st, alphabet
        self._pdu = pdu

    def pdu(self):
        if self._pdu is not None:
            return self._pdu
        if self.kind == 'deliver':
            return G.deliver(self.number, self.text, self.ts, alphabet=self.alphabet, smsc=self.smsc)
        if self.kind == 'report':
            return G.report(self.ref, self.number, self.ts, self.discharge, self.st, smsc=self.smsc)
        if self.kind == 'submit':
            return G.submit(self.ref, self.number, self.text, smsc=self.smsc)
        return '0123FFGG'

    def text_header(self, alpha=''):
        stat = '"%s"' % STAT_TEXT[self.status]
        if self.kind == 'report':
            return '%s,6,%d,"%s",145,"%s","%s",%d' % (stat, self.ref, self.number, ts_text(self.ts), ts_text(self.discharge), self.st)
        if self.kind == 'submit':
            return '%s,"%s",%s,' % (stat, self.number, alpha)
        return '%s,"%s",%s,"%s"' % (stat, self.number, alpha, ts_text(self.ts))

    def describe(self):
        """What a user must see of a received message: comparable tuple."""
        return (self.number, self.text, self.ts)

    def __repr__(self):
        return 'Msg(%s,%r,%r,status=%d,ref=%d)' % (self.kind, self.number, self.text, self.status, self.ref)


FAMILIES = ('generic', 'huawei', 'wavecom', 'zte')


class Sim(fs.Device):
    def __init__(self, env, family='generic', clac=None, port='p', threaded=False):
        fs.Device.__init__(self)
        self.env = env
        self.family = family
        self.latency = 0                # seconds a response takes
        self.threaded = threaded        # answer from a thread of its own, so that events fall in between
        self.unsupported = set()        # command names answered with ERROR
        self.replies = {}               # exact command -> list of response lines
        self.intercepts = []            # fn(cmd) -> None | list of lines; may pop itself
        self.clac = clac                # None: +CLAC not supported
        self.clac_multiline = False
        self.call_type = 0   # what kind of call the modem says a dialled call is
        self.maker = None               # what +CGMI answers, if not the family's usual name
        self.echo = True
        self.cmee = 0
        self.cmee_digits = True
        self.cfun = 1
        self.pin_state = 'READY'
        self.pin = '1234'
        self.pin_attempts = []
        self.pin_free = {'Z', 'E', '+CMEE', '+CFUN', '+CPIN'}       # usable while the SIM is locked
        self.cpin_no_ok = False         # old Wavecom
        self.csca = '+2799'
        self.csmp_clears_csca = False
        self.csmp = None
        self.textmode = 0
        self.stores = {'SM': {}, 'ME': {}, 'SR': {}}
        self.capacity = 30
        self.alpha = ''                 # the <alpha> field of message headers
        self.cmgr_blank = False         # +CMGR without a status (ZTE)
        self.cpms_supported = [['ME', 'SM', 'SR'], ['ME', 'SM', 'SR'], ['ME', 'SM', 'SR']]
        self.mems = ['SM', 'SM', 'SM']
        self.cnmi = None
        self.clip = self.crc = 0
        self.wind = 0
        self.wind_told = True           # +WIND? tells the value
        self.cops_format = 0
        self.cvoice = self.ussdmode = 0
        self.settings = {}
        self.csq = (20, 99)
        self.creg = [1]                 # successive values, the last one stays
        self.cops = '"Test Net"'
        self.log = []                   # every complete command (and body) in order of arrival
        self.sent = []                  # accepted messages: dict(mode, dest/len, body, ref)
        self.refs = iter(range(1, 1000))
        self.reports = []
        self.reads = []                 # (memory, index) successfully read
        self.deleted = []               # (memory, index, Msg)
        self.mixed = []                 # protocol breaches seen
        self.buf = ''
        self.collect = None             # pending CMGS: dict
        self.busy = False               # a response is being sent
        self.unfinished = 0
        self.urcs = collections.deque()
        self.calls = {}                 # modem call id -> dict(dir, number, state)
        self.dialled = []
        self.ussd = None                # fn(string) -> list of segments (str) or ('wait', fn)
        self.leading = '\r\n'
        self.pieces = 1
        fs.PORTS[port] = self
        self.port = port

    # ------------------------------------------------------------------ input
    def on_write(self, data):
        try:
            self.take_in(data)
        except Exception:
            self.env.s.harness_fault = traceback.format_exc()
            raise

    def take_in(self, data):
        for ch in data:
            if self.collect is not None:
                if ch == CTRL_Z:
                    c, self.collect = self.collect, None
                    self.submit(c, self.take())
                elif ch == ESC:
                    c, self.collect = self.collect, None
                    self.take()
                    self.log.append('<ESC>')
                    self.respond(['OK'])
                else:
                    self.buf += ch
            elif ch == '\r':
                cmd = self.take()
                if cmd:
                    self.log.append(cmd)
                    self.command(cmd)
            elif ch == ESC:
                self.buf = ''         # outside a message body it aborts nothing
            elif ch == '\n':
                pass
            else:
                self.buf += ch

    def take(self):
        b, self.buf = self.buf, ''
        return b

    # ------------------------------------------------------------------ output
    def respond(self, lines, echo=None, then=None):
        """Send a complete response, from this thread or from the modem's own."""
        out = (echo + '\r' if echo else '') + ''.join('%s%s\r\n' % (self.leading, l) for l in lines)
        self.emit(out, then)

    def emit(self, out, then=None):
        if self.latency and not self.threaded:
            self.busy = True
            self.unfinished += 1
            self.env.spawn(lambda: (self.env.sleep(self.latency), self._emit(out, then, 1)), 'slow modem')
        elif self.threaded:
            self.unfinished += 1
            self.env.spawn(lambda: self._emit(out, then, 1), 'modem')
        else:
            self._emit(out, then, 0)

    def _emit(self, out, then, n):
        self.busy = True
        k = max(1, len(out) // self.pieces + (len(out) % self.pieces > 0))
        parts = [out[i:i + k] for i in range(0, len(out), k)] or ['']
        for i, p in enumerate(parts):
            if i:
                self.env.point('modem-gap')
            self.push(p)
        self.busy = False
        self.unfinished -= n
        if then:
            then()
        self.flush_urcs()

    def flush_urcs(self):
        while self.urcs and not self.busy and self.collect is None:
            self.push(self.urcs.popleft())

    def urc(self, *lines, **kw):
        """Unsolicited lines, sent as one piece; kept back while a response or message body is under way."""
        text = ''.join('\r\n%s\r\n' % l for l in lines) if not kw.get('raw') else lines[0]
        self.urcs.append(text)
        self.flush_urcs()

    # ------------------------------------------------------------------ commands
    def err(self, kind='CME', code=None):
        if code is not None and self.cmee and kind:
            return ['+%s ERROR: %d' % (kind, code)]
        if code is not None and kind == 'CMS':
            return ['+CMS ERROR: %d' % code]
        return ['ERROR']

    def name_of(self, cmd):
        m = re.match(r'AT([+^][A-Z]+|[A-Z&]+?)(?=[0-9=?;*#+]|$)', cmd) if not cmd.startswith('ATD') else re.match('AT(D)', cmd)
        return m.group(1) if m else None

    def command(self, cmd):
        echo = cmd if self.echo else None
        for f in list(self.intercepts):
            r = f(cmd)
            if r is not None:
                if r == 'silent':
                    return
                if isinstance(r, str):
                    self.emit(r)
                else:
                    self.respond(r, echo)
                return
        if cmd in self.replies:
            self.respond(list(self.replies[cmd]), echo)
            return
        if not cmd.startswith('AT'):
            self.mixed.append(cmd)
            self.respond(['ERROR'], echo)
            return
        name = self.name_of(cmd)
        if self.pin_state in ('SIM PIN', 'SIM PUK') and name not in self.pin_free:
            self.respond(self.err('CME', {'SIM PIN': 11, 'SIM PUK': 12}[self.pin_state]), echo)
            return
        if name is None or name in self.unsupported:
            self.respond(['ERROR'], echo)
            return
        h = getattr(self, 'cmd_' + name.replace('+', '').replace('^', 'x').replace('&', 'a'), None)
        arg = cmd[2 + len(name):]
        if h is None:
            self.settings[name] = arg
            self.respond(['OK'], echo)
            return
        r = h(arg) if arg != '=?' or name == '+CPMS' else ['OK']
        if r is None:
            return
        self.respond(r, echo)

    def cmd_Z(self, a):
        self.echo, self.cmee, self.textmode, self.cnmi, self.clip, self.crc = True, 0, 0, None, 0, 0
        return ['OK']

    def cmd_E(self, a):
        old, self.echo = self.echo, a != '0'
        return ['OK']

    def cmd_CMEE(self, a):
        if not re.match(r'=[012]$', a):
            return ['ERROR']
        self.cmee = int(a[1:])
        return ['OK']

    def cmd_CFUN(self, a):
        if a == '?':
            return ['+CFUN: %d' % self.cfun, 'OK']
        if not re.match(r'=[0-7](,[01])?$', a):
            return ['ERROR']
        self.cfun = int(a[1:].split(',')[0])
        return ['OK']

    def cmd_CPIN(self, a):
        if a == '?':
            if self.cpin_no_ok:
                self.emit('\r\n+CPIN: %s\r\n' % self.pin_state)
                return None
            return ['+CPIN: ' + self.pin_state, 'OK']
        v = a[1:].strip('"')
        self.pin_attempts.append(v)
        if self.pin_state != 'SIM PIN':
            return self.err('CME', 3 if self.pin_state == 'READY' else 12)
        if v != self.pin:
            return self.err('CME', 16)
        self.pin_state = 'READY'
        return ['OK']

    def cmd_CLAC(self, a):
        if self.clac is None:
            return ['ERROR']
        if self.clac_multiline:
            return list(self.clac) + ['OK']
        return ['+CLAC: ' + ','.join(self.clac), 'OK']

    def cmd_WIND(self, a):
        if self.family != 'wavecom':
            return ['ERROR']
        if a == '?':
            return ['+WIND: %d' % self.wind, 'OK'] if self.wind_told else ['OK']
        if not re.match(r'=\d{1,5}$', a):
            return ['ERROR']
        self.wind = int(a[1:])
        return ['OK']

    def cmd_ZPAS(self, a):
        return ['+ZPAS: "GPRS","CS_ONLY"', 'OK'] if self.family == 'zte' else ['ERROR']

    def cmd_xCVOICE(self, a):
        if self.family != 'huawei' or a not in ('=0', '=1'):
            return ['ERROR']
        self.cvoice = int(a[1:])         # 0: voice calls possible
        return ['OK']

    def cmd_xUSSDMODE(self, a):
        if self.family != 'huawei' or a not in ('=0', '=1'):
            return ['ERROR']
        self.ussdmode = int(a[1:])       # 0: text, 1: raw
        return ['OK']

    def cmd_xDTMF(self, a):
        return ['OK'] if self.family == 'huawei' else ['ERROR']

    def cmd_CGMI(self, a):
        if self.maker is not None:
            return [self.maker, 'OK']
        return [{'huawei': 'huawei', 'zte': 'ZTE INCORPORATED', 'wavecom': ' WAVECOM MODEM'}.get(self.family, 'Generic'), 'OK']

    def cmd_CGMM(self, a):
        return ['Model 7', 'OK']

    def cmd_CGMR(self, a):
        return ['Rev 1.2', 'OK']

    def cmd_CGSN(self, a):
        return ['359999001234567', 'OK']

    def cmd_CIMI(self, a):
        return ['655010123456789', 'OK']

    def cmd_COPS(self, a):
        if a == '?':
            n = (self.cops, self.cops[:5] + '"' if self.cops else None, '"65501"')[self.cops_format]
            return ['+COPS: 0,%d,%s' % (self.cops_format, n) if self.cops else '+COPS: 0', 'OK']
        if not re.match(r'=[0-4](,[0-2](,"[^"]*")?)?$', a):
            return ['ERROR']
        if ',' in a:
            self.cops_format = int(a[3])
        return ['OK']

    def cmd_CSQ(self, a):
        return ['+CSQ: %d,%d' % tuple(self.csq), 'OK']

    def cmd_CREG(self, a):
        if a == '?':
            v = self.creg.pop(0) if len(self.creg) > 1 else self.creg[0]
            return ['+CREG: 0,%d' % v, 'OK']
        return ['OK']

    def cmd_CMGF(self, a):
        if a == '?':
            return ['+CMGF: %d' % self.textmode, 'OK']
        if a not in ('=0', '=1'):
            return self.err('CMS', 302)
        self.textmode = int(a[1:])
        return ['OK']

    def cmd_CSCA(self, a):
        if a == '?':
            return ['+CSCA: "%s",145' % self.csca, 'OK'] if self.csca is not None else ['OK']
        m = re.match(r'="([^"]*)"', a)
        if not m:
            return self.err('CMS', 304)
        self.csca = m.group(1)
        return ['OK']

    def cmd_CSMP(self, a):
        if not re.match(r'=\d{1,3}(,(\d{1,3})?){0,3}$', a):
            return self.err('CMS', 302)
        self.csmp = a
        if self.csmp_clears_csca:
            self.csca = ''
        return ['OK']

    def cmd_CNMI(self, a):
        if not re.match(r'=[0-3](,[0-3]){0,2}(,[0-2])?(,[01])?$', a):
            return self.err('CMS', 302)
        self.cnmi = a
        return ['OK']

    def cmd_CLIP(self, a):
        if a not in ('=0', '=1'):
            return ['ERROR']
        self.clip = int(a[1:])
        return ['OK']

    def cmd_CRC(self, a):
        if a not in ('=0', '=1'):
            return ['ERROR']
        self.crc = int(a[1:])
        return ['OK']

    # ------------------------------------------------------------------ messages
    def cmd_CPMS(self, a):
        if a == '=?':
            return ['+CPMS: ' + ','.join('(%s)' % ','.join('"%s"' % x for x in m) for m in self.cpms_supported), 'OK']
        if a == '?':
            return ['+CPMS: ' + ','.join('"%s",%d,%d' % (m, len(self.stores[m]), self.capacity) for m in self.mems), 'OK']
        if not re.match(r'="[A-Z]+"(,"[A-Z]+"){0,2}$', a):
            return self.err('CMS', 302)
        ms = re.findall('"([A-Z]+)"', a)
        if len(ms) > len(self.cpms_supported) or any(m not in self.cpms_supported[i] for i, m in enumerate(ms)):
            return self.err('CMS', 302)
        self.mems[:len(ms)] = ms
        return ['+CPMS: ' + ','.join('%d,%d' % (len(self.stores[m]), self.capacity) for m in self.mems), 'OK']

    def body_lines(self, m):
        if self.textmode:
            return m.text.replace('\r\n', '\n').split('\n') if m.kind != 'report' else []
        return [m.pdu()]

    def tpdu_len(self, m):
        p = m.pdu()
        try:
            return len(p) // 2 - int(p[:2], 16) - 1
        except ValueError:
            return 20

    def cmd_CMGR(self, a):
        try:
            i = int(a[1:].split(',')[0])
        except ValueError:
            return self.err('CMS', 321)
        m = self.stores[self.mems[0]].get(i)
        if m is None:
            return self.err('CMS', 321)
        head = '+CMGR: ' + (m.text_header(self.alpha) if self.textmode else '%s,%s,%d' % ('' if self.cmgr_blank else m.status, self.alpha, self.tpdu_len(m)))
        lines = [head] + self.body_lines(m) + ['OK']
        self.reads.append((self.mems[0], i))
        if m.status == 0:
            m.status = 1
        return lines

    def cmd_CMGL(self, a):
        if self.textmode:
            want = a[1:].strip('"')
            if want == 'ALL':
                sel = range(4)
            elif want in STAT_TEXT:
                sel = [STAT_TEXT.index(want)]
            else:
                return self.err('CMS', 304)
        else:
            if a[1:] not in ('0', '1', '2', '3', '4'):
                return self.err('CMS', 304)
            sel = range(4) if a[1:] == '4' else [int(a[1:])]
        out = []
        st = self.stores[self.mems[0]]
        for i in sorted(st):
            m = st[i]
            if m.status not in sel:
                continue
            out.append('+CMGL: %d,' % i + (m.text_header(self.alpha) if self.textmode else '%d,%s,%d' % (m.status, self.alpha, self.tpdu_len(m))))
            out += self.body_lines(m)
            self.reads.append((self.mems[0], i))
            if m.status == 0:
                m.status = 1
        return out + ['OK']

    def cmd_CMGD(self, a):
        m = re.match(r'=(\d+)(?:,\s*(\d))?$', a)
        if not m:
            return self.err('CMS', 304)
        i, flag = int(m.group(1)), int(m.group(2) or 0)
        mem = self.mems[0]
        st = self.stores[mem]
        if flag == 0:
            if i not in st:
                return self.err('CMS', 321)
            self.deleted.append((mem, i, st.pop(i)))
        else:
            kill = {1: (1,), 2: (1, 3), 3: (1, 2, 3), 4: (0, 1, 2, 3)}.get(flag)
            if kill is None:
                return self.err('CMS', 304)
            for j in sorted(st):
                if st[j].status in kill:
                    self.deleted.append((mem, j, st.pop(j)))
        return ['OK']

    def cmd_CMGS(self, a):
        if self.textmode:
            m = re.match(r'="([^"]*)"', a)
            if not m:
                return self.err('CMS', 304)
            c = dict(mode='text', dest=m.group(1))
        else:
            m = re.match(r'=(\d+)$', a)
            if not m:
                return self.err('CMS', 304)
            c = dict(mode='pdu', length=int(m.group(1)))
        self.emit('\r\n> ', then=None)
        self.collect = c
        return None

    def submit(self, c, body):
        self.log.append('<body>' + body)
        for f in list(self.intercepts):
            r = f('<body>' + body)
            if r is not None:
                if r == 'silent':
                    return
                self.respond(r)
                return
        c['body'] = body
        if c['mode'] == 'pdu':
            try:
                raw = bytes.fromhex(body)
                s = G.parse_submit(raw)
                if len(raw) - raw[0] - 1 != c['length']:
                    raise ValueError('length %d announced, %d sent' % (c['length'], len(raw) - raw[0] - 1))
            except Exception as e:
                self.mixed.append('body %r after length %d: %s' % (body, c['length'], e))
                self.respond(['+CMS ERROR: 304'])
                return
            c['submit'] = s
        c['ref'] = next(self.refs)
        self.sent.append(c)
        self.respond(['+CMGS: %d' % c['ref'], 'OK'], then=lambda: self.on_sent(c))

    def on_sent(self, c):
        pass

    def store(self, mem, msg, index=None):
        st = self.stores[mem]
        if index is None:
            index = 1
            while index in st:
                index += 1
        st[index] = msg
        return index

    def receive(self, mem, msg, index=None, notify=True):
        """A message arrives: stored and announced."""
        i = self.store(mem, msg, index)
        line = '%s: "%s",%d' % ('+CDSI' if msg.kind == 'report' else '+CMTI', mem, i)
        if notify:
            self.urc(line)
        return i, line

    # ------------------------------------------------------------------ USSD
    def cmd_CUSD(self, a):
        m = re.match(r'=(\d)(?:,"(.*)"(?:,(\d+))?)?$', a, re.S)
        if not m:
            return ['ERROR']
        if m.group(1) != '1' or m.group(2) is None:
            return ['OK']
        if self.ussd:
            return self.ussd(m.group(2))
        return ['OK']

    # ------------------------------------------------------------------ calls
    def free_id(self):
        i = 1
        while i in self.calls:
            i += 1
        return i

    def cmd_D(self, a):
        num = a.rstrip(';')
        self.dialled.append(num)
        i = self.free_id()
        self.calls[i] = dict(dir=0, number=num, state=2)
        self.last_dialled = i
        return self.after_dial(i)

    def after_dial(self, i):
        """Default: what the family answers at once; harnesses drive the rest."""
        if self.family in ('generic', 'huawei'):
            return ['OK']
        return None

    def started_lines(self, i):
        if self.family == 'wavecom':
            return (['+WIND: 5,%d' % i] if self.wind & 16 else []) + (['+WIND: 2'] if self.wind & 2 else [])
        return ['^ORIG:%d,%d' % (i, self.call_type)] if self.family == 'huawei' else []

    def answered_lines(self, i):
        return {'huawei': ['^CONN:%d,0' % i], 'wavecom': ['OK'], 'zte': ['CONNECT']}.get(self.family, [])

    def ended_lines(self, i):
        return {'huawei': ['^CEND:%d,5,29,16' % i], 'wavecom': ['+WIND: 6,%d' % i] if self.wind & 32 else [], 'zte': ['HANGUP: %d' % i]}.get(self.family, [])

    def incoming_lines(self, number=None, ctype='VOICE', ton=145):
        l = ['+CRING: ' + ctype if self.crc else 'RING']
        if self.clip and number is not None:
            l.append('+CLIP: "%s",%d,,,,0' % (number, ton))
        return l

    def cmd_CLCC(self, a):
        return ['+CLCC: %d,%d,%d,%d,0,"%s",129' % (i, c['dir'], c['state'], self.call_type, c['number'] or '') for i, c in sorted(self.calls.items())] + ['OK']

    def cmd_A(self, a):
        for i, c in sorted(self.calls.items()):
            if c['dir'] == 1 and c['state'] == 4:
                c['state'] = 0
                return ['OK']
        return ['NO CARRIER', 'ERROR']

    def cmd_H(self, a):
        return ['OK']


class Bed(object):
    """A connected GsmModem on a Sim, with recorded callbacks."""

    def __init__(self, env, sim=None, connect=True, pin=None, text=False, setup=None, **kw):
        from . import loader
        self.env = env
        self.sim = sim or Sim(env, **kw)
        self.mod = loader.load_modem()
        self.calls, self.sms, self.reports, self.fatal = [], [], [], []
        self.m = self.mod.GsmModem(self.sim.port, incomingCallCallbackFunc=self._call, smsReceivedCallbackFunc=self._sms, smsStatusReportCallback=self._report)
        self.m.fatalErrorCallback = self.fatal.append
        self.on_call = self.on_sms = self.on_report = None
        if setup:
            setup(self.m)
        if text:
            self.m.smsTextMode = True
        if connect:
            th, self.sim.threaded = self.sim.threaded, False
            self.m.connect(*([pin] if pin is not None else []))
            self.sim.threaded = th
            del self.sim.log[:]
        self.sim.latency = env.latency

    def _call(self, call):
        self.calls.append(call)
        if self.on_call:
            self.on_call(call)

    def _sms(self, sms):
        self.sms.append(sms)
        if self.on_sms:
            self.on_sms(sms)

    def _report(self, r):
        self.reports.append(r)
        if self.on_report:
            self.on_report(r)

    def close(self):
        self.m.close()

    def usable(self, what='afterwards'):
        """The modem object must still work."""
        self.sim.threaded = False
        self.sim.collect_check = True
        if not self.m.alive:
            raise Violation('%s the connection is not alive' % what, key='not-alive')
        v = self.m.signalStrength
        if v != self.sim.csq[0]:
            raise Violation('%s the signal strength is read as %r' % (what, v), key='unusable')


def when(dt):
    """Comparable form of an aware datetime: (local fields, offset in quarter hours)."""
    if dt is None:
        return None
    off = dt.utcoffset()
    q = None if off is None else int(off.total_seconds() // 900)
    return (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, q)


def seen(sms):
    """(number, text, time) of a received message object."""
    return (sms.number, sms.text, when(sms.time))
