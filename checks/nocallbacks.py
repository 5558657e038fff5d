# -*- coding: utf-8 -*-
"""C18: a modem object that was given no callbacks at all."""
import itertools
import logging

from mc import fakeserial as fs
from mc import loader
from mc.core import Violation
from mc.sim import Bed, Msg
from .c16 import Report

PART = 'no callbacks given'
EVENTS = ('message', 'report', 'stray report', 'ring', 'again', 'caller gone', 'dial', 'call ends', 'ussd', 'noise', 'process', 'process unread')


class Errors(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.ERROR)
        self.seen = []

    def emit(self, record):
        if record.exc_info and record.exc_info[0] is not None:
            self.seen.append(record.exc_info[1])


def case(it):
    inner = scenario(it)

    def fn(env):
        log, h = logging.getLogger(), Errors()
        off, logging.root.manager.disable = logging.root.manager.disable, 0
        log.addHandler(h)
        try:
            out = inner(env)
        finally:
            log.removeHandler(h)
            logging.root.manager.disable = off
        if h.seen:
            raise Violation('no callbacks, %s: handling an event failed: %s: %s' % (', '.join(it[0]), type(h.seen[0]).__name__, h.seen[0]), key='handler')
        return out
    return fn


def scenario(it):
    seq, family, text, end = it

    def fn(env):
        exc = loader.load_exceptions()
        b = Bed(env, connect=False, family=family)
        s = b.sim
        b.m = m = b.mod.GsmModem(s.port)
        m.smsTextMode = text
        m.connect()
        s.after_dial = lambda i: (env.spawn(lambda: (env.sleep(0.2), s.urc(*s.started_lines(i))) if s.started_lines(i) else None, 'network'),
                                  ['OK'] if family in ('huawei', 'generic') else None)[1]
        sent, ringing, out = [], [], []
        for n, e in enumerate(seq):
            what = 'no callbacks, %s: %s' % (family, ', '.join(seq[:n + 1]))
            if e == 'message':
                s.receive('SM', Msg(text='m%d' % n))
            elif e == 'report':
                sms = m.sendSms('+2711', 'hello')
                if sms.status != sms.ENROUTE:
                    raise Violation('%s: status %r after sending' % (what, sms.status), key='status')
                s.receive('SM', Report(s.sent[-1]['ref']))
                sent.append(sms)
            elif e == 'stray report':
                s.receive('ME', Report(200 + n))
            elif e in ('ring', 'again'):
                if e == 'ring' or not ringing:
                    ringing.append('+2712%d' % n)
                    s.calls[s.free_id()] = dict(dir=1, number=ringing[-1], state=4)
                s.urc('+CRING: VOICE', '+CLIP: "%s",145' % ringing[-1])
            elif e == 'caller gone':
                for c in list(m.activeCalls.values()):
                    if c.number in ringing:
                        c.hangup()
                del ringing[:]
                s.calls = dict((i, c) for i, c in s.calls.items() if c['dir'] == 0)
            elif e == 'dial':
                out.append(m.dial('055%d' % n))
            elif e == 'call ends':
                for c in out:
                    if c.active:
                        s.urc(*s.ended_lines(c.id))
                        s.calls.pop(c.id, None)
                        env.settle(2)
                        c.hangup()
                del out[:]
            elif e == 'ussd':
                s.urc('+CUSD: 0,"pushed",15')
            elif e == 'noise':
                s.urc('^RSSI:12')
            else:
                s.store(s.mems[0], Msg(text='stored', status=0), 7)
                m.processStoredSms(e == 'process unread')
            env.settle(3)
            rest = [i for mem in s.stores for i in s.stores[mem]]
            if rest:
                raise Violation('%s: messages left: %r' % (what, rest), key='left')
            if [x.status for x in sent if x.status != x.DELIVERED]:
                raise Violation('%s: a report has not arrived' % what, key='status')
            act = sorted(str(c.number) for c in m.activeCalls.values())
            if act != sorted(ringing + [c.number for c in out]):
                raise Violation('%s: calls %r' % (what, act), key='calls')
        if end == 'fail':
            s.fail(fs.SerialException('gone'))
            env.settle(3)
            if m.alive:
                raise Violation('no callbacks: alive after the port failed', key='alive')
        else:
            b.usable()
        m.close()
        env.settle(2)
        return len(s.log)
    return fn


def items(T):
    for n in (1, 2, 3) if T else (1, 2):
        for seq in itertools.product(EVENTS, repeat=n):
            for fam in ('generic', 'huawei') if T or n < 2 else ('huawei',):
                for text in (False, True) if n == 1 or T and n == 2 else (False,):
                    for end in ('fail', 'close') if n < 3 else ('close',):
                        yield seq, fam, text, end
