# -*- coding: utf-8 -*-
"""C27: the command-line tools do what was asked and say truthfully how it ended."""
import io
import itertools
import os
import runpy
import sys

from mc import core, explore, loader
from mc import vthreading
from mc.core import Violation
from mc.sim import Msg, Sim
from .c01 import chunk
from .c14 import dest_ok
from .modem_common import TS, batch_of, replay_case
from . import term_common as tc


class Run(object):
    """One run of a script: exit status, what it printed, the exception it died of."""

    def __init__(self, script, args, stdin=''):
        path = os.path.join(core.REPO, 'tools', script)
        keep = sys.argv, sys.stdin, sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        self.crash = None
        sys.argv = [path] + list(args)
        sys.stdin, sys.stdout, sys.stderr = io.StringIO(stdin), self.out, self.err
        try:
            runpy.run_path(path, run_name='__main__')
            self.status = 0
        except SystemExit as e:
            self.status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            self.status, self.crash = 1, e
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = keep
        self.text = self.out.getvalue()

    def internal(self):
        return isinstance(self.crash, (NameError, AttributeError, TypeError, KeyError, IndexError, ImportError, AssertionError, ValueError))


def leftover(env):
    """Threads that would keep the program from ending."""
    env.settle(3)
    alive = [t.name for t in vthreading.S.threads if not t.done and t.obj is not None and t.obj is not vthreading._main_obj and t.name not in ('modem', 'network', 'main')
             and not getattr(t.obj, 'daemon', True)]
    if alive:
        raise Violation('the script leaves %r running' % alive, key='left-running')


# ------------------------------------------------------------------ sendsms.py
SIMS = {'ready': ('READY', 3), 'pin': ('SIM PIN', 3), 'puk': ('SIM PUK', 3)}
COVER = {'home': ([1], (20, 99)), 'roaming': ([5], (9, 99)), 'later': ([2, 2, 1], (20, 99)), 'never': ([2], (20, 99)), 'denied': ([3], (20, 99)), 'off': ([0], (20, 99)), 'nosignal': ([1], (0, 99))}
FAULTS = [None, 'CMGS:ERROR', 'CMGS:+CMS ERROR: 500', 'CMGS:+CME ERROR: 30', 'CMGS:silent', 'body:+CMS ERROR: 38', 'body:ERROR', 'body:silent']
CONNECT_FAULTS = ['%s:%s' % (c, h) for c in ('PIN', 'CPIN?', 'Z', 'E0', 'CMEE', 'CMGF', 'CREG', 'CSQ') for h in ('silent', 'ERROR', '+CME ERROR: 100')] + ['PIN:+CME ERROR: 16', 'PIN:+CME ERROR: 12', 'PIN:+CME ERROR: 10']
REPORTS = ['ok', 'failed', 'foreign', 'none', 'temporary, then ok']


def sendsms(it):
    dest, text, pin, state, cover, deliver, fault, report, baud = it
    setup = fault in CONNECT_FAULTS

    def fn(env):
        loader.load_modem()
        s = Sim(env, port='/dev/x')
        s.pin_state = SIMS[state][0]
        s.creg, s.csq = list(COVER[cover][0]), COVER[cover][1]
        step, _, how = (fault or '').partition(':')
        prefix = {'CMGS': 'AT+CMGS=', 'body': '<body>', 'PIN': 'AT+CPIN=', 'CPIN?': 'AT+CPIN?', 'Z': 'ATZ', 'E0': 'ATE0', 'CMEE': 'AT+CMEE', 'CMGF': 'AT+CMGF', 'CREG': 'AT+CREG?', 'CSQ': 'AT+CSQ'}.get(step)

        def intercept(cmd):
            if prefix and cmd.startswith(prefix):
                return 'silent' if how == 'silent' else [how]
            return None
        s.intercepts.append(intercept)
        def on_sent(c):
            sts = {'ok': [(0, 0)], 'failed': [(0, 70)], 'foreign': [(50, 0)], 'none': [], 'temporary, then ok': [(0, 0x20), (0, 0)]}[report]

            def later():
                for d, st in sts:
                    env.sleep(1)
                    s.receive('SR', Msg(kind='report', ref=c['ref'] + d, number=dest, ts=TS[0], discharge=TS[1], st=st))
            env.spawn(later, 'network')
        s.on_sent = on_sent
        args = ['-i', '/dev/x'] + (['-p', pin] if pin else []) + (['-d'] if deliver else []) + (['-b', baud] if baud else []) + [dest]
        r = Run('sendsms.py', args, text + '\n')
        if r.internal():
            raise Violation('sendsms ended with %s: %s' % (type(r.crash).__name__, r.crash), key='crash')
        if setup:
            # a step before the message fails: whatever the outcome, it is told truthfully and nothing is done twice
            tried = [c for c in s.log if c.startswith('AT+CPIN=')]
            if len(tried) > (1 if pin and state == 'pin' else 0):
                raise Violation('%s: the PIN was entered %d times' % (fault, len(tried)), key='pin')
            whole = ''.join(x['submit'].text for x in s.sent)
            if whole not in ('', text) or any(not dest_ok(x['submit'].dest, dest) for x in s.sent):
                raise Violation('%s: the modem was given %r' % (fault, whole), key='sent')
            if (r.status == 0) != bool(s.sent) or ('Message sent' in r.text) != bool(s.sent):
                raise Violation('%s: exit status %d, printed %r; the modem was given %r' % (fault, r.status, r.text[-100:], whole), key='status')
            if s.opened != 1:
                raise Violation('the port was opened %d times' % s.opened, key='port')
            leftover(env)
            return r.status, len(s.sent)
        # what should have happened
        unlocked = state == 'ready' or state == 'pin' and pin == s.pin
        covered = unlocked and cover in ('home', 'roaming', 'later')
        accepted = covered and not fault
        tries = [pin] if state == 'pin' and pin else []
        if s.pin_attempts != tries:
            raise Violation('the PINs %r were tried' % s.pin_attempts, key='pin')
        got = [x['submit'] for x in s.sent]
        if accepted:
            whole = ''.join(x.text for x in got)
            if whole != text or any(not dest_ok(x.dest, dest) for x in got) or not got:
                raise Violation('the modem was given %r' % [(x.dest, x.text) for x in got], key='sent')
        elif got:
            raise Violation('a message was sent although it should not have been: %r' % got, key='sent')
        if not covered and [c for c in s.log if c.startswith('AT+CMGS')]:
            raise Violation('a message was submitted without coverage', key='coverage')
        good = accepted and (not deliver or report in ('ok', 'failed', 'temporary, then ok'))
        if (r.status == 0) != bool(good):
            raise Violation('exit status %d (%s); printed %r %r' % (r.status, r.crash, r.text[-100:], r.err.getvalue()[-100:]), key='status')
        said = 'Message sent' in r.text
        if said != bool(good):
            raise Violation('it printed %r' % r.text[-160:], key='said')
        if good and deliver:
            ok = 'delivered OK' in r.text
            bad = 'delivery failed' in r.text
            if report == 'ok' and not (ok and not bad) or report == 'failed' and not (bad and not ok):
                raise Violation('with the report %r it printed %r' % (report, r.text[-160:]), key='report')
        elif 'delivered OK' in r.text:
            raise Violation('it printed %r' % r.text[-160:], key='report')
        if s.opened != 1:
            raise Violation('the port was opened %d times' % s.opened, key='port')
        if (good or accepted) and s.is_open:
            raise Violation('the port was not closed', key='port')
        if s.handle is not None and int(s.handle.baudrate) != int(baud or 115200):
            raise Violation('opened with %r baud' % s.handle.baudrate, key='baud')
        leftover(env)
        return r.status, len(got)
    return fn


def usage(it):
    script, args = it

    def fn(env):
        loader.load_modem()
        if script == 'gsmterm.py':
            tc.load_terminal()
        s = Sim(env, port='/dev/x')
        r = Run(script, args, 'text\n')
        helped = '-h' in args or '--help' in args
        if (r.status == 0) != helped or r.crash is not None:
            raise Violation('%s %r: exit status %d (%s)' % (script, args, r.status, r.crash), key='usage')
        if s.log or s.opened:
            raise Violation('%s %r: the modem was used: %r' % (script, args, s.log), key='usage')
        if not (r.text + r.err.getvalue()).strip():
            raise Violation('%s %r: nothing was printed' % (script, args), key='usage')
        return r.status
    return fn


# ------------------------------------------------------------------ identify-modem.py
ITEMS = {'Manufacturer': 'AT+CGMI', 'Model': 'AT+CGMM', 'Revision': 'AT+CGMR', 'IMEI': 'AT+CGSN', 'IMSI': 'AT+CIMI'}
DEBUG = ['ATI', 'AT+CGMI', 'AT+CGMM', 'AT+CGMR', 'AT+CFUN=?', 'AT+WIND=?', 'AT+WIND?', 'AT+CPMS=?', 'AT+CNMI=?', 'AT+CVHU=?', 'AT+CSMP?', 'AT+GCAP', 'AT+CPIN?', 'AT+CLAC']


def identify(it):
    values, missing, cops, csq, pin, state, debug = it

    def fn(env):
        loader.load_modem()
        s = Sim(env, port='/dev/x')
        s.pin_state = SIMS[state][0]
        s.cops, s.csq = cops, (csq, 99)
        for (k, cmd), v in zip(sorted(ITEMS.items()), values):
            s.replies[cmd] = [v, 'OK']
        for k in missing:
            s.replies[ITEMS.get(k, k)] = ['ERROR']
        args = ['/dev/x'] + (['-p', pin] if pin else []) + (['-d'] if debug else [])
        r = Run('identify-modem.py', args)
        if r.internal():
            raise Violation('identify-modem ended with %s: %s' % (type(r.crash).__name__, r.crash), key='crash')
        unlocked = state == 'ready' or state == 'pin' and pin == s.pin
        if s.pin_attempts != ([pin] if state == 'pin' and pin else []):
            raise Violation('the PINs %r were tried' % s.pin_attempts, key='pin')
        if s.sent or s.dialled or s.deleted:
            raise Violation('identify-modem changed something', key='harm')
        if not unlocked:
            if r.status == 0 or 'MODEM' in r.text:
                raise Violation('exit status %d with a locked SIM' % r.status, key='status')
            return 'locked'
        if debug:
            sent = [c for c in s.log if c in DEBUG]
            if r.status or sent[-len(DEBUG):] != DEBUG:
                raise Violation('status %d (%s); asked %r' % (r.status, r.crash, sent), key='debug')
            for (k, cmd), v in zip(sorted(ITEMS.items()), values):
                if cmd in DEBUG and cmd not in missing and v not in r.text:
                    raise Violation('%r was not printed' % v, key='debug')
            return 'debug'
        if [k for k in missing if k != 'Revision']:
            return 'refused'
        if r.status:
            raise Violation('exit status %d (%s)' % (r.status, r.crash), key='status')
        exp = {k: v for (k, cmd), v in zip(sorted(ITEMS.items()), values)}
        for k in missing:
            exp[k] = 'N/A'
        exp['Network'] = cops.strip('"') if cops else 'None'
        exp['Signal strength'] = str(csq if csq != 99 else -1)
        lines = r.text.split('\n')
        for k, v in exp.items():
            l = [x for x in lines if x.startswith(k + ':')]
            if len(l) != 1 or l[0][len(k) + 1:].strip() != v.strip():
                raise Violation('%s is printed as %r instead of %r' % (k, l, v), key='item')
        leftover(env)
        return 'ok'
    return fn


# ------------------------------------------------------------------ gsmterm.py
def terminal(it):
    raw, baud, keys, answer = it

    def fn(env):
        t = tc.Term(env, start=False)
        t.modem.answer = answer
        want = tc.Editor()
        runs = []

        def go():
            runs.append(Run('gsmterm.py', [t.modem.port] + (['-r'] if raw else []) + (['-b', baud] if baud else [])))
        th = env.spawn(go, 'main script')
        env.quiesce()
        if not t.modem.is_open:
            raise Violation('the port was not opened', key='port')
        if int(t.modem.handle.baudrate) != int(baud or 115200):
            raise Violation('opened with %r baud' % t.modem.handle.baudrate, key='baud')
        for k in keys:
            t.keys.append(k)
            env.quiesce()
            want.key(k)
        if raw:
            got = t.modem.got.replace('\r', '\n')
            if got != ''.join(keys).replace('\r', '\n'):
                raise Violation('raw terminal: keys %r, modem received %r' % (keys, t.modem.got), key='raw')
        elif t.modem.lines != want.lines:
            raise Violation('keys %r: the modem received %r' % (tc.spell(keys), t.modem.lines), key='lines')
        if runs:
            raise Violation('the script ended by itself', key='ended')
        t.keys.append(tc.EXIT)
        env.settle(5)
        if not runs or t.modem.is_open:
            raise Violation('the exit key does not end the script', key='exit')
        if runs[0].status or 'Done.' not in runs[0].text:
            raise Violation('exit status %d (%s), printed %r' % (runs[0].status, runs[0].crash, runs[0].text[-100:]), key='status')
        return len(keys)
    return fn


TEXTS = ['Hello', 'a', u'\u20ac5 [x]', u'\u4e2d\u6587 text', 'x' * 160, 'y' * 161, u'\u4e2d' * 71, 'long ' * 70, ' "quoted", ; text', '+CMTI: "SM",1']
DESTS = ['+27820001111', '0821234567', '12345']


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    tc.load_terminal()
    items = []
    for dest in DESTS:
        for text in TEXTS:
            for deliver in (False, True):
                items.append((dest, text, None, 'ready', 'home', deliver, None, 'ok', None))
    for pin in (None, '1234', '0000', '0001'):
        for state in SIMS:
            for cover in COVER:
                for deliver in (False, True):
                    items.append((DESTS[0], TEXTS[0], pin, state, cover, deliver, None, 'ok', None))
    for fault in FAULTS:
        for cover in COVER if T else ('home', 'later'):
            for deliver in (False, True):
                for report in REPORTS:
                    for baud in (None, '9600'):
                        for text in TEXTS[:2] + TEXTS[5:6]:
                            items.append((DESTS[1], text, None, 'ready', cover, deliver, fault, report, baud))
    for fault in CONNECT_FAULTS:
        for state in SIMS:
            for pin in (None, '1234', '0000'):
                for deliver in (False, True):
                    items.append((DESTS[0], TEXTS[0], pin, state, 'home', deliver, fault, 'ok', None))
    core.run_cases(ctx, 'sendsms', batch_of(sendsms), chunk(items, 20))
    items = [('sendsms.py', a) for a in ([], ['-i', '/dev/x'], ['+123'], ['-d', '+123'], ['-p', '1234', '+123'], ['-h'], ['--help'], ['-x', '+123'], ['-i', '/dev/x', '1', '2'])]
    items += [('identify-modem.py', a) for a in ([], ['-h'], ['-d'], ['-x', '/dev/x'], ['/dev/x', 'more'], ['-p'])]
    items += [('gsmterm.py', a) for a in ([], ['-h'], ['-r'], ['-x', '/dev/x'], ['/dev/x', 'more'])]
    core.run_cases(ctx, 'usage', batch_of(usage), chunk(items, 5))
    items = []
    V = [('359999001234567', '655010123456789', 'Maker', 'Model 7', 'Rev 1.2'), ('1', '2', 'A B, C', '"quoted"', 'x: y')]
    for v in V:
        for missing in itertools.chain.from_iterable(itertools.combinations(sorted(ITEMS), n) for n in range(0, 4 if T else 3)):
            for cops in ('"Net"', '"Two Words"', None):
                for csq in (0, 1, 20, 31, 99):
                    items.append((v, missing, cops, csq, None, 'ready', False))
        for missing in itertools.chain.from_iterable(itertools.combinations(DEBUG, n) for n in range(0, 3 if T else 2)):
            if 'AT+CPIN?' not in missing:
                items.append((v, missing, '"Net"', 20, None, 'ready', True))
    for pin in (None, '1234', '0000'):
        for state in SIMS:
            for debug in (False, True):
                items.append((V[0], (), '"Net"', 20, pin, state, debug))
    core.run_cases(ctx, 'identify-modem', batch_of(identify), chunk(items, 20))
    keyset = ['A', 'T', ' ', tc.ENTER, tc.BS, tc.LEFT, tc.UP]
    items = [(raw, baud, ('A', 'T') + k, ans) for raw in (False, True) for baud in (None, '9600') for n in range(0, 5 if T else 4)
             for k in itertools.product(keyset if not raw else ['A', '\n', '1', '\x1a'], repeat=n) for ans in (None, ['OK'])]
    core.run_cases(ctx, 'gsmterm', batch_of(terminal), chunk(items, 20))
    ctx.assumptions += ['a failure is reported by a non-zero exit status; the wording of failures is not judged',
                        'when the delivery report does not come in time the message may have been sent all the same']


def replay(ctx, payload):
    return replay_case({'sendsms': sendsms, 'usage': usage, 'identify-modem': identify, 'gsmterm': terminal}[payload['part']], payload)
