# -*- coding: utf-8 -*-
"""Shared by C08-C12: SerialComms objects on a simulated port, and the line-level reference model."""
import re

from mc import explore, fakeserial as fs, loader
from mc.core import Violation

FINAL = re.compile(r'(OK|ERROR|\+CM[ES] ERROR: \d+|COMMAND NOT SUPPORT)\Z')


def is_final(line):
    return FINAL.match(line) is not None


def lines_of(stream):
    """Complete non-empty lines of a character stream."""
    return [l for l in stream.split('\r\n')[:-1] if l]


class Box(object):
    """A SerialComms object, its port, and everything it reported."""

    def __init__(self, env, on_write=None, port='p', connect=True):
        self.env = env
        self.dev = fs.Device()
        fs.PORTS[port] = self.dev
        self.notes = []       # list of notification groups
        self.fatal = []
        self.on_note = self.on_fatal = None
        if on_write:
            self.dev.on_write = on_write
        sc = loader.load_serial_comms()
        self.sc = sc.SerialComms(port, notifyCallbackFunc=self._note, fatalErrorCallbackFunc=self._fatal)
        if connect:
            self.sc.connect()

    def _note(self, lines):
        if not isinstance(lines, list) or not lines:
            raise Violation('notification callback called with %r' % (lines,), key='empty-notification')
        self.notes.append(list(lines))
        if self.on_note:
            self.on_note(lines)

    def _fatal(self, e):
        self.fatal.append(e)
        if self.on_fatal:
            self.on_fatal(e)

    def noted(self):
        return [l for g in self.notes for l in g]

    def check_alive(self):
        if not self.sc.alive:
            raise Violation('the connection is not alive although nothing failed', key='not-alive')

    def probe(self, what='afterwards'):
        """The connection must still deliver notifications and responses."""
        env, d = self.env, self.dev
        n = len(self.noted())
        old = d.on_write
        d.push('\r\nPROBE-NOTE\r\n')
        env.settle(3)
        if self.noted()[n:] != ['PROBE-NOTE']:
            raise Violation('%s a notification is not delivered: %r' % (what, self.noted()[n:]), key='probe-note')
        d.on_write = lambda data: d.push('\r\nPROBE-INFO\r\nOK\r\n')
        try:
            r = call(self.sc.write, 'ATPROBE\r', timeout=2)
        finally:
            d.on_write = old
        if r != ('ok', ['PROBE-INFO', 'OK']):
            raise Violation('%s a command that is answered gives %r' % (what, r), key='probe-command')
        env.settle(3)
        if self.noted()[n:] != ['PROBE-NOTE']:
            raise Violation('%s additional notifications: %r' % (what, self.noted()[n:]), key='probe-note')


def call(fn, *a, **k):
    """('ok', result) | ('timeout', data) | ('serial', text); other exceptions propagate (and are violations)."""
    exc = loader.load_exceptions()
    try:
        return 'ok', fn(*a, **k)
    except exc.TimeoutException as e:
        return 'timeout', e.data
    except fs.SerialException as e:
        return 'serial', str(e)


def split_ok(all_lines, notes, response, first_possible, last_possible):
    """Is response = all_lines[i:j] (i within bounds, j just behind the first final result at or after i), notes the rest in order?"""
    n = len(all_lines)
    for i in range(first_possible, min(last_possible, n) + 1):
        j = i
        while j < n and not is_final(all_lines[j]):
            j += 1
        if j >= n:
            continue
        if all_lines[i:j + 1] == response and all_lines[:i] + all_lines[j + 1:] == notes:
            return True
    return False
