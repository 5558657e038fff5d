# -*- coding: utf-8 -*-
"""The terminal (tools/gsmtermlib) on a simulated console and modem."""
import collections
import re
import sys

from mc import fakeserial as fs
from mc import loader
from mc import vthreading
from mc.core import Violation

UP, DOWN, RIGHT, LEFT = '\x1b[A', '\x1b[B', '\x1b[C', '\x1b[D'
DELETE, HOME, END = '\x1b[3~', '\x1bOH', '\x1bOF'
BS, TAB, ENTER, CTRLZ, ESC, EXIT, CTRLD = '\x7f', '\t', '\n', '\x1a', '\x1b', '\x1d', '\x04'
NAMES = {UP: 'Up', DOWN: 'Down', RIGHT: 'Right', LEFT: 'Left', DELETE: 'Delete', HOME: 'Home', END: 'End', BS: 'Backspace', TAB: 'Tab', ENTER: 'Enter',
         CTRLZ: 'Ctrl-Z', ESC: 'Esc', EXIT: 'Ctrl-]', CTRLD: 'Ctrl-D', ' ': 'Space'}


def spell(keys):
    return ' '.join(NAMES.get(k, k) for k in keys)


class _Stdin(object):
    def fileno(self):
        return 0

    def read(self, *a):
        return ''

    readline = read

    def isatty(self):
        return True


def load_terminal():
    """Import gsmtermlib.terminal without touching a real console."""
    if 'gsmtermlib.terminal' in sys.modules:
        return loader.load_tools('terminal')
    loader.load_modem()
    import termios
    keep = {n: getattr(termios, n) for n in ('tcgetattr', 'tcsetattr')}
    stdin = sys.stdin
    termios.tcgetattr = lambda fd: [0, 0, 0, 0xffff, 0, 0, [b'\0'] * 32]
    termios.tcsetattr = lambda *a: None
    sys.stdin = _Stdin()
    try:
        return loader.load_tools('terminal')
    finally:
        sys.stdin = stdin
        for n in keep:
            setattr(termios, n, keep[n])


class Screen(object):
    """A little ANSI terminal: what the user sees."""

    def __init__(self):
        self.rows = [[]]
        self.col = 0
        self.raw = []
        self.esc = None

    def write(self, s):
        self.raw.append(s)
        for ch in s:
            if self.esc is not None:
                self.esc += ch
                if ch.isalpha() or ch == '~':
                    if self.esc == '[D':
                        self.col = max(0, self.col - 1)
                    elif self.esc == '[C':
                        self.col += 1
                    self.esc = None
            elif ch == '\x1b':
                self.esc = ''
            elif ch == '\r':
                self.col = 0
            elif ch == '\n':
                self.rows.append([])
                self.col = 0
            elif ch == '\b':
                self.col = max(0, self.col - 1)
            else:
                row = self.rows[-1]
                while len(row) <= self.col:
                    row.append(' ')
                row[self.col] = ch
                self.col += 1
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return True

    encoding = 'utf-8'

    def row(self):
        return ''.join(self.rows[-1])

    def text(self):
        return '\n'.join(''.join(r) for r in self.rows)

    def clear(self):
        del self.rows[:-1]
        del self.raw[:]


class Modem(fs.Device):
    """Takes command lines and, after AT+CMGS=, a message body."""

    def __init__(self, port='tp'):
        fs.Device.__init__(self)
        self.got = ''                 # everything received
        self.lines = []               # complete command lines
        self.bodies = []              # (text without line breaks, how it ended)
        self.buf = ''
        self.collect = False
        self.cmgs = 'prompt'          # prompt / slow / error / silent / echo
        self.env = None
        self.answer = None            # lines after each command
        self.gate = None
        fs.PORTS[port] = self
        self.port = port

    def on_write(self, data):
        self.got += data
        for ch in data:
            if self.collect:
                if ch in (CTRLZ, ESC):
                    self.bodies.append((self.buf.replace('\r', '').replace('\n', ''), ch))
                    self.buf, self.collect = '', False
                    if self.answer:
                        self.push('\r\nOK\r\n')
                else:
                    self.buf += ch
            elif ch == '\r':
                cmd, self.buf = self.buf, ''
                self.lines.append(cmd)
                if cmd.upper().startswith('AT+CMGS='):
                    if self.cmgs in ('prompt', 'echo'):
                        self.collect = True
                        self.push((cmd + '\r' if self.cmgs == 'echo' else '') + '\r\n> ')
                    elif self.cmgs == 'slow':
                        self.env.spawn(self.prompt_late, 'modem')
                    elif self.cmgs != 'silent':
                        self.push('\r\n%s\r\n' % self.cmgs)
                elif self.answer:
                    self.push(''.join('\r\n%s\r\n' % l for l in self.answer))
            else:
                self.buf += ch


    def prompt_late(self):
        self.env.sleep(2.5)
        self.collect = True
        self.push('\r\n> ')


class Term(object):
    def __init__(self, env, raw=False, color=True, start=True):
        self.env = env
        self.mod = load_terminal()
        self.modem = Modem()
        self.modem.env = env
        self.screen = Screen()
        self.keys = collections.deque()
        self.mod.console.getkey = self.getkey
        self.real = sys.stdout
        self.uncaught = None
        if start:
            sys.stdout = self.screen
            try:
                self.t = self.mod.RawTerm(self.modem.port) if raw else self.mod.GsmTerm(self.modem.port, useColor=color)
                self.t.start()
                env.quiesce()
            finally:
                sys.stdout = self.real

    def getkey(self):
        vthreading.S.block(lambda: bool(self.keys), None, 'getkey')
        return self.keys.popleft()

    def press(self, *keys):
        """Press keys and let everything come to rest."""
        sys.stdout = self.screen
        try:
            self.keys.extend(keys)
            self.env.quiesce()
        finally:
            sys.stdout = self.real
        if self.keys and self.t.alive:
            raise Violation('the terminal does not take any more keys', key='dead')

    def idle(self, sec=0):
        sys.stdout = self.screen
        try:
            if sec:
                self.env.settle(sec)
            else:
                self.env.quiesce()
        finally:
            sys.stdout = self.real

    def shown(self):
        """(prompt, line, cursor) on the screen's last row, or None if there is no prompt on it."""
        row = self.screen.row()
        m = re.match(r'^(GSM> |> )(.*)$', row)
        if not m:
            return None
        return m.group(1), m.group(2), self.screen.col - len(m.group(1))

    def leave(self):
        self.press(EXIT)
        self.idle(3)
        if self.t.alive or not self.modem.closes or self.modem.is_open:
            raise Violation('the terminal was not closed by the exit key', key='exit')


class Editor(object):
    """The reference: a plain line editor with history, in front of the same modem."""

    def __init__(self):
        self.line, self.cur = [], 0
        self.hist, self.pos = [], 0
        self.sms = False
        self.out = ''                 # what the modem must have received
        self.lines, self.bodies, self.body = [], [], ''
        self.prompting = True

    def key(self, k):
        l = self.line
        if k == LEFT:
            self.cur = max(0, self.cur - 1)
        elif k == RIGHT:
            self.cur = min(len(l), self.cur + 1)
        elif k == HOME:
            self.cur = 0
        elif k == END:
            self.cur = len(l)
        elif k == BS:
            if self.cur:
                del l[self.cur - 1]
                self.cur -= 1
        elif k == DELETE:
            if self.cur < len(l):
                del l[self.cur]
        elif k == UP:
            if self.pos > 0:
                self.pos -= 1
                self.recall()
        elif k == DOWN:
            if self.pos < len(self.hist) - 1:
                self.pos += 1
                self.recall()
        elif k == ENTER:
            if self.sms:
                self.body += ''.join(l[:self.cur])
                del l[:self.cur]
                self.cur = 0
            else:
                self.submit(''.join(l).strip())
        elif k in (CTRLZ, ESC):
            if self.sms:
                self.bodies.append((self.body + (''.join(l) if k == CTRLZ else ''), k))
                self.sms, self.line, self.cur, self.body = False, [], 0, ''
        elif len(k) == 1 and ' ' <= k <= '~':
            l.insert(self.cur, k)
            self.cur += 1

    def recall(self):
        self.line = list(self.hist[self.pos])
        self.cur = len(self.line)

    def submit(self, text):
        self.line, self.cur = [], 0
        if text:
            self.hist = (self.hist + [text])[-100:]
            self.pos = len(self.hist)
            self.lines.append(text)
            if text.lower().startswith('at+cmgs=') and self.prompting:
                self.sms = True

    def visible(self):
        return ''.join(self.line), self.cur


def agree(t, ed, what, screen=True):
    """The modem received what the reference sent, and the screen shows the reference's line."""
    m = t.modem
    if m.lines != ed.lines:
        raise Violation('%s: the modem received the lines %r instead of %r' % (what, m.lines[-3:], ed.lines[-3:]), key='lines')
    exp = [(b, k) if k == CTRLZ else k for b, k in ed.bodies]
    got = [(b, k) if k == CTRLZ else k for b, k in m.bodies]
    if exp != got:
        raise Violation('%s: the modem received the messages %r instead of %r' % (what, got[-2:], exp[-2:]), key='bodies')
    if m.collect != ed.sms or (not m.collect and m.buf):
        raise Violation('%s: the modem received the incomplete line %r' % (what, m.buf), key='partial')
    if not t.t.alive:
        raise Violation('%s: the terminal is dead' % what, key='dead')
    if screen:
        s = t.shown()
        line, cur = ed.visible()
        if s is not None:
            if s[1].rstrip() != line.rstrip() or s[2] != cur:
                raise Violation('%s: the screen shows %r with the cursor at %d instead of %r at %d' % (what, s[1], s[2], line, cur), key='screen')
            if s[0] != ('> ' if ed.sms else 'GSM> '):
                raise Violation('%s: the prompt is %r' % (what, s[0]), key='prompt')
        elif line:
            raise Violation('%s: the line %r is not on the screen: %r' % (what, line, t.screen.row()), key='screen')
