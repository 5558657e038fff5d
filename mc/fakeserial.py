"""The serial port seam: a fake `serial` module whose ports are simulated devices.

Contract used throughout: the port carries str characters (as the library's own tests do)."""
import collections
import types

from . import vthreading as vt

PORTS = {}


class SerialException(IOError):
    pass


class SerialTimeoutException(SerialException):
    pass


class Device(object):
    """One end of the line. push() makes characters available to the library's reader."""

    def __init__(self):
        self.rx = collections.deque()
        self.opened = 0
        self.is_open = False
        self.error = None         # exception raised by read()
        self.write_error = None
        self.wire = []            # everything written, per write call
        self.handle = None
        self.closes = 0

    def push(self, data):
        self.rx.extend(data)

    def on_write(self, data):
        pass

    def fail(self, exc=None):
        self.error = exc or SerialException('device disconnected')


class Serial(object):
    def __init__(self, port=None, baudrate=9600, bytesize=8, parity='N', stopbits=1, timeout=None, *args, **kwargs):
        dev = PORTS.get(port)
        if dev is None:
            raise SerialException('could not open port %r' % (port,))
        self.port, self.baudrate, self.timeout = port, baudrate, timeout
        self._dev = dev
        dev.opened += 1
        dev.is_open = True
        dev.handle = self
        self._open = True

    def read(self, size=1):
        d = self._dev
        if not self._open:
            raise SerialException('port is not open')
        if d.error is None and not d.rx:
            vt.S.block(lambda: bool(d.rx) or d.error is not None or not self._open, self.timeout, 'serial.read')
        if not self._open:
            raise SerialException('port was closed')
        if d.error is not None and not d.rx:
            raise d.error
        out = ''
        while d.rx and len(out) < size:
            out += d.rx.popleft()
        return out

    def write(self, data):
        d = self._dev
        if vt.active():
            vt.S.point('serial.write')
        if not self._open:
            raise SerialException('port is not open')
        if d.write_error is not None:
            raise d.write_error
        if not isinstance(data, str):
            raise TypeError('this port carries str, got %r' % type(data))
        d.wire.append(data)
        d.on_write(data)
        return len(data)

    def inWaiting(self):
        if vt.active():
            vt.S.point('serial.inWaiting')
        if not self._open:
            raise SerialException('port is not open')
        return len(self._dev.rx)

    @property
    def in_waiting(self):
        return self.inWaiting()

    def flush(self):
        pass

    def flushInput(self):
        self._dev.rx.clear()

    reset_input_buffer = flushInput

    def isOpen(self):
        return self._open

    is_open = property(lambda self: self._open)

    def close(self):
        if vt.active():
            vt.S.point('serial.close')
        if self._open:
            self._dev.closes += 1
        self._open = False
        self._dev.is_open = False


def make_serial():
    m = types.ModuleType('serial')
    m.Serial = Serial
    m.SerialException = SerialException
    m.SerialTimeoutException = SerialTimeoutException
    m.to_bytes = lambda seq: ''.join(chr(c) for c in seq)
    m.VERSION = '3.5'
    return m
