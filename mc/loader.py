"""Imports the code under test from the repository's working tree, with the fake threading, time and
serial modules in place of the real ones."""
import importlib
import logging
import os
import sys

from . import core
from . import fakeserial
from . import vthreading as vt

logging.disable(logging.CRITICAL)
logging.lastResort = None
_done = {}


def _install():
    if 'installed' in _done:
        return
    sys.modules['threading'] = vt.make_threading()
    sys.modules['time'] = vt.make_time()
    sys.modules['serial'] = fakeserial.make_serial()
    for n in ('queue', 'sched', 'concurrent', 'concurrent.futures'):
        sys.modules.pop(n, None)
    if core.REPO in sys.path:
        sys.path.remove(core.REPO)
    sys.path.insert(0, core.REPO)
    _done['installed'] = True


def _import(name):
    _install()
    m = importlib.import_module(name)
    f = os.path.realpath(m.__file__)
    if not f.startswith(os.path.realpath(core.REPO) + os.sep):
        raise RuntimeError('%s was imported from %s, not from %s' % (name, f, core.REPO))
    return m


def load_pdu():
    return _import('gsmmodem.pdu')


def load_util():
    return _import('gsmmodem.util')


def load_exceptions():
    return _import('gsmmodem.exceptions')


def load_modem(instrument=True):
    m = _import('gsmmodem.modem')
    sc = _import('gsmmodem.serial_comms')
    if instrument and 'instr' not in _done:
        _done['instr'] = True
        _import('gsmmodem.pdu'), _import('gsmmodem.util'), _import('gsmmodem.exceptions')
        seen = set()
        for mod in (sc, m):
            for n, c in sorted(vars(mod).items()):
                if isinstance(c, type) and c.__module__.startswith('gsmmodem.') and not issubclass(c, BaseException):
                    root = [k for k in c.__mro__ if k is not object][-1]
                    if root.__module__.startswith('gsmmodem.') and root not in seen and not root.__module__.endswith('pdu') \
                            and not root.__module__.endswith('util') and '__slots__' not in vars(root):
                        seen.add(root)
                        vt.instrument_class(root)
        _snapshot()
    return m


_state = []


def _keep(v):
    return dict(v) if type(v) is dict else list(v) if type(v) is list else set(v) if type(v) is set else None


def _snapshot():
    for name in ('modem', 'serial_comms', 'pdu', 'util', 'exceptions'):
        mod = sys.modules.get('gsmmodem.' + name)
        if mod is None:
            continue
        owners = [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__]
        for o in owners:
            for k, v in list(vars(o).items()):
                if not k.startswith('__'):
                    _state.append((o, k, v, _keep(v)))
            _state.append((o, None, {k for k in vars(o)}, None))


def restore():
    """Undo what an earlier execution left behind in module and class variables."""
    for o, k, v, copy in _state:
        d = vars(o)
        if k is None:
            if len(d) != len(v):
                for x in [x for x in d if x not in v and not x.startswith('__')]:
                    delattr(o, x)
            continue
        if d.get(k, _state) is not v:
            setattr(o, k, v)
        if copy is not None and v != copy:
            if type(v) is list:
                v[:] = copy
            else:
                v.clear()
                v.update(copy)


def load_serial_comms():
    load_modem()
    return _import('gsmmodem.serial_comms')


def load_tools(name):
    _install()
    tools = os.path.join(core.REPO, 'tools')
    if tools not in sys.path:
        sys.path.insert(0, tools)
    return _import('gsmtermlib.' + name)
