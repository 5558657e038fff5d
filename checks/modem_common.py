# -*- coding: utf-8 -*-
"""What the checks on whole modem objects share."""
from mc import explore
from mc.core import Violation
from mc.sim import Msg, seen, when

TS = [(2013, 5, 6, 7, 8, 9, 8), (2014, 12, 31, 23, 59, 58, -12), (2020, 2, 29, 0, 0, 0, 22), (2001, 1, 1, 12, 30, 0, 0)]


def batch_of(factory):
    """factory(item) -> fn(env); runs each item once on the default schedule."""
    def fn(items, emit):
        for it in items:
            x = explore.run_once(factory(it), ())
            emit.case(1, state=repr(it))
            emit.steps += x.steps
            emit.sample(dict(case=repr(it)[:200], outcome=repr(x.outcome)[:200]))
            if x.violation is not None:
                emit.bad('%s  [case %s]' % (x.violation.what, repr(it)[:300]), it, key=x.violation.key)
    return fn


def slow(factory, latency=2.5):
    """The same cases with a modem that takes its time for every answer once it is connected."""
    def make(item):
        fn = factory(item)

        def run(env):
            env.latency = latency
            return fn(env)
        return run
    return make


SLOW = ' (slow modem)'


def base(payload):
    """The name of the part whose cases a slow part repeats."""
    part = payload.get('part') or ''
    return part[:-len(SLOW)] if part.endswith(SLOW) else part


def replay_case(factory, payload, latency=2.5):
    if (payload.get('part') or '').endswith(SLOW):
        factory = slow(factory, latency)
    x = explore.run_once(factory(payload['case']), (), trace=True)
    for t in x.trace or []:
        print('   ', t)
    print('outcome:', x.outcome, 'violation:', x.violation and x.violation.what)
    return 1 if x.violation else 0


def view(mod, sms):
    """Comparable form of a message object handed to the user."""
    if isinstance(sms, mod.StatusReport):
        return ('report', sms.status, sms.reference, sms.number, when(sms.timeSent), when(sms.timeFinalized), sms.deliveryStatus)
    return ('deliver', sms.status) + seen(sms)


def want(msg, status=None):
    """What view() must give for a stored Msg (status: as it was when it was read)."""
    st = msg.status if status is None else status
    if msg.kind == 'report':
        return ('report', st, msg.ref, msg.number, msg.ts, msg.discharge, msg.st)
    return ('deliver', st, msg.number, msg.text, msg.ts)


def same(got, exp, what, key):
    if sorted(map(repr, got)) != sorted(map(repr, exp)):
        raise Violation('%s: got %r, expected %r' % (what, got, exp), key=key)
