# -*- coding: utf-8 -*-
"""C13: connecting configures any modem correctly and unlocks the SIM at most once.

Every modem profile of several products of dimensions (optional commands, error forms, SIM state, radio state,
service centre, storage layout, SMS mode, model family) is a simulated modem; connect() runs against it."""
import itertools

from mc import core, explore, loader
from mc.core import Violation
from mc import fakeserial as fs
from mc.sim import Bed, Msg, Sim
from .c01 import chunk
from .modem_common import TS, view

OPTIONAL = ['+CFUN', '+CMEE', '+CLAC', '+WIND', '+ZPAS', '+CGMI', '+COPS', '+CSMP', '+CPMS', '+CNMI', '+CLIP', '+CRC', '+CVHU', '^CVOICE', '^USSDMODE']
ERRORS = ['ERROR', 'COMMAND NOT SUPPORT', '+CME ERROR: 4', '+CME ERROR: 100', '+CMS ERROR: 302']
CLACS = {'none': None,
         'generic': ['A', 'D', 'H', '+CMGS', '+VTS'],
         'plain': ['A', 'D', 'H'],
         'huawei': ['A', 'D', '^CVOICE', '^DTMF', '^USSDMODE'],
         'huawei2': ['A', 'D', '^CVOICE', '^USSDMODE', '+VTS'],
         'wavecom': ['A', 'D', '+WIND', '+VTS'],
         'zte': ['A', 'D', '+ZPAS', '+VTS']}
ALL = ['ME', 'SM', 'SR']
LAYOUTS = [[ALL, ALL, ALL], [['SM'], ['SM'], ['SM']], [['SM', 'ME'], ['SM', 'ME']], [['SM']], [['MT', 'BM'], ['SM'], ['MT']], [['MT'], ['MT']],
           [['BM', 'SR', 'SM'], ['SM'], ['SM', 'ME']]]
DEFAULT = dict(family='generic', clac='none', multi=False, missing=(), error='ERROR', pin='READY', given=None, early=False, no_ok=False, csca='+2799', clears=False,
               chosen=None, text=False, cfun='1', layout=0, refuse=(), calls=None, wind=0, code='1234')


def build(env, p):
    s = Sim(env, family=p['family'], clac=CLACS[p['clac']])
    s.clac_multiline = p['multi']
    s.pin_state = p['pin']
    s.pin = p['code']
    if p['early']:
        s.pin_free = {'E', '+CMEE', '+CPIN'}
    s.cpin_no_ok = p['no_ok']
    s.csca = p['csca']
    s.csmp_clears_csca = p['clears']
    s.cpms_supported = [list(x) for x in LAYOUTS[p['layout']]]
    s.stores.update({'MT': {}, 'BM': {}})
    s.mems = [x[-1] for x in s.cpms_supported] + ['SM'] * (3 - len(s.cpms_supported))
    s.cfun = int(p['cfun'][0])
    s.cvoice = s.ussdmode = 1
    s.cops_format = 2
    if p['wind'] is None:
        s.wind_told = False
    else:
        s.wind = p['wind']
    if p['cfun'][1:]:
        s.intercepts.append(lambda c: ['+CFUN: %d%s' % (s.cfun, p['cfun'][1:]), 'OK'] if c == 'AT+CFUN?' else None)

    def missing(cmd):
        if s.pin_state in ('SIM PIN', 'SIM PUK') and s.name_of(cmd) not in s.pin_free:
            return None
        if s.name_of(cmd) in p['missing'] or cmd in p['refuse']:
            return [p['error']]
    s.intercepts.insert(0, missing)
    return s


def profile(p):
    def fn(env):
        exc = loader.load_exceptions()
        s = build(env, p)
        before = s.csca
        b = Bed(env, sim=s, connect=False)
        if p['text']:
            b.m.smsTextMode = True
        if p['chosen']:
            b.m.smsc = p['chosen']
        if s.log:
            raise Violation('setting properties before connecting sent %r' % s.log, key='early')
        attempts = []
        for given in (p['calls'] if p['calls'] is not None else [p['given']]):
            state = s.pin_state
            n = len(s.pin_attempts)
            try:
                b.m.connect(*([given] if given is not None else []))
                got = None
            except exc.CommandError as e:
                got = e
            except exc.TimeoutException as e:
                got = e
            what = 'SIM %s, PIN given %r' % (state, given)
            sent = s.pin_attempts[n:]
            if sent != ([given] if state == 'SIM PIN' and given is not None else []):
                raise Violation('%s: PINs sent: %r' % (what, sent), key='pin-attempts')
            if state == 'SIM PUK':
                want = exc.PukRequiredError
            elif state == 'SIM PIN' and given is None:
                want = exc.PinRequiredError
            elif state == 'SIM PIN' and given != s.pin:
                want = exc.IncorrectPinError if '+CMEE' not in p['missing'] else exc.CommandError
            else:
                want = None
            if want is None and got is not None:
                raise Violation('%s: connect() raised %s: %s' % (what, type(got).__name__, got), key='raised:' + type(got).__name__)
            if want is not None and not isinstance(got, want):
                raise Violation('%s: connect() gave %r instead of raising %s' % (what, got, want.__name__), key='pin-exception')
            attempts.append(want is None)
            if want is not None:
                b.m.close()
        if attempts[-1]:
            configured(b, p, before)
            b.usable('after connecting')
            b.m.close()
        return len(s.log)
    return fn


def at_work(env, b):
    """What the user gets from the connected modem: a message, an outgoing call with tones, an incoming call."""
    s, m = b.sim, b.m
    exc = loader.load_exceptions()
    out = []
    del b.sms[:], b.calls[:]

    def note(what, fn):
        try:
            out.append((what, fn()))
        except (exc.GsmModemException, NotImplementedError) as e:
            out.append((what, type(e).__name__))

    def after(i):
        if s.family in ('huawei', 'wavecom'):
            env.spawn(lambda: (env.sleep(0.1), s.urc(*s.started_lines(i))), 'network')
        return ['OK'] if s.family in ('huawei', 'generic') else None
    s.after_dial = after
    s.calls.clear()
    if s.cnmi:
        s.receive(s.mems[0], Msg(text='new', ts=TS[1]))
        env.settle(1)
    out.append(('messages', [view(b.mod, x) for x in b.sms]))
    note('list', lambda: len(m.listStoredSms()))
    if m.activeCalls:
        raise Violation('after connecting there are calls already: %r' % sorted((k, c.number) for k, c in m.activeCalls.items()), key='old-calls')
    n = 0
    held = []

    def dialled():
        c = m.dial('055', timeout=20)
        held.append(c)
        s.calls[s.last_dialled]['state'] = 0
        s.urc(*s.answered_lines(s.last_dialled))
        env.settle(2)
        return (c.id, c.number, c.answered, c.active, c.dtmfSupport, len(m.activeCalls) - n)
    note('dial', dialled)
    if held:
        note('tones', lambda: held[0].sendDtmfTone('12'))
        out.append(('played', [x for x in s.log if 'DTMF' in x or 'VTS' in x]))
        note('hangup', held[0].hangup)
    if 'last_dialled' in s.__dict__:
        s.urc(*s.ended_lines(s.last_dialled))
        s.calls.pop(s.last_dialled, None)
    env.settle(2)
    s.urc(*s.incoming_lines('+2755'))
    env.settle(1)
    out.append(('ring', [(c.number, c.type, c.dtmfSupport) for c in b.calls]))
    return out


def in_call(env, b, how):
    """A call in progress and a ringing one."""
    s = b.sim

    def after(i):
        env.spawn(lambda: (env.sleep(0.1), s.urc(*s.started_lines(i))), 'network')
        return ['OK'] if s.family in ('huawei', 'generic') else None
    s.after_dial = after
    try:
        out = [b.m.dial('066', timeout=20)]
    except loader.load_exceptions().GsmModemException:
        out = []
    else:
        if s.last_dialled in s.calls:
            s.calls[s.last_dialled]['state'] = 0
        s.urc(*s.answered_lines(s.last_dialled))
    s.urc(*s.incoming_lines('+2766'))
    env.settle(1)
    out += b.calls[-1:]
    return out


def chain(ps, how):
    """The modems ps are met one after the other by one modem object; the last one is put to work."""
    def fn(env):
        b, old = None, []
        for n, p in enumerate(ps):
            s = build(env, p)
            before = s.csca
            if b is None:
                b = Bed(env, sim=s, connect=False)
            else:
                if how.endswith('in call'):
                    old += in_call(env, b, how.split()[0])
                if how.startswith('pulled'):
                    b.sim.fail()
                    env.sleep(1)
                b.m.close()
                env.settle(2)
                fs.PORTS[s.port] = b.sim = s
            b.m.smsTextMode = p['text']
            if p['chosen']:
                b.m.smsc = p['chosen']
            b.m.connect()
            configured(b, dict(p, chosen=next((q['chosen'] for q in reversed(ps[:n + 1]) if q['chosen']), None)), before)
            b.usable('after connecting')
            if [c for c in old if c.active or c.answered or getattr(c, 'ringing', False)]:
                raise Violation('a call of the earlier connection is still active: %r' % [(c.number, c.answered) for c in old if c.active], key='old-calls')
        out = at_work(env, b)
        b.m.close()
        return out
    return fn


def chain_batch(items, emit):
    fresh = {}
    for ps, how in items:
        qs = [dict(DEFAULT, **p) for p in ps]
        what = 'one modem object connected to %s (%s)' % (' then '.join('%r' % (p,) for p in ps), how)
        k = repr(sorted(qs[-1].items()))
        if k not in fresh:
            x = explore.run_once(chain(qs[-1:], how), ())
            emit.steps += x.steps
            fresh[k] = x
        x = explore.run_once(chain(qs, how), ())
        emit.case(1, state=(repr(ps), how))
        emit.steps += x.steps
        f = fresh[k]
        if f.violation is not None:
            emit.bad('%s: a new object: %s' % (what, f.violation.what), [list(ps[-1:]), how], key=f.violation.key)
        elif x.violation is not None:
            emit.bad('%s: %s' % (what, x.violation.what), [list(ps), how], key=x.violation.key)
        elif x.outcome != f.outcome:
            bad = [(a, c) for a, c in zip(x.outcome, f.outcome) if a != c]
            emit.bad('%s: %r, a new object on the last modem: %r' % (what, bad[0][0], bad[0][1]), [list(ps), how], key='again:' + bad[0][0][0])


def configured(b, p, before):
    s, miss = b.sim, tuple(p['missing'])

    def need(ok, what):
        if not ok:
            raise Violation('after connecting %s' % what, key='config:' + what.split(' is ')[0].split(' are ')[0])
    need(not s.echo, 'echo is on')
    if '+CMEE' not in miss:
        need(s.cmee == 1, 'verbose errors are off (CMEE %r)' % s.cmee)
    if '+CFUN' not in miss:
        need(s.cfun == 1, 'functionality is %r' % s.cfun)
    need(s.textmode == int(p['text']), 'SMS mode is %r' % s.textmode)
    need(b.m.smsTextMode == p['text'], 'smsTextMode is %r' % b.m.smsTextMode)
    if '+CSMP' not in miss:
        need(s.csmp is not None and int(s.csmp[1:].split(',')[0]) & 0x20, 'delivery reports are not requested (CSMP %r)' % s.csmp)
        v = [int(x or d) for x, d in itertools.zip_longest(s.csmp[1:].split(','), (17, 167, 0, 0), fillvalue=0)]
        need(v[0] & 3 == 1 and v[2:] == [0, 0], 'text messages are not ordinary ones (CSMP %r)' % s.csmp)
    if s.family == 'huawei' and '+CLAC' not in miss:
        need('^CVOICE' not in (s.clac or ()) or '^CVOICE' in miss or not s.cvoice, 'voice calls are off')
        need('^USSDMODE' not in (s.clac or ()) or '^USSDMODE' in miss or not s.ussdmode, 'USSD replies are raw')
    if '+COPS' not in miss:
        got = b.m.networkName
        need(got == s.cops.strip('"'), 'the network name is %r' % got)
    if '+CPMS' not in miss and '+CNMI' not in miss:
        v = [int(x) for x in (s.cnmi or '=0,0,0,0')[1:].split(',')]
        need(v[0] in (1, 2, 3) and v[1] == 1, 'new-message indications are off (CNMI %r)' % s.cnmi)
        need(len(v) > 3 and v[3] == 2, 'delivery-report indications are off (CNMI %r)' % s.cnmi)
    if s.family == 'wavecom' and '+WIND' not in miss + tuple(p['refuse']) and 'AT+WIND=50' not in p['refuse'] and '+WIND' in (s.clac or ['+WIND']):
        need(s.wind & 48 == 48, 'call notifications are off (WIND %r)' % s.wind)
    if '+CLIP' not in miss:
        need(s.clip == 1, 'caller ID is off')
        if '+CRC' not in miss:
            need(s.crc == 1, 'extended call indication is off')
    want = p['chosen'] or before
    if want:
        need(s.csca == want, 'SMSC number is %r, not %r' % (s.csca, want))
        need(b.m.smsc == want, 'smsc property is %r, not %r' % (b.m.smsc, want))
    else:
        need(not s.csca or s.csca == want, 'SMSC number is %r' % s.csca)
    if '+CPMS' not in miss and not p['refuse']:
        sup = s.cpms_supported
        need(all(s.mems[i] in sup[i] for i in range(len(sup))), 'memory selection is %r' % s.mems)
    need(b.m.alive and s.is_open, 'connection is not open')
    need(not s.mixed, 'garbage was sent: %r' % s.mixed)


def batch(items, emit):
    for p in items:
        q = dict(DEFAULT, **p)
        x = explore.run_once(profile(q), ())
        emit.case(x.outcome or 1, state=repr(sorted(p.items())))
        emit.steps += x.steps
        if x.violation is not None:
            emit.bad('%r: %s' % (p, x.violation.what), p, key=x.violation.key)


def product(**dims):
    ks = list(dims)
    return [dict(zip(ks, v)) for v in itertools.product(*[dims[k] for k in ks])]


def subsets(n, T):
    k = n if T else 4
    out = []
    for r in range(0, n + 1):
        if r <= k or r >= n - 2:
            out += [tuple(c) for c in itertools.combinations(OPTIONAL, r)]
    return out


def families(T):
    for clac in CLACS:
        for multi in ((False, True) if CLACS[clac] else (False,)):
            for fam in ('generic', 'huawei', 'wavecom', 'zte'):
                yield dict(family=fam, clac=clac, multi=multi)


def run(ctx):
    T = ctx.thorough
    loader.load_modem()
    items = [dict(missing=m, family=f, clac=c) for m in subsets(len(OPTIONAL), T)
             for f, c in (('generic', 'none'), ('huawei', 'huawei'), ('wavecom', 'wavecom'), ('zte', 'zte'))]
    core.run_cases(ctx, 'missing optional commands', batch, chunk(items, 400))
    miss2 = [(), ] + [(o,) for o in OPTIONAL] + ([tuple(c) for c in itertools.combinations(OPTIONAL, 2)] if T else [])
    items = [dict(f, missing=m, error=e) for f in families(T) for m in miss2 for e in ERRORS if m or e == 'ERROR']
    core.run_cases(ctx, 'families, command lists and error forms', batch, chunk(items, 400))
    items = product(pin=('READY', 'SIM PIN', 'SIM PUK'), given=(None, '1234', '9999'), early=(False, True), no_ok=(False, True), csca=(None, '', '+2799'),
                    clears=(False, True), chosen=(None, '+2788'), text=(False, True), cfun=('1', '0', '4'))
    core.run_cases(ctx, 'SIM, radio and SMSC states', batch, chunk(items, 200))
    items = product(pin=('READY', 'SIM PIN', 'SIM PUK', 'SIM PIN2', 'SIM PUK2'), given=(None, '1234', '9999'), early=(False, True), no_ok=(False, True),
                    missing=[(o,) for o in OPTIONAL], family=('generic', 'wavecom'), csca=('+2799',), clears=(False, True))
    items = [i for i in items if not (i['pin'].endswith('2') and i['early'])]
    core.run_cases(ctx, 'SIM states and a missing command', batch, chunk(items, 200))
    items = product(layout=range(len(LAYOUTS)), text=(False, True), family=('generic', 'huawei', 'wavecom', 'zte'), missing=[()] + [(o,) for o in OPTIONAL],
                    cfun=('1', '0', '1,0', '4,0'))
    items += product(layout=range(len(LAYOUTS)), refuse=[('AT+CPMS="ME","ME","ME"', 'AT+CPMS="SM","SM","SM"', 'AT+CPMS="ME","ME"', 'AT+CPMS="SM"', 'AT+CPMS="SM","SM","ME"')],
                     text=(False, True), error=ERRORS)
    items += product(refuse=[('AT+WIND=50',), ('AT+CFUN=1',)], family=('wavecom', 'generic'), clac=('none', 'wavecom'), error=ERRORS)
    items += product(wind=(None, 1, 2, 16, 18, 32, 48, 50, 63), family=('wavecom',), clac=('none', 'wavecom'), missing=[()] + [(o,) for o in OPTIONAL])
    core.run_cases(ctx, 'storage layouts and radio reply forms', batch, chunk(items, 200))
    pins = (None, '1234', '9999')
    items = product(pin=('SIM PIN',), calls=[list(c) for n in (1, 2, 3) for c in itertools.product(pins, repeat=n) if '1234' not in c[:-1]],
                    early=(False, True), no_ok=(False, True), family=('generic', 'wavecom'), text=(False, True))
    core.run_cases(ctx, 'repeated connection attempts', batch, chunk(items, 100))
    codes = ['%04d' % i for i in (range(10000) if T else itertools.chain(range(0, 120), range(120, 10000, 97), (9999,)))] + \
        [('0' * z + '918273645')[:n] for n in range(4, 9) for z in range(n + 1)]
    items = [dict(pin='SIM PIN', code=c, given=c, family=f) for c in codes for f in ('generic', 'wavecom')]
    items += [dict(pin='SIM PIN', code=c, given=g) for c in codes[:120] for g in (c.lstrip('0') or '0', '0' + c, c[:-1], c + '0', c[::-1] + '1')]
    items += [dict(pin=st, code='1234', given=c) for c in codes[:120] for st in ('READY', 'SIM PUK')]
    core.run_cases(ctx, 'PIN codes', batch, chunk(items, 100))
    base = [dict(family=f, clac=c) for f, c in (('generic', 'generic'), ('generic', 'plain'), ('generic', 'none'), ('huawei', 'huawei'), ('wavecom', 'wavecom'),
                                                ('wavecom', 'none'), ('zte', 'zte'))]
    lacks = [(), ('+CPMS',), ('+CNMI',), ('+CLIP',), ('+CRC',), ('+CMEE', '+CFUN')]
    mods = [dict(f, missing=m) for f in base for m in (lacks if T or f['clac'] in ('generic', 'wavecom') else lacks[:3])]
    mods += product(csca=(None, '+2777'), text=(False, True), clears=(False, True), family=('generic',), clac=('generic',))
    mods += product(layout=(1, 3, 4), family=('generic',), clac=('generic',))
    mods += [dict(csca='+2777', chosen='+2788', clac='generic'), dict(refuse=('AT+CPMS="ME","ME","ME"',), clac='generic')]
    items = [([a, c], how) for a in mods for c in mods for how in ('closed', 'pulled', 'closed in call', 'pulled in call')]
    if T:
        items += [([a, c, d], 'closed') for a in mods[::3] for c in mods[::2] for d in mods[::3]]
    core.run_cases(ctx, 'connecting again', chain_batch, chunk(items, 120))
    ctx.assumptions += ['a modem understands ATZ, ATE0, +CPIN, +CMGF and +CSCA; every other command is optional',
                        'commands that need an unlocked SIM fail before the PIN is entered']


def replay(ctx, payload):
    if payload['part'] == 'connecting again':
        ps, how = payload['case']
        qs = [dict(DEFAULT, **p) for p in ps]
        f = explore.run_once(chain(qs[-1:], how), ())
        x = explore.run_once(chain(qs, how), (), trace=True)
        for t in x.trace or []:
            print('   ', t)
        print('new object:', f.outcome, f.violation and f.violation.what)
        print('outcome:', x.outcome, x.violation and x.violation.what)
        return 1 if x.violation or x.outcome != f.outcome else 0
    q = dict(DEFAULT, **payload['case'])
    x = explore.run_once(profile(q), (), trace=True)
    print(x.violation and x.violation.what)
    return 1 if x.violation else 0
