"""Check runner: verdicts, evidence, known findings, and a small fork pool."""
import gc
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time as _time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = max(1, min(8, len(os.sched_getaffinity(0)) if hasattr(os, 'sched_getaffinity') else (os.cpu_count() or 1)))
MAX_REPORTED = 5


class Violation(BaseException):
    """A property violation found on one execution/case."""

    def __init__(self, what, key=None):
        super().__init__(what)
        self.what = what
        self.key = key or what


# ---------------------------------------------------------------------------------------------- fork pool

def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv_exact(fd, n):
    out = b''
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd):
    n, = struct.unpack('>I', _recv_exact(fd, 4))
    return pickle.loads(_recv_exact(fd, n))


def cpu_of(pid):
    """CPU seconds a process has used."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            f = f.read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / float(os.sysconf('SC_CLK_TCK'))
    except (OSError, ValueError, IndexError):
        return 0.0


def pmap(fn, items, workers=None, stall=240, on_result=None):
    """Run fn(item) for every item in forked workers; yields results in item order (list returned).

    A worker that does not answer within `stall` seconds is killed and its item's result is
    ('stalled', item). An exception inside fn is re-raised here (an error of the check itself)."""
    items = list(items)
    results = [None] * len(items)
    if not items:
        return results
    workers = min(workers or NCPU, len(items))
    if workers == 1 and os.environ.get('VERIF_NOFORK'):
        for i, it in enumerate(items):
            results[i] = fn(it)
            if on_result:
                on_result(results[i])
        return results
    pending = list(range(len(items)))[::-1]
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()

    def spawn():
        tr, tw = os.pipe()
        rr, rw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(tw)
                os.close(rr)
                for p in procs.values():
                    os.close(p['tw'])
                    os.close(p['rr'])
                gc.freeze()
                while True:
                    try:
                        i = _recv(tr)
                    except EOFError:
                        break
                    if i is None:
                        break
                    try:
                        r = ('ok', fn(items[i]))
                    except BaseException:
                        r = ('err', traceback.format_exc())
                    _send(rw, r)
            finally:
                os._exit(0)
        os.close(tr)
        os.close(rw)
        procs[rr] = dict(pid=pid, tw=tw, rr=rr, item=None, since=0, cpu=0.0)
        return procs[rr]

    def feed(p):
        if pending:
            i = pending.pop()
            p['item'] = i
            p['since'] = _time.time()
            p['cpu'] = cpu_of(p['pid'])
            _send(p['tw'], i)
        else:
            p['item'] = None
            retire(p)

    def retire(p, kill=False):
        procs.pop(p['rr'], None)
        os.close(p['tw'])
        os.close(p['rr'])
        if kill:
            try:
                os.kill(p['pid'], signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(p['pid'], 0)
        except OSError:
            pass

    err = None
    for _ in range(workers):
        feed(spawn())
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for rr in ready:
            p = procs.get(rr)
            if p is None:
                continue
            try:
                kind, val = _recv(rr)
            except EOFError:
                err = err or 'worker died on item %r' % (items[p['item']],)
                retire(p, kill=True)
                continue
            if kind == 'err':
                err = err or val
                pending.clear()
            else:
                results[p['item']] = val
                if on_result and on_result(val):
                    pending.clear()
            feed(p)
        now = _time.time()
        for p in list(procs.values()):
            # on an overloaded machine a worker that got little CPU time is given more time
            if p['item'] is not None and now - p['since'] > stall and (cpu_of(p['pid']) - p['cpu'] > stall / 2 or now - p['since'] > 2.5 * stall):
                results[p['item']] = ('stalled', items[p['item']])
                retire(p, kill=True)
                if pending:
                    feed(spawn())
    if err:
        raise RuntimeError('harness error in worker:\n' + err)
    return results


# ---------------------------------------------------------------------------------------------- context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = _time.time()
        self.violations = []      # (what, key, replay payload)
        self.viol_total = 0
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0)
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.exhaustive = True

    def violation(self, what, replay=None, key=None):
        self.viol_total += 1
        if len(self.violations) < 200:
            self.violations.append((what, key or what, replay))

    def part(self, name, states=0, transitions=0, traces=0, **info):
        """Record the coverage of one harness/part of the check."""
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces
        self.cov['evaluations'] += traces
        d = dict(part=name, states=states, transitions=transitions, traces=traces)
        d.update(info)
        self.parts.append(d)

    def sample(self, obj):
        if len(self.samples) < 12:
            self.samples.append(obj)

    # known findings ----------------------------------------------------------------------------
    def known(self):
        path = os.path.join(ROOT, 'known_findings.json')
        try:
            data = json.load(open(path))
        except FileNotFoundError:
            return []
        return [f for f in data.get('findings', []) if f.get('property') == self.prop]

    def finish(self):
        known = self.known()
        new, seen = [], {}
        for what, key, replay in self.violations:
            for k in known:
                if k['key'] == key:
                    seen[k['key']] = k
                    break
            else:
                new.append((what, key, replay))
        for k in known:
            print('KNOWN-FINDING: property=%s %s%s' % (self.prop, k['what'], '' if k['key'] in seen else ' (not reproduced in this run)'))
        evdir = os.path.join(ROOT, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        for n in range(MAX_REPORTED):
            p = os.path.join(evdir, 'replay-%s-%d.json' % (self.prop, n))
            if os.path.exists(p):
                os.remove(p)
        out, keys = [], set()
        for what, key, replay in new:
            if key in keys and len(new) > MAX_REPORTED:
                continue
            keys.add(key)
            if len(out) >= MAX_REPORTED:
                break
            path = os.path.join('evidence', 'replay-%s-%d.json' % (self.prop, len(out)))
            with open(os.path.join(ROOT, path), 'w') as f:
                json.dump(dict(property=self.prop, what=what, key=key, replay=replay), f, indent=1, default=repr)
            out.append((what, path))
        self.cov['samples'] = self.samples
        self.cov['exhaustive'] = self.exhaustive
        self.cov['parts'] = self.parts
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(_time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        for what, path in out:
            print('  ' + what[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('%s %s: states=%d transitions=%d traces=%d parts=%d violations=%d wall=%.1fs' % (
            self.prop, self.tier, self.cov['states'], self.cov['transitions'],
            self.cov['traces_validated_against_impl'], len(self.parts), len(new), ev['wall_s']))
        return 1 if new else 0


class Emit(object):
    """Collects what one batch of cases covered and found."""

    def __init__(self, name, max_viol):
        self.name, self.max_viol = name, max_viol
        self.viols, self.samples = [], []
        self.cases = self.steps = 0
        self.states = set()
        self.bits = 0

    def case(self, steps=1, state=None):
        self.cases += 1
        self.steps += steps
        if state is not None:
            self.states.add(state)

    def bad(self, what, case=None, key=None):
        self.viols.append((what, key, dict(part=self.name, case=case)))
        if len(self.viols) >= self.max_viol:
            raise _Enough()

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def run_cases(ctx, name, fn, batches, stall=240, max_viol=10):
    """Exhaustive enumeration of input cases on the real code: fn(batch, emit) runs every case of a batch.
    States are the distinct values passed to emit.case(state=...) plus the bits set in emit.bits."""
    def work(batch):
        e = Emit(name, max_viol)
        try:
            fn(batch, e)
        except _Enough:
            pass
        return e.cases, e.steps, e.states, e.bits, e.viols, e.samples

    batches = list(batches)
    res = pmap(work, batches, stall=stall)
    cases = steps = bits = 0
    states = set()
    for b, r in zip(batches, res):
        if r is None:
            continue
        if r[0] == 'stalled':
            ctx.violation('%s: the code under test did not terminate on batch %r within %ds' % (name, b, stall), dict(part=name, batch=b), key=name + ':hang')
            continue
        c, st, ss, bb, viols, samples = r
        cases += c
        steps += st
        states |= ss
        bits |= bb
        for what, key, replay in viols:
            ctx.violation('%s: %s' % (name, what), replay, key=key)
        for smp in samples[:1]:
            if len(ctx.samples) < 3 or smp not in ctx.samples:
                ctx.sample({name: smp})
    ctx.part(name, states=len(states) + bin(bits).count('1'), transitions=steps, traces=cases)


def replay_batch(fn, batch):
    """Re-runs one batch in this process and prints what it finds."""
    e = Emit('replay', 10)
    try:
        fn(batch, e)
    except _Enough:
        pass
    for what, key, replay in e.viols:
        print(what)
    return 1 if e.viols else 0


class _Enough(Exception):
    pass


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    for a in argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--replay='):
            replay = a.split('=', 1)[1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    if os.environ.get('VERIF_REPO') and not os.path.isdir(REPO):
        print('no such repo: ' + REPO)
        return 2
    sys.dont_write_bytecode = True
    mod = importlib.import_module('checks.' + prop.lower())
    ctx = Ctx(prop, tier, seed)
    if replay:
        data = json.load(open(replay))
        return mod.replay(ctx, data['replay'])
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
        print('the check broke down after it had found violations')
    return ctx.finish()
