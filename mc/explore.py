"""Stateless exploration of harnesses on the real code: depth-first over choice sequences, with a bound on
the number of deviations from the default schedule; every execution within the bound is run."""
import gc
import sys
import threading as _rt
import time as _time
import traceback

from . import core
from . import loader
from . import vthreading as vt
from .core import Violation

WALL_PER_EXEC = 60.0


class Execution(object):
    __slots__ = ('choices', 'points', 'violation', 'outcome', 'error', 'uncaught', 'steps', 'transitions', 'trace', 'now', 'discover', 'harness_error')


class Env(object):
    """What a harness sees: the scheduler plus helpers."""

    def __init__(self, sched):
        self.s = sched
        self.cleanup = []
        self.latency = 0            # seconds a simulated modem takes to answer once connected

    # exploration window
    def explore(self, on=True):
        self.s.exploring = on

    def choose(self, n, kind='data', cost=0):
        """A data choice (enumerated completely; cost>0 makes alternatives count as deviations)."""
        if not self.s.exploring:
            self.s.exploring = True
            try:
                return self.s.pick(n, cost, kind)
            finally:
                self.s.exploring = False
        return self.s.pick(n, cost, kind)

    def quiesce(self):
        self.s.quiesce()

    def settle(self, seconds=5):
        """Let everything run to rest, without branching, letting time pass."""
        was = self.s.exploring
        self.s.exploring = False
        self.s.quiesce()
        vt._sleep(seconds + 60 * self.latency)
        self.s.quiesce()
        self.s.exploring = was

    def sleep(self, sec):
        vt._sleep(sec)

    def spawn(self, fn, name=None):
        t = vt.Thread(target=fn, name=name)
        t.start()
        return t

    def wait(self, threads, timeout=None):
        ts = list(threads)
        return self.s.block(lambda: all(t._vt.done for t in ts), timeout, 'wait')

    def now(self):
        return self.s.now

    def point(self, kind='env'):
        self.s.point(kind)


def run_once(fn, prefix=(), shared=frozenset(), early_time=False, trace=False, discover=None, allow_uncaught=False,
             max_steps=vt.MAX_STEPS, wall=WALL_PER_EXEC):
    loader.restore()
    s = vt.Scheduler(list(prefix), shared, early_time=early_time, trace=trace, discover=discover, max_steps=max_steps)
    x = Execution()
    x.violation = x.outcome = x.harness_error = None
    env = Env(s)
    oracle = []

    def main():
        try:
            x.outcome = fn(env)
        except Violation as v:
            x.violation = v
        except vt.Abort:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = any(fr.filename.startswith(core.REPO) for fr in tb) and not tb[-1].filename.endswith('mc/sim.py')
            if in_repo:
                x.violation = Violation('unexpected %s escaped from the code under test: %s (at %s:%d)' % (
                    type(e).__name__, e, tb[-1].filename, tb[-1].lineno), key='escaped:' + type(e).__name__)
            elif tb[-1].filename.startswith(core.ROOT + '/checks/'):
                # the oracle could not make sense of what the code did
                x.violation = Violation('the results do not fit the expected form: %s: %s (oracle line %s)' % (type(e).__name__, e, tb[-1].line), key='oracle:' + type(e).__name__)
                oracle.append(1)
            else:
                x.harness_error = traceback.format_exc()
        finally:
            s.begin_abort()

    vt.S = s
    m = s.spawn(main, 'main', vt._main_obj)
    s.current = m
    m.sem.release()
    done, began, cpu = False, _time.time(), _time.process_time()
    while not done:
        done = s.finished.acquire(timeout=wall)
        # on an overloaded machine threads that got little CPU time are given more time
        if not done and (_time.process_time() - cpu > wall / 2 or _time.time() - began > 3 * wall):
            break
    if not done:
        where = sys._current_frames()
        stack = ''
        for osid, v in list(s.by_os.items()):
            if v is s.current and osid in where:
                stack = ''.join(traceback.format_stack(where[osid])[-3:])
        x.violation = Violation('the code under test did not come back within %ds of real time (endless loop):\n%s' % (wall, stack), key='endless')
        x.points, x.choices, x.steps, x.transitions, x.trace = s.points, s.choices, s.steps, s.transitions, s.trace
        x.error, x.uncaught, x.now = s.error, [], s.now
        vt.S = None
        return x
    vt.S = None
    if x.harness_error or s.harness_fault:
        x.harness_error = x.harness_error or s.harness_fault
        raise RuntimeError('harness error (choices %r):\n%s' % (s.choices, x.harness_error))
    x.choices, x.points, x.error, x.uncaught = s.choices, s.points, s.error, s.uncaught
    x.steps, x.transitions, x.trace, x.now = s.steps, s.transitions, s.trace, s.now
    if oracle and (s.error is not None or x.uncaught and not allow_uncaught):
        x.violation = None        # report the cause, not its consequence
    if x.violation is None and s.error is not None:
        x.violation = Violation(s.error, key=s.error.split(':')[0])
    if x.violation is None and x.uncaught and not allow_uncaught:
        name, e = next(((n, e) for n, e in x.uncaught if isinstance(e, Violation)), x.uncaught[0])
        if isinstance(e, Violation):
            x.violation = e
    if x.violation is None and x.uncaught and not allow_uncaught:
        tb = traceback.extract_tb(e.__traceback__)
        x.violation = Violation('exception %s: %s killed a library thread (%s:%d in %s)' % (
            type(e).__name__, e, tb[-1].filename, tb[-1].lineno, tb[-1].name), key='uncaught:' + type(e).__name__)
    if len(s.prefix) > len(s.choices) and x.violation is None:
        raise RuntimeError('replay diverged: prefix of %d choices, only %d taken' % (len(s.prefix), len(s.choices)))
    # break reference cycles early
    for t in s.threads:
        t.pred = None
        t.obj = None
    s.by_os.clear()
    return x


def _cost(points, choices, upto):
    return sum(points[i].cost for i in range(upto) if choices[i])


def children(x, plen, bound):
    """All one-step alternatives after the prefix of execution x, within the deviation bound."""
    out = []
    cost = _cost(x.points, x.choices, plen)
    for i in range(plen, len(x.points)):
        p = x.points[i]
        c = cost + p.cost
        if c <= bound:
            for alt in range(1, p.n):
                out.append(x.choices[:i] + [alt])
        if x.choices[i]:
            cost += p.cost
    return out


class Stats(object):
    def __init__(self):
        self.execs = self.steps = self.transitions = self.points = 0
        self.outcomes = {}
        self.maxpoints = 0
        self.capped = False

    def add(self, x, plen):
        self.execs += 1
        self.steps += x.steps
        self.transitions += x.transitions
        self.points += max(0, len(x.points) - plen)   # decision states first reached by this execution
        self.maxpoints = max(self.maxpoints, len(x.points))
        o = repr(x.outcome)
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def merge(self, o):
        self.execs += o.execs
        self.steps += o.steps
        self.transitions += o.transitions
        self.points += o.points
        self.maxpoints = max(self.maxpoints, o.maxpoints)
        self.capped = self.capped or o.capped
        for k, v in o.outcomes.items():
            if k in self.outcomes or len(self.outcomes) < 400:
                self.outcomes[k] = self.outcomes.get(k, 0) + v


class Harness(object):
    """fn(env) -> outcome; raises Violation. bound: deviation bound."""

    def __init__(self, name, fn, bound=1, early_time=False, allow_uncaught=False, shared=True, max_steps=vt.MAX_STEPS, max_execs=None, params=None, prepare=None):
        self.prepare = prepare
        self.name, self.fn, self.bound, self.early_time = name, fn, bound, early_time
        self.allow_uncaught, self.shared, self.max_steps = allow_uncaught, shared, max_steps
        self.max_execs = max_execs
        self.params = params


def _subtree(h, shared, prefix, bound, stop_at, deadline, max_viol=3):
    st = Stats()
    viols = []
    stack = [prefix]
    n = 0
    while stack:
        p = stack.pop()
        x = run_once(h.fn, p, shared, h.early_time, allow_uncaught=h.allow_uncaught, max_steps=h.max_steps)
        st.add(x, len(p))
        n += 1
        if n % 200 == 0:
            gc.collect()
        if x.violation is not None:
            viols.append((x.violation.what, x.violation.key, list(x.choices)))
            if len(viols) >= max_viol or x.violation.key == 'endless':
                break
            continue
        if len(p) >= stop_at:
            stack.extend(reversed(children(x, len(p), bound)))
        if deadline and _time.time() > deadline:
            st.capped = bool(stack)
            break
    return st, viols


def find_shared(h, max_rounds=4):
    """Fixpoint: which instance attributes are shared between threads in this harness."""
    shared = frozenset()
    if not h.shared:
        return shared
    for _ in range(max_rounds):
        disc = {}
        x = run_once(h.fn, (), shared, h.early_time, discover=disc, allow_uncaught=True, max_steps=h.max_steps)
        new = {a for a, (ths, w) in disc.items() if w and len(ths) > 1}
        if new <= shared:
            return shared
        shared = shared | new
    return shared


def explore_many(ctx, harnesses, budget=None):
    """Explore a list of harnesses (each completely within its bound), sharing one worker pool.

    Each harness: default execution, then one work item per first deviation."""
    t0 = _time.time()
    cap = (budget or (700 if ctx.thorough else 400))
    deadline = t0 + cap

    def probe(i):
        h = harnesses[i]
        if h.prepare:
            h.prepare()
        shared = find_shared(h)
        x = run_once(h.fn, (), shared, h.early_time, allow_uncaught=h.allow_uncaught, max_steps=h.max_steps)
        # determinism: the same choice list must give the same execution
        y = run_once(h.fn, list(x.choices), shared, h.early_time, allow_uncaught=h.allow_uncaught, max_steps=h.max_steps)
        if x.violation is None and ([p.n for p in x.points] != [p.n for p in y.points] or repr(x.outcome) != repr(y.outcome)):
            raise RuntimeError('harness %s is not deterministic: %r / %r' % (h.name, x.outcome, y.outcome))
        st = Stats()
        st.add(x, 0)
        v = [(x.violation.what, x.violation.key, list(x.choices))] if x.violation else []
        kids = [] if x.violation else children(x, 0, h.bound)
        return st, v, shared, kids

    probes = core.pmap(probe, range(len(harnesses)), stall=300)
    per = []
    items = []
    for i, pr in enumerate(probes):
        if isinstance(pr, tuple) and pr[0] == 'stalled':
            ctx.violation('%s: no progress (hang)' % harnesses[i].name, dict(harness=harnesses[i].name), key=harnesses[i].name + ':hang')
            per.append((Stats(), [], frozenset()))
            continue
        st, v, shared, kids = pr
        per.append((st, v, shared))
        # group the children to keep messages few
        group = max(1, len(kids) // 400)
        for k in range(0, len(kids), group):
            items.append((i, kids[k:k + group]))

    def work(item):
        i, ks = item
        h = harnesses[i]
        if h.prepare:
            h.prepare()
        st = Stats()
        viols = []
        for k in ks:
            a, b = _subtree(h, per[i][2], k, h.bound, 0, deadline)
            st.merge(a)
            viols.extend(b)
            if len(viols) >= 3:
                break
            if _time.time() > deadline:
                st.capped = True
                break
        return i, st, viols

    found = [0]

    def on_result(r):
        if r and r[0] != 'stalled' and r[2]:
            found[0] += 1
        return found[0] >= 6      # enough evidence; stop handing out work

    results = core.pmap(work, items, stall=cap + 120, on_result=on_result)
    for it, r in zip(items, results):
        if r is None:
            continue
        if r[0] == 'stalled':
            h = harnesses[it[0]]
            ctx.violation('%s: execution hangs' % h.name, dict(harness=h.name, choices=it[1][0]), key=h.name + ':hang')
            continue
        i, st, viols = r
        per[i][0].merge(st)
        per[i][1].extend(viols)
    for h, (st, viols, shared) in zip(harnesses, per):
        if st.capped:
            ctx.exhaustive = False
        for what, key, choices in viols:
            ctx.violation('[%s] %s' % (h.name, what), dict(harness=h.name, choices=choices, shared=sorted(shared)), key='%s' % key)
        outs = sorted(st.outcomes.items(), key=lambda kv: -kv[1])
        ctx.part(h.name, states=st.points + st.execs, transitions=st.steps, traces=st.execs, deviation_bound=h.bound, capped=st.capped,
                 thread_switches=st.transitions, max_choice_points=st.maxpoints, distinct_outcomes=len(st.outcomes),
                 shared_attributes=len(shared))
        if outs:
            ctx.sample({h.name: [dict(outcome=o[:300], executions=n) for o, n in outs[:3]]})
    return per


def replay_harness(harnesses, payload):
    """Re-run one recorded execution with a trace; returns 1 if it still fails."""
    for h in harnesses:
        if h.name == payload['harness']:
            if h.prepare:
                h.prepare()
            x = run_once(h.fn, payload.get('choices', []), frozenset(payload.get('shared', [])), h.early_time, trace=True,
                         allow_uncaught=h.allow_uncaught, max_steps=h.max_steps)
            for t in x.trace or []:
                print('   ', t)
            print('outcome:', x.outcome, 'violation:', x.violation and x.violation.what)
            return 1 if x.violation else 0
    raise SystemExit('no such harness: %r' % payload['harness'])
