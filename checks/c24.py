# -*- coding: utf-8 -*-
"""C24: the prefix tree behaves like a dictionary with exact prefix queries."""
import itertools
import os

from mc import core, loader

# key sets: prefixes and branches of one another, single branches, unrelated keys, the empty key
UNIVERSES = {
    'chain': ['', 'a', 'ab', 'abc', 'abcd'],
    'branches': ['a', 'abc', 'abd', 'abcx', 'b'],
    'mixed': ['', 'ab', 'abc', 'axy', 'bab', 'aaa'],
    'deep': ['aaaa', 'aaaab', 'aa', 'aab', u'\u20acx'],
    'commands': ['AT', 'AT+C', 'AT+CM', 'AT+CMGS', 'AT+CMGL', 'ATD'],
}
MISSING = object()


def prefixes_of(keys):
    ps = {''}
    for k in keys:
        for n in range(len(k) + 1):
            ps.add(k[:n])
        ps.add(k + 'z')
        ps.add(k[:-1] + 'z')
    return sorted(ps)


def lcp(keys, prefix):
    ks = [k for k in keys if k.startswith(prefix)]
    return os.path.commonprefix(ks) if ks else ''


def compare(t, d, universe, probes):
    """None, or what differs between the tree and the dictionary."""
    if len(t) != len(d):
        return 'length', 'len is %d instead of %d' % (len(t), len(d))
    for k in universe:
        if (k in t) != (k in d):
            return 'contains', '%r in trie is %r' % (k, k in t)
        try:
            v = t[k]
        except KeyError:
            v = MISSING
        if v is not d.get(k, MISSING):
            return 'value', 'trie[%r] is %r instead of %r' % (k, v if v is not MISSING else 'missing', d.get(k, 'missing'))
        if t.get(k, MISSING) is not d.get(k, MISSING):
            return 'get', 'get(%r) is wrong' % k
    ks = list(t.keys())
    if len(ks) != len(d) or set(ks) != set(d):
        return 'keys', 'keys() is %r instead of %r' % (sorted(ks), sorted(d))
    ks = list(t)
    if len(ks) != len(d) or set(ks) != set(d):
        return 'iter', 'iteration gives %r instead of %r' % (sorted(ks), sorted(d))
    for p in probes:
        exp = sorted(k for k in d if k.startswith(p))
        got = list(t.keys(p))
        if sorted(got) != exp:
            return 'filter', 'keys(%r) is %r instead of %r' % (p, sorted(got), exp)
        got = t.longestCommonPrefix(p)
        if got != lcp(d, p):
            return 'lcp', 'longestCommonPrefix(%r) is %r instead of %r, keys %r' % (p, got, lcp(d, p), sorted(d))
        if p not in universe and (p in t or t.get(p) is not None):
            return 'contains', '%r in trie although it was never stored' % p
    if t.longestCommonPrefix() != lcp(d, ''):
        return 'lcp', 'longestCommonPrefix() is %r instead of %r' % (t.longestCommonPrefix(), lcp(d, ''))
    return None


def apply(t, d, op, n):
    """None, or a complaint."""
    kind, k = op
    if kind == 'set':
        v = ('v', n)
        t[k] = v
        d[k] = v
    elif kind == 'none':
        t[k] = None
        d[k] = None
    else:
        try:
            del t[k]
            ok = True
        except KeyError:
            ok = False
        if ok != (k in d):
            return 'delete', 'del trie[%r] %s' % (k, 'succeeded although it was not stored' if ok else 'raised a KeyError although it was stored')
        d.pop(k, None)
    return None


def judge(emit, name, seq, probes, check_all=False):
    trie = loader.load_tools('trie')
    t, d = trie.Trie(), {}
    try:
        for n, op in enumerate(seq):
            r = apply(t, d, op, n)
            emit.steps += 1
            if r is None and (check_all or n == len(seq) - 1):
                r = compare(t, d, UNIVERSES[name], probes)
            if r:
                break
    except Exception as e:
        r = ('exception', '%s: %s' % (type(e).__name__, e))
    if r:
        emit.bad('%s after %s' % (r[1], ', '.join('%s %r' % o for o in seq)), dict(part='seq', name=name, seq=seq), key=r[0])
    return d


def ops_of(name):
    ks = UNIVERSES[name]
    return [('set', k) for k in ks] + [('del', k) for k in ks] + [('none', ks[1])]


def seq_batch(batch, emit):
    name, first, depth = batch
    ops = ops_of(name)
    probes = prefixes_of(UNIVERSES[name])
    for rest in itertools.product(ops, repeat=depth - len(first)):
        seq = list(first) + list(rest)
        d = judge(emit, name, seq, probes)
        emit.case(1, state=(name, tuple(sorted(d))))


# ------------------------------------------------------------------ every subset in every order
def perm_batch(batch, emit):
    name, keys = batch
    probes = prefixes_of(UNIVERSES[name])
    for order in itertools.permutations(keys):
        seq = [('set', k) for k in order]
        judge(emit, name, seq, probes, check_all=True)
        emit.case()
        # and gone again in every order
        for back in (itertools.permutations(keys) if len(keys) < 5 else (order, order[::-1])):
            d = judge(emit, name, seq + [('del', k) for k in back], probes, check_all=len(keys) < 4)
            emit.case(1, state=(name, tuple(keys)))


# ------------------------------------------------------------------ the command table itself
def table_batch(batch, emit):
    trie, atc = loader.load_tools('trie'), loader.load_tools('atcommands')
    cmds = [c for c, _ in atc.ATCOMMANDS]
    kind, part, of = batch
    order = {'as listed': cmds, 'reversed': cmds[::-1], 'sorted': sorted(cmds), 'longest first': sorted(cmds, key=lambda c: -len(c))}[kind]
    t, d = trie.Trie(), {}
    vals = dict(atc.ATCOMMANDS)
    for c in order:
        t[c] = vals[c]
        d[c] = vals[c]
    ps = prefixes_of(cmds)
    probes = [p for i, p in enumerate(ps) if i % of == part]
    r = compare(t, d, cmds, probes)
    emit.case(len(probes), state=(kind, part))
    emit.steps += len(probes)
    if r:
        emit.bad('command table, %s: %s' % (kind, r[1]), dict(part='table', batch=batch), key=r[0])
    # remove half of it, in order
    for c in order[part::of]:
        del t[c]
        del d[c]
    r = compare(t, d, cmds, probes)
    if r:
        emit.bad('command table, %s, after deleting every %dth: %s' % (kind, of, r[1]), dict(part='table', batch=batch), key=r[0])


def table_guard(batch, emit):
    try:
        table_batch(batch, emit)
    except Exception as e:
        if type(e).__name__ == '_Enough':
            raise
        emit.bad('command table, %s: %s: %s' % (batch[0], type(e).__name__, e), dict(part='table', batch=batch), key='exception')


# ------------------------------------------------------------------ values, odd keys
def odd_batch(batch, emit):
    trie = loader.load_tools('trie')
    t = trie.Trie()
    emit.case()
    for what, fn in (('set', lambda: t.__setitem__(None, 1)), ('get', lambda: t[None]), ('del', lambda: t.__delitem__(None)), ('get()', lambda: t.get(None))):
        try:
            fn()
            r = 'succeeded'
        except ValueError:
            r = None
        except Exception as e:
            r = 'raised ' + type(e).__name__
        if r:
            emit.bad('%s of the key None %s' % (what, r), dict(part='odd'), key='none')
    for v in (0, '', False, [], None):
        t['k'] = v
        if 'k' not in t or t['k'] is not v or len(t) != 1 or t.get('k', 5) is not v:
            emit.bad('a value %r is not kept' % (v,), dict(part='odd'), key='falsy')


# ------------------------------------------------------------------ long keys, many keys
def shaped(shape, n):
    if shape == 'nested':
        return ['a' * i for i in range(n + 1)]
    if shape == 'long':
        s = ''.join(chr(97 + i % 26) for i in range(n))
        return [s, s[:n // 2], s + 'x', s[:n // 2] + 'x', s[:n - 1], 'x' + s, s[1:]]
    if shape == 'star':
        return ['p' + chr(33 + i) for i in range(n)]
    if shape == 'numbers':
        return ['%d' % i for i in range(n)]
    return ['a' * i + 'b' for i in range(n)]           # comb


def size_batch(batch, emit):
    shape, n, order = batch
    keys = shaped(shape, n)
    trie = loader.load_tools('trie')
    t, d = trie.Trie(), {}
    ks = {'up': keys, 'down': keys[::-1], 'inside out': keys[len(keys) // 2:] + keys[:len(keys) // 2][::-1]}[order]
    probes = sorted({k[:i] for k in keys[::max(1, len(keys) // 8)] for i in (0, 1, len(k) // 2, len(k) - 1, len(k))} | {keys[-1] + 'z', 'zz'})
    try:
        for i, k in enumerate(ks):
            t[k] = d[k] = (i,)
        r = compare(t, d, keys, probes)
        for k in ks[::2]:
            if r is None:
                del t[k]
                del d[k]
        r = r or compare(t, d, keys, probes)
        for i, k in enumerate(ks[::3]):
            if r is None:
                t[k] = d[k] = ('again', i)
        r = r or compare(t, d, keys, probes)
    except Exception as e:
        r = ('exception', '%s: %s' % (type(e).__name__, e))
    emit.case(3 * len(keys), state=batch)
    emit.steps += 3 * len(keys)
    if r:
        emit.bad('%d keys (%s, %s): %s' % (len(keys), shape, order, r[1][:600]), dict(part='size', batch=list(batch)), key=r[0])


def sizes(T):
    return [(s, n, o) for s in ('nested', 'long', 'star', 'numbers', 'comb') for n in (2, 10, 16, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257) + ((400,) if T else ()) for o in ('up', 'down', 'inside out')]


def run(ctx):
    loader.load_tools('trie')
    depth = 6 if ctx.thorough else 5
    batches = []
    for name in UNIVERSES:
        ops = ops_of(name)
        dp = depth if len(ops) <= 11 else depth - 1
        for n in range(1, dp + 1):
            if n <= 2:
                batches.append((name, [], n))
            else:
                batches += [(name, list(f), n) for f in itertools.product(ops, repeat=2 if n > 3 else 1)]
    core.run_cases(ctx, 'operation sequences', seq_batch, batches)
    batches = []
    for name, ks in UNIVERSES.items():
        for n in range(1, len(ks) + 1):
            batches += [(name, c) for c in itertools.combinations(ks, n)]
    core.run_cases(ctx, 'key sets in every order', perm_batch, batches)
    of = 16
    core.run_cases(ctx, 'command table', table_guard, [(k, i, of) for k in ('as listed', 'reversed', 'sorted', 'longest first') for i in range(of)])
    core.run_cases(ctx, 'odd keys and values', odd_batch, [0])
    core.run_cases(ctx, 'long keys, many keys', size_batch, sizes(ctx.thorough))
    ctx.assumptions += ['keys are strings; the order of keys() and of iteration is not specified; keys are shorter than 500 characters']


def replay(ctx, payload):
    e = core.Emit('replay', 10)
    payload = payload['case']
    if payload['part'] == 'seq':
        seq = [tuple(o) for o in payload['seq']]
        judge(e, payload['name'], seq, prefixes_of(UNIVERSES[payload['name']]), check_all=True)
    elif payload['part'] == 'size':
        size_batch(tuple(payload['batch']), e)
    elif payload['part'] == 'table':
        table_guard(tuple(payload['batch']), e)
    else:
        odd_batch(0, e)
    for v in e.viols:
        print(v[0])
    return 1 if e.viols else 0
