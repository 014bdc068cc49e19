"""C11: map-reduce equals a sequential fold.

The map pool and the reduce pool are model pools (mc/pools.py); every feeding and completion step of
both is a choice of the explorer, including the feeder of the reduce pool that pulls from the map pool
while its own workers finish.  Enumerated: every input length up to the bound x chunk size x processes x
non-commutative reducers, all schedules up to a deviation bound; a fault of the mapper, the reducer and
the input at every position; longer inputs with the default chunk size.  A schedule in which every
thread waits for another is a violation.  Conformance: the same calls on real spawned pools.
"""
import collections
import functools
import itertools

from mc.common import *
from mc.failing import fail_tools_first
from mc.core import Violation, explore
from mc.pools import Deadlock, ModelPool, model_pools
from nlcodec.para import mapred as M

LEVEL = 'model_checking'
CASE_TIMEOUT = 100
ASSUMPTIONS = ['the model pool has the ordering, chunking and error behaviour of multiprocessing.Pool '
               '(the same calls are also run on real pools)', 'no error is the SingletonException that carries the result']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'input lengths': f'1..{9 if q else 17} with chunk sizes 1..3, 1..3 processes; up to 10001 items '
                             'with the default chunk size',
            'schedules': f'all with at most {3 if q else '2 to 4'} (short inputs: {5 if q else 6}) steps other '
                         'than the default one',
            'reducers': ['tuple concatenation', 'string concatenation', '2x2 integer matrices',
                         'composition of mappings', 'word counts'],
            'faults': 'mapper, reducer, input at every position', 'real pools': 14}


# ---- importable in spawned processes
def wrap(x):
    return (x,)


def cat(a, b):
    return a + b


def as_text(x):
    return chr(97 + x % 26) + str(x)


def as_matrix(x):
    return ((1, x), (0, 1)) if x % 2 else ((x + 1, 1), (1, 0))


def matmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(2)) for j in range(2)) for i in range(2))


def as_mapping(x):
    return tuple((i * (x + 2) + x) % 5 for i in range(5))


def compose(f, g):
    return tuple(g[i] for i in f)


def identity(x):
    return x


def sparse(x):
    return () if x % 3 else (x,)


def zero(x):
    return x % 3 - 1


ONE = [('x',), ('y',)]


def shared(x):
    return ONE[x % 5 == 3]


def add(a, b):
    return a + b


class Boom(Exception):
    pass


def bad_mapper(where, error, x):
    if x == where:
        raise error(f'mapper {x}')
    return (x,)


def bad_reducer(where, error, a, b):
    if where in a or where in b:
        raise error(f'reducer {where}')
    return a + b


def bad_input(n, where, error):
    for i in range(n):
        if i == where:
            raise error(f'input {i}')
        yield i
    if where == n:
        raise error('input end')


ERRORS = [Boom, StopIteration, KeyError, TypeError, ValueError, IndexError, AttributeError, AssertionError, OSError, EOFError,
          RuntimeError, ZeroDivisionError, MemoryError, NotImplementedError, LookupError, Exception]


ALGEBRAS = {'tuples': (wrap, cat, ()), 'text': (as_text, cat, ''), 'matrix': (as_matrix, matmul, ((1, 0), (0, 1))),
            'mapping': (as_mapping, compose, (0, 1, 2, 3, 4)), 'sparse': (sparse, cat, ()),
            'sum': (zero, add, 0), 'shared': (shared, cat, ())}


def cases(tier):
    q = tier == 'quick'
    top = 9 if q else 17
    for alg in ALGEBRAS:
        for n in range(1, top + 1):
            yield {'mode': 'small', 'alg': alg, 'n': n}
    for n in range(1, 7 if q else 10):
        for chunk in (1, 2, 3):
            for fault in ('mapper', 'reducer', 'input'):
                for where in range(n + (fault == 'input')):
                    yield {'mode': 'fault', 'n': n, 'chunk': chunk, 'fault': fault, 'where': where}
    for chunk in (1, 2, 1000):
        yield {'mode': 'empty', 'chunk': chunk}
    for n in (17, 31, 64, 65, 100, 127, 333, 999, 1000, 1001, 2001, 4097, 10001):
        for alg in ('tuples', 'matrix'):
            yield {'mode': 'long', 'alg': alg, 'n': n}
    for i in range(5):
        yield {'mode': 'words', 'i': i}
    yield {'mode': 'merge'}
    for n in range(0, 40, 8):
        yield {'mode': 'maps', 'from': n}
    for n, chunk in ((1, 1), (2, 1), (5, 1), (7, 2), (2001, 1000)):
        yield {'mode': 'real', 'n': n, 'chunk': chunk}
    for fault in ('mapper', 'reducer', 'input'):
        for n, where in ((1, 0), (5, 4), (4, 0)):
            yield {'mode': 'realfault', 'n': n, 'fault': fault, 'where': where}
    yield {'mode': 'realempty'}


def fold(alg, n):
    mapper, red, default = ALGEBRAS[alg]
    return functools.reduce(red, [mapper(i) for i in range(n)])


def outcome(run):
    try:
        return run(), None
    except Violation:
        raise
    except Deadlock as e:
        return None, f'deadlock ({e})'
    except Exception as e:
        return None, e


def schedules(rec, what, job, want, dev, fault=False):
    def run(ch):
        with model_pools(ch.choose):
            return outcome(job)
    for taken, (got, err) in explore(run, None, rec, dev):
        rec.trace()
        rec.state((what, tuple(taken)))
        judge(rec, f'{what}, schedule {taken}', got, err, want, fault)


def judge(rec, what, got, err, want, fault):
    if isinstance(err, str):
        rec.fail(f'{what}: {err}')
    if fault:
        if err is None:
            rec.fail(f'{what}: the error is lost, result {short(got)}')
    elif err is not None:
        rec.fail(f'{what}: {err!r}')
    elif got != want:
        rec.fail(f'{what}: got {short(got)}, the fold is {short(want)}')


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def form(x, k):
    return [list, iter, tuple][k % 3](x)


def before(case, rec):
    fail_tools_first(case, rec)


def check(case, rec):
    q = rec.tier == 'quick'
    mode, n = case['mode'], case.get('n', 0)
    if not SEAM[0] and mode in ('small', 'fault', 'empty', 'long'):
        return
    if mode == 'small':
        mapper, red, default = ALGEBRAS[case['alg']]
        want = fold(case['alg'], n)
        dev = (5 if n <= 4 else 3 if n < 7 else 2) if q else (6 if n <= 4 else 4 if n < 7 else 3 if n < 12 else 2)
        for chunk in (1, 2, 3):
            for mp_, rp in ((1, 1), (2, 2), (3, 1)) if not q or n <= 5 else ((2, 2),):
                schedules(rec, f"{case['alg']}, {n} items, chunk size {chunk}, processes {mp_}/{rp}",
                          lambda: M.MapReduce(mapper, red, default).multiprocess(
                              form(range(n), chunk), map_procs=mp_, red_procs=rp, chunksize=chunk),
                          want, dev)
    elif mode == 'fault':
        for k, error in enumerate(ERRORS):
            job = fault_job(case['fault'], n, case['where'], case['chunk'], error)
            if job:
                dev = (3 if n < 5 else 2) if q else (5 if n < 5 else 3)
                schedules(rec, f'{case}, {error.__name__}', job, None, dev if k < 2 else 1, fault=True)
                judge(rec, f'{case}, {error.__name__}, plain maps',
                      *outcome(fault_job(case['fault'], n, case['where'], 0, error)), None, True)
    elif mode == 'empty':
        for inp in ([], iter(()), (x for x in ())):
            for mr in (M.MapReduce(wrap, cat, ()), M.WordCounter()):
                schedules(rec, f'{case}', lambda: mr.multiprocess(inp, chunksize=case['chunk']), None, 6,
                          fault=True)
        for mr in (M.MapReduce(wrap, cat, ()), M.WordCounter()):
            judge(rec, 'empty input, plain maps', *outcome(lambda: mr([], map, map)), None, True)
        judge(rec, 'empty input, ireduce', *outcome(lambda: M.ireduce(cat, (), iter(()))), None, True)
    elif mode == 'long':
        mapper, red, default = ALGEBRAS[case['alg']]
        want = fold(case['alg'], n)
        for kw in ({}, {'chunksize': 7}, {'chunksize': 1} if n < 200 else {'chunksize': 100}):
            schedules(rec, f"{case['alg']}, {n} items, {kw}",
                      lambda: M.MapReduce(mapper, red, default).multiprocess(iter(range(n)), **kw), want,
                      1 if n < (200 if q else 1200) else 0)
    elif mode == 'words':
        texts = TEXTS[case['i']]
        want = collections.Counter(w for t in texts for w in t.split())
        def right(res, what):
            if dict(res) != dict(want):
                rec.fail(f'{what} of {texts}: got {short(dict(res))}, expected {short(dict(want))}')
        def run(ch):
            with model_pools(ch.choose):
                return outcome(lambda: M.WordCounter().multiprocess(iter(texts), chunksize=chunk))
        for chunk in (1, 2, 1000):
            if SEAM[0]:
                for taken, (got, err) in explore(run, None, rec, 2 if q else 3):
                    rec.trace()
                    rec.state((case['i'], chunk, tuple(taken)))
                    if err is not None:
                        rec.fail(f'word counts of {texts}: {err!r}')
                    right(got, f'word counts, schedule {taken}')
        wc = M.WordCounter()
        for k in range(3):       # in this process, where merging in place meets shared objects; again
            right(wc(list(texts), map, map), f'word counts with plain maps, run {k}')
            rec.trace()
        for t in texts:
            rec.eq(dict(M.word_count_line(t)), dict(collections.Counter(t.split())), f'counts of {t!r}')
        rec.sample({'texts': texts[:3], 'counts': dict(list(want.items())[:5])})
    elif mode == 'merge':
        cs = [{}] + [dict(zip(k, v)) for m in (1, 2, 3) for k in itertools.permutations('abc', m)
                     for v in itertools.product((1, 2), repeat=m)]
        for a in cs:
            for b in cs:
                for cls in (dict, collections.Counter):
                    x, y = cls(a), cls(b)
                    got = M.merge_freqs(x, y)
                    want = dict(collections.Counter(a) + collections.Counter(b))
                    rec.eq(dict(got), want, f'merge_freqs({a}, {b})')
                    rec.step()
                    rec.state((a, b))
        rec.trace(len(cs) ** 2)
    elif mode == 'maps':
        for n in range(case['from'], case['from'] + 8):
            rec.eq(list(M.pair_subsequent(iter(range(n)), 'D')),
                   [(i, i + 1 if i + 1 < n else 'D') for i in range(0, n, 2)], f'pairs of {n} items')
            for alg, (mapper, red, default) in ALGEBRAS.items():
                if n:
                    want = fold(alg, n)
                    rec.eq(M.MapReduce(mapper, red, default)(iter(range(n)), map, map), want,
                           f'{alg} of {n} items with plain maps')
                    rec.eq(M.ireduce(red, default, map(mapper, range(n))), want, f'ireduce {alg} of {n}')
                    rec.step()
                    rec.state((alg, n))
            rec.trace()
    elif mode == 'real':
        for alg in ('tuples', 'matrix'):
            mapper, red, default = ALGEBRAS[alg]
            got, err = outcome(lambda: M.MapReduce(mapper, red, default).multiprocess(
                iter(range(n)), chunksize=case['chunk']))
            judge(rec, f'{alg}, {case} on real pools', got, err, fold(alg, n), False)
            rec.trace()
            rec.count('real_pool_runs')
    elif mode == 'realfault':
        for error in ERRORS[:2]:
            job = fault_job(case['fault'], n, case['where'], 1, error)
            if job:
                judge(rec, f'{case}, {error.__name__} on real pools', *outcome(job), None, True)
                rec.trace()
                rec.count('real_pool_runs')
    else:
        judge(rec, 'empty input on real pools',
              *outcome(lambda: M.MapReduce(wrap, cat, ()).multiprocess(iter(()))), None, True)
        rec.count('real_pool_runs')
    if mode != 'words':
        rec.sample({'case': case})


TEXTS = [['a b a', 'b', '', 'c  a', 'a'], ['', '', ''], ['x'], ['a'] * 6,
         [' '.join(pseudo_words(i, i % 7, 'abc', 3)) for i in range(9)]]


def fault_job(fault, n, where, chunk, error):
    """the call to make; with plain maps for chunk 0"""
    if fault == 'mapper':
        mr, inp = M.MapReduce(functools.partial(bad_mapper, where, error), cat, ()), lambda: iter(range(n))
    elif fault == 'reducer':
        if n == 1:
            return None      # one item is never reduced
        mr, inp = M.MapReduce(wrap, functools.partial(bad_reducer, where, error), ()), lambda: iter(range(n))
    else:
        mr, inp = M.MapReduce(wrap, cat, ()), lambda: bad_input(n, where, error)
    if not chunk:
        return lambda: mr(inp(), map, map)
    return lambda: mr.multiprocess(inp(), chunksize=chunk)


SEAM = [0]


def worker_setup(rec):
    before = ModelPool.created
    with model_pools(lambda n: 0):
        outcome(lambda: M.MapReduce(wrap, cat, ()).multiprocess([1, 2, 3]))
    SEAM[0] = ModelPool.created - before
    rec.count('model_pool_in_use', 1 if SEAM[0] else 0)
