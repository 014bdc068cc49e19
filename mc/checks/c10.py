"""C10: parallel encoding equals sequential encoding.

The process pool is replaced by a model pool (mc/pools.py) whose every scheduling step - feed one more
chunk of the input, let any chunk in work finish - is a choice of the explorer; the code under test and
its mapper are the real ones, pickled on their way like in the real pool.  All schedules are enumerated
for every small stream length, chunk size and number of processes, for faults of 16 kinds at every item, and for
two streams consumed alternately; the default chunk size of 1000 is crossed with streams of 0 to 3001
lines.  Conformance: the same calls on real process pools must give the same sequences and errors.
"""
import collections
import functools

from mc.common import *
from mc.failing import fail_tools_first, parallel_calls
from mc.core import Violation, explore
from mc.pools import Deadlock, ModelPool, model_pools

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['the model pool has the ordering, chunking and error behaviour of multiprocessing.Pool '
               '(checked by running the same calls on real pools)']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'line lengths': 'up to 150000 tokens', 'stream lengths': f'0..{5 if q else 7} with chunk sizes 1..4 and 2..3 processes; 0, 1, 999, '
                              '1000, 1001, 1999, 2000, 2001, 3001, 4097, 8192, 10001 lines with the default chunk size',
            'schedules': 'all with at most ' + ('6 (4 from length 5 on and for bytes)' if q else
                         '6 for lengths of 5 and more, without bound for shorter ones')
                         + f' steps other than the default one; {1 if q else 3} with the default chunk size',
            'faults': 'a failing line and a failing input stream at every position',
            'real pools': '2..8 processes, streams of 0..20001 lines'}


KINDS = ('word', 'char', 'bpe', 'class', 'byte')


def cases(tier):
    q = tier == 'quick'
    top = 5 if q else 7
    for kind in KINDS:
        for n in range(top + 1):
            yield {'mode': 'small', 'kind': kind, 'n': n}
    for n in (0, 1, 999, 1000, 1001, 1999, 2000, 2001, 3001) + (() if q else (4000, 5001)):
        for kind in KINDS:
            yield {'mode': 'default', 'kind': kind, 'n': n}
    for kind, n in (('word', 10001), ('byte', 8192), ('bpe', 4097)):
        yield {'mode': 'default', 'kind': kind, 'n': n}
    for n in range(1, top + 1):
        for chunk in (1, 2, 3):
            for where in range(n):
                for fault in ('line', 'input'):
                    yield {'mode': 'fault', 'n': n, 'chunk': chunk, 'where': where, 'fault': fault}
    for fault in ('line', 'input'):
        for n, where in ((1000, 999), (1001, 1000), (2000, 1000), (2500, 0), (2500, 1700), (2500, 2499)):
            yield {'mode': 'bigfault', 'n': n, 'where': where, 'fault': fault}
    for kind in KINDS:
        yield {'mode': 'two', 'kind': kind}
    for kind in KINDS:
        yield {'mode': 'reuse', 'kind': kind}
    for kind in KINDS:
        for n1 in range(3 if q else 4):
            for n2 in range(3 if q else 4):
                yield {'mode': 'steps', 'kind': kind, 'ns': [n1, n2]}
        yield {'mode': 'realsteps', 'kind': kind}
    for kind in KINDS:
        for n, cpus in ((0, 2), (1, 2), (5, 4), (1001, 2), (3001, 4)) + \
                (((20001, 3),) if kind in ('word', 'bpe') else ()) + (() if q else ((1000, 3), (2000, 8), (20001, 8))):
            yield {'mode': 'real', 'kind': kind, 'n': n, 'cpus': cpus}
    for where in (0, 999, 1000, 2499):
        for fault in ('line', 'input'):
            yield {'mode': 'realfault', 'n': 2500, 'where': where, 'fault': fault}
    for kind in KINDS:
        yield {'mode': 'long', 'kind': kind}
    for n in (0, 1, 4, 5):
        for chunk in (1, 2):
            yield {'mode': 'realsmall', 'n': n, 'chunk': chunk}


def scheme(kind):
    if kind == 'byte':
        return C.ByteScheme()
    if kind == 'class':
        return C.ClassScheme(make_table('class', [f'L{i}' for i in range(40)] + ['a b']))
    if kind == 'word':
        return C.WordScheme(make_table('word', ['a', 'b', 'ab'] + [str(i) for i in range(60)]))
    if kind == 'char':
        return C.CharScheme(make_table('char', 'ab0123456789'))
    t = make_table('bpe', 'ab0123456789')
    a, b, one = 6, 7, 9
    for x, y in ((a, b), (one, one), (a, 5), (18, 5), (19, one)):
        t.append(C.Type(t[x].name + t[y].name, level=1, idx=len(t), freq=3, kids=(t[x], t[y])))
    return C.BPEScheme(t)


def line(kind, i):
    """different for every i; some are empty, unknown, long"""
    if kind == 'class':
        return f' L{i % 40} ' if i % 7 else 'a b'
    if i % 11 == 3:
        return ''
    if i % 11 == 5:
        return f' {i} \u3000 é ab{i}'
    if i % 11 == 7:
        return ('ab ' * 30) + str(i)
    return f'a {i} ab b{i}'


class Boom(Exception):
    pass


ERRORS = [Boom, KeyError, TypeError, ValueError, IndexError, AttributeError, AssertionError, OSError, EOFError,
          RuntimeError, ZeroDivisionError, MemoryError, UnicodeError, NotImplementedError, LookupError, Exception, StopIteration, StopAsyncIteration]


def stream(kind, n, fault=None, where=None, error=Boom):
    for i in range(n):
        if fault == 'input' and i == where:
            raise error(f'input {i}')
        yield line(kind, i)


def fail_on(kind, where, sch, error, text):
    if text == line(kind, where):
        raise error('line')
    return sch.encode(text)


def drain(it, limit=1 << 20):
    out = []
    try:
        for x in it:
            out.append(x)
            if len(out) > limit:
                return out, 'endless'
        return out, None
    except Violation:
        raise
    except Deadlock as e:
        return out, f'deadlock: {e}'
    except Exception as e:
        return out, e


def run_all(rec, what, want, make_iter, limit, deviations=None):
    """every schedule of make_iter() must give `want`"""
    def run(ch):
        with model_pools(ch.choose):
            return drain(make_iter())
    for taken, (got, err) in explore(run, limit, rec, deviations):
        rec.trace()
        rec.state((what, tuple(taken)))
        if err is not None:
            rec.fail(f'{what}, schedule {taken}: {err!r} after {len(got)} sequences')
        if list(map(list, got)) != want:
            bad = next((i for i, (g, w) in enumerate(zip(got, want)) if list(g) != w),
                       min(len(got), len(want)))
            rec.fail(f'{what}, schedule {taken}: {len(got)} sequences, expected {len(want)}; '
                     f'at {bad}: {got[bad:bad + 1]} instead of {want[bad:bad + 1]}')


def by_turns(order, streams):
    for k in order:
        yield from ([k] + list(x) for x in itertools.islice(streams[k], 1))


def in_order(order, want):
    its = [iter(w) for w in want]
    return [[k] + list(x) for k in order for x in itertools.islice(its[k], 1)]


def run_fault(rec, what, want, make_iter, limit, deviations=None):
    def run(ch):
        with model_pools(ch.choose):
            return drain(make_iter())
    for taken, (got, err) in explore(run, limit, rec, deviations):
        rec.trace()
        rec.state((what, tuple(taken)))
        judge_fault(rec, f'{what}, schedule {taken}', got, err, want)


def judge_fault(rec, what, got, err, want):
    if err is None:
        rec.fail(f'{what}: the error is lost, {len(got)} of {len(want)} sequences and a normal end')
    if isinstance(err, str):
        rec.fail(f'{what}: {err}')
    if list(map(list, got)) != want[:len(got)]:
        rec.fail(f'{what}: wrong sequences before the error: {short_diff(got, want)}')


def short_diff(got, want):
    for i, g in enumerate(got):
        if i >= len(want) or list(g) != want[i]:
            return f'at {i}: {g} instead of {want[i:i + 1]}'
    return 'none'


def check(case, rec):
    q = rec.tier == 'quick'
    limit = None
    dev = (4 if q else 6) if case.get('n', 0) >= 5 or case.get('kind') == 'byte' else (6 if q else None)
    big = 1 if q else 3
    mode, kind = case['mode'], case.get('kind', 'word')
    n = case.get('n', 4)
    sch = scheme(kind)
    lines = [line(kind, i) for i in range(n)]
    want = [list(sch.encode(x)) for x in lines]
    if not SEAM[0] and mode in ('small', 'default', 'fault', 'bigfault', 'two', 'reuse'):
        return 'the code does not get its pool from multiprocessing; only real runs are judged'
    if mode == 'small':
        for chunk in (1, 2, 3, 4):
            for cpus in (2, 3):
                for form in (list, iter):
                    run_all(rec, f'{kind}, {n} lines, chunk size {chunk}, {cpus} processes', want,
                            lambda: sch.parallel_map(sch.encode, form(lines), n_cpus=cpus,
                                                     chunksize=chunk), limit, dev)
        for texts in ([line(kind, 3 + i) for i in range(n)], [line(kind, 3)] * n,
                      [line(kind, 4 - n + i) for i in range(n)], [lines[0]] * n if n else []):
            run_all(rec, f'{kind}, lines {texts}', [list(sch.encode(x)) for x in texts],
                    lambda: sch.parallel_map(sch.encode, iter(texts), n_cpus=2, chunksize=2),
                    limit, 2)
        run_all(rec, f'{kind}, {n} lines', want, lambda: sch.encode_parallel(iter(lines), 2), limit, dev)
    elif mode == 'default':
        for cpus in (2, 3):
            for form in (list, iter):
                run_all(rec, f'{kind}, {n} lines, {cpus} processes', want,
                        lambda: sch.encode_parallel(form(lines), n_cpus=cpus), limit, big)
        run_all(rec, f'{kind}, {n} lines', want, lambda: sch.encode_parallel(iter(lines)), limit, big)
    elif mode == 'fault':
        where, fault = case['where'], case['fault']
        for error in ERRORS:
            f = functools.partial(fail_on, kind, where, sch, error) if fault == 'line' else sch.encode
            for cpus in (2, 3):
                run_fault(rec, f'{case}, {cpus} processes, {error.__name__}', want[:where],
                          lambda: sch.parallel_map(f, stream(kind, n, fault, where, error), n_cpus=cpus,
                                                   chunksize=case['chunk']), limit, dev if error is Boom else 1)
    elif mode == 'bigfault':
        where, fault = case['where'], case['fault']
        bad = [x if i != where else None for i, x in enumerate(lines)]
        run_fault(rec, f'{case}', want[:where],
                  lambda: sch.encode_parallel(iter(bad) if fault == 'line'
                                              else stream(kind, n, fault, where, ERRORS[where % len(ERRORS)]), n_cpus=2),
                  limit, big)
    elif mode == 'two':
        other = scheme('char')
        for n1 in range(4):
            for n2 in range(4):
                for c1, c2 in ((1, 1), (2, 1)):
                    w = [[a, b] for a, b in zip([sch.encode(line(kind, i)) for i in range(n1)],
                                                [other.encode(line('char', i)) for i in range(n2)])]
                    run_all(rec, f'{kind} {n1} and char {n2} in step', w,
                            lambda: map(list, zip(
                                sch.parallel_map(sch.encode, stream(kind, n1), 2, chunksize=c1),
                                other.parallel_map(other.encode, stream('char', n2), 2,
                                                   chunksize=c2))), limit, 2 if q else 4)
    elif mode == 'reuse':
        # one codec, several streams one after the other, the first left half read
        def again():
            it = sch.parallel_map(sch.encode, stream(kind, 4), 2, chunksize=1)
            next(it)
            for _ in range(2):
                yield from sch.parallel_map(sch.encode, stream(kind, 3), 2, chunksize=2)
            yield from it
        w = [sch.encode(line(kind, i)) for i in (0, 1, 2, 0, 1, 2, 1, 2, 3)]
        run_all(rec, f'{kind} reused', w, again, limit, 3 if q else 4)
    elif mode == 'steps':
        n1, n2 = case['ns']
        for turns in itertools.combinations(range(n1 + n2 + 2), n1 + 1):
            for same in (True, False):
                o, ok = (sch, kind) if same else (scheme('char'), 'char')
                w = [[sch.encode(line(kind, i)) for i in range(n1)], [o.encode(line(ok, 3 + i)) for i in range(n2)]]
                order = [0 if i in turns else 1 for i in range(n1 + n2 + 2)]
                run_all(rec, f'{kind} {n1} and {ok} {n2}, one step at a time in the order {order}',
                        in_order(order, w), lambda: by_turns(order, [
                            sch.parallel_map(sch.encode, stream(kind, n1), 2, chunksize=1),
                            o.parallel_map(o.encode, iter([line(ok, 3 + i) for i in range(n2)]), 2, chunksize=1)]),
                        limit, 1 if q else 2)
    elif mode == 'realsteps':
        texts = [line(kind, i) for i in range(2500)]
        ids = [list(sch.encode(x)) for x in texts]
        for n1, n2 in ((3, 2500), (2500, 3), (1001, 1500)):
            rec.count('real_pool_runs')
            rec.trace()
            a, b = sch.encode_parallel(iter(texts[:n1]), 2), sch.encode_parallel(iter(texts[:n2]), 2)
            got = [[next(a)], [next(b)]]
            for k, it in ((0, a), (1, b)):
                more, err = drain(it)
                if err is not None or list(map(list, got[k] + more)) != ids[:(n1, n2)[k]]:
                    rec.fail(f'{kind}: streams of {n1} and {n2} lines at a time on real pools: stream {k} gives '
                             f'{len(more) + 1} sequences, error {err!r}')
    elif mode == 'real':
        got, err = drain(sch.encode_parallel(iter(lines), n_cpus=case['cpus']))
        rec.trace()
        rec.count('real_pool_runs')
        rec.step(n)
        if err is not None or list(map(list, got)) != want:
            rec.fail(f'{case}: real pool: error {err!r}, {len(got)} of {len(want)} sequences, '
                     f'{short_diff(got, want)}')
    elif mode == 'long':
        # lines of as many as 150000 tokens between short ones
        for size in (255, 256, 4097, 32768, 65535, 65536, 65537, 150000):
            long = 'a b' if kind == 'class' else 'ab ' * size if kind == 'word' else 'a1' * ((size + 1) // 2)
            texts = [lines[0], long, lines[1], long + ' 3', lines[2]]
            w = [list(sch.encode(x)) for x in texts]
            run_all(rec, f'{kind}, lines of {list(map(len, w))} tokens', w, lambda: sch.encode_parallel(iter(texts), 2), limit, 1)
            if size > 65536:
                rec.count('real_pool_runs')
                got, err = drain(sch.encode_parallel(iter(texts), n_cpus=2))
                if err is not None or list(map(list, got)) != w:
                    rec.fail(f'lines of {list(map(len, w))} tokens on a real pool: error {err!r}, lengths {list(map(len, got))}')
    elif mode == 'realfault':
        where, fault = case['where'], case['fault']
        bad = [x if i != where else None for i, x in enumerate(lines)]
        got, err = drain(sch.encode_parallel(iter(bad) if fault == 'line'
                                             else stream(kind, n, fault, where), n_cpus=2))
        rec.trace()
        rec.count('real_pool_runs')
        judge_fault(rec, f'{case} on a real pool', got, err, want[:where])
    else:   # the model pool gives what real pools give, call by call
        for fault, where in [(None, None)] + [(f, w) for f in ('line', 'input') for w in range(n)]:
            error = ERRORS[(n * 3 + case['chunk'] + (where or 0)) % len(ERRORS)]
            f = functools.partial(fail_on, kind, where, sch, error) if fault == 'line' else sch.encode
            def go():
                return drain(sch.parallel_map(f, stream(kind, n, fault, where, error), n_cpus=2,
                                              chunksize=case['chunk']))
            real = go()
            rec.count('real_pool_runs')
            res = []
            def run(ch):
                with model_pools(ch.choose):
                    return go()
            for taken, got in explore(run, None, None, 3):
                res.append(got)
                rec.trace()
            if SEAM[0]:
                for got in res:
                    if repr(got[1]) != repr(real[1]) or got[0] != real[0]:
                        rec.fail(f'{case} {fault} at {where}: real pool {real}, model pool {got}')
            if fault:
                judge_fault(rec, f'{case} {fault} at {where}', *real, want[:where])
            else:
                rec.eq([list(x) for x in real[0]], want, f'{case} on a real pool')
    rec.sample({'case': case, 'lines': lines[:3], 'ids': want[:3]})


SEAM = [0]


def worker_setup(rec):
    """is the pool made where the model can take its place?"""
    before = ModelPool.created
    sch = scheme('word')
    with model_pools(lambda n: 0):
        it = sch.parallel_map(sch.encode, iter(['a', 'b']), 2)
        for _ in it:
            pass
    SEAM[0] = ModelPool.created - before
    rec.count('model_pool_in_use', 1 if SEAM[0] else 0)


def before(case, rec):
    if SEAM[0]:
        fail_tools_first(case, rec, parallel_calls)
