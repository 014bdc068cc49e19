"""D01: stored sequences come back unchanged.

Explored: every list of up to 3 records over sequences at all integer-type boundaries, every set of points
at which the write buffer is flushed (by buffer size and by explicit flushes), one to four fields, every
form of sequence (list, tuple, arrays of every type that holds it), several kinds of ids, before and after
saving and reloading; ladders in which the number of stored values crosses the boundaries of the offset
type, and 6.5 million values, which fill the write buffer twice; unrepresentable inputs must be rejected.
"""
import itertools
import os
from pathlib import Path

from mc.common import *
from mc.core import Violation
from mc.dbs import *

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['sequences hold integers; at least one record']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'records': f'all lists of up to {2 if q else 3} (one field: 3) of {len(SEQS)} boundary sequences',
            'flushes': 'all subsets of the append positions, buffer sizes 1..4 and default',
            'forms': 'list, tuple, 8 array types', 'ladder': 'up to 70000 values and 70000 records; 6.5 million values with the real buffer size'}


IDS = {'enumerated': None, 'strings': ['a', '', 'é', '0', 'b'], 'mixed': [0, '0', -1, (1, 'x'), 2 ** 70],
       'backwards': [9, 7, 5, 3, 1], 'numpy': [np.int64(7), np.int64(0), np.int64(-5), np.int64(3), np.int64(99)]}


def cases(tier):
    q = tier == 'quick'
    for s in range(len(SEQS)):
        yield {'first': s}
    for s in range(len(SEQS)):
        yield {'two': s}
    for k in IDS:
        yield {'ids': k}
    for s in range(len(SEQS)):
        yield {'forms': s}
    for n in (127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000):
        for shape in ('one', 'many', 'tail'):
            yield {'ladder': n, 'shape': shape}
    for n in (1, 2, 3, 4):
        yield {'fields': n}
    for k in range(9 if q else 24):
        yield {'huge': k}
    for n in (1, 100, 5000, 70000):
        yield {'mixed': n}
    yield {'reject': 0}
    yield {'reuse': 0}


def create(recs, names, has_id, path=None):
    return D.Db.create(recs=recs, field_names=names, has_id=has_id, path=path)


def attempt(rec, recs, names, what, dirname, has_id=False, ids=None, buf=None, quick=False):
    """stores the records and judges what comes back"""
    want = dict(zip(ids if ids is not None else range(len(recs)), recs))
    ok = all(fits([r[j] for r in recs]) for j in range(len(names)))
    path = os.path.join(dirname, 'db')
    data = list(zip(ids, recs)) if has_id else list(recs)
    try:
        with buffer_size(buf):
            db = create(iter(data), names, has_id, None if quick else path)
    except Violation:
        raise
    except Exception as e:
        if ok:
            rec.fail(f'{what}: storing fails with {e!r}')
        rec.count('rejected')
        return
    if not ok:
        rec.fail(f'{what}: a field that no integer type holds was stored as '
                 f'{short([(f, db.fields[f].data.dtype) for f in names])}')
    verify_db(rec, db, want, names, what)
    if not quick:
        verify_db(rec, D.Db.load(path), want, names, what + ', reloaded')
        verify_db(rec, db, want, names, what + ', after saving')
    rec.trace()
    rec.step(len(recs))
    rec.state((what[:500],))


def one_field(rec, recs, ids, what):
    """a field made on its own"""
    pairs = list(zip(ids, recs))
    f = D.SeqField.create('x', iter(pairs))
    got = [(k, ints(a)) for k, a in f.items()]
    if got != [(k, list(s)) for k, s in pairs] or f.name != 'x' or len(f) != len(pairs):
        rec.fail(f'{what}: field {f.name} holds {short(got)}, stored {short(pairs)}')
    for k, s in pairs:
        if ints(f[k]) != list(s):
            rec.fail(f'{what}: field made of pairs has {short(ints(f[k]))} at {k!r}, stored {short(s)}')
    rec.trace()


def huge(rec, k, d):
    """more values than the write buffer holds at its real size"""
    n, shape = 6_500_000, k % 3
    size = [n, 1_000_000, 70_000][shape]
    data = np.arange(n) % 200
    spots = [(1_200_000, -3), (2_900_000, 300), (n - 1, -70000)], [(5, 2 ** 40), (2_777_778, -1)], [(n - 2, 2 ** 63 - 1), (3_333_333, -128)]
    for at, v in spots[(k // 3) % 3]:
        data[at] = v
    if k >= 9:
        data[(k * 777_777) % n] = -2 ** (k % 63)
    recs = [data[i:i + size].tolist() for i in range(0, n, size)]
    path = os.path.join(d, 'huge')
    db = create(([r] for r in recs), ['x'], False, path)
    for what, x in (('made', db), ('reloaded', D.Db.load(path))):
        if len(x) != len(recs):
            rec.fail(f'{n} values in {len(recs)} records, {what}: {len(x)} records')
        for i, r in enumerate(recs):
            if len(x[i].x) != len(r) or x[i].x.dtype.kind not in 'iu' or not np.array_equal(x[i].x, data[i * size:i * size + size]):
                bad = next((j for j, (a, b) in enumerate(zip(x[i].x, r)) if int(a) != b), len(r))
                rec.fail(f'{n} values in {len(recs)} records, {what}: record {i} differs from position {bad} on: '
                         f'{x[i].x[bad:bad + 3]}, stored {r[bad:bad + 3]}')
    os.remove(path)
    rec.trace()
    rec.step(len(recs))
    rec.state(('huge', k))


def mixed_arrays(rec, n, d):
    """records of arrays of n values, lists and tuples, of all pairs of integer types and boundary values in one field"""
    kinds = [(np.dtype(t), v) for t in 'bBhHiIlL' for v in (np.iinfo(t).min, np.iinfo(t).max, 3, 200)
             if np.iinfo(t).min <= v <= np.iinfo(t).max]
    for (t, v), (u, w) in itertools.product(kinds, repeat=2):
        if n > 5000 and (v in (3, 200) or w == 200):
            continue
        recs = [[np.full(n, v, dtype=t)], [np.full(n, w, dtype=u)], [(7,)]]
        want = [[v] * n, [w] * n, [7]]
        what = f'{n} x {v} as {t}, {n} x {w} as {u}'
        try:
            db = create(iter(recs), ['x'], False)
        except Exception as e:
            if fits([[v, w, 7]]):
                rec.fail(f'{what}: storing fails with {e!r}')
            continue
        for i, x in enumerate(want):
            got = db[i].x
            if len(got) != len(x) or got.dtype.kind not in 'iu' or int(got[0]) != x[0] or not (got == got[0]).all():
                rec.fail(f'{what}: record {i} is {short(got)} of {got.dtype}')
        rec.trace()
        rec.step()
    rec.state(('mixed', n))


def build_flushed(rec, seqs, flushes, what):
    """one field, flushed after the given positions"""
    b = D.SeqField.Builder('x')
    try:
        for i, s in enumerate(seqs):
            b.append(i, list(s))
            if i in flushes:
                b.shrink()
        f = b.build()
    except Exception as e:
        if fits(seqs):
            rec.fail(f'{what}: building fails with {e!r}')
        return
    if not fits(seqs):
        rec.fail(f'{what}: values that no integer type holds were stored as {f.data.dtype}')
    for i, s in enumerate(seqs):
        if ints(f[i]) != list(s):
            rec.fail(f'{what}: sequence {i} is {short(ints(f[i]))}, stored {s}')
    rec.trace()
    rec.step(len(seqs) + len(flushes))
    rec.state((what,))


def before(case, rec):
    fail_db_first(case, rec, every=1)


def check(case, rec):
    d = rec.tmp()
    q = rec.tier == 'quick'
    if 'mixed' in case:
        mixed_arrays(rec, case['mixed'], d)
    elif 'first' in case:
        s = SEQS[case['first']]
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            rest = itertools.product(range(len(SEQS)), repeat=n - 1)
            if n == 4:
                rest = (r for r in rest if len(set(r)) == 3 and r[0] < r[2])
            for tail in rest:
                seqs = [s] + [SEQS[t] for t in tail]
                if hasattr(D.SeqField.Builder, 'shrink'):
                    for m in range(2 ** n):
                        fl = [i for i in range(n) if m >> i & 1]
                        build_flushed(rec, seqs, fl, f'{seqs} flushed after {fl}')
                if n <= 2 or sum(tail) % 4 == 0:
                    for buf in (None, 1, 2, 3, 4) if n <= 2 else (None, 2):
                        attempt(rec, [[x] for x in seqs], ['x'], f'{seqs} buffer {buf}', d, buf=buf,
                                quick=n > 2)
        rec.sample({'sequences': seqs})
    elif 'two' in case:
        s = SEQS[case['two']]
        for a in SEQS:
            for b in SEQS if not q else SEQS[::2]:
                for buf in (None, 1, 3):
                    attempt(rec, [[s, a], [b, s]], ['x', 'y'], f'{[[s, a], [b, s]]} buffer {buf}', d,
                            buf=buf, quick=buf == 3)
    elif 'ids' in case:
        ids = IDS[case['ids']]
        recs = [[[1, 2], [3]], [[], [-4]], [[300], []], [[], []], [[70000, 1], [5, 5, 5]]]
        for n in range(1, 6):
            for perm in itertools.permutations(range(n)) if n < 4 else [range(n), range(n - 1, -1, -1)]:
                rs = [recs[i] for i in perm]
                attempt(rec, rs, ['x', 'y'], f'{rs} ids {ids}', d, has_id=ids is not None,
                        ids=ids[:n] if ids is not None else None)
                one_field(rec, [r[1] for r in rs], ids[:n] if ids is not None else list(range(n)), f'{rs} ids {ids}')
                attempt(rec, rs, ['x', 'y'], f'{rs} given ids', d, has_id=True, ids=list(range(n, 0, -1)))
    elif 'forms' in case:
        s = SEQS[case['forms']]
        for name, v in forms(s):
            for o in SEQS[::2]:
                for name2, v2 in forms(o):
                    for buf in (None, 1):
                        store_forms(rec, [v, v2, v], [s, o, s], f'{name} {s}, {name2} {o}, buffer {buf}', buf)
    elif 'ladder' in case:
        n = case['ladder']
        if case['shape'] == 'one':
            recs = [[[i % 251 for i in range(n)]], [[1]], [[]]]
        elif case['shape'] == 'many':
            recs = [[[i % 7] * (i % 3)] for i in range(n)]
        else:
            recs = [[[7]], [[]], [[i % 300 - 5 for i in range(n - 1)]], [[9, 9]], [[]]]
        for buf in (None, 100, 1000):
            attempt(rec, recs, ['x'], f'{case} buffer {buf}', d, buf=buf)
    elif 'huge' in case:
        huge(rec, case['huge'], d)
    elif 'fields' in case:
        n = case['fields']
        names = ['x', 'y', 'z', 'src'][:n]
        for shift in range(len(SEQS)):
            recs = [[SEQS[(shift + 3 * i + j) % 10] for j in range(n)] for i in range(4)]
            for buf in (None, 1, 2, 5):
                attempt(rec, recs, names, f'{recs} buffer {buf}', d, buf=buf)
        path = Path(d) / 'p'
        db = create([[[j, i] for j in range(n)] for i in range(5)], names, False, path)
        for p in (path, str(path)):
            for shuffle in (False, True):
                got = sorted(read_all(D.Db.load(p, shuffle=shuffle), names))
                rec.eq(got, [(i, tuple((j, i) for j in range(n))) for i in range(5)], f'reloaded, shuffle={shuffle}')
    elif 'reject' in case:
        rejects(rec, d)
    else:
        reuse(rec, d)


def store_forms(rec, vals, seqs, what, buf):
    try:
        with buffer_size(buf):
            db = create([[v] for v in vals], ['x'], False)
    except Exception as e:
        if fits(seqs):
            rec.fail(f'{what}: storing fails with {e!r}')
        return
    if not fits(seqs):
        rec.fail(f'{what}: stored as {db.fields["x"].data.dtype}')
    for i, s in enumerate(seqs):
        if ints(db[i].x) != s:
            rec.fail(f'{what}: record {i} is {short(ints(db[i].x))}, stored {s}')
    rec.trace()
    rec.step()
    rec.state((what,))


def rejects(rec, d):
    bad = [('too few fields', [[[1], [2]], [[1]]], None), ('too many fields', [[[1], [2]], [[1], [2], [3]]], None),
           ('too few fields first', [[[1]], [[1], [2]]], None), ('no fields', [[[1], [2]], []], None),
           ('repeated id', [[[1], [2]], [[3], [4]]], [5, 5]), ('repeated id later', [[[1], [2]], [[3], [4]], [[5], [6]]], ['a', 'b', 'a']),
           ('repeated equal record', [[[1], [2]], [[1], [2]]], [0, 0]),
           ('above 64 bits', [[[2 ** 64], [1]]], None), ('below 64 bits', [[[-2 ** 63 - 1], [1]]], None),
           ('mixed range', [[[2 ** 63], [1]], [[-1], [1]]], None), ('mixed range in one', [[[1], [-1, 2 ** 63]]], None),
           ('above 64 bits later', [[[1], [1]], [[1], [2 ** 70]]], None)]
    for what, recs, ids in bad:
        for buf in (None, 1, 2):
            path = os.path.join(d, 'bad')
            for p in (None, path):
                try:
                    with buffer_size(buf):
                        db = create(list(zip(ids, recs)) if ids else recs, ['x', 'y'], ids is not None, p)
                except Exception:
                    rec.count('rejected')
                    rec.step()
                    rec.trace()
                    rec.state((what, buf, p is None))
                    continue
                rec.fail(f'{what}: {recs} (ids {ids}) was stored as {short(read_all(db, ["x", "y"]))}')


def reuse(rec, d):
    """a producer that fills the same list or array again and again"""
    for make in (list, lambda x: np.array(x, dtype=np.int64)):
        for buf in (None, 1, 3):
            def produce():
                b = make([0, 0, 0])
                row = [b, b[:1]]
                for i in range(6):
                    for j in range(3):
                        b[j] = i * 10 + j
                    row[0] = b
                    row[1] = b[:2]
                    yield row
            with buffer_size(buf):
                db = create(produce(), ['x', 'y'], False, os.path.join(d, 'r'))
            want = {i: ([i * 10, i * 10 + 1, i * 10 + 2], [i * 10, i * 10 + 1]) for i in range(6)}
            verify_db(rec, db, want, ['x', 'y'], f'reused buffers, flush at {buf}')
            verify_db(rec, D.Db.load(os.path.join(d, 'r')), want, ['x', 'y'], 'reused buffers, reloaded')
            rec.trace()
    # several passes and readers at once
    a, b = iter(db), iter(db)
    next(a)
    rec.eq(len(list(b)), 6, 'second reader')
    rec.eq(len(list(a)), 5, 'first reader')
    rec.state('reuse')
