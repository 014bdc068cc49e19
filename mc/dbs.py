"""Shared by the database checks: values, record lists, reading back, control of random outcomes."""
import contextlib
import itertools
import json
import os
import random
import shutil
import tempfile
import zlib

import numpy as np

from mc.common import *
from nlcodec.db import core as D

SEQS = [[], [0], [5, -1], [127, 128], [255, 256], [-128], [-129, 3], [32767, 32768], [-32769],
        [65535, 65536], [2 ** 31 - 1, 2 ** 31], [-2 ** 31 - 1], [2 ** 32 - 1, 2 ** 32], [2 ** 63 - 1],
        [-2 ** 63], [2 ** 64 - 1, 1], [2 ** 63]]
DTYPES = [np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64, np.int64]
DB_ENDS = sorted({s * (2 ** k) + d for k in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-2, -1, 0, 1)
                  for s in (1, -1)} | {0, 1, -1})


def width(mn, mx):
    """bytes of the smallest integer type for the range, None if there is none"""
    for size in (1, 2, 4, 8):
        if 0 <= mn and mx < 2 ** (8 * size) or -2 ** (8 * size - 1) <= mn and mx < 2 ** (8 * size - 1):
            return size
    return None


def ints(arr):
    return [int(v) for v in arr]


def fits(seqs):
    """is there one 64-bit type for all values"""
    vals = [v for s in seqs for v in s]
    return not vals or width(min(vals), max(vals)) is not None


def forms(seq):
    """the sequence as list, tuple and arrays of every type that holds it"""
    yield 'list', list(seq)
    yield 'tuple', tuple(seq)
    for t in DTYPES:
        i = np.iinfo(t)
        if all(i.min <= v <= i.max for v in seq):
            yield t.__name__, np.array(seq, dtype=t)


def rec_values(rec, names):
    return tuple(tuple(ints(getattr(rec, n))) for n in names)


def read_all(db, names):
    """list of (id, fields) by iteration"""
    return [(r.id, rec_values(r, names)) for r in db]


def verify_db(rec, db, want, names, what):
    """want: dict id -> tuple of sequences"""
    want = {k: tuple(tuple(s) for s in v) for k, v in want.items()}
    rec.eq(len(db), len(want), f'{what}: number of records')
    got = read_all(db, names)
    if len(got) != len(want) or dict(got) != want:
        rec.fail(f'{what}: iteration gives {short(got)}, stored {short(want)}')
    for k, v in want.items():
        r = db[k]
        g = rec_values(r, names)
        if g != v or r.id != k:
            rec.fail(f'{what}: record {k!r} is {short(g)}, stored {short(v)}')
    if set(db.ids) != set(want):
        rec.fail(f'{what}: ids {short(set(db.ids))}, stored {short(set(want))}')
    for j, n in enumerate(names):
        f = db.fields[n]
        vals = [tuple(ints(a)) for a in f.values()]
        if vals != [v[j] for v in want.values()]:
            rec.fail(f'{what}: values of field {n} are {short(vals)}, stored {short([v[j] for v in want.values()])}')
        lens = {k: int(x) for k, x in f.lengths()}
        if lens != {k: len(v[j]) for k, v in want.items()}:
            rec.fail(f'{what}: lengths of field {n} are {short(lens)}')
        for k, v in want.items():
            if int(f.get_len(k)) != len(v[j]):
                rec.fail(f'{what}: length of {k!r} is {f.get_len(k)}, stored {len(v[j])}')
            if tuple(ints(f[k])) != v[j]:
                rec.fail(f'{what}: field {n} of {k!r} is {short(ints(f[k]))}, stored {short(v[j])}')
        pairs = {}
        for k, v in f.items():
            pairs[k] = tuple(ints(v))
        if pairs != {k: v[j] for k, v in want.items()}:
            rec.fail(f'{what}: pairs of field {n} are {short(pairs)}')
        if list(f.keys()) != list(want):
            rec.fail(f'{what}: keys of field {n} are {short(list(f.keys()))}')
        if len(f) != len(want):
            rec.fail(f'{what}: field {n} has {len(f)} sequences')


def check_varies(rec, orders, what):
    """a random order must not be the same every time (the chance is below 1e-20)"""
    if len(orders) > 40 and len(set(orders)) == 1 and len(orders[0]) >= 4:
        rec.fail(f'{what}: the order is the same in {len(orders)} shuffled passes: {short(orders[0])}')


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


@contextlib.contextmanager
def buffer_size(n):
    """the write buffer is flushed at n values"""
    b = D.SeqField.Builder
    if n is None or not hasattr(b, 'BUFFER_SIZE'):
        yield
        return
    old = b.BUFFER_SIZE
    b.BUFFER_SIZE = n
    try:
        yield
    finally:
        b.BUFFER_SIZE = old


@contextlib.contextmanager
def chosen_orders(choose, seen=None):
    """every shuffle becomes a permutation picked by the explorer"""
    def perm(n):
        left, out = list(range(n)), []
        while len(left) > 1:
            out.append(left.pop(choose(len(left))))
        if seen is not None:
            seen[0] += 1
        return out + left

    def shuffle(x, *a, **k):
        p = perm(len(x))
        x[:] = [x[i] for i in p]

    def np_shuffle(x, *a, **k):
        p = perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]

    def np_permutation(x, *a, **k):
        if isinstance(x, (int, np.integer)):
            return np.array(perm(int(x)), dtype=int)
        return np.asarray(x)[perm(len(x))]

    def sample(population, k, **kw):
        p = perm(len(population))
        return [population[i] for i in p[:k]]
    olds = (random.shuffle, random.sample, np.random.shuffle, np.random.permutation)
    random.shuffle, random.sample, np.random.shuffle, np.random.permutation = \
        shuffle, sample, np_shuffle, np_permutation
    try:
        yield
    finally:
        random.shuffle, random.sample, np.random.shuffle, np.random.permutation = olds


def failing_db(k, d):
    """the k-th of the database calls that fail, are given up or interrupted; what follows must not notice"""
    from nlcodec.db import batch as B
    from mc.threads import interrupted
    good = [([1, 300], [2]), ([70000], [-1, 5]), ([9], [8, 8, 8])]
    names = ['x', 'y']
    f = lambda n: os.path.join(d, n)
    meta = B.BatchMeta(pad_idx=0, bos_idx=1, eos_idx=2)

    def parts(name, recs=good, **kw):
        return D.MultipartDb.create(f(name), recs, names, part_size=2, overwrite=True, **kw)

    def broken(recs):
        yield from recs
        raise RuntimeError('no more')

    def part_way(it, n=1):
        it = iter(it)
        for _ in range(n):
            next(it)
        del it

    def batches(**kw):
        D.Db.create(good, names, path=f('b.db'))
        return B.BatchIterable(f('b.db'), **{'batch_size': 6, 'batch_meta': meta, **kw})

    def builder():
        b = D.SeqField.Builder('x', buf_size=2)
        b.append(1, [2 ** 40, 7]).append(2, ['a'])
    calls = [lambda: D.Db.create(broken(good), names), lambda: D.Db.create([([1], [2]), ([1],)], names),
             lambda: D.Db.create([([1], ['a'])], names), lambda: D.Db.create([], names), lambda: D.Db.load(f('missing')),
             lambda: D.Db.create([([2 ** 64, 1], [-1]), ([-1], [2])], names), lambda: D.Db.create(good, names)[17],
             lambda: D.Db.create(good, names, path=f('no/such/folder')), lambda: parts('p1', broken(good)),
             lambda: parts('p2', [([1], [2]), ([1], None), ([3], [4])]), lambda: part_way(parts('p3')), builder,
             lambda: part_way(parts('p4').make_eq_len_ran_batches(max_toks=6)), lambda: D.MultipartDb.load(f('p5')),
             lambda: list(parts('p6').make_eq_len_ran_batches(max_toks=1)), lambda: part_way(batches()),
             lambda: list(batches(batch_size=1)), lambda: list(batches(sort_by='eq_len_rand_batch', batch_size=(2, 1))),
             lambda: batches(sort_by='other'), lambda: part_way(batches(sort_by='random', batch_size=3)),
             lambda: B.Batch([], meta=meta), lambda: B.Batch([B.IdExample(0, [1, 2], [3])], meta=None),
             lambda: B.Batch([B.IdExample(0, np.array([4, 1]), None), B.IdExample(1, np.array([]), np.array([3]))], meta=meta),
             lambda: B.Batch.make_autogres_mask_(None, 0), lambda: B.subsequent_mask('3'),
             lambda: D.best_dtype(-1, 2 ** 64), lambda: D.best_dtype(None, 1)]
    calls += [lambda i=i: interrupted(lambda: parts('q'), i) for i in range(3, 120, 13)]
    calls += [lambda i=i: interrupted(lambda: list(batches(sort_by='eq_len_rand_batch')), i) for i in range(60, 190, 19)]
    calls += [lambda i=i: interrupted(lambda: list(parts('r', max_parts=5)), i) for i in range(110, 190, 9)]
    if k is None:
        return len(calls)
    with contextlib.suppress(Exception), chosen_orders(lambda n: 0):
        calls[k % len(calls)]()


def fail_db_first(case, rec, every=2):
    """before a case: one of the failing calls, before a replayed case all of them"""
    n = zlib.crc32(json.dumps(case, sort_keys=True, default=repr).encode())
    d = tempfile.mkdtemp(dir=rec.scratch)
    try:
        for k in range(failing_db(None, d)) if rec.replaying else [n // every] * (n % every == 0):
            failing_db(k, d)
            rec.count('failed_before')
    finally:
        shutil.rmtree(d, ignore_errors=True)
