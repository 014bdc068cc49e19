"""D09: autoregressive masks hide exactly the padding and the future.

Explored: all matrices of up to 2 (3) rows of up to 4 tokens over the padding id and two tokens, as rows of
8 integer types, with 5 padding ids; every batch of records with sides of length 1..3 (the target
matrix of the batch, padding included, markers added or not); sizes 0..130 and around powers of two; the same
call again after the caller changed the first result.  The model is the definition: position (row, i, j) is
open if and only if j <= i and token j of the row is not padding.
"""
import itertools

import numpy as np

from mc.common import *
from mc.dbs import fail_db_first
from mc.core import short
from nlcodec.db import batch as B

LEVEL = 'model_checking'
ASSUMPTIONS = ['one sequence per row (batch first)', 'rows of at least one token']

PADS = [0, 1, 5, -1, 2 ** 40]
TYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'matrices': f'all of 1 row up to {5 if q else 7} tokens, 2 rows up to {3 if q else 4}, 3 rows up to {2 if q else 3} '
            'over 3 symbols', 'padding ids': PADS, 'types': TYPES,
            'batches': 'all pairs of records with targets of length 1..3 over 3 symbols, 4 marker options',
            'sizes': '0..130, 255, 256, 257, 1000'}


def want(rows_, pad):
    n = len(rows_[0])
    return [[[j <= i and row[j] != pad for j in range(n)] for i in range(n)] for row in rows_]


def same(rec, got, model, what):
    got = np.asarray(got)
    if got.shape != (len(model), len(model[0]), len(model[0])):
        rec.fail(f'{what}: mask of shape {got.shape}, expected {(len(model), len(model[0]), len(model[0]))}')
    if [[[bool(v) for v in r] for r in m] for m in got.tolist()] != model:
        rec.fail(f'{what}: mask {got.tolist()}, expected {model}')
    if got.dtype != bool and not set(np.unique(got).tolist()) <= {0, 1}:
        rec.fail(f'{what}: values {np.unique(got)}')
    rec.trace()


def masks(rec, bt, arr, rows_, pad, what):
    for k in range(2):
        for f in (bt.make_autoreg_mask, lambda a: B.Batch.make_autogres_mask_(a, pad)):
            got = f(arr)
            same(rec, got, want(rows_, pad), f'{what} (call {k + 1})')
            try:
                got[...] = 1        # the result belongs to the caller
            except ValueError:
                pass
            if arr.tolist() != rows_:
                rec.fail(f'{what}: the sequences became {arr.tolist()}')
    rec.step(4)
    rec.state((repr(rows_), pad))


def cases(tier):
    q = tier == 'quick'
    for p in range(len(PADS)):
        for n in range(1, 6 if q else 8):
            yield {'rows': [p, 1, n]}
        for n in range(1, 4 if q else 5):
            yield {'rows': [p, 2, n]}
        for n in range(1, 3 if q else 4):
            yield {'rows': [p, 3, n]}
    for o in range(4):
        yield {'batch': o}
    for k in range(8):
        yield {'sizes': k}


def a_batch(pad, recs=(([3], [3]),), **kw):
    m = B.BatchMeta(pad_idx=pad, bos_idx=61, eos_idx=62, add_eos_x=False, **{'add_eos_y': False, **kw})
    return B.Batch([B.IdExample(i, np.array(x), np.array(y)) for i, (x, y) in enumerate(recs)], meta=m)


def before(case, rec):
    fail_db_first(case, rec, every=1)


def check(case, rec):
    if 'rows' in case:
        p, k, n = case['rows']
        pad = PADS[p]
        bt = a_batch(pad)
        sym = [pad, 7, 0 if pad else 9]
        for m, flat in enumerate(itertools.product(sym, repeat=k * n)):
            rows_ = [list(flat[i * n:i * n + n]) for i in range(k)]
            fits = [t for t in TYPES if all(np.iinfo(t).min <= v <= np.iinfo(t).max for v in sym)]
            for t in fits if k * n <= 4 else [fits[m % len(fits)]]:
                masks(rec, bt, np.array(rows_, dtype=t), rows_, pad, f'rows {rows_} of {t}, padding {pad}')
        rec.sample({'padding': pad, 'rows': rows_})
    elif 'batch' in case:
        o = case['batch']
        sides = [list(t) for n in (1, 2, 3) for t in itertools.product((7, 8, 0), repeat=n)]
        for i, a in enumerate(sides):
            for b in sides:
                bt = a_batch(0, [([7], a), ([8] * 2, b)], add_bos_y=bool(o & 1), add_eos_y=bool(o & 2))
                ys = [([61] if o & 1 else []) + s + ([62] if o & 2 else []) for s in (a, b)]
                top = max(map(len, ys))
                ys = [y + [0] * (top - len(y)) for y in ys]
                masks(rec, bt, bt.y_seqs, ys, 0, f'batch of targets {a}, {b}, options {o}')
    else:
        for n in [*range(131), 255, 256, 257, 1000][case['sizes']::8]:
            got = np.asarray(B.subsequent_mask(n))
            if got.shape != (1, n, n) or (got[0].astype(bool) != np.tri(n, dtype=bool)).any():
                rec.fail(f'subsequent_mask({n}) of shape {got.shape} is {short(got.tolist())}')
            for k in range(3):      # the result belongs to the caller
                try:
                    got[...] = k == 1
                except ValueError:
                    break
                got = np.asarray(B.subsequent_mask(n))
                if got.shape != (1, n, n) or (got[0].astype(bool) != np.tri(n, dtype=bool)).any():
                    rec.fail(f'subsequent_mask({n}) after the previous mask was changed: {short(got.tolist())}')
            if n:
                bt = a_batch(0)
                row = [(k * 7 + n) % 5 for k in range(n)]
                got = np.asarray(bt.make_autoreg_mask(np.array([row, row[::-1]])))
                for i, r in enumerate((row, row[::-1])):
                    model = np.tri(n, dtype=bool) & np.array([v != 0 for v in r])[None, :]
                    if got.shape != (2, n, n) or (got[i].astype(bool) != model).any():
                        rec.fail(f'mask of {n} tokens is not the definition')
            rec.trace()
            rec.step()
            rec.state(n)


