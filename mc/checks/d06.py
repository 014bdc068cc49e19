"""D06: batch contents are faithful.

Explored: all batches of one record whose sides range over every sequence of length 1..3 (1..4) over
{padding, begin, end, an ordinary token}, all batches of two and three records over smaller sets, under all
16 marker options, both orders, both layouts and several marker ids; the same records through files and
directories with repeated passes and all random outcomes for small datasets; a record with a forbidden
marker at every position of a dataset; tokens at the limits of the storage types.
"""
import itertools
import os
from pathlib import Path

from mc.common import *
from mc.core import explore
from mc.dbs import *
from nlcodec.db import batch as B

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['records with two non-empty sides (others are never batched)', 'token ids below 2**63',
               'begin and end markers are different ids']

OPTS = list(itertools.product((False, True), repeat=4))   # bos x, bos y, eos x, eos y
IDS = [(0, 1, 2), (5, 6, 7), (2, 3, 2), (0, 300, 70000)]


def BOUNDS(tier):
    q = tier == 'quick'
    return {'one record': f'each side all {84 if q else 340} sequences of length 1..{3 if q else 4} over 4 symbols',
            'two records': 'sides of length 1..2 over 4 symbols', 'three records': '6 kinds of records (8)',
            'options': '16 marker options x sorted or not x both layouts', 'marker ids': IDS,
            'passes': 3, 'random outcomes': 'all for datasets of 3 records'}


def meta(ids, opt):
    pad, bos, eos = ids
    bx, by, ex, ey = opt
    return B.BatchMeta(pad_idx=pad, bos_idx=bos, eos_idx=eos, add_bos_x=bx, add_bos_y=by, add_eos_x=ex,
                       add_eos_y=ey)


def expect(seq, ids, bos, eos):
    """the row without padding, None when it is to be rejected"""
    _, b, e = ids
    seq = list(seq)
    if not bos and seq[0] == b or not eos and seq[-1] == e:
        return None
    return ([b] if bos and seq[0] != b else []) + seq + ([e] if eos and seq[-1] != e else [])


def expect_rec(r, ids, opt):
    x = expect(r[0], ids, opt[0], opt[2])
    if r[1] is None:
        return None if x is None else (x, None)
    y = expect(r[1], ids, opt[1], opt[3])
    return None if x is None or y is None else (x, y)


def check_batch(rec, b, want, ids, desc, first, what, keep_order=False, raws=None):
    """want: list of (x, y) rows with markers.  None to skip the comparison as a set; returns the rows"""
    n = len(b)
    has_y = b.has_y
    rows = []
    for side in 'xy' if has_y else 'x':
        seqs, lens = np.asarray(getattr(b, f'{side}_seqs')), ints(getattr(b, f'{side}_len'))
        if seqs.dtype.kind not in 'iu':
            rec.fail(f'{what}: {side}_seqs holds {seqs.dtype}')
        if not first:
            seqs = seqs.T
        if len(lens) != n or seqs.shape[0] != n or seqs.ndim != 2:
            rec.fail(f'{what}: {side}_seqs of shape {seqs.shape}, {len(lens)} lengths, {n} records')
        if seqs.shape[1] != max(lens):
            rec.fail(f'{what}: {side} rows have {seqs.shape[1]} columns, longest is {max(lens)}')
        if int(getattr(b, f'{side}_toks')) != sum(lens):
            rec.fail(f'{what}: {side}_toks is {getattr(b, f"{side}_toks")}, lengths are {lens}')
        if int(getattr(b, f'max_{side}_len')) != max(lens):
            rec.fail(f'{what}: max_{side}_len is {getattr(b, f"max_{side}_len")}, lengths are {lens}')
        col = []
        for i in range(n):
            row = ints(seqs[i])
            if any(v != ids[0] for v in row[lens[i]:]):
                rec.fail(f'{what}: {side} row {row} of length {lens[i]} is not followed by padding')
            col.append(row[:lens[i]])
        rows.append(col)
        if desc and side == 'x' and lens != sorted(lens, reverse=True):
            rec.fail(f'{what}: lengths {lens} are not in descending order')
    got = list(zip(rows[0], rows[1] if has_y else [None] * n))
    if want is not None:
        if has_y != (want[0][1] is not None):
            rec.fail(f'{what}: has_y is {has_y}')
        if sorted(got, key=repr) != sorted(want, key=repr):
            rec.fail(f'{what}: rows {short(got)}, expected {short(want)}')
        if raws is not None:
            names = {}
            for w, r in zip(want, raws):
                names.setdefault(repr(w), []).append(r)
            for i, g in enumerate(got):
                r = (b.x_raw[i], b.y_raw[i] if has_y else None)
                if r not in names[repr(g)]:
                    rec.fail(f'{what}: row {i} is {g} with text {r}')
                names[repr(g)].remove(r)
    rec.trace()
    rec.step(n)
    return got


def arr(seq, k):
    """the sequence as an array of the k-th type that holds it"""
    fs = [v for n, v in forms(seq) if n not in ('list', 'tuple')]
    return fs[k % len(fs)].copy()


def direct(rec, recs, ids, opts, k=0):
    """batches built from examples"""
    for opt in opts:
        m = meta(ids, opt)
        want = [expect_rec(r, ids, opt) for r in recs]
        for desc in (False, True):
            for first in (True, False):
                what = f'batch of {recs}, ids {ids}, options {opt}, sorted {desc}, batch first {first}'
                arrs = [(arr(r[0], k + i), None if r[1] is None else arr(r[1], k + i + 1))
                        for i, r in enumerate(recs)]
                exs = [B.IdExample(i, *a) for i, a in enumerate(arrs)]
                raws = None
                if k % 2:
                    raws = []
                    for i, e in enumerate(exs):
                        e.x_raw, e.y_raw = f'x{i}', f'y{i}'
                        raws.append((f'x{i}', f'y{i}' if recs[i][1] is not None else None))
                try:
                    b = B.Batch(exs, sort_dec=desc, batch_first=first, meta=m)
                except Exception as e:
                    if None not in want:
                        rec.fail(f'{what}: fails with {e!r}')
                    rec.count('rejected')
                    rec.trace()
                    b = None
                else:
                    if None in want:
                        rec.fail(f'{what}: a forbidden marker is accepted')
                    check_batch(rec, b, want, ids, desc, first, what, raws=raws)
                for (x, y), r in zip(arrs, recs):
                    if ints(x) != list(r[0]) or y is not None and ints(y) != list(r[1]):
                        rec.fail(f'{what}: the stored sequences became {ints(x)}')
                rec.state((repr(recs), ids, opt, desc, first))


def cases(tier):
    q = tier == 'quick'
    for i in range(len(IDS)):
        for a in range(4):
            for b in range(4):
                yield {'one': [i, a, b]}
        for j in range(20):
            yield {'two': [i, j]}
        for j in range(6 if q else 8):
            yield {'three': [i, j]}
        for o in range(16):
            yield {'data': [i, o]}
            yield {'bad': [i, o]}
        yield {'small': i}
        yield {'types': i}


def seqs(ids, top):
    sym = list(dict.fromkeys([ids[0], ids[1], ids[2], 9]))
    for n in range(1, top + 1):
        yield from (list(t) for t in itertools.product(sym, repeat=n))


def before(case, rec):
    fail_db_first(case, rec)


def check(case, rec):
    q = rec.tier == 'quick'
    top = 3 if q else 4
    if 'one' in case:
        i, a, b = case['one']
        ids = IDS[i]
        other = [None, [9], [ids[1], ids[2]], [9, ids[0], ids[0]]][b]
        for k, s in enumerate(seqs(ids, top)):
            if k % 4 != a:
                continue
            direct(rec, [(s, other)], ids, OPTS, k)
            if other is not None:
                direct(rec, [(other, s)], ids, OPTS, k + 1)
        return
    if 'two' in case:
        i, j = case['two']
        ids = IDS[i]
        ss = list(seqs(ids, 2))
        if j >= len(ss):
            return
        others = [None] if j % 5 == 4 else [[9], [ids[1], 9], [9, 9, ids[2]]]
        for t in ss:
            for y1 in others:
                for y2 in others:
                    direct(rec, [(ss[j], y1), (t, y2)], ids, OPTS if not q else OPTS[(j % 2)::2], j)
        rec.sample({'first': ss[j]})
        return
    if 'three' in case:
        i, j = case['three']
        ids = IDS[i]
        p, b, e = ids
        kinds = [([9], [8, 8]), ([9, 9, 9], [8]), ([b, 9], [8, e]), ([b, 9, e], [b, e]), ([9, 9], [p]),
                 ([p, p], [9, b, 9]), ([e, 9], [9, e, b, 9]), ([b], [9])][:6 if q else 8]
        for k in itertools.product(kinds, repeat=2):
            direct(rec, [kinds[j], *k], ids, OPTS, j)
            if not q:
                for l in kinds:
                    direct(rec, [kinds[j], *k, l], ids, OPTS[j % 4::4], j)
        return
    d = rec.tmp()
    if 'data' in case:
        return dataset(case['data'], rec, d, top)
    if 'bad' in case:
        return rejected(case['bad'], rec, d)
    if 'small' in case:
        return small(IDS[case['small']], rec, d)
    types(IDS[case['types']], rec, d)


def stored(path, recs, ps):
    if ps is None:
        D.Db.create(recs, ['x', 'y'], path=path)
    else:
        D.MultipartDb.create(path, recs, ['x', 'y'], part_size=ps)
    return Path(path)


def passes(rec, path, recs, ids, opt, size, order, desc, first, n=3, mem=False):
    """n passes over the batches; every pass gives the rows of all records"""
    want = sorted((expect_rec(r, ids, opt) for r in recs if r[0] and r[1]), key=repr)
    it = B.BatchIterable(path, size, meta(ids, opt), sort_desc=desc, batch_first=first, sort_by=order,
                         keep_in_mem=mem)
    what = f'{len(recs)} records in {path.name}, ids {ids}, options {opt}, limit {size}, order {order}, ' \
           f'sorted {desc}, batch first {first}'
    its = []
    for p in range(n):
        if p == 1:
            # two passes side by side
            its = [iter(it), iter(it)]
            got = [[], []]
            live = [0, 1]
            while live:
                for j in list(live):
                    b = next(its[j], None)
                    if b is None:
                        live.remove(j)
                    else:
                        got[j] += check_batch(rec, b, None, ids, desc, first, what)
        else:
            got = [[]]
            for b in it:
                got[0] += check_batch(rec, b, None, ids, desc, first, what)
        for g in got:
            if sorted(g, key=repr) != want:
                rec.fail(f'{what}: pass {p} gives rows {short(sorted(g, key=repr))}, expected {short(want)}')
        rec.state((path.name, ids, opt, repr(size), order, desc, first, p, len(recs)))
    kept = sorted(((ints(r.x), ints(r.y)) for r in it.data), key=repr)
    if kept != sorted(((list(x), list(y)) for x, y in recs), key=repr):
        rec.fail(f'{what}: the stored records became {short(kept)}')


def dataset(case, rec, d, top):
    i, o = case
    ids, opt = IDS[i], OPTS[o]
    ss = list(seqs(ids, top))
    others = [[9], [9, 9, 9, 9, 9], [ids[0]], [ids[1], 9], [9, ids[2]], [ids[1], 9, ids[2]]]
    recs = [(s, y) for s in ss for y in others] + [(y, s) for s in ss for y in others]
    recs = [r for r in recs if expect_rec(r, ids, opt)]
    recs = recs[::3] + [([], [9]), ([9], []), ([], [])] + recs[1::3] + recs[2::3]
    for ps in (None, 50, 10 ** 6):
        path = stored(os.path.join(d, f'db{ps}'), recs, ps)
        for n, (size, order) in enumerate(itertools.product((7, 64, (1000, 3), 10 ** 6), (None, 'random', 'eq_len_rand_batch'))):
            passes(rec, path, recs, ids, opt, size, order, bool(n & 1), bool(n & 2), mem=bool(n & 1))
    rec.sample({'ids': ids, 'options': opt, 'records': len(recs)})


def rejected(case, rec, d):
    i, o = case
    ids, opt = IDS[i], OPTS[o]
    _, b, e = ids
    good = [([9, 9], [9]), ([9], [9, 9, 9]), ([9, 9, 9], [9, 9])]
    bad = []
    for s in ([b], [b, 9], [e], [9, e], [b, e], [b, b], [e, e], [9, 9, 9, e]):
        bad += [(s, [9]), ([9], s), (s, s)]
    bad = [r for r in bad if expect_rec(r, ids, opt) is None]
    for k, r in enumerate(bad):
        for pos in range(4):
            recs = good[:pos] + [r] + good[pos:]
            ps = [None, 1, 2, 4][k % 4]
            path = stored(os.path.join(d, f'db{k}-{pos}'), recs, ps)
            for size in (5, 12, 100):
                for order in (None, 'random', 'eq_len_rand_batch'):
                    it = B.BatchIterable(path, size, meta(ids, opt), sort_by=order)
                    for p in range(2):
                        try:
                            got = [x for x in it]
                        except Exception:
                            rec.count('rejected')
                            rec.trace()
                            rec.step()
                            continue
                        rec.fail(f'{recs} with a forbidden marker in {r} gives {len(got)} batches in pass {p} '
                                 f'(ids {ids}, options {opt}, parts {ps}, limit {size}, order {order})')


SEAM = [0]


def small(ids, rec, d):
    _, b, e = ids
    kinds = [([9], [8, 8]), ([b, 9], [8, e]), ([9, 9, e], [9]), ([9, 9], [b, 9])]
    for n, trio in enumerate(itertools.combinations(kinds, 3)):
        for opt in OPTS:
            if any(expect_rec(r, ids, opt) is None for r in trio):
                continue
            for ps in (None, 2):
                path = stored(os.path.join(d, f'db{n}-{OPTS.index(opt)}-{ps}'), list(trio), ps)
                for size in (3, 6, 100):
                    def run(ch):
                        with chosen_orders(ch.choose, SEAM):
                            passes(rec, path, list(trio), ids, opt, size, 'eq_len_rand_batch', size == 6,
                                   ps is None, n=1)
                    for _ in explore(run, None, rec):
                        pass


def types(ids, rec, d):
    ends = [0, 9, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
            2 ** 40, 2 ** 53 + 1, 2 ** 63 - 1, -1, -128, -129, -2 ** 31, -2 ** 31 - 1, -2 ** 53 - 1, -2 ** 63]
    for n, v in enumerate(ends):
        for s in ([v], [v, 9], [9, v, 9]):
            for opt in OPTS:
                direct(rec, [(s, [9, 9]), ([9], s)], ids, [opt], n)
            recs = [(s, [9, v]), ([9, 9], s), ([v, v, v, v], [v])]
            for ps in (None, 1):
                path = stored(os.path.join(d, f'db{n}-{len(s)}-{ps}'), recs, ps)
                for opt in OPTS:
                    if all(expect_rec(r, ids, opt) for r in recs):
                        for order in (None, 'eq_len_rand_batch'):
                            passes(rec, path, recs, ids, opt, 12, order, n % 2 == 0, n % 3 == 0, n=2)
    # side lengths around the storage types of lengths
    for n in (255, 256, 257, 65535, 65536, 70000):
        recs = [([9] * n, [8]), ([7 + ids[2]], [9] * (n - 1)), ([9], [9])]
        path = stored(os.path.join(d, f'long{n}'), recs, None)
        for opt in OPTS[::5]:
            passes(rec, path, recs, ids, opt, 2 * n, None, True, True, n=1)
