"""D05: batches cover the data once within the limits.

Explored: every multiset of up to 4 (5) records with side lengths 0..3 (0..2), every token limit and
sentence limit that can matter, one or several parts, both orders; in equal-length mode ALL random
outcomes (order of parts, of records of equal length, of batches) are enumerated for up to 4 records and
all within a deviation bound above.  Every record carries its own tokens, so rows are identified exactly;
ids of other types than integers included.
"""
import itertools
import os
from pathlib import Path

from mc.common import *
from mc.core import Violation, explore
from mc.dbs import *
from nlcodec.db import batch as B

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['the token limit counts stored tokens, before markers are added',
               'a dataset without any record to batch may raise an error or yield nothing']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'records': f'all multisets of up to {3 if q else 4} records with sides 0..3, of {4 if q else 5} with '
                       'sides of length 0..2', 'limits': 'tokens 1..13, sentences 1..5 and none',
            'parts': '1 part (file), parts of 1, 2, 3 records', 'outcomes': f'all up to {3 if q else 4} records, '
            f'at most {2 if q else 3} deviations above', 'long records': 'up to 70001 tokens', 'ladder': '400 to 3000 records'}


INF = float('inf')


def cases(tier):
    q = tier == 'quick'
    sides = [(a, b) for a in range(4) for b in range(4)]
    for k in range(1, (3 if q else 4) + 1):
        for recs in itertools.combinations_with_replacement(sides, k):
            if k == 4 and sum(1 for r in recs if 0 in r) > 1:
                continue
            yield {'lens': [list(r) for r in recs]}
    small = [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2)]
    for k in (4,) if q else (4, 5):
        for recs in itertools.combinations_with_replacement(small, k):
            yield {'lens': [list(r) for r in recs]}
    for lens in ([(1, 1)] * 6, [(2, 2)] * 5, [(1, 3), (3, 1)] * 3, [(i, 7 - i) for i in range(8)],
                 [(3, 3), (1, 1), (2, 2), (1, 1), (3, 1), (0, 0)], [(5, 5), (1, 1), (1, 1), (1, 1), (1, 1)]):
        for p in range(3):
            yield {'lens': [list(r) for r in lens[p:] + lens[:p]]}
    for ps in (None, 4, 1):
        for mem in (False, True):
            yield {'varies': ps, 'mem': mem}
    for kind in IDS:
        for n in (1, 2, 3, 4):
            yield {'ids': kind, 'n': n}
    for n in LONG:
        yield {'long': n}
    for n in (400, 1000) + (() if q else (3000,)):
        for k in range(4):
            yield {'ladder': n, 'k': k}


LONG = (255, 256, 257, 32767, 32768, 65535, 65536, 70000)


IDS = {'strings': lambda i: f'id{i}', 'numbers as strings': lambda i: str(9 + i), 'above 2**63': lambda i: 2 ** 63 + i,
       'below and above': lambda i: (-1) ** i * (2 ** 62 + i), 'mixed signs above': lambda i: -5 if i == 1 else 2 ** 63 + i,
       'beyond 64 bits': lambda i: 2 ** 64 + i, 'pairs': lambda i: (i, i + 1), 'floats': lambda i: i + .5, 'mixed': lambda i: [1, 'a', (2,), -7][i % 4]}


def make(lens):
    """record i: tokens that name the record and the side"""
    return [[[10 + 100 * i + j for j in range(a)], [60 + 100 * i + j for j in range(b)]]
            for i, (a, b) in enumerate(lens)]


META = dict(pad_idx=0, bos_idx=1, eos_idx=2, add_bos_x=False, add_bos_y=False, add_eos_x=False, add_eos_y=False)


def rows_of(rec, batch, what):
    """ids of the records in a batch, by their tokens"""
    out = []
    xs, ys = np.asarray(batch.x_seqs), np.asarray(batch.y_seqs)
    if len(xs) != len(ys):
        rec.fail(f'{what}: {len(xs)} source rows, {len(ys)} target rows')
    for x, y in zip(xs, ys):
        x, y = [int(v) for v in x if v], [int(v) for v in y if v]
        out.append((x, y))
    return out


def check_pass(rec, got, recs, max_toks, max_sents, what, eq_len_parts=None):
    """got: list of batches, each a list of (x, y)"""
    ids = {(tuple(x), tuple(y)): i for i, (x, y) in enumerate(recs)}
    used = {}
    for b in got:
        if not b:
            rec.fail(f'{what}: an empty batch')
        longest = 0
        for x, y in b:
            i = ids.get((tuple(x), tuple(y)))
            if i is None:
                rec.fail(f'{what}: a row {short((x, y))} that is no record')
            used[i] = used.get(i, 0) + 1
            longest = max(longest, len(x), len(y))
        if len(b) * longest > max_toks:
            rec.fail(f'{what}: a batch of {len(b)} x {longest} exceeds {max_toks} tokens')
        if len(b) > max_sents:
            rec.fail(f'{what}: a batch of {len(b)} records exceeds {max_sents}')
    want = {i: 1 for i, (x, y) in enumerate(recs) if x and y}
    if used != want:
        rec.fail(f'{what}: records used {used}, expected each of {list(want)} once')
    if eq_len_parts:
        part_of = {i: p for p, ids_ in enumerate(eq_len_parts) for i in ids_}
        ranges = {}
        for b in got:
            lens = [max(len(x), len(y)) for x, y in b]
            p = {part_of[ids[(tuple(x), tuple(y))]] for x, y in b}
            if len(p) > 1:
                rec.count('batches_over_parts')
                return
            ranges.setdefault(p.pop(), []).append((min(lens), max(lens)))
        for p, rs in ranges.items():
            rs.sort()
            for (a, b_), (c, d) in zip(rs, rs[1:]):
                if b_ > c:
                    rec.fail(f'{what}: batches of one part with lengths {a}..{b_} and {c}..{d}')
    rec.trace()
    rec.step(len(got))


def run_pass(it):
    out = []
    try:
        for b in it:
            out.append(b)
        return out, None
    except Violation:
        raise
    except Exception as e:
        return out, e


def judge(rec, res, recs, mt, ms, what, parts=None, convert=None):
    got, err = res
    usable = [max(len(x), len(y)) for x, y in recs if x and y]
    too_long = any(n > mt for n in usable)
    if err is not None:
        if too_long or not usable:
            rec.count('errors')
            rec.trace()
            rec.step()
            return
        rec.fail(f'{what}: fails with {err!r}')
    if too_long:
        rec.fail(f'{what}: a record of {max(usable)} tokens is above the limit, but no error is raised')
    check_pass(rec, [convert(b) for b in got], recs, mt, ms, what, parts)


def before(case, rec):
    fail_db_first(case, rec)


def check(case, rec):
    q = rec.tier == 'quick'
    d = rec.tmp()
    if 'ladder' in case:
        return ladder(case, rec, d)
    if 'long' in case:
        return long(case['long'], rec, d)
    if 'ids' in case:
        return other_ids(case, rec, d)
    if 'varies' in case:
        return varies(case, rec, d)
    lens = [tuple(x) for x in case['lens']]
    n = len(lens)
    recs = make(lens)
    longest = max(max(r) for r in lens)
    toks = sorted({t for t in (longest - 1, longest, longest + 1, 2 * longest, 2 * longest + 1, 3 * longest,
                               13, 2, 5) if t >= 1})
    if n <= 2:
        toks = list(range(1, 14))
    sents = [1, 2, 3, INF] if n > 2 else [1, 2, 3, 4, INF]
    setups = [('file', None)] + [('parts', ps) for ps in (1, 2, 3) if ps < n or ps == 1]
    for kind, ps in setups:
        path = os.path.join(d, f'db{ps}')
        if kind == 'file':
            D.Db.create(recs, ['x', 'y'], path=path)
            parts = [range(n)]
        else:
            D.MultipartDb.create(path, recs, ['x', 'y'], part_size=ps)
            parts = [range(i, min(i + ps, n)) for i in range(0, n, ps)]
        for mt in toks:
            for ms in sents:
                size = mt if ms == INF else (mt, ms)
                for order in (None, 'random'):
                    it = B.BatchIterable(Path(path), size, B.BatchMeta(**META), sort_by=order,
                                         keep_in_mem=(mt + n) % 2 == 0)
                    what = f'{lens} in {kind} {ps}, limits {size}, order {order}'
                    for k in range(2):
                        if it.num_items != n or len(it.data) != n:
                            rec.fail(f'{what}: {it.num_items} items, length {len(it.data)} of {n} records')
                        judge(rec, run_pass(it), recs, mt, ms, what + f', pass {k}',
                              convert=lambda b: rows_of(rec, b, what))
                    rec.state((tuple(lens), ps, mt, ms, order))
                if n <= 3 and (mt + len(sents)) % 2:
                    it = B.BatchIterable(str(path), size, B.BatchMeta(**META), sort_by='random', keep_in_mem=mt % 2 == 0)

                    def run_random(ch):
                        with chosen_orders(ch.choose, SEAM):
                            return run_pass(it)
                    for taken, res in explore(run_random, None, rec, None):
                        judge(rec, res, recs, mt, ms, f'{what}, random outcome {taken}',
                              convert=lambda b: rows_of(rec, b, what))
                what = f'{lens} in {kind} {ps}, limits {size}, equal lengths'
                it = B.BatchIterable(Path(path), size, B.BatchMeta(**META), sort_by='eq_len_rand_batch',
                                     keep_in_mem=(mt + n) % 2 == 1, sort_desc=mt % 2 == 0)
                dev = None if n <= (3 if q else 4) else 2 if q else 3

                def run(ch):
                    with chosen_orders(ch.choose, SEAM):
                        return run_pass(it)
                for taken, res in explore(run, None, rec, dev):
                    judge(rec, res, recs, mt, ms, f'{what}, random outcome {taken}', parts,
                          convert=lambda b: rows_of(rec, b, what))
                    rec.state((tuple(lens), ps, mt, ms, 'eq', tuple(taken)))
        if kind == 'file':
            db = D.Db.load(path)
        else:
            db = D.MultipartDb.load(path)
        for mt in (longest, 3 * longest) if longest else ():
            for ms in (1, 2, INF):
                kw = {} if ms == INF else {'max_sents': ms}
                judge(rec, run_pass(db.make_eq_len_ran_batches(mt, **kw)), recs, mt, ms,
                      f'{lens} in {kind} {ps}, make_eq_len_ran_batches({mt}, {kw})', parts,
                      convert=lambda b: [(ints(r.x), ints(r.y)) for r in b])
    rec.count('shuffles', SEAM[0])
    SEAM[0] = 0
    rec.sample({'lengths': lens})


SEAM = [0]


def varies(case, rec, d):
    """the orders called random are not always the same"""
    recs = make([(2, 2)] * 8)
    path, ps = os.path.join(d, 'db'), case['varies']
    if ps is None:
        D.Db.create(recs, ['x', 'y'], path=path)
    else:
        D.MultipartDb.create(path, recs, ['x', 'y'], part_size=ps)
    for order in ('random', 'eq_len_rand_batch'):
        for size in (2, 4, 100):
            what = f'8 records, parts of {ps}, in memory {case["mem"]}, order {order}, limit {size}'
            orders = []
            for k in range(50):
                it = B.BatchIterable([Path, str][k % 2](path), size, B.BatchMeta(**META), sort_by=order,
                                     keep_in_mem=case['mem'])
                res = run_pass(it)
                judge(rec, res, recs, size, INF, what, convert=lambda b: rows_of(rec, b, what))
                orders.append(tuple(tuple(x) for b in res[0] for x, y in rows_of(rec, b, what)))
            check_varies(rec, orders, what)
            rec.state((ps, case['mem'], order, size))


def long(n, rec, d):
    """long records among short ones"""
    for shape in ([(n, 1), (1, 1), (2, 1)], [(1, 1), (3, n), (n, 2), (2, 2), (1, n - 1)], [(n, n)], [(1, 2), (n - 2, n + 1), (2, 2)] * 2):
        recs = [[[3 + i] * a, [4 + i] * b] for i, (a, b) in enumerate(shape)]
        for ps in (None, 1, 2):
            path = os.path.join(d, f'db{ps}')
            if ps is None:
                D.Db.create(recs, ['x', 'y'], path=path)
                parts = [range(len(recs))]
            else:
                D.MultipartDb.create(path, recs, ['x', 'y'], part_size=ps, overwrite=True)
                parts = [range(i, min(i + ps, len(recs))) for i in range(0, len(recs), ps)]
            for mt in (n - 1, n, n + 1, n + 2, 2 * n, 3 * n, 100000, 10 ** 7):
                for ms in (1, 2, INF):
                    size = mt if ms == INF else (mt, ms)
                    for order in (None, 'random', 'eq_len_rand_batch'):
                        it = B.BatchIterable(Path(path), size, B.BatchMeta(**META), sort_by=order, sort_desc=ms == 2)
                        what = f'lengths {shape}, parts of {ps}, limits {size}, order {order}'
                        judge(rec, run_pass(it), recs, mt, ms, what, parts if order == 'eq_len_rand_batch' else None,
                              convert=lambda b: rows_of(rec, b, what))
                        rec.state((tuple(shape), ps, mt, ms, order))


def other_ids(case, rec, d):
    """records are found whatever the type of their ids"""
    n, of = case['n'], IDS[case['ids']]
    for lens in itertools.product([(1, 1), (1, 2), (2, 1), (0, 1)], repeat=n):
        recs = make(lens)
        for ps in (None, 1, 2):
            path = os.path.join(d, f'db{ps}')
            with_ids = [(of(i), r) for i, r in enumerate(recs)]
            if ps is None:
                db = D.Db.create(with_ids, ['x', 'y'], has_id=True, path=path)
                parts = [range(n)]
            else:
                db = D.MultipartDb.create(path, with_ids, ['x', 'y'], has_id=True, part_size=ps, overwrite=True)
                parts = [range(i, min(i + ps, n)) for i in range(0, n, ps)]
            for mt, ms in ((2, INF), (4, INF), (6, 2)):
                what = f'ids {[of(i) for i in range(n)]}, lengths {lens}, parts of {ps}, limits {mt}, {ms}'
                seen = []

                def convert(b):
                    seen.extend((r.id, ints(r.x), ints(r.y)) for r in b)
                    return [(x, y) for _, x, y in seen[-len(b):]]
                judge(rec, run_pass(db.make_eq_len_ran_batches(mt, ms)), recs, mt, ms, what, parts, convert)
                for i, x, y in seen:
                    if (i, [x, y]) not in with_ids:
                        rec.fail(f'{what}: record {i!r} is {(x, y)}')
                size = mt if ms == INF else (mt, ms)
                for order in (None, 'random', 'eq_len_rand_batch'):
                    it = B.BatchIterable(Path(path), size, B.BatchMeta(**META), sort_by=order)
                    judge(rec, run_pass(it), recs, mt, ms, what + f', order {order}', parts if order == 'eq_len_rand_batch' else None,
                          lambda b: rows_of(rec, b, what))
                rec.state((case['ids'], lens, ps, mt))


def ladder(case, rec, d):
    n, k = case['ladder'], case['k']
    r = Lcg(n + k)
    top = [4, 9, 30, 60][k]
    lens = [(0 if r(17) == 0 else 1 + r(top), 0 if r(19) == 0 else 1 + r(top)) for _ in range(n)]
    recs = [[[3 + i % 60000, 5 + i // 60000] * (a // 2) + [3 + i % 60000] * (a % 2),
             [4 + i % 60000, 8] * (b // 2) + [4 + i % 60000] * (b % 2)] for i, (a, b) in enumerate(lens)]
    # rows must name the record: make sides of odd shapes unique through the first token
    for kind, ps in (('file', None), ('parts', 97), ('parts', n // 3 + 1)):
        path = os.path.join(d, f'db{ps}')
        if kind == 'file':
            D.Db.create(recs, ['x', 'y'], path=path)
            parts = [range(n)]
        else:
            D.MultipartDb.create(path, recs, ['x', 'y'], part_size=ps)
            parts = [range(i, min(i + ps, n)) for i in range(0, n, ps)]
        for mt in (top - 1, top, top + 1, 2 * top, 100 + top, 4096, 10 ** 6):
            for ms in (1, 7, 100, INF):
                size = mt if ms == INF else (mt, ms)
                for order in (None, 'eq_len_rand_batch'):
                    for desc in (False, True):
                        it = B.BatchIterable(Path(path), size, B.BatchMeta(**META), sort_by=order, sort_desc=desc)
                        what = f'{n} records up to {top}, {kind} {ps}, limits {size}, order {order}'
                        judge(rec, run_pass(it), recs, mt, ms, what, parts if order else None,
                              convert=lambda b: rows_of(rec, b, what))
                        rec.state((n, k, ps, mt, ms, order))
