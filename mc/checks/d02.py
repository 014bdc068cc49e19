"""D02: integer storage uses the smallest safe type.

Explored: every pair of boundary neighbours of the 8, 16, 32 and 64-bit types as a range (as Python and
as array integers), and every field of up to 3 sequences at the boundaries with every set of flush points;
the chosen type must contain the range and no integer type of fewer bytes may; ranges without a 64-bit
type must be rejected.  Types are read off what the database returns, also after reloading.
"""
import itertools
import os

from mc.common import *
from mc.dbs import *

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['of two smallest types either may be chosen', 'at least one record']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'ranges': f'all ordered pairs of {len(DB_ENDS)} boundary values; 300 values around each power of two',
            'fields': f'all lists of up to {3 if q else 4} boundary sequences, all flush subsets',
            'ladder': 'fields of up to 100000 values with one outlier at every kind of position'}


ENDS = DB_ENDS
SINGLE = [[0], [-1], [127], [128], [-128], [-129], [255], [256], [32767], [32768], [-32768], [-32769], [65535],
          [65536], [2 ** 31 - 1], [2 ** 31], [-2 ** 31], [-2 ** 31 - 1], [2 ** 32 - 1], [2 ** 32], [2 ** 63 - 1],
          [2 ** 63], [-2 ** 63], [2 ** 64 - 1], []]


def cases(tier):
    for i in range(len(ENDS)):
        yield {'range': i}
    for i in range(len(SINGLE)):
        yield {'first': i}
    for n in (10, 1000, 100000):
        yield {'ladder': n}


def before(case, rec):
    fail_db_first(case, rec, every=1)


def check(case, rec):
    q = rec.tier == 'quick'
    if 'range' in case:
        mn = ENDS[case['range']]
        for mx in ENDS:
            if mx >= mn:
                one_range(rec, mn, mx)
        for k in (0, 7, 8, 15, 16, 31, 32, 62, 63):
            for dlt in range(-20, 21):
                if 2 ** k + dlt >= mn:
                    one_range(rec, mn, 2 ** k + dlt)
        rec.sample({'mn': mn, 'mx': mx})
    elif 'first' in case:
        s = SINGLE[case['first']]
        d = rec.tmp()
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            rest = list(itertools.product(range(len(SINGLE)), repeat=n - 1))
            if n == 4:
                rest = [r for r in rest if r[0] < r[1] < r[2] or r[0] > r[1] > r[2]]
            for tail in rest:
                seqs = [s] + [SINGLE[t] for t in tail]
                if not fits(seqs) or not hasattr(D.SeqField.Builder, 'shrink'):
                    continue
                for m in range(2 ** (n - 1)):
                    b = D.SeqField.Builder('x')
                    for i, x in enumerate(seqs):
                        b.append(i, x)
                        if m >> i & 1:
                            b.shrink()
                    f = b.build()
                    judge(rec, [f[i] for i in range(n)], seqs, f'{seqs} flush mask {m:b}')
                if n <= 2:
                    for buf in (None, 1, 2):
                        with buffer_size(buf):
                            db = D.Db.create([[x] for x in seqs], ['x'], path=os.path.join(d, 'db'))
                        judge(rec, [r.x for r in db], seqs, f'{seqs} in a database, buffer {buf}')
                        judge(rec, [r.x for r in D.Db.load(os.path.join(d, 'db'))], seqs, f'{seqs} reloaded')
                        judge(rec, list(db.fields['x'].values()), seqs, f'values of {seqs}')
    else:
        n = case['ladder']
        for outlier in (5, -1, 200, 300, 70000, -40000, 2 ** 40, -2 ** 40, 2 ** 64 - 1):
            for pos in (0, n // 3, n - 1):
                vals = [i % 100 for i in range(n)]
                vals[pos] = outlier
                seqs = [vals[i:i + 50] for i in range(0, n, 50)]
                for buf in (None, 7, n // 3 + 1):
                    with buffer_size(buf):
                        db = D.Db.create([[x] for x in seqs], ['x'])
                    judge(rec, [r.x for r in db], seqs, f'{n} values, {outlier} at {pos}, buffer {buf}')


def one_range(rec, mn, mx):
    need = width(mn, mx)
    forms_ = [(mn, mx)]
    for t in (np.int64, np.uint64, np.int16, np.uint8):
        i = np.iinfo(t)
        if i.min <= mn and mx <= i.max:
            forms_.append((t(mn), t(mx)))
    for a, b in forms_:
        try:
            t = np.dtype(D.best_dtype(a, b))
        except Exception as e:
            if need:
                rec.fail(f'best_dtype({a!r}, {b!r}) fails with {e!r}')
            rec.count('rejected')
            continue
        rec.true(need is not None, f'best_dtype({a!r}, {b!r}) is {t}, which does not hold the range')
        judge_type(rec, t, mn, mx, f'best_dtype({a!r}, {b!r})')
        if a is mn:
            rec.eq(np.dtype(D.best_dtype(mn=a, mx=b)), t, 'by keyword')
    rec.step()
    rec.trace()
    rec.state((mn, mx))


def judge_type(rec, t, mn, mx, what):
    rec.true(t.kind in 'iu', f'{what}: {t} is not an integer type')
    i = np.iinfo(t)
    rec.true(i.min <= mn and mx <= i.max, f'{what}: {t} does not hold {mn}..{mx}')
    rec.true(t.itemsize == width(mn, mx), f'{what}: {t} is larger than needed for {mn}..{mx}')


def judge(rec, arrays, seqs, what):
    vals = [v for s in seqs for v in s]
    types = {a.dtype for a in arrays}
    rec.true(len(types) == 1, f'{what}: several types {types}')
    t = types.pop()
    if vals:
        judge_type(rec, t, min(vals), max(vals), what)
    else:
        rec.true(t.kind in 'iu' and t.itemsize == 1, f'{what}: an empty field is stored as {t}')
    if [ints(a) for a in arrays] != [list(s) for s in seqs] and len(vals) < 5000:
        rec.fail(f'{what}: values differ')
    rec.step()
    rec.trace()
    rec.state((what,))
