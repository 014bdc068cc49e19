"""D03: a multi-part database holds every record once.

Explored: every stream length x part size x way of giving ids x loading mode; with shuffling, ALL random
outcomes (each shuffle is a permutation picked by the explorer, for the order of the parts and inside every
part) up to the bound and every single swap away from the default above; repeated, interrupted and
interleaved passes; more parts than digits reserved for their names; existing data with and without
overwriting.
"""
import itertools
import os
from pathlib import Path

from mc.common import *
from mc.core import Violation, explore
from mc.dbs import *

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['at least one record', 'ids are distinct over the whole stream']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'streams': f'1..{9 if q else 14} records x part sizes 1..n+1 x 3 kinds of ids x 2 fields',
            'modes': 'in memory or not x shuffled or not x path or string',
            'random outcomes': f'all up to {6 if q else 7} records, at most {3 if q else 4} deviations above',
            'parts': 'up to 1005', 'overwrite': 'every pair of 7 databases'}


NAMES = ['x', 'y']


def cases(tier):
    q = tier == 'quick'
    for n in range(1, (9 if q else 14) + 1):
        for ps in range(1, n + 2):
            yield {'n': n, 'ps': ps}
    for n in range(1, (8 if q else 10) + 1):
        for ps in range(1, n + 1):
            yield {'shuffle': n, 'ps': ps}
    for n, ps, mp in ((10, 1, 1), (11, 1, 10), (25, 1, 10), (25, 2, 1000), (101, 1, 10), (120, 1, 100),
                      (1005, 1, 1000), (999, 1, 1000), (20, 20, 2), (300, 7, 50)):
        yield {'many': n, 'ps': ps, 'max_parts': mp}
    for n, ps in ((1000, 99), (5000, 1000), (20000, 4096)):
        yield {'long': n, 'ps': ps}
    for a in range(7):
        for b in range(7):
            yield {'over': [a, b]}


def fields(i, salt=0):
    x = [i, 300 + i][:i % 3] + [salt] * (salt > 0)
    return [x, [-i, 5, 70000 * (i % 2)][:1 + i % 3]]


def stream(n, ids='enum', salt=0):
    """(records as given, expected dict)"""
    recs = [fields(i, salt) for i in range(n)]
    if ids == 'enum':
        return recs, dict(enumerate(recs)), False
    keys = [3 * n - 2 * i for i in range(n)] if ids == 'ints' else [f'id {i % 7}.{i}' for i in range(n)]
    return list(zip(keys, recs)), dict(zip(keys, recs)), True


def norm(want):
    return {k: tuple(tuple(s) for s in v) for k, v in want.items()}


def create(path, data, has_id, ps, **kw):
    return D.MultipartDb.create(path=path, recs=iter(data), field_names=NAMES, has_id=has_id,
                                part_size=ps, **kw)


def part_files(path):
    return [Path(p) for p in D.MultipartDb.load(path).part_paths]


def check_parts(rec, path, want, ps, what):
    seen, n = {}, 0
    for p in part_files(path):
        part = D.Db.load(p)
        k = read_all(part, NAMES)
        rec.true(1 <= len(k) <= ps, f'{what}: {p.name} holds {len(k)} records, allowed are {ps}')
        seen.update(k)
        n += len(k)
    rec.true(n == len(want) and seen == want, f'{what}: part files hold {short(seen)}')


def one_pass(rec, it, want, what):
    got = [(r.id, rec_values(r, NAMES)) for r in it]
    if len(got) != len(want) or dict(got) != want:
        ids = [k for k, _ in got]
        rec.fail(f'{what}: a pass gives {len(got)} records, missing {short(sorted(map(str, set(want) - set(ids))))}, '
                 f'repeated {short([k for k in want if ids.count(k) > 1][:5])}: {short(got)} for {short(want)}')
    rec.trace()
    rec.step(len(want))
    return [k for k, _ in got]


def before(case, rec):
    fail_db_first(case, rec, every=1)


def check(case, rec):
    d = rec.tmp()
    q = rec.tier == 'quick'
    path = os.path.join(d, 'db')
    if 'n' in case:
        n, ps = case['n'], case['ps']
        for ids in ('enum', 'ints', 'texts'):
            data, want, has_id = stream(n, ids)
            want = norm(want)
            for form in ('str', 'path'):
                p = path if form == 'str' else Path(d) / 'deep' / 'er'
                db = create(p, data, has_id, ps, overwrite=True)
                what = f'{n} records, part size {ps}, {ids} ids'
                rec.eq(len(db), n, what + ': length')
                for k in range(2):
                    one_pass(rec, db, want, what + f', pass {k}')
                check_parts(rec, p, want, ps, what)
                for mem in (False, True):
                    for shuffle in (False, True):
                        db = D.MultipartDb.load(p, keep_in_mem=mem, shuffle=shuffle)
                        w2 = what + f', in memory {mem}, shuffled {shuffle}'
                        rec.eq(len(db), n, w2 + ': length')
                        a = iter(db)
                        next(a)
                        one_pass(rec, db, want, w2)
                        b, c = iter(db), iter(db)
                        got = [x.id for pair in itertools.zip_longest(b, c) for x in pair]
                        rec.true(sorted(map(str, got)) == sorted([str(k) for k in want] * 2), w2 + ': two readers in step')
                        rest = [x.id for x in a]
                        rec.true(len(rest) == n - 1 and set(rest) <= set(want) and len(set(rest)) == n - 1,
                                 w2 + ': rest of an interrupted pass')
                        rec.state((n, ps, ids, form, mem, shuffle))
        rec.sample({'records': short(data), 'part size': ps})
    elif 'shuffle' in case:
        n, ps = case['shuffle'], case['ps']
        data, want, has_id = stream(n, 'ints')
        want = norm(want)
        create(path, data, has_id, ps)
        seen = [0]
        dev = None if n <= (6 if q else 7) else 3 if q else 4
        for mem in (False, True):
            orders = set()
            def run(ch):
                with chosen_orders(ch.choose, seen):
                    db = D.MultipartDb.load(path, keep_in_mem=mem, shuffle=True)
                    return [one_pass(rec, db, want, f'{n} records, part size {ps}, in memory {mem}, '
                                     f'random choices so far {ch.taken}')
                            for _ in range(2 if dev is not None and n < 7 else 1)]
            for taken, res in explore(run, None, rec, dev):
                orders.add(tuple(res[0]))
                rec.state((n, ps, mem, tuple(taken)))
            rec.count('orders', len(orders))
        # a single-file database, shuffled
        db = D.Db.create(data, NAMES, has_id=True, path=os.path.join(d, 'one'))
        def run1(ch):
            with chosen_orders(ch.choose, seen):
                return one_pass(rec, D.Db.load(os.path.join(d, 'one'), shuffle=True), want, 'one file, shuffled')
        for taken, res in explore(run1, None, rec, dev if n > 6 else None):
            rec.state((n, 'one', tuple(res)))
        rec.count('shuffles', seen[0])
        if n >= 4 and ps >= 4 or n >= 4 * ps:
            for how in (False, True, None):
                inside, between = {}, []
                for _ in range(50):
                    if how is None:
                        db = D.Db.load(os.path.join(d, 'one'), shuffle=True)
                    else:
                        db = D.MultipartDb.load(path, keep_in_mem=how, shuffle=True)
                    order = one_pass(rec, db, want, f'{n} records, part size {ps}, in memory {how}, shuffled')
                    places = {k: i // ps for i, k in enumerate(want)} if how is not None else {k: 0 for k in want}
                    between.append(tuple(dict.fromkeys(places[k] for k in order)))
                    for p in set(places.values()):
                        inside.setdefault(p, []).append(tuple(k for k in order if places[k] == p))
                what = f'{n} records, part size {ps}, ' + (f'in memory {how}' if how is not None else 'one file')
                check_varies(rec, between, what + ', parts')
                for p, orders in inside.items():
                    check_varies(rec, orders, what + f', records of part {p}')
                # one object, again and again: the orders go on to vary, and every pass is complete
                db = D.Db.load(os.path.join(d, 'one'), shuffle=True) if how is None else \
                    D.MultipartDb.load(path, keep_in_mem=how, shuffle=True)
                inside, between = {}, []
                for k in range(70):
                    order = one_pass(rec, db, want, f'{n} records, part size {ps}, in memory {how}, pass {k} of one object')
                    if k < 20:
                        continue
                    between.append(tuple(dict.fromkeys(places[i] for i in order)))
                    for p in set(places.values()):
                        inside.setdefault(p, []).append(tuple(i for i in order if places[i] == p))
                check_varies(rec, between, what + ', parts, after many passes')
                for p, orders in inside.items():
                    check_varies(rec, orders, what + f', records of part {p}, after many passes')
            rec.count('order_varies')
    elif 'many' in case:
        n, ps = case['many'], case['ps']
        data, want, has_id = stream(n)
        want = norm(want)
        what = f'{n} records, part size {ps}, {case["max_parts"]} parts expected'
        create(path, data, has_id, ps, max_parts=case['max_parts'])
        check_parts(rec, path, want, ps, what)
        for mem in (False, True):
            for shuffle in (False, True):
                db = D.MultipartDb.load(path, keep_in_mem=mem, shuffle=shuffle)
                rec.eq(len(db), n, what + ': length')
                one_pass(rec, db, want, what)
        rec.state((n, ps))
    elif 'long' in case:
        n, ps = case['long'], case['ps']
        data, want, has_id = stream(n, 'texts')
        want = norm(want)
        db = create(path, data, has_id, ps)
        rec.eq(len(db), n, 'length')
        one_pass(rec, db, want, str(case))
        check_parts(rec, path, want, ps, str(case))
        one_pass(rec, D.MultipartDb.load(path, shuffle=True), want, str(case) + ' shuffled')
        rec.state((n, ps))
    else:
        overwrite(rec, case['over'], d)


DBS = [(1, 1), (5, 1), (5, 2), (5, 5), (12, 1), (12, 4), (3, 2)]


def overwrite(rec, ab, d):
    (n1, p1), (n2, p2) = DBS[ab[0]], DBS[ab[1]]
    path = os.path.join(d, 'db')
    old, w1, _ = stream(n1, 'ints')
    new, w2, _ = stream(n2, 'ints', salt=9)
    w1, w2 = norm(w1), norm(w2)
    create(path, old, True, p1)
    before = {p.name: p.read_bytes() for p in Path(path).iterdir()}
    for how in (lambda: create(path, new, True, p2), lambda: create(path, new, True, p2, overwrite=False),
                lambda: D.MultipartDb.Writer(path, NAMES)):
        try:
            how()
        except Exception:
            pass
        else:
            rec.fail(f'{DBS[ab[0]]} was replaced by {DBS[ab[1]]} without asking for it')
        rec.eq({p.name: p.read_bytes() for p in Path(path).iterdir()}, before, 'files after a refused creation')
    one_pass(rec, D.MultipartDb.load(path), w1, 'after a refused creation')
    db = create(path, new, True, p2, overwrite=True)
    rec.eq(len(db), n2, 'length after overwriting')
    for x in (db, D.MultipartDb.load(path), D.MultipartDb.load(path, keep_in_mem=True)):
        one_pass(rec, x, w2, f'{DBS[ab[1]]} over {DBS[ab[0]]}')
    check_parts(rec, path, w2, p2, 'after overwriting')
    empty = os.path.join(d, 'empty')
    os.mkdir(empty)
    one_pass(rec, create(empty, new, True, p2), w2, 'into an empty directory')
    rec.state(('over', tuple(ab)))
