"""D10: one opened database may be read by several threads and passes at a time, and outlives interrupted reads.

Stateless model checking of the real code with the scheduler of mc/threads.py: every schedule of two readers of one
database object (single file, several parts, kept in memory or not, batch iterators of all three orders) up to a number
of preemptions; every interleaving of the steps of two passes in one thread; every point at which a read is given up
or interrupted.  Also writers of different databases, and of different parts of one database, in two threads.
"""
import itertools
import os
import shutil
import tempfile

from mc.dbs import *
from mc.threads import count_points, interrupted, schedules
from nlcodec.db import batch as B

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['threads switch between bytecode instructions of the repository\'s own code; calls into the interpreter, '
               'numpy and pickle are atomic', 'every shuffle reverses the order (the other orders: D03, D05)']
RECS = [([1, 2], [300]), ([], [70000, -1]), ([5], [6, 7, 8]), ([200], [2])]
FULL = [([1, 2], [300]), ([4, 9], [70000, -1]), ([5], [6, 7, 8]), ([200], [2])]
NAMES = ['x', 'y']
OPENED = ['db', 'created', 'parts', 'parts in memory', 'lines', 'batches', 'random', 'part batches', 'part lines',
          'part lines in memory', 'db shuffled', 'parts shuffled', 'parts in memory shuffled']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'databases': '4 records of 2 fields, in one file or in 3 parts; opened in 13 ways: ' + ', '.join(OPENED),
            'calls': 'a pass, a pass given up, lookups, fields, lengths, batches, saving; all pairs of the same object',
            'schedules': 'all with at most 1 preemption at every bytecode instruction; all with at most '
                         f'{2 if q else 3} preemptions at every line (of short calls)',
            'passes in step': 'all interleavings of the steps of two passes, also of two kinds',
            'interruptions': 'every call at every line and every instruction, then every call again',
            'writers': 'two threads, different databases and different parts: 1 preemption at every '
                       f'{"line" if q else "instruction"}'}


def worker_setup(rec):
    global DIR
    DIR = tempfile.mkdtemp(dir=rec.scratch)
    for name, recs in (('a', RECS), ('full', FULL)):
        D.Db.create(recs, NAMES, path=os.path.join(DIR, name + '.db'))
        D.MultipartDb.create(os.path.join(DIR, name + '.parts'), recs, NAMES, part_size=2)
    with chosen_orders(lambda n: n - 1):
        for how in OPENED:
            for f in reads(how, opened(how)).values():
                f()
        for f in writes(tempfile.mkdtemp(dir=DIR)).values():
            f()


def opened(how):
    f = lambda n: os.path.join(DIR, n)
    meta = B.BatchMeta(pad_idx=0, bos_idx=92, eos_idx=93)
    if how.startswith('db'):
        return D.Db.load(f('a.db'), shuffle='shuffled' in how)
    if how == 'created':
        return D.Db.create(RECS, NAMES)
    if how.startswith('parts'):
        return D.MultipartDb.load(f('a.parts'), keep_in_mem='memory' in how, shuffle='shuffled' in how)
    sort = {'lines': None, 'random': 'random'}.get(how.split()[0])
    if 'batches' in how:
        sort = 'eq_len_rand_batch'
    return B.BatchIterable(f('full.parts' if 'part' in how else 'full.db'), batch_size=6, batch_meta=meta, sort_by=sort,
                           keep_in_mem='memory' in how)


def rec_of(r):
    return (r.id, tuple(ints(r.x)), tuple(ints(r.y)))


def batch_of(b):
    if isinstance(b, list):
        return [rec_of(r) for r in b]
    return ([ints(r) for r in b.x_seqs], ints(b.x_len), [ints(r) for r in b.y_seqs], ints(b.y_len), int(b.x_toks),
            int(b.y_toks), len(b))


def passes(how, db):
    """name -> function giving a new iterator of comparable values"""
    if isinstance(db, B.BatchIterable):
        return {'pass': lambda: map(batch_of, db)}
    out = {'pass': lambda: map(rec_of, db), 'batches': lambda: map(batch_of, db.make_eq_len_ran_batches(max_toks=6))}
    if isinstance(db, D.Db) and 'shuffled' not in how:
        fd = db.fields['y']
        out['values'] = lambda: map(ints, fd.values())
        out['items'] = lambda: ((k, ints(v)) for k, v in fd.items())
        out['lengths'] = lambda: ((k, int(v)) for k, v in fd.lengths())
    return out


def unordered(how, name):
    """in any order: judged are the records, not their order"""
    return 'shuffled' in how and name == 'pass' or 'batches' in (name, *how.split()) or how == 'random'


def norm(how, name, value):
    if not unordered(how, name):
        return value
    out = []
    for v in value:
        if isinstance(v, list):         # a batch of records
            out += v
        elif isinstance(v[0], list):    # a Batch
            out += [(x[:n], y[:m]) for x, n, y, m in zip(*v[:4])]
        else:
            out.append(v)
    return sorted(out)


def reads(how, db):
    ps = passes(how, db)
    out = {n: (lambda n=n, f=f: norm(how, n, list(f()))) for n, f in ps.items()}

    def given_up():
        it = iter(db)
        r = (rec_of if not isinstance(db, B.BatchIterable) else batch_of)(next(it))
        it.close()
        return None if unordered(how, 'pass') else r
    out['given up'] = given_up
    if isinstance(db, D.Db) and 'shuffled' not in how:
        out['look up'] = lambda: [rec_of(db[i]) for i in (2, 0)]
        out['look up other'] = lambda: [rec_of(db[i]) for i in (1, 3)]
        out['state'] = lambda: (len(db), sorted(db.ids), sorted(db.__getstate__()['field_names']))
    return out


def writes(d):
    """name -> creates something below d and reads it back"""
    def read(path):
        return [rec_of(r) for r in D.MultipartDb.load(path)]

    def several(name, recs):
        p = os.path.join(d, name)
        D.MultipartDb.create(p, recs, NAMES, part_size=2, overwrite=True)
        return read(p)

    def single(name, recs):
        p = os.path.join(d, name)
        D.Db.create(recs, NAMES, path=p)
        return [rec_of(r) for r in D.Db.load(p)]
    shared = os.path.join(d, 'shared')
    w = D.MultipartDb.Writer(shared, NAMES, overwrite=True)

    def part(n):
        def run():
            path, count = w(n, [(10 * n + k, r) for k, r in enumerate(RECS[n:n + 2])])
            return count, [rec_of(r) for r in D.Db.load(path)]
        return run

    def finish():
        w.close()
        return sorted(read(shared))
    return {'several': lambda: several('s1', RECS), 'several other': lambda: several('s2', FULL),
            'single': lambda: single('f1', RECS), 'single other': lambda: single('f2', FULL),
            'part 0': part(0), 'part 1': part(1), 'finish': finish}


WRITES = [('several', 'several other'), ('several', 'single'), ('single', 'single other'), ('part 0', 'part 1'),
          ('part 0', 'single')]


def cases(tier):
    q = tier == 'quick'
    for how in OPENED:
        yield {'cut': how}
        yield {'in step': how}
        names = READS(how)
        for a, b in itertools.combinations_with_replacement(names, 2):
            case = {'threads': [a, b], 'how': how, 'opcodes': True, 'preempt': 1}
            if a == b:
                case['first'] = 0
            heavy = 'part' in how or how in ('lines', 'batches', 'random') or 'batches' in (a, b) or 'shuffled' in how
            if heavy and q:
                case['opcodes'] = False
            yield case
            if not heavy:
                yield {**case, 'opcodes': False, 'preempt': 2 if q else 3}
        if len(names) > 2:
            yield {'threads': ['pass', 'given up', names[-1]], 'how': how, 'opcodes': False, 'preempt': 1 if q else 2}
    for a, b in WRITES:
        for first in (0, 1):
            yield {'threads': [a, b], 'how': 'write', 'opcodes': not q, 'preempt': 1, 'first': first}
    yield {'cut': 'write'}


def READS(how):
    if 'shuffled' in how:
        return ['pass', 'given up']
    if how in ('db', 'created'):
        return ['pass', 'values', 'items', 'lengths', 'given up', 'look up', 'look up other', 'state', 'batches']
    if how.startswith('parts'):
        return ['pass', 'batches', 'given up']
    return ['pass', 'given up']


def check(case, rec):
    with chosen_orders(lambda n: n - 1):
        if 'in step' in case:
            return in_step(case['in step'], rec)
        if 'cut' in case:
            return cuts(case['cut'], rec)
        return threads(case, rec)


def table(how):
    """fresh calls of a kind"""
    if how == 'write':
        d = os.path.join(DIR, 'w')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        return writes(d)
    return reads(how, opened(how))


def expected(how):
    """what the calls give alone; that this is what was stored is checked as well"""
    c = table(how)
    want = {n: f() for n, f in c.items()}
    return want


def threads(case, rec):
    how = case['how']
    want = expected(how)
    if how in ('db', 'created') or how.startswith('parts'):
        if sorted(want['pass']) != [(i, tuple(x), tuple(y)) for i, (x, y) in enumerate(RECS)]:
            rec.fail(f'{how}: a pass gives {want["pass"]}')
    key = (how, tuple(case['threads']), case['opcodes'])

    def make():
        c = table(how)

        def judge(results, sched):
            for n, r in zip(case['threads'], results):
                if r != ('ok', want[n]):
                    rec.fail(f'{how}: {n!r} gives {short(r)} while the others of {case["threads"]} run; alone '
                             f'{short(want[n])}; schedule: {sched()}')
            for n in case['threads'][:1] + ([] if how == 'write' else ['pass']):
                after = c[n]()
                if after != want[n]:
                    rec.fail(f'{how}: after the threads {case["threads"]} {n!r} gives {short(after)}, '
                             f'expected {short(want[n])}; schedule: {sched()}')
            if case['threads'] == ['part 0', 'part 1']:
                rec.eq(c['finish'](), sorted(want['part 0'][1] + want['part 1'][1]), f'the database; schedule: {sched()}')
        return [c[n] for n in case['threads']], judge
    n = schedules(make, case['preempt'], rec, opcodes=case['opcodes'], start=case.get('first'), limit=60000)
    for i in range(n):
        rec.state((key, case.get('first'), i))
    rec.sample({'opened': how, 'threads': case['threads'], 'schedules': n})


def cuts(how, rec):
    c = table(how)
    want = {n: f() for n, f in c.items()}
    for n, f in c.items():
        if n == 'finish':
            continue
        for opcodes in (False,) if how == 'write' or n == 'batches' else (False, True):
            points, res = count_points(f, opcodes)
            rec.eq(res, want[n], f'{how}: {n}')
            c2 = table(how)
            for k in range(points):
                interrupted(c2[n], k, opcodes)
                rec.step()
                rec.trace()
                rec.count('interruptions')
                rec.state(('cut', how, n, opcodes, k))
                for m in ([n] if how == 'write' else c2):
                    got = c2[m]()
                    if got != want[m]:
                        rec.fail(f'{how}: {m!r} gives {short(got)} after {n!r} was interrupted at its '
                                 f'{"instruction" if opcodes else "line"} {k}; expected {short(want[m])}')


def in_step(how, rec):
    """two passes in one thread, in every interleaving of their steps; and one given up at every step"""
    db = opened(how)
    ps = passes(how, db)
    want = {n: norm(how, n, list(f())) for n, f in ps.items()}
    steps = {n: len(list(f())) + 1 for n, f in ps.items()}
    for a, b in itertools.combinations_with_replacement(ps, 2):
        na, nb = steps[a], steps[b]
        for turn in itertools.combinations(range(na + nb), na):
            its, got = [ps[a](), ps[b]()], [[], []]
            for i in range(na + nb):
                w = 0 if i in turn else 1
                got[w] += list(itertools.islice(its[w], 1))
            rec.trace()
            rec.step(na + nb)
            rec.state(('step', how, a, b, turn))
            for w, n in ((0, a), (1, b)):
                got[w] = norm(how, n, got[w])
                if got[w] != want[n]:
                    rec.fail(f'{how}: {n!r} in step with {(b, a)[w]!r} gives {short(got[w])}, alone {short(want[n])}; '
                             f'order of the steps: {turn}')
        for k in range(na):
            it = ps[a]()
            head = list(itertools.islice(it, k))
            del it
            if not unordered(how, a):
                rec.eq(head, want[a][:k], f'{how}: {k} steps of {a!r}')
            rec.eq(norm(how, b, list(ps[b]())), want[b], f'{how}: {b!r} after {a!r} was given up at step {k}')
