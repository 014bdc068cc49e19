"""D07: parts may be written in any order, repeatedly.

Explored: (1) all histories of up to 4 attempts at two parts, an attempt being complete (short, long
or without records), or dying at one of its records or at one of its file operations (killed process,
through the preloaded counter of file operations), by the writer itself or by copies of it, such that the
last attempt at each part is complete; (2) all interleavings, at record pulls and file operations, of two
attempts running at the same time, and of three within a preemption bound; (3) all orders and numberings of
parts, writers in real processes; (4) sessions that end with an error after every number of parts, over
nothing or over an older database.
"""
import itertools
import multiprocessing
import os
import pickle
import shutil
import sys
import threading

from mc.common import *
from mc.dbs import fail_db_first
from mc.core import explore
from mc.dbs import *
from mc.checks.d04 import FF, fixed_order, preload, run, Listing   # noqa: F401

LEVEL = 'model_checking'
CASE_TIMEOUT = 600
ASSUMPTIONS = ['two attempts at the same part do not run at the same time',
               'a database in which all parts are without records may be rejected']
NAMES = ['x', 'y']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'histories': f'up to 4 attempts at 2 parts, of 4 at most {1 if q else 2} incomplete', 'file operations': 'killed before each of '
            'the operations of an attempt', 'interleavings': 'all of 2 attempts of up to 2 records, of 3 attempts '
            f'with at most {2 if q else 3} preemptions', 'part numbers': 'all orders of up to 4 parts, 8 numberings, '
            'max_parts 1, 2, 10, 1000', 'sessions': 'errors after 0..3 parts, 5 kinds'}


def data(part, n, tag):
    """n records of a part that name their attempt"""
    return [((part + 1) * 1000 + i, [[tag, part, i] * (1 + tag % 3), [70000 * (tag % 2) + i] * i]) for i in range(n)]


def content(rs):
    return sorted((i, tuple(tuple(c) for c in cols)) for i, cols in rs)


class Died(Exception):
    pass


def dying(rs, j):
    for k, r in enumerate(rs):
        if k == j:
            raise Died()
        yield r
    if j >= len(rs):
        raise Died()


# outcomes of an attempt: ('full', n) / ('dies', j) / ('killed', op)
def outcomes(tier):
    yield from [('full', 1), ('full', 3), ('full', 0)]
    yield from [('dies', j) for j in range(3)]
    yield from [('killed', k) for k in range(6 if tier == 'quick' else 8)]


def complete(seq):
    last = {}
    for p, o in seq:
        last[p] = o
    return all(o[0] == 'full' for o in last.values())


def cases(tier):
    q = tier == 'quick'
    syms = [(p, o) for p in (0, 1) for o in outcomes(tier)]
    for n in range(1, 5):
        batch = []
        firsts = itertools.product(syms, repeat=n)
        for seq in firsts:
            if not complete(seq) or seq[0][0] == 1:
                continue
            if n == 4 and sum(o[0] != 'full' for _, o in seq) > (1 if q else 2):
                continue
            batch.append(seq)
            if len(batch) == 60:
                yield {'histories': batch}
                batch = []
        if batch:
            yield {'histories': batch}
    for a in range(3):
        for b in range(3):
            for die in (None, 0, 1):
                yield {'two': [a, b], 'die': die}
    for s in itertools.product((0, 1, 2), repeat=3):
        yield {'three': list(s)}
    for mp in (1, 2, 10, 1000):
        for nums in ([0, 1, 2], [2, 10, 1], [9, 10, 99, 100], [999, 1000, 1001], [0], [12345, 1234, 123],
                     [5, 50, 500, 5000]):
            yield {'numbers': nums, 'max_parts': mp}
    for old in (0, 1, 3):
        for n in range(4):
            for kind in range(5):
                yield {'session': n, 'old': old, 'kind': kind}
    for procs in (2, 4):
        for style in range(3):
            yield {'processes': procs, 'style': style}


def verify(rec, path, want, what):
    """want: records by part"""
    rs = [r for part in want.values() for r in part]
    if not rs:
        try:
            db = D.MultipartDb.load(path)
        except Exception:
            rec.count('empty_databases')
            return
        rec.true(len(db) == 0 and not list(db), f'{what}: a database without records gives {short(list(db))}')
        return
    for mem in (False, True):
        db = D.MultipartDb.load(path, keep_in_mem=mem)
        got = sorted((r.id, rec_values(r, NAMES)) for r in db)
        if got != content(rs) or len(db) != len(rs):
            rec.fail(f'{what}: {len(db)} records {short(got)}, expected {short(content(rs))}')
    rec.trace()


def check(case, rec):
    if 'histories' in case:
        for seq in case['histories']:
            history(rec, [(p, tuple(o)) for p, o in seq])
        rec.sample({'attempts': case['histories'][-1]})
    elif 'two' in case:
        interleaved(rec, case['two'], case['die'], None)
    elif 'three' in case:
        interleaved(rec, case['three'], None, 2 if rec.tier == 'quick' else 3)
    elif 'numbers' in case:
        numbers(rec, case['numbers'], case['max_parts'])
    elif 'session' in case:
        session(rec, case['session'], case['old'], case['kind'])
    else:
        processes(rec, case['processes'], case['style'])


def new_writer(path, **kw):
    return D.MultipartDb.Writer(path, field_names=NAMES, **kw)


def copy(w):
    return pickle.loads(pickle.dumps(w))


def attempt(rec, w, path, p, o, tag):
    """returns the records of a complete attempt, else None"""
    kind, n = o
    if kind == 'full':
        rs = data(p, n, tag)
        res = w(p, iter(rs) if tag % 2 else rs)
        if res is not None:
            list(res)        # Spark iterates over what a writer returns
        return rs
    if kind == 'dies':
        rs = data(p, 2, tag)
        try:
            w(p, dying(rs, n))
        except Died:
            rec.count('died_at_record')
        else:
            rec.fail(f'an attempt at part {p} with a failing record stream (at {n}) raises nothing')
        return None
    rs = data(p, 2, tag)
    res = run(lambda _: w(p, rs), path, 0, 1, n)
    rec.count('killed' if res == 'killed' else 'not_killed')
    return rs if res == 'ok' else None


def history(rec, seq):
    d = rec.tmp()
    # who writes: always the writer; always copies made at the start; copies made when needed
    for style in range(3 if len(seq) < 3 else 1):
        if len(seq) >= 3:
            style = (sum(o[1] for _, o in seq) + len(seq)) % 3
        path = os.path.join(d, f'at{style}', 'db')
        os.makedirs(os.path.dirname(path))
        w = new_writer(path)
        early = [copy(w) for _ in seq]
        want = {}
        for k, (p, o) in enumerate(seq):
            who = w if style == 0 else early[k] if style == 1 else copy(w)
            got = attempt(rec, who, path, p, o, k + 1)
            if got is not None:
                want[p] = got
            rec.step()
        w.close()
        verify(rec, path, want, f'attempts {seq}, writers {style}')
        rec.state((tuple(seq), style))
    shutil.rmtree(d)


# ------------------------------------------------------------------ interleavings
class Sched:
    """threads that run one at a time; who goes on after every point is chosen by the explorer"""
    current = None

    def __init__(self):
        self.back = threading.Semaphore(0)
        self.threads = []

    def spawn(self, fn):
        t = {'go': threading.Semaphore(0), 'done': False, 'error': None}

        def body():
            t['go'].acquire()
            try:
                fn()
            except BaseException as e:
                t['error'] = e
            t['done'] = True
            LOCAL.me = None
            self.back.release()

        def start():
            LOCAL.me = (self, t)
            body()
        t['thread'] = threading.Thread(target=start, daemon=True)
        t['thread'].start()
        self.threads.append(t)
        return t

    def point(self, t):
        self.back.release()
        t['go'].acquire()

    def run(self, choose):
        last, n = None, 0
        while True:
            live = [t for t in self.threads if not t['done']]
            if not live:
                return n
            if last in live:     # choice 0: the same thread goes on
                live = [last] + [t for t in live if t is not last]
            last = live[choose(len(live))] if len(live) > 1 else live[0]
            last['go'].release()
            self.back.acquire()
            n += 1


LOCAL = threading.local()
EVENTS = {'open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink'}


def hook(event, args):
    if event in EVENTS:
        me = getattr(LOCAL, 'me', None)
        if me is not None:
            me[0].point(me[1])


def worker_setup(rec):
    sys.addaudithook(hook)


def pulls(rs, die):
    for k, r in enumerate(rs):
        me = LOCAL.me
        me[0].point(me[1])
        if die == k:
            raise Died()
        yield r
    me = LOCAL.me
    me[0].point(me[1])
    if die is not None and die >= len(rs):
        raise Died()


def interleaved(rec, sizes, die, dev):
    top = rec.tmp()
    n = [0]

    def one(ch):
        n[0] += 1
        path = os.path.join(top, f'db{n[0]}')
        w = new_writer(path)
        s = Sched()
        want = {}

        def job(p, size, tag, die_at):
            rs = data(p, size, tag)
            who = w if p % 2 == n[0] % 2 else copy(w)

            def go():
                who(p, pulls(rs, die_at))
                want[p] = rs
            return s.spawn(go)
        ts = [job(p, size, p + 1, die if p == 0 else None) for p, size in enumerate(sizes)]
        steps = s.run(ch.choose)
        for p, t in enumerate(ts):
            t['thread'].join(10)
            if t['error'] is not None and not (p == 0 and die is not None and isinstance(t['error'], Died)):
                rec.fail(f'attempts of {sizes} records at the same time, schedule {ch.taken}: part {p} fails with '
                         f'{t["error"]!r}')
        if die is not None:
            w(0, data(0, sizes[0], 7))
            want[0] = data(0, sizes[0], 7)
        w.close()
        verify(rec, path, want, f'attempts of {sizes} records at the same time, first dies at {die}, schedule {ch.taken}')
        shutil.rmtree(path)
        rec.step(steps)
        return steps
    for taken, steps in explore(one, None, rec, dev):
        rec.state((tuple(sizes), die, tuple(taken)))
        rec.count('schedules')
    shutil.rmtree(top)


def numbers(rec, nums, mp):
    d = rec.tmp()
    for k, perm in enumerate(itertools.permutations(nums)):
        path = os.path.join(d, f'db{k}')
        w = new_writer(path, max_parts=mp)
        want = {}
        for p in perm:
            who = w if k % 2 else copy(w)
            who(p, data(p, 1 + p % 3, 2))
            want[p] = data(p, 1 + p % 3, 2)
            if k % 3 == 0:      # parts without records in between
                who(p + 20000, [])
        w.close()
        verify(rec, path, want, f'parts {perm}, max_parts {mp}')
        rec.state(('numbers', perm, mp))
        rec.step(len(perm))
    rec.sample({'parts': nums, 'max_parts': mp}, 1)


ERRORS = [ValueError('x'), Exception(), KeyboardInterrupt(), SystemExit(0), Died()]


def session(rec, n, old, kind):
    d = rec.tmp()
    path = os.path.join(d, 'db')
    if old:
        D.MultipartDb.create(path, [[[5, i], [6]] for i in range(old)], NAMES, part_size=1)
    for in_part in (False, True):
        try:
            with D.MultipartDb.Writer(path, field_names=NAMES, overwrite=True) as w:
                for p in range(n):
                    w(p, data(p, 2, 1))
                if in_part:
                    def bad():
                        yield from data(n, 1, 1)
                        raise ERRORS[kind]
                    w(n, bad())
                raise ERRORS[kind]
        except BaseException as e:
            if e is not ERRORS[kind]:
                raise
        try:
            db = D.MultipartDb.load(path)
            got = list(db)
        except Exception:
            rec.trace()
        else:
            rec.fail(f'session ended with {ERRORS[kind]!r} after {n} parts over {old} old ones, but {len(got)} '
                     f'records load')
        rec.step(n + 1)
        rec.state(('session', n, old, kind, in_part))
    # a later session without error is not affected
    with D.MultipartDb.Writer(path, field_names=NAMES, overwrite=True) as w:
        w(3, data(3, 2, 4))
    verify(rec, path, {3: data(3, 2, 4)}, f'session after one with {ERRORS[kind]!r}')


def child(job):
    w, p, n, tag = job
    if n < 0:
        try:
            w(p, dying(data(p, 3, tag), -n - 1))
        except Died:
            pass
        return None
    w(p, iter(data(p, n, tag)))
    return (p, n, tag)


def processes(rec, procs, style):
    """several attempts each in processes of their own (rounds: all attempts of a round at the same time)"""
    d = rec.tmp()
    path = os.path.join(d, 'db')
    w = new_writer(path)
    want = {}
    rounds = [[(p, -1 - p % 3, 1) if (p + style) % 3 == 0 else (p, 1 + (p + style) % 4, 1) for p in range(12)],
              [(p, (p * 5 + style) % 7, 2) for p in range(0, 12, 1 + style)],
              [(p, 2, 3) for p in range(12) if (p + style) % 3 == 0]]
    ctx = multiprocessing.get_context('fork')
    for jobs in rounds:
        with ctx.Pool(procs) as pool:
            for done in pool.imap_unordered(child, [(w, *j) for j in jobs], chunksize=1):
                if done:
                    want[done[0]] = data(*done)
        rec.step(len(jobs))
    w.close()
    verify(rec, path, want, f'{procs} processes, style {style}')
    rec.state(('processes', procs, style))


def before(case, rec):
    fail_db_first(case, rec)
