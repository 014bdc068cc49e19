"""D04: a crash never leaves a database that loads wrongly.

Explored: histories of creating and overwriting single-file and multi-part databases (fresh, over a complete
database with fewer or more parts, over leftovers, through create and through a writing session).  A
library preloaded under the Python process counts every file operation of the real code below the
database's directory; for every operation of the history one run each is made in which the process is killed
before it, killed after it or after every number of bytes of a write reached the file, the operation fails
once, fails from then on, or the disk is full after some bytes; files are listed in two opposite orders.  Afterwards
a fresh load, a creation without overwriting and one with overwriting are judged; pairs of crashes as well.
"""
import ctypes
import errno
import os
import shutil
import signal
import subprocess
import sys

from mc.common import *
from mc.dbs import fail_db_first
from mc.core import VERIF
from mc.dbs import *

LEVEL = 'fault_enumeration'
CASE_TIMEOUT = 600
RULE = ('one evaluation is one run of a history with one fault at one file operation (or one byte of a '
        'write), followed by loading and creating again; it is non-trivial when the fault happened, and '
        'distinct by history, listing order, kind of fault, operation and byte')
ASSUMPTIONS = ['a crash is the death of the process: what was written before stays (no power failure)',
               'operations fail with EIO or ENOSPC']

NAMES = ['x', 'y']


def preload(scratch):
    lib = os.path.join(scratch, 'faultfs.so')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', lib, os.path.join(VERIF, 'mc/native/faultfs.c'),
                    '-ldl'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return lib


def BOUNDS(tier):
    q = tier == 'quick'
    return {'histories': sorted(HISTORIES), 'kill points': 'before and after every file operation',
            'torn writes': f'every {STRIDE[tier]} byte(s) of every write of up to 4 KiB, every 1/16 of longer ones',
            'errors': 'EIO once, EIO from then on, ENOSPC once, ENOSPC after a partial write (3 lengths)',
            'listing orders': 'ascending, descending',
            'pairs of crashes': 'all pairs of kill points of 3 histories' if q else
            'all pairs of kill points of all multi-part histories'}


STRIDE = {'quick': 3, 'thorough': 1}


def recs(tag, n):
    """n records that can only come from the data set `tag`"""
    return [[[tag, i, 300 * (tag % 7)], [tag] * (i % 3)] for i in range(n)]


BIG = [[[7] * 40000, [9]], [[8], [70000] * 3000]]
OLD, NEW, NEW2, NEW3 = 11, 22, 33, 44


def content(data):
    return sorted((i, tuple(tuple(c) for c in r)) for i, r in enumerate(data))


# ------------------------------------------------------------------ histories: prepare, act
def create(path, data, size, overwrite):
    return D.MultipartDb.create(path, data, NAMES, part_size=size, overwrite=overwrite)


def session_write(path, data, order, overwrite):
    """a writing session: parts of one record, in the given order, one of them empty, one written twice"""
    with D.MultipartDb.Writer(path, field_names=NAMES, overwrite=overwrite) as w:
        w(order[0], [(order[0], data[(order[0] + 1) % len(data)])])
        for p in order:
            w(p, [(p, data[p])])
        w(len(data), [])


def leftovers(path, n):
    """an interrupted creation with more parts than what is written next"""
    w = D.MultipartDb.Writer(path, field_names=NAMES)
    for p, r in enumerate(recs(OLD, n)):
        w(p, [(p, r)])


def H(kind, prepare, act, old, new):
    return dict(kind=kind, prepare=prepare, act=act, old=old, new=new)


def multi(old_n, old_size, new_n, new_size):
    old, new = recs(OLD, old_n), recs(NEW, new_n)
    return H('multi', (lambda p: create(p, old, old_size, False)) if old_n else (lambda p: None),
             lambda p: create(p, new, new_size, bool(old_n)), content(old) if old_n else None, content(new))


def single(old, new):
    return H('file', (lambda p: D.Db.create(old, NAMES, path=p)) if old else (lambda p: None),
             lambda p: D.Db.create(new, NAMES, path=p), content(old) if old else None, content(new))


HISTORIES = {
    'fresh, 1 part': multi(0, 0, 2, 2),
    'fresh, 3 parts': multi(0, 0, 3, 1),
    '3 parts over 1': multi(2, 9, 3, 1),
    '1 part over 3': multi(3, 1, 2, 5),
    '2 parts over 2': multi(2, 1, 2, 1),
    'fresh session': H('multi', lambda p: None, lambda p: session_write(p, recs(NEW, 3), [1, 0, 2], False),
                       None, content(recs(NEW, 3))),
    'session over 2 parts': H('multi', lambda p: create(p, recs(OLD, 4), 2, False),
                              lambda p: session_write(p, recs(NEW, 2), [1, 0], True),
                              content(recs(OLD, 4)), content(recs(NEW, 2))),
    'over leftovers': H('multi', lambda p: leftovers(p, 3), lambda p: create(p, recs(NEW, 2), 2, True),
                        None, content(recs(NEW, 2))),
    'into an empty directory': H('multi', lambda p: os.mkdir(p), lambda p: create(p, recs(NEW, 2), 1, False),
                                 None, content(recs(NEW, 2))),
    'long fields': H('multi', lambda p: create(p, recs(OLD, 2), 1, False), lambda p: create(p, BIG, 1, True),
                     content(recs(OLD, 2)), content(BIG)),
    'file': single(None, recs(NEW, 2)),
    'file over file': single(recs(OLD, 3), recs(NEW, 2)),
    'short file over long file': single(BIG, recs(NEW, 1)),
    'long file over file': single(recs(OLD, 1), BIG),
}
FAULTS = ['kill', 'torn', 'error', 'broken', 'full', 'partial']
MODES = {'kill': (1, 0), 'torn': (2, 0), 'error': (3, errno.EIO), 'broken': (4, errno.EIO),
         'full': (3, errno.ENOSPC), 'partial': (5, errno.ENOSPC)}
SHARDS = 6


def cases(tier):
    for name in HISTORIES:
        for order in (0, 1):
            for fault in FAULTS:
                if fault == 'torn':
                    for s in range(SHARDS):
                        yield {'history': name, 'order': order, 'fault': fault, 'shard': s}
                else:
                    yield {'history': name, 'order': order, 'fault': fault}
    pairs = [n for n, h in HISTORIES.items() if h['kind'] == 'multi']
    if tier == 'quick':
        pairs = ['fresh, 3 parts', '3 parts over 1', '1 part over 3']
    for name in pairs:
        for s in range(SHARDS):
            yield {'history': name, 'order': s % 2, 'fault': 'pair', 'shard': s}


FF = ctypes.CDLL(None)


class Listing:
    """a directory listing in a fixed order"""

    def __init__(self, entries):
        self.it = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)


def fixed_order(desc):
    real, real_list = os.scandir, os.listdir

    def scandir(*a):
        with real(*a) as it:
            return Listing(sorted(it, key=lambda e: e.name, reverse=desc))
    os.scandir = scandir
    os.listdir = lambda *a: sorted(real_list(*a), reverse=desc)


def run(act, path, order, mode, k=-1, torn=0, err=0, log=None):
    """the action in a process of its own; 'killed', 'ok', or 'error'"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(60)
            fixed_order(bool(order))
            FF.ff_arm(os.path.dirname(path).encode(), mode, ctypes.c_long(k), ctypes.c_long(torn), err)
            try:
                act(path)
                code = 0
            except BaseException:
                code = 1
            FF.ff_disarm()
            if log:
                FF.ff_log.restype = ctypes.c_char_p
                with open(log, 'w') as f:
                    f.write(FF.ff_log().decode('utf8', 'replace'))
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'killed' if os.WTERMSIG(st) == signal.SIGKILL else f'signal {os.WTERMSIG(st)}'
    return {0: 'ok', 1: 'error'}.get(os.WEXITSTATUS(st), 'broken')


def loaded(path, kind):
    """None when loading fails, else what it gives"""
    if kind == 'file':
        try:
            db = D.Db.load(path)
        except Exception:
            return None
        return sorted((r.id, rec_values(r, NAMES)) for r in db)
    try:
        db = D.MultipartDb.load(path)
        db2 = D.MultipartDb.load(path, keep_in_mem=True)
    except Exception:
        return None
    # loading succeeded: what follows has to work
    got = sorted((r.id, rec_values(r, NAMES)) for r in db)
    got2 = sorted((r.id, rec_values(r, NAMES)) for r in db2)
    if got != got2 or len(db) != len(got):
        raise AssertionError(f'{short(got)} and {short(got2)}, {len(db)} records')
    return got


def judge(rec, path, h, res, allowed, new, what, extra):
    try:
        got = loaded(path, h['kind'])
    except Exception as e:
        rec.fail(f'{what}: the database loads, but reading fails: {e!r}')
    if got is not None and got not in allowed:
        rec.fail(f'{what}: the database loads as {short(got)}')
    if res == 'ok' and got != new:
        rec.fail(f'{what}: creation reports success, the database loads as {short(got)}')
    rec.count('loads_nothing' if got is None else 'loads_new' if got == new else 'loads_old')
    rec.state((what, got is None))
    if h['kind'] == 'file':
        again = recs(NEW2, 2)
        D.Db.create(again, NAMES, path=path)
        if loaded(path, 'file') != content(again):
            rec.fail(f'{what}: created again, it loads as {short(loaded(path, "file"))}')
        return got
    for n, (data, size) in enumerate([(recs(NEW2, 1), 5), (recs(NEW3, 4), 1)][:2 if extra else 1]):
        copy = f'{path}-copy{n}'
        if os.path.isdir(path):
            shutil.copytree(path, copy)
        try:
            create(copy, data, size, False)
        except Exception:
            if loaded(copy, 'multi') != got:
                rec.fail(f'{what}: creation without overwriting fails, but then the database loads as '
                         f'{short(loaded(copy, "multi"))}')
        else:
            if loaded(copy, 'multi') != content(data):
                rec.fail(f'{what}: created again without overwriting, it loads as '
                         f'{short(loaded(copy, "multi"))} instead of {short(content(data))}')
        create(copy, data, size, True)
        if loaded(copy, 'multi') != content(data):
            rec.fail(f'{what}: created again with overwriting, it loads as {short(loaded(copy, "multi"))} '
                     f'instead of {short(content(data))}')
        rec.step(2)
    return got


def points(rec, h, order):
    """the operations of the history, as seen without faults: [(operation, size)]"""
    d = rec.tmp()
    path, log = os.path.join(d, 'at', 'db'), os.path.join(d, 'log')
    os.mkdir(os.path.dirname(path))
    h['prepare'](path)
    res = run(h['act'], path, order, 0, log=log)
    if res != 'ok':
        h['act'](path)
        rec.fail(f'creation without any fault: {res}')
    got = loaded(path, h['kind'])
    if got != h['new']:
        rec.fail(f'creation without any fault: loads as {short(got)}, expected {short(h["new"])}')
    ops = []
    for line in open(log):
        op, size = line.split()[:2]
        ops.append((op, int(size)))
    shutil.rmtree(d)
    return ops


def fresh(rec, h):
    d = rec.tmp()
    path = os.path.join(d, 'at', 'db')
    os.mkdir(os.path.dirname(path))
    h['prepare'](path)
    return d, path


def check(case, rec):
    h, order, fault = HISTORIES[case['history']], case['order'], case['fault']
    ops = points(rec, h, order)
    if not ops:
        return rec.count('operations_not_seen')
    if fault == 'pair':
        return pair(case, rec, h, order, len(ops))
    mode, err = MODES[fault]
    todo = []
    for k, (op, size) in enumerate(ops):
        if fault == 'torn' and size >= 0:
            step = STRIDE[rec.tier] if size <= 4096 else max(1, size // 16)
            todo += [(k, t) for t in sorted(set(range(0, size, step)) | {1, size - 1, size})]
        elif fault == 'partial':
            if size >= 0:
                todo += [(k, t) for t in sorted({0, 1, size // 2, size - 1})]
        else:
            todo.append((k, 0))
    allowed = [a for a in (h['old'], h['new']) if a is not None]
    for n, (k, t) in enumerate(todo):
        if fault == 'torn' and n % SHARDS != case['shard']:
            continue
        d, path = fresh(rec, h)
        res = run(h['act'], path, order, mode, k, t, err)
        what = f"{case['history']}, listing order {order}, {fault} at operation {k} {ops[k]}, byte {t}: {res}"
        if res.startswith('signal'):
            rec.fail(what)
        judge(rec, path, h, res, allowed, h['new'], what, fault != 'torn')
        shutil.rmtree(d)
        rec.trace()
        rec.step()
        if fault not in ('kill', 'torn') or res == 'killed':
            rec.distinct((case['history'], order, fault, k, t))
        rec.count(f'{fault}_runs')
    rec.sample({'case': case, 'operations': ops[:12]}, 1)


def pair(case, rec, h, order, n_ops):
    """killed at i while writing, killed at j while overwriting what is left"""
    again = recs(NEW2, 2)

    def act2(p):
        create(p, again, 1, True)
    for i in range(n_ops):
        if i % SHARDS != case['shard']:
            continue
        d, path = fresh(rec, h)
        run(h['act'], path, order, 1, i)
        keep = path + '-kept'
        if os.path.isdir(path):
            shutil.copytree(path, keep)
        first = loaded(path, 'multi')
        for j in range(200):
            shutil.rmtree(path, ignore_errors=True)
            if os.path.isdir(keep):
                shutil.copytree(keep, path)
            res = run(act2, path, order, 1, j)
            what = f"{case['history']}, listing order {order}, killed at operation {i}, then at {j} of the next " \
                   f"creation: {res}"
            judge(rec, path, h, res, [a for a in (first, content(again)) if a is not None], content(again),
                  what, False)
            shutil.rmtree(path + '-copy0', ignore_errors=True)
            rec.trace()
            rec.step()
            if res == 'killed':
                rec.distinct((case['history'], order, 'pair', i, j))
            rec.count('pair_runs')
            if res == 'ok':
                break
        shutil.rmtree(d)


def before(case, rec):
    fail_db_first(case, rec)
