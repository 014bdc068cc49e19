"""C15: an interrupted run never leaves a model that loads wrongly.

Explored: histories of writing a model (saved to a path or string path, written by training, by the command,
by shrinking) of every kind, over nothing, over a longer and over a shorter model, and of nlcodec-learn with
its frequency files (fresh and over the files of an earlier run; counting itself is replaced by given counts).
A library preloaded under the Python process counts the file operations of the real code; for every operation
one run each is made in which the process is killed before it, killed after it or after every number of bytes
of a write reached the file, the operation fails once, fails from then on, or the disk is full after some
bytes.  Afterwards the model is loaded, and the run is repeated without a fault (nlcodec-learn: for every level).
"""
import contextlib
import os
import shutil
from pathlib import Path

from mc.common import *
from mc.checks.d04 import FAULTS, MODES, preload, run   # noqa: F401
from nlcodec import __main__ as MAIN

LEVEL = 'fault_enumeration'
CASE_TIMEOUT = 600
RULE = ('one evaluation is one run of a history with one fault at one file operation (or one byte of a write), '
        'followed by loading and running again; it is non-trivial when the fault happened, and distinct by '
        'history, kind of fault, operation and byte')
ASSUMPTIONS = ['a crash is the death of the process: what was written before stays (no power failure)',
               'operations fail with EIO or ENOSPC', 'the model file is given as a path']
STRIDE = {'quick': 8, 'thorough': 1}


def BOUNDS(tier):
    q = tier == 'quick'
    return {'histories': sorted(HISTORIES), 'kill points': 'before and after every file operation',
            'torn writes': f'every {STRIDE[tier]} byte(s) of every write',
            'errors': 'EIO once, EIO from then on, ENOSPC once, ENOSPC after a partial write (3 lengths)',
            'second runs': 'word, char, bpe after each faulty run of nlcodec-learn',
            'pairs of crashes': f'all pairs of kill points of nlcodec-learn, {1 if q else 3} first levels'}


TEXT = ['ab ab abc ab', 'abc b', '', 'cab abab é', 'a b c']
LONG = TEXT + [' '.join(f'w{i}' * (1 + i % 2) for i in range(14)), 'ab ab w1']
COUNTS = ({'ab': 5, 'abc': 3, 'b': 2, 'é': 1, 'abab': 1}, {'a': 10, 'b': 12, 'c': 3, 'é': 1}, 4)


def scheme(kind, lines):
    if kind == 'byte':
        return C.ByteScheme()
    return SCHEMES[kind](C.learn_vocab(list(lines), kind, None, {'bpe': 60}.get(kind, -1), min_freq=1,
                                       **({'min_co_ev': 1} if kind == 'bpe' else {})))


def main_learn(kind, lines, path):
    src = os.path.join(os.path.dirname(os.path.dirname(path)), 'text')
    with open(src, 'w', encoding='utf8') as f:
        f.writelines(x + '\n' for x in lines)
    argv = ['nlcodec', 'learn', '-i', src, '-m', str(path), '-l', kind, '-mf', '1']
    run_main(MAIN.main, argv + (['-vs', '60', '-mce', '1'] if kind == 'bpe' else []))


def route(how, kind, lines, path):
    """writes the model of these lines to the path"""
    if how == 'save':
        scheme(kind, lines).save(Path(path))
    elif how == 'str':
        scheme(kind, lines).save(str(path))
    elif how == 'train':
        C.learn_vocab(list(lines), kind, Path(path), {'bpe': 60}.get(kind, -1), min_freq=1,
                      **({'min_co_ev': 1} if kind == 'bpe' else {}))
    elif how == 'main':
        main_learn(kind, lines, path)
    elif how == 'shrink':
        src = os.path.join(os.path.dirname(os.path.dirname(path)), 'text')
        with open(src, 'w', encoding='utf8') as f:
            f.writelines(x + '\n' for x in lines[:2])
        scheme(kind, lines).shrink_vocab([Path(src)], 1, save_at=Path(path))


def H(how, kind, lines, old_kind=None, old=None):
    return dict(act=lambda p: route(how, kind, lines, p),
                prepare=(lambda p: route('save', old_kind, old, p)) if old else (lambda p: None))


HISTORIES = {}
for _k in ('word', 'char', 'bpe', 'class', 'byte'):
    HISTORIES[f'save {_k}'] = H('save', _k, TEXT)
    HISTORIES[f'train {_k} over a longer model'] = H('train', _k, TEXT, 'bpe', LONG)
    HISTORIES[f'command {_k} over a shorter model'] = H('main', _k, LONG, 'word', TEXT[:1])
HISTORIES['save bpe over bpe, string path'] = H('str', 'bpe', LONG, 'bpe', TEXT)
HISTORIES['shrink bpe'] = H('shrink', 'bpe', LONG)
HISTORIES['shrink word over a longer model'] = H('shrink', 'word', LONG, 'word', LONG)
HISTORIES['save over a damaged model'] = dict(
    act=lambda p: route('save', 'char', TEXT, p), prepare=lambda p: Path(p).write_text('#{"total": 3'))
LEVELS = {'word': [], 'char': [], 'bpe': ['-vs', '30', '-mce', '1']}
SHARDS = 4


def cases(tier):
    for name in HISTORIES:
        for fault in FAULTS:
            yield {'history': name, 'fault': fault}
    for a in LEVELS:
        for b in [None] + list(LEVELS):
            for fault in FAULTS:
                yield {'learn': a, 'after': b, 'fault': fault}
    for a in list(LEVELS)[:1 if tier == 'quick' else 3]:
        for s in range(SHARDS):
            yield {'pair': a, 'shard': s}


# ------------------------------------------------------------------ nlcodec-learn with given counts
class NoSession:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def spark_learn(level, path):
    from nlcodec import learn as LEARN
    from nlcodec import spark as SP
    from nlcodec import term_freq as TF

    def counts(*a, **k):
        return dict(COUNTS[0]), dict(COUNTS[1]), COUNTS[2]
    with contextlib.ExitStack() as st:
        st.enter_context(swapped(SP, session=lambda *a, **k: NoSession()))
        st.enter_context(swapped(TF, word_counts=counts))
        if hasattr(LEARN, 'word_counts'):
            st.enter_context(swapped(LEARN, word_counts=counts))
        run_main(LEARN.main, ['nlcodec-learn', '-i', '/dev/null', '-m', str(path), '-l', level, '-mf', '1',
                              '-cv', '1.0'] + LEVELS[level])


# ------------------------------------------------------------------ judging
def loaded(path):
    """None when loading fails, else what it gives"""
    try:
        s = C.load_scheme(Path(path))
    except Exception:
        return None
    return s.name, rows(s.table)


def place(rec):
    d = rec.tmp()
    os.mkdir(os.path.join(d, 'at'))
    return d, os.path.join(d, 'at', 'model')


def clean(rec, prepare, act):
    """(what loads before, what loads after, operations) of a run without faults"""
    d, path = place(rec)
    prepare(path)
    old = loaded(path)
    log = os.path.join(d, 'log')
    res = run(act, path, 0, 0, log=log)
    if res != 'ok':
        act(path)
        rec.fail(f'writing the model without any fault: {res}')
    new = loaded(path)
    if new is None:
        rec.fail('the model written without any fault does not load')
    ops = [(x.split()[0], int(x.split()[1])) for x in open(log)]
    shutil.rmtree(d)
    return old, new, ops


def points(ops, fault, tier):
    for k, (op, size) in enumerate(ops):
        if fault == 'torn' and size >= 0:
            for t in sorted(set(range(0, size, STRIDE[tier])) | {1, size - 1, size}):
                yield k, t
        elif fault == 'partial':
            if size > 0:
                for t in sorted({0, 1, size // 2, size - 1}):
                    yield k, t
        else:
            yield k, 0


def judge(rec, path, res, old, new, what):
    if res.startswith('signal'):
        rec.fail(what)
    got = loaded(path)
    if got is not None and got != old and got != new:
        rec.fail(f'{what}: the model loads with {len(got[1])} types as {got[0]}: {str(got[1])[-200:]}, the old one '
                 f'has {len(old[1]) if old else None}, the new one {len(new[1])}')
    if res == 'ok' and got != new:
        rec.fail(f'{what}: success is reported, but the model is {"missing" if got is None else "another one"}')
    rec.count('loads_nothing' if got is None else 'loads_new' if got == new else 'loads_old')


def before(case, rec):
    """something else fails first"""
    fail_first(case, rec, 2)


def check(case, rec):
    if 'pair' in case:
        return pair(case, rec)
    fault = case['fault']
    mode, err = MODES[fault]
    learn = case.get('learn')
    if learn:
        after = case['after']

        def prepare(p):
            if after:
                spark_learn(after, p)

        def act(p):
            spark_learn(learn, p)
        finals = finals_of(rec)
    else:
        prepare, act = HISTORIES[case['history']]['prepare'], HISTORIES[case['history']]['act']
    old, new, ops = clean(rec, prepare, act)
    if not ops:
        return rec.count('operations_not_seen')
    if learn and new != finals[learn]:
        rec.fail(f'nlcodec-learn for {learn} after {case["after"]} gives another model than a first run')
    for n, (k, t) in enumerate(points(ops, fault, rec.tier)):
        d, path = place(rec)
        prepare(path)
        res = run(act, path, 0, mode, k, t, err)
        what = f'{case}, operation {k} {ops[k]}, byte {t}: {res}'
        judge(rec, path, res, old, new, what)
        if not learn:
            act(path)
            if loaded(path) != new:
                rec.fail(f'{what}: written again, the model differs')
        else:
            for level in (LEVELS if fault != 'torn' else [list(LEVELS)[n % 3]]):
                copy = os.path.join(d, f'then-{level}')
                shutil.copytree(os.path.dirname(path), copy)
                try:
                    spark_learn(level, os.path.join(copy, 'model'))
                except Exception:
                    rec.count('second_run_fails')   # says so; nothing wrong is left
                    if loaded(os.path.join(copy, 'model')) not in (None, old, new):
                        rec.fail(f'{what}: the next run for {level} fails and leaves another model')
                    continue
                got = loaded(os.path.join(copy, 'model'))
                if got != finals[level]:
                    rec.fail(f'{what}: the next run for {level} gives {short(got)} instead of {short(finals[level])}')
        shutil.rmtree(d)
        rec.trace()
        rec.step()
        rec.state((str(case), k, t))
        if fault not in ('kill', 'torn') or res == 'killed':
            rec.distinct((str(case), k, t))
        rec.count(f'{fault}_runs')
    rec.sample({'case': case, 'operations': ops[:12]}, 1)


def finals_of(rec):
    """the models of first runs without faults"""
    out = {}
    for level in LEVELS:
        d, path = place(rec)
        spark_learn(level, path)
        out[level] = loaded(path)
        shutil.rmtree(d)
    return out


def pair(case, rec):
    """killed in the first run, killed in the second, the third one is complete; every change of level"""
    finals = finals_of(rec)
    a = case['pair']
    _, _, ops = clean(rec, lambda p: None, lambda p: spark_learn(a, p))
    if not ops:
        return rec.count('operations_not_seen')
    for i in range(len(ops)):
        if i % SHARDS != case['shard']:
            continue
        for b in LEVELS:
            for j in range(200):
                d, path = place(rec)
                run(lambda p: spark_learn(a, p), path, 0, 1, i)
                res = run(lambda p: spark_learn(b, p), path, 0, 1, j)
                what = f'{a} killed at operation {i}, {b} killed at {j}: {res}'
                got = loaded(path)
                if got is not None and got not in (finals[a], finals[b]):
                    rec.fail(f'{what}: the model loads as {short(got)}')
                for c in LEVELS:
                    copy = os.path.join(d, f'then-{c}')
                    shutil.copytree(os.path.dirname(path), copy)
                    try:
                        spark_learn(c, os.path.join(copy, 'model'))
                    except Exception:
                        rec.count('third_run_fails')
                        continue
                    if loaded(os.path.join(copy, 'model')) != finals[c]:
                        rec.fail(f'{what}: the next run for {c} gives {short(loaded(os.path.join(copy, "model")))}')
                shutil.rmtree(d)
                rec.trace()
                rec.step(3)
                rec.count('pair_runs')
                if res != 'ok':
                    rec.distinct((a, b, i, j))
                if res == 'ok':
                    break


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'
