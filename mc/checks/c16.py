"""C16: a codec may be shared by threads, and outlives interrupted calls.

Stateless model checking of the real code: the scheduler of mc/threads.py enumerates every schedule of two or three
calls on one codec object (and of trainings and loads in the same process) up to a number of preemptions, at every
line and at every bytecode instruction; each result must be the one the call gives alone.  And every call is
interrupted at every line and every instruction; what is called afterwards must give what it always gives.
"""
import io
import itertools
import os
import tempfile

from mc.common import *
from mc.core import short
from mc.threads import count_points, interrupted, schedules

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['threads switch between bytecode instructions of the repository\'s own code; calls into the interpreter, '
               'numpy and tqdm are atomic', 'random.random() is below every split ratio of 1']
KINDS = ['word', 'char', 'bpe', 'class', 'byte']
TEXT = {'bpe': ['ab b', 'b▁x', '', 'aba'], 'word': ['ab b', 'b x ab', '', 'a a'], 'char': ['a b', 'bx', '', ' a'],
        'class': ['ab', ' b', 'a', 'ab '], 'byte': ['aé', '', 'b\x00', '中']}
CORPUS = {'one': ['a b ab', 'ab ab b', 'a'], 'two': ['b b bb', 'cb bb', '']}


def BOUNDS(tier):
    q = tier == 'quick'
    return {'objects': 'one codec of each of the 5 kinds, fresh in every execution',
            'calls': 'encode, encode to pieces, decode, decode pieces, encode()/decode() of two lines, splitting at ratio '
                     '1, saving, shrinking, loading, training; all pairs, and three threads of encodes',
            'schedules': 'all with at most 1 preemption at every bytecode instruction; all with at most '
                         f'{2 if q else 3} preemptions at every line (of short calls); training and shrinking: 1, at every line',
            'one path': 'saves of one path by two threads, and a load of it meanwhile, over nothing and over a model',
            'interruptions': 'every call at every line and at every instruction, then every call again'}


def table_of(kind):
    if kind == 'byte':
        return None
    if kind == 'bpe':
        return make_table('bpe', ['▁a', 'a', 'b'][1:] + ['c'], [(6, 7), (9, 5), (6, 9), (6, 6)])
    if kind == 'char':
        return make_table('char', ['a', 'b'])
    return make_table(kind, ['ab', 'b', 'a'])


def calls(kind, s, dirs):
    """name -> call on the codec; the results are comparable values"""
    t = TEXT[kind]
    known = t[0]
    ids = s0[kind].encode(known)
    ids2 = s0[kind].encode(t[3])
    pcs = s0[kind].encode_str(known)
    out = {'encode 0': lambda: list(s.encode(t[0])), 'encode 1': lambda: list(s.encode(t[1])),
           'pieces': lambda: list(s.encode_str(t[3])), 'decode': lambda: s.decode(list(ids)),
           'decode 2': lambda: s.decode(list(ids2)), 'decode pieces': lambda: s.decode_str(list(pcs)),
           'encode lines': lambda: [list(x) for x in C.encode([t[0] + '\n', t[3] + '\n'], s, indices=True)],
           'decode lines': lambda: list(C.decode([' '.join(map(str, ids2)) + '\n', ' '.join(map(str, ids)) + '\n'], s,
                                                 indices=True)),
           'save': lambda: saved(s)}
    if kind == 'bpe':
        out['split'] = lambda: list(s.encode(t[0], split_ratio=1))
        out['split pieces'] = lambda: list(s.encode_str(t[3], split_ratio=1))
        out['table'] = lambda: [(r.get_permutations(), r.get_stochastic_split(split_ratio=1), r.signature())
                                for r in s.table[-2:]]
    return out


def heavy(kind, s, d):
    """calls of many steps: training, loading, shrinking, by name"""
    def load():
        x = C.load_scheme(io.StringIO(TABLES[kind]))
        return rows(x.table), list(x.encode(TEXT[kind][0]))

    def shrink():
        p = os.path.join(d, 'shrink.txt')
        return list(s.shrink_vocab([p], min_freq=1))

    def shrink_to():
        buf = io.StringIO()
        m = s.shrink_vocab([os.path.join(d, 'shrink.txt')], min_freq=1, save_at=buf)
        return list(m), buf.getvalue().split('\n', 1)[1]

    def train(which):
        def run():
            if kind == 'byte':
                return rows(SCHEMES[kind].learn(list(CORPUS[which])))
            return rows(SCHEMES[kind].learn(list(CORPUS[which]), vocab_size=13, min_freq=1,
                                            **({'min_co_evidence': 1} if kind == 'bpe' else {})))
        return run
    out = {'train one': train('one'), 'train two': train('two'), 'load': load}
    if kind not in ('class', 'byte'):
        out['shrink'] = shrink
        out['shrink to'] = shrink_to
    return out


def saved(s):
    buf = io.StringIO()
    s.save(buf)
    return buf.getvalue().split('\n', 1)[1]


def worker_setup(rec):
    global s0, TABLES, DIR
    s0 = {k: make_scheme(k, table_of(k)) for k in KINDS}
    TABLES = {}
    DIR = tempfile.mkdtemp(dir=rec.scratch)
    with open(os.path.join(DIR, 'shrink.txt'), 'w') as f:
        f.write('ab b\na\n')
    for k in KINDS:
        buf = io.StringIO()
        s0[k].save(buf)
        TABLES[k] = buf.getvalue()
        for d in (calls(k, s0[k], DIR), heavy(k, s0[k], DIR)):
            for f in d.values():
                f()


def cases(tier):
    q = tier == 'quick'
    for kind in ('bpe', 'class', 'word'):
        for calls in (['save 2', 'save 3'], ['save 3', 'save 3'], ['save 2', 'load'], ['save 2', 'save 3', 'load']):
            for over in (False, True):
                if len(calls) > 2 and kind != 'class':
                    continue
                yield {'path': calls, 'kind': kind, 'over': over, 'opcodes': False,
                       'preempt': 2 if not q or kind == 'class' and calls == ['save 2', 'save 3'] and not over else 1}
                if kind == 'class' and len(calls) < 3 or not q:
                    yield {'path': calls, 'kind': kind, 'over': over, 'opcodes': True, 'preempt': 1}
    for kind in KINDS:
        yield {'cut': kind}
        names = NAMES(kind)
        for a, b in itertools.combinations_with_replacement(names, 2):
            case = {'threads': [a, b], 'kind': kind, 'opcodes': True, 'preempt': 1}
            if a == b:      # the threads are alike
                case['first'] = 0
            if 'save' in (a, b) or q and kind == 'bpe' and 'lines' in a + b:
                case['opcodes'] = False
            if kind != 'byte' or 'save' not in (a, b):
                yield case
            if SHORT(kind, a) and SHORT(kind, b):
                yield {'threads': [a, b], 'kind': kind, 'opcodes': False, 'preempt': 2 if q else 3}
        yield {'threads': ['encode 0', 'encode 1', 'encode 0'], 'kind': kind, 'opcodes': False, 'preempt': 1 if q else 2}
        yield {'threads': ['encode 1', 'decode', 'pieces'], 'kind': kind, 'opcodes': False, 'preempt': 1 if q else 2}
        for a, b in [('train one', 'train two'), ('train one', 'train one'), ('train one', 'encode 0'), ('load', 'load'),
                     ('load', 'encode 0'), ('train two', 'load'), ('shrink', 'encode 0'), ('shrink', 'shrink'),
                     ('shrink to', 'encode 0'), ('shrink to', 'decode'), ('shrink', 'train two'), ('save', 'shrink to')]:
            if kind in ('class', 'byte') and 'shrink' in a + b or kind == 'byte' and a + b != 'loadencode 0':
                continue
            for first in (0, 1) if a != b else (0,):
                if kind == 'byte' and first == 0 and q:
                    continue
                yield {'threads': [a, b], 'kind': kind, 'opcodes': False, 'preempt': 1, 'first': first}


def NAMES(kind):
    n = ['encode 0', 'encode 1', 'pieces', 'decode', 'decode 2', 'decode pieces', 'encode lines', 'decode lines', 'save']
    return n + (['split', 'split pieces', 'table'] if kind == 'bpe' else [])


def SHORT(kind, name):
    return kind != 'bpe' and name not in ('save', 'encode lines', 'decode lines') \
        or name in ('decode', 'decode 2', 'decode pieces')


def long_table(kind, n):
    """of names so long that every row leaves the buffer of the file at once"""
    names = [c * 5000 + str(n) for c in 'abcd'[:n]]
    return make_table(kind, names) if kind != 'bpe' else make_table('bpe', [c for c in 'abcd'[:n]], [(6, 7), (8, 7)][:n - 1])


def one_path(case, rec):
    """saves to one path, and loads of it, at the same time"""
    kind = case['kind']
    schemes = {n: make_scheme(kind, long_table(kind, n)) for n in (2, 3, 4)}
    full = {n: rows(s.table) for n, s in schemes.items()}
    path = os.path.join(tempfile.mkdtemp(dir=DIR), 'model')

    def call(name):
        if name == 'load':
            return lambda: rows(C.load_scheme(path).table)
        return lambda: schemes[int(name[-1])].save(path)
    saves = {int(n[-1]) for n in case['path'] if n != 'load'}

    def make():
        if case['over']:
            schemes[4].save(path)
        elif os.path.exists(path):
            os.unlink(path)

        def judge(results, how):
            for n, r in zip(case['path'], results):
                if n != 'load':
                    if r[0] != 'ok':
                        rec.fail(f'{kind}: {n!r} fails while {case["path"]} run on one path: {short(r)}; schedule: {how()}')
                elif r[0] == 'ok' and r[1] not in [full[k] for k in saves | {4}]:
                    rec.fail(f'{kind}: a load while {case["path"]} run on one path gives neither the old nor a new model but '
                             f'{len(r[1])} rows; schedule: {how()}')
                elif r[0] != 'ok' and case['over']:
                    rec.fail(f'{kind}: a load while {case["path"]} run over a complete model fails: {short(r)}; schedule: {how()}')
            try:
                got = rows(C.load_scheme(path).table)
            except Exception as e:
                got = repr(e)[:200]
            if got not in [full[k] for k in saves]:
                rec.fail(f'{kind}: after {case["path"]} on one path it holds none of the models saved: {short(got)}; '
                         f'schedule: {how()}')
        return [call(n) for n in case['path']], judge
    n = schedules(make, case['preempt'], rec, opcodes=case['opcodes'], limit=60000)
    for i in range(n):
        rec.state((kind, 'path', tuple(case['path']), case['over'], case['opcodes'], i))


def check(case, rec):
    if 'path' in case:
        return one_path(case, rec)
    if 'cut' in case:
        return cuts(case['cut'], rec)
    kind = case['kind']
    want = {}
    for n in set(case['threads']):
        s = make_scheme(kind, table_of(kind))
        want[n] = {**calls(kind, s, DIR), **heavy(kind, s, DIR)}[n]()
    key = (kind, tuple(case['threads']))

    def make():
        s = make_scheme(kind, table_of(kind))
        c = {**calls(kind, s, DIR), **heavy(kind, s, DIR)}

        def judge(results, how):
            for n, r in zip(case['threads'], results):
                if r != ('ok', want[n]):
                    rec.fail(f'{kind}: {n!r} gives {short(r)} while the others of {case["threads"]} run; alone {short(want[n])}; '
                             f'schedule: {how()}')
            for n in want:
                if n in ('encode 0', 'decode', 'pieces', 'encode 1'):
                    after = c[n]()
                    if after != want[n]:
                        rec.fail(f'{kind}: after the threads {case["threads"]} {n!r} gives {short(after)}, '
                                 f'expected {short(want[n])}; schedule: {how()}')
        return [c[n] for n in case['threads']], judge
    n = schedules(make, case['preempt'], rec, opcodes=case['opcodes'], start=case.get('first'), limit=60000)
    rec.state(key + (case['opcodes'], n))
    for i in range(n):
        rec.state((key, case['opcodes'], case.get('first'), i))
    rec.sample({'kind': kind, 'threads': case['threads'], 'schedules': n})


def cuts(kind, rec):
    """every call ends by an interruption at every point; then all calls are right"""
    s = make_scheme(kind, table_of(kind))
    c = {**calls(kind, s, DIR), **heavy(kind, s, DIR)}
    want = {n: f() for n, f in c.items()}
    light = [n for n in NAMES(kind)]
    for n, f in c.items():
        for opcodes in (False, True):
            if kind == 'byte' and n in ('save', 'load'):
                continue        # one step for each of its 258 rows
            if opcodes and n in ('train one', 'train two', 'load', 'shrink', 'shrink to', 'save'):
                continue
            points, res = count_points(f, opcodes)
            rec.eq(res, want[n], f'{kind}: {n}')
            s2 = make_scheme(kind, table_of(kind))
            c2 = {**calls(kind, s2, DIR), **heavy(kind, s2, DIR)}
            for k in range(points):
                interrupted(c2[n], k, opcodes)
                rec.step()
                rec.trace()
                rec.count('interruptions')
                rec.state(('cut', kind, n, opcodes, k))
                for m in [n] + (light if n in light else ['encode 0', 'pieces', 'decode']):
                    got = c2[m]()
                    if got != want[m]:
                        rec.fail(f'{kind}: {m!r} gives {short(got)} after {n!r} was interrupted at its '
                                 f'{"instruction" if opcodes else "line"} {k}; expected {short(want[m])}')
    rec.sample({'interrupted': kind, 'calls': list(c)})
