"""C02: training is a function of data and settings.

Everything the run could depend on besides its input is put under control of the explorer: the
hash order of the linked-list nodes (all permutations for small corpora, structured ones above),
the string-hash seed (fresh processes), the wall clock, the form in which the lines arrive, and
what was trained before in the same process (all ordered histories of two other trainings).
"""
import hashlib
import io
import itertools
import json
import subprocess
import sys
import time

from mc.common import *
from mc.core import REPO, VERIF

LEVEL = 'model_checking'
CASE_TIMEOUT = 400
ASSUMPTIONS = ['string-hash seeds are a finite list (each in a fresh process); node-hash orders are '
               'exhaustive only up to the stated number of nodes']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'node hash orders': f'all permutations up to {6 if q else 7} nodes, 16 structured '
                                'orders for larger corpora',
            'string hash seeds': 24 if q else 120, 'clocks': 4, 'data forms': 6,
            'histories': 'all ordered pairs of 6 other trainings before the one compared'}


def small_corpora():
    yield from ({'aaa': 1}, {'aaaa': 2}, {'aaaaa': 1}, {'abab': 1}, {'aabb': 2, 'ab': 1},
                {'aaaaaa': 1}, {'ab': 2, 'ba': 2}, {'a': 1, 'b': 1, 'c': 1}, {'aba': 3, 'b': 1},
                {'abaa': 1}, {'aabaa': 1})


def learn_case(kind, lines, **kw):
    return {'kind': kind, 'lines': lines, 'kw': kw}


def corpora():
    """(kind, lines, settings) for the environment variations"""
    txt = ['aaaa aaaa abab', 'b aab baa', '', 'aaaa cab  cab', 'zz yy xx ww', 'yy zz ww xx', 'é 中 éé',
           '<unk> <s> a', 'a▁b', '  ']
    yield learn_case('bpe', txt, vocab_size=60, min_co_evidence=1, coverage=1.0)
    yield learn_case('bpe', txt, vocab_size=30, min_co_evidence=2, coverage=0.9)
    yield learn_case('bpe', txt * 3, vocab_size=0, min_co_evidence=3, coverage=0.99)
    yield learn_case('word', txt, vocab_size=0, min_freq=1)
    yield learn_case('word', txt, vocab_size=9, min_freq=1)
    yield learn_case('word', txt, vocab_size=0, min_freq=2)
    yield learn_case('word', txt, vocab_size=0, min_freq=1, coverage=0.5)
    yield learn_case('char', txt, vocab_size=0, min_freq=1, coverage=1.0)
    yield learn_case('char', txt, vocab_size=10, min_freq=1, coverage=0.9)
    yield learn_case('char', txt, vocab_size=0, min_freq=3, coverage=0.8)
    yield learn_case('class', txt)
    yield learn_case('class', ['b', 'a', 'c', 'a', 'B', 'é', '中', '10', '9'])
    yield learn_case('byte', txt)
    ws = pseudo_words(5, 400, 'abcdef', 9)
    lines = [' '.join(ws[i:i + 9]) for i in range(0, len(ws), 9)]
    yield learn_case('bpe', lines, vocab_size=200, min_co_evidence=1, coverage=1.0)
    yield learn_case('bpe', ['a' * n for n in range(1, 40)], vocab_size=60, min_co_evidence=1,
                     coverage=1.0)
    yield learn_case('word', lines, vocab_size=100, min_freq=2)
    yield learn_case('char', lines, vocab_size=0, min_freq=1, coverage=0.95)
    yield learn_case('bpe', [f'{w}\t{i % 3 + 1}' for i, w in enumerate(dict.fromkeys(ws))],
                     vocab_size=100, min_co_evidence=2, coverage=1.0, term_freqs=True)
    yield learn_case('word', [f'{w}\t{i % 3 + 1}' for i, w in enumerate(dict.fromkeys(ws))],
                     vocab_size=50, min_freq=1, term_freqs=True)
    ws = pseudo_words(11, 5000, 'abcdefghij', 9)        # many ties among thousands of types
    lines = [' '.join(ws[i:i + 12]) for i in range(0, len(ws), 12)]
    yield learn_case('bpe', lines, vocab_size=1500, min_co_evidence=1, coverage=1.0)
    yield learn_case('word', lines, vocab_size=0, min_freq=1)
    yield learn_case('word', lines, vocab_size=1400, min_freq=1)
    distinct = [f'w{k * 7 % 3001}' for k in range(3001)]
    for n in (9, 33, 65, 129, 257, 513, 1025, 3001):    # long lines whose words are all as frequent
        yield learn_case('word', [' '.join(distinct[:n])], vocab_size=0, min_freq=1)
        yield learn_case('word', [' '.join(distinct[:n]) + ' x x y y', 'z'] * 2, vocab_size=n // 2 + 6, min_freq=1)
        yield learn_case('char', [''.join(chr(0x4e00 + k * 7 % 3001) for k in range(n))], vocab_size=0, min_freq=1,
                         coverage=0.9)
        yield learn_case('bpe', [' '.join(distinct[:n])], vocab_size=40, min_co_evidence=1, coverage=1.0)
    wide = [''.join(chr(0x4e00 + (k * k + j) % 3000) for j in range(5)) for k in range(2500)]
    yield learn_case('char', wide, vocab_size=0, min_freq=1, coverage=0.97)
    yield learn_case('bpe', wide, vocab_size=4000, min_co_evidence=1, coverage=1.0)
    yield learn_case('class', wide)


def train(case, data=None):
    data = list(case['lines']) if data is None else data
    if 'direct' in case:
        from nlcodec.bpe import BPELearn
        tf = dict(case['direct'])

        def init(chars):
            return C.CharScheme.get_init_vocab(chars, coverage=1.0, min_freq=1)
        return rows(BPELearn.learn_subwords(tf, vocab_size=case['vs'], min_co_evidence=1,
                                            init_vocab_factory=init))
    return rows(SCHEMES[case['kind']].learn(data, **case['kw']))


def train_entry(case, data, model=None):
    """the same training by the entry point learn_vocab"""
    kw = dict(case['kw'])
    args = {'vocab_size': kw.get('vocab_size', 0), 'min_freq': kw.get('min_freq', 1),
            'term_freqs': kw.get('term_freqs', False)}
    if 'coverage' in kw:
        args['char_coverage'] = kw['coverage']
    if 'min_co_evidence' in kw:
        args['min_co_ev'] = kw['min_co_evidence']
    return rows(nlcodec.learn_vocab(inp=data, level=case['kind'], model=model, **args))


def digest(r):
    return hashlib.sha1(repr(r).encode()).hexdigest()


def cases(tier):
    q = tier == 'quick'
    for tf in small_corpora():
        n = sum(len(w) + 1 for w in tf)
        yield {'mode': 'hash', 'tf': list(tf.items()), 'perms': 'all' if n <= (6 if q else 7) else 'some'}
    for i, c in enumerate(corpora()):
        yield {'mode': 'hash-structured', 'corpus': i}
        yield {'mode': 'clock', 'corpus': i}
        yield {'mode': 'forms', 'corpus': i}
        yield {'mode': 'history', 'corpus': i}
    n = 24 if q else 120
    step = 3 if q else 6
    for s in range(0, n, step):
        yield {'mode': 'seeds', 'seeds': [7 * k * k + k + 1 for k in range(s, s + step)]}


class NodeHash:
    """gives every linked-list node a hash from an enumerated order"""

    def __init__(self, order):
        self.order = order       # function n -> hash
        self.map = {}
        self.keep = []

    def __enter__(self):
        from nlcodec import dstruct
        self.cls = dstruct.LnNode
        self.had = self.cls.__dict__.get('__hash__')
        me = self

        def node_hash(node):
            k = me.map.get(id(node))
            if k is None:
                k = len(me.keep)
                me.map[id(node)] = k
                me.keep.append(node)
            return me.order(k)
        self.cls.__hash__ = node_hash
        return self

    def __exit__(self, *a):
        self.cls.__hash__ = self.had


def orders():
    yield lambda k: k
    yield lambda k: 10 ** 9 - k
    yield lambda k: k ^ 1
    yield lambda k: k ^ 2
    yield lambda k: k ^ 3
    yield lambda k: k ^ 7
    for m in (3, 5, 7, 11, 13, 101):
        yield lambda k, m=m: (k * m) % 1000003
    yield lambda k: (k * 2654435761) & 0xffffffff
    yield lambda k: -(k * 16) - 7
    yield lambda k: int(f'{k:020b}'[::-1], 2)
    yield lambda k: (k * k * 31 + 17 * k) * 4093 + k


def before(case, rec):
    """something else fails first"""
    fail_first(case, rec, 2)


def check(case, rec):
    mode = case['mode']
    if mode == 'hash':
        tf = [(w, f) for w, f in case['tf']]
        c = {'direct': tf, 'vs': 10 ** 6, 'lines': []}
        base = train(c)
        n = sum(len(w) + 1 for w, _ in tf)
        if case['perms'] == 'all':
            space = (list(p) for p in itertools.permutations(range(n)))
        else:
            space = [list(range(n))[::-1]] + [[(k * m + s) % n for k in range(n)]
                                             for m in range(1, n) for s in range(n)
                                             if all((k * m) % n for k in range(1, n))] \
                + [[k ^ x for k in range(n)] for x in (1, 2, 3, 4, 5, 6, 7)]
        for perm in space:
            with NodeHash(lambda k: perm[k] if k < len(perm) else 1000 + k) as nh:
                got = train(c)
            rec.count('hash_orders')
            rec.count('nodes_hashed', len(nh.keep))
            rec.trace()
            rec.step(len(got))
            rec.state((tuple(tf), tuple(perm)))
            rec.eq(got, base, f'types trained with node hash order {perm}')
        rec.sample({'words': tf, 'types': [r[1] for r in base[6:]], 'hash orders': case['perms']})
        return
    if mode == 'seeds':
        base = [digest(train(c)) for c in corpora()]
        for s in case['seeds']:
            code = ('import sys,json; sys.dont_write_bytecode=True\n'
                    'from mc.checks import c02\n'
                    'print(json.dumps([c02.digest(c02.train(c)) for c in c02.corpora()]))')
            env = dict(os.environ, PYTHONHASHSEED=str(s), PYTHONPATH=REPO + os.pathsep + VERIF)
            p = subprocess.run([sys.executable, '-B', '-c', code], env=env, cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            rec.true(p.returncode == 0, f'training failed in a fresh process: {p.stderr[-800:]}')
            got = json.loads(p.stdout.decode().strip().splitlines()[-1])
            for i, (c, g, w) in enumerate(zip(corpora(), got, base)):
                rec.trace()
                rec.step()
                rec.state(('seed', s, i))
                rec.true(g == w, f'training {c["kind"]} {c["kw"]} gives other types in a process '
                                 f'with string-hash seed {s}')
        return
    c = list(corpora())[case['corpus']]
    base = train(c)
    if mode == 'hash-structured':
        for j, o in enumerate(orders()):
            with NodeHash(o):
                got = train(c)
            rec.trace()
            rec.step()
            rec.state(('order', case['corpus'], j))
            rec.eq(got, base, f'types trained with node hash order #{j}')
    elif mode == 'clock':
        for j, clock in enumerate((lambda: 0.0, iter(range(0, 10 ** 9, 10)).__next__,
                                   iter(range(10 ** 9, 0, -10)).__next__,
                                   itertools.cycle([0.0, 5.0, 1e9, -3.0]).__next__)):
            with swapped(time, time=lambda: float(clock()), perf_counter=lambda: float(clock()),
                         monotonic=lambda: float(clock())):
                got = train(c)
            rec.trace()
            rec.step()
            rec.state(('clock', case['corpus'], j))
            rec.eq(got, base, f'types trained under clock #{j}')
    elif mode == 'forms':
        d = rec.tmp()
        lines = c['lines']
        p = os.path.join(d, 'f.txt')
        with open(p, 'w', encoding='utf8', newline='\n') as f:
            f.writelines(ln + '\n' for ln in lines)
        forms = {'tuple': lambda: tuple(lines), 'iterator': lambda: iter(list(lines)),
                 'generator': lambda: (ln for ln in lines), 'map': lambda: map(str, lines),
                 'lines with breaks': lambda: [ln + '\n' for ln in lines],
                 'file': lambda: open(p, encoding='utf8', newline='\n'),
                 'StringIO': lambda: io.StringIO(''.join(ln + '\n' for ln in lines))}
        entry = None if c['kind'] == 'word' and 'coverage' in c['kw'] else train_entry(c, list(lines))
        for name, make in forms.items():
            data = make()
            got = train(c, data)
            if hasattr(data, 'close'):
                data.close()
            rec.trace()
            rec.step()
            rec.state(('form', case['corpus'], name))
            rec.eq(got, base, f'types trained from a {name} (expected: as from a list)')
            if c['kind'] == 'word' and 'coverage' in c['kw']:
                continue    # the entry point has no coverage for words
            model = os.path.join(d, 'model')
            for m in (None, model):
                data = make()
                got = train_entry(c, data, m)
                if hasattr(data, 'close'):
                    data.close()
                rec.trace()
                rec.eq(got, entry, f'types learn_vocab trains from a {name} (expected: as from a list)')
            got = [x[:3] for x in rows(C.load_scheme(model).table)]
            rec.eq(got, [x[:3] for x in entry], f'types in the model learn_vocab wrote from a {name}')
        # the caller's data must not have been used up or altered
        rec.eq(list(c['lines']), list(corpora())[case['corpus']]['lines'], 'caller data')
    elif mode == 'history':
        others = [list(corpora())[k] for k in (0, 3, 8, 10, 12, 14)]
        for a, b in itertools.product(others, others):
            train(a)
            train(b)
            got = train(c)
            rec.trace()
            rec.step(3)
            rec.state(('history', case['corpus'], repr(a)[:80], repr(b)[:80]))
            rec.eq(got, base, f'types trained after {a["kind"]} and {b["kind"]} trainings')
        for k in range(50):
            fail_training(k)
            rec.eq(train(c), base, f'types trained after a training that failed or was interrupted (number {k})')
            rec.trace()
            rec.state(('after failure', case['corpus'], k))
