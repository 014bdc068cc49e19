"""C01: every step of BPE training is a step of the greedy-merge transition system.

State: segmentation of all words.  Transition: merge one of the pairs of maximal count, everywhere,
left to right.  The implementation's table is replayed as a trace of that system (any maximal pair
is allowed, so tie-breaking is free); the end of the trace must be one of the allowed stops.
"""
import contextlib
import itertools
import time

from mc.common import *
from nlcodec import bpe as BPE

LEVEL = 'model_checking'
CASE_TIMEOUT = 120
ASSUMPTIONS = ['requested vocabulary size exceeds the initial vocabulary (smaller is rejected)',
               'characters cut by coverage act as the unknown symbol in the pair counts']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'one word': f'all words over a up to {40 if q else 90}, over ab up to {9 if q else 11}, '
                        f'over abc up to {6 if q else 7} characters, trained until no pair is left',
            'two words': f'all pairs over ab up to {4 if q else 5} chars, frequencies 1..3',
            'three words': f'all triples over ab up to {2 if q else 3} chars, frequencies 1..2; '
                           'four words up to 2 chars',
            'entry points': 'the scheme, learn_vocab (bpe, subword), BPELearn on a corpus',
            'stops': 'every vocabulary size from initial+1 to full+2 and every co-evidence 0..max+1',
            'clock': 'two thirds of the cases train under a clock that leaps or stands still',
            'ladder': 'pseudo-natural corpora up to thousands of words, long words, large '
                      'frequencies, odd characters, coverage cuts'}


FULL = 10 ** 9


def cases(tier):
    q = tier == 'quick'
    # A one word
    for n in range(1, (40 if q else 90) + 1):
        yield {'tf': [['a' * n, 2]], 'vs': FULL, 'mce': 1}
    for w in words('ab', 9 if q else 11):
        yield {'tf': [[w, 1]], 'vs': FULL, 'mce': 1}
    for w in words('abc', 6 if q else 7):
        yield {'tf': [[w, 1]], 'vs': FULL, 'mce': 1}
    # B two words with frequencies
    ws = list(words('ab', 4 if q else 5))
    for w1, w2 in itertools.combinations(ws, 2):
        for f1, f2 in ((1, 1), (1, 2), (2, 1), (3, 2)) if q else itertools.product((1, 2, 3), (1, 2, 3)):
            yield {'tf': [[w1, f1], [w2, f2]], 'vs': FULL, 'mce': 1}
    # C three / four words
    ws = list(words('ab', 2 if q else 3))
    for k in (3, 4):
        if k == 4:
            ws = list(words('ab', 2))
        for combo in itertools.combinations(ws, k):
            for fs in itertools.product((1, 2), repeat=k):
                yield {'tf': [[w, f] for w, f in zip(combo, fs)], 'vs': FULL, 'mce': 1}
    # order of the words in the input
    for combo in (['ab', 'ba', 'aab'], ['aba', 'bab', 'b'], ['abab', 'aa', 'bb']):
        for p in itertools.permutations(combo):
            yield {'tf': [[w, i + 1] for i, w in enumerate(p)], 'vs': FULL, 'mce': 1}
    # D stops
    stop_corpora = [[['aaaa', 2]], [['abab', 1]], [['aab', 3], ['ab', 1]], [['a', 5]],
                    [['abcab', 2], ['bca', 2], ['c', 1]], [['aaaaaaa', 1], ['aab', 4]]]
    for tf in stop_corpora:
        for extra in range(1, 12):
            for mce in (0, 1, 2, 3, 4, 5, 6, 7, 9):
                yield {'tf': tf, 'vs': -extra, 'mce': mce}      # -extra: initial size + extra
        for mce in (2, 3, 4, 6, 100):
            yield {'tf': tf, 'vs': 0, 'mce': mce, 'lines': True}
        # the other entry points
        for entry in ('bpe', 'subword', 'core'):
            for extra in (2, 4, 60):
                for mce in (1, 2, 5):
                    yield {'tf': tf, 'vs': -extra, 'mce': mce, 'entry': entry}
        for entry in ('bpe', 'subword'):
            for mce in (2, 3, 6):
                yield {'tf': tf, 'vs': -1 if mce == 3 else 0, 'mce': mce, 'entry': entry, 'cov': 1.0}
        yield {'tf': tf, 'vs': -1, 'mce': 1, 'entry': 'core'}
    # the learner itself: sequences of ids, with and without a frequency, empty ones among them
    for w1 in words('ab', 4):
        for w2 in ('', 'a', 'ab', 'bab') if q else words('ab', 4, 0):
            yield {'seqs': [w1, w2, '', w1], 'n': 3 if len(w1 + w2) % 2 else 99, 'mce': 1 + (len(w2) == 2)}
    # raw text instead of frequencies
    for tf in stop_corpora:
        for extra in (1, 3, 50):
            yield {'tf': tf, 'vs': -extra, 'mce': 1, 'lines': True}
    # E coverage cuts: some characters become unknown
    for cov in (0.3, 0.5, 0.7, 0.9, 0.99, 0.9995):
        for tf in ([['abcx', 5], ['ab', 20], ['zab', 1]], [['aaab', 9], ['xyxy', 1], ['xab', 2]],
                   [['abababab', 3], ['qab', 1], ['aqqb', 1], ['qqq', 2]]):
            yield {'tf': tf, 'vs': FULL, 'mce': 1, 'cov': cov}
    # words made of markers and odd characters
    for tf in ([['<unk>', 3], ['<s>', 2]], [['▁', 3], ['a▁b', 2], ['▁▁', 1]], [['<pad>x', 4]],
               [['e\u0301e\u0301', 2], ['éé', 2]], [['#{"a":1}', 2], ['#', 1]],
               [['\U0001F600\U0001F600', 3], ['\U0001F600a', 1]], [['0', 1], ['00', 2], ['000', 3]],
               [['İi', 2], ['ßss', 2], ['SSß', 1]], [['\u200b\u200b', 2]], [['</s></s>', 2]]):
        yield {'tf': tf, 'vs': FULL, 'mce': 1}
    # F ladder
    for f in (255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 53, 2 ** 53 + 1,
              2 ** 63, 2 ** 70):
        yield {'tf': [['abab', f], ['abc', f - 1], ['cab', 1]], 'vs': FULL, 'mce': 1}
        yield {'tf': [['abab', f], ['cdcd', f + 1], ['cab', 1]], 'vs': FULL, 'mce': f}
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 2500):
        yield {'tf': [['ab' * n, 2], ['a' * n, 1]], 'vs': FULL, 'mce': 1}
        yield {'tf': [[pseudo_words(n, 1, 'abc', n, n)[0], 1]], 'vs': -60, 'mce': 1}
    sizes = (20, 60, 150, 400, 1200, 3000) if q else (20, 60, 150, 400, 1200, 3000, 8000, 20000)
    for n in sizes:
        for alpha, ml, seed in (('ab', 8, 1), ('abcde', 12, 2), ('abcdefghijklmnopqrst', 10, 3)):
            yield {'gen': [n, alpha, ml, seed], 'vs': -min(n * 2, 700), 'mce': 1}
            yield {'gen': [n, alpha, ml, seed + 10], 'vs': FULL, 'mce': max(2, n // 25)}
            yield {'gen': [n, alpha, ml, seed + 20], 'vs': -150, 'mce': 2, 'lines': True}
    for n in (150, 1000, 2500, 6000) if q else (150, 1000, 2500, 6000, 12000, 25000):    # thousands of merges
        yield {'gen': [n, 'abcdefghij', 9, 7], 'vs': FULL, 'mce': 1}
    # wide alphabets: many symbols, hence many pairs of equal count
    for n in (100, 300, 1100):
        yield {'wide': n, 'vs': -80, 'mce': 1}
    for n in (10, 11, 100, 101, 300):
        yield {'chain': n, 'vs': FULL, 'mce': 1}
    if not q:
        for seed in range(60):
            yield {'gen': [200 + seed * 37, 'abcdefgh'[:2 + seed % 7], 5 + seed % 9, seed + 100],
                   'vs': -500, 'mce': 1}
        for w in words('ab', 13, 12):
            yield {'tf': [[w, 1]], 'vs': FULL, 'mce': 1}
        for w1, w2, w3 in itertools.combinations(list(words('ab', 3)), 3):
            yield {'tf': [[w1, 3], [w2, 1], [w3, 2]], 'vs': FULL, 'mce': 1}


def build_tf(case):
    if 'tf' in case:
        return [(w, f) for w, f in case['tf']]
    if 'wide' in case:
        n = case['wide']
        r = Lcg(n)
        return [(''.join(chr(0x4e00 + r(n)) for _ in range(2 + r(4))), 1 + r(3)) for _ in range(n)]
    if 'chain' in case:
        w = ''.join(chr(0x4e00 + i) for i in range(case['chain']))
        return [(w[:i], 1) for i in range(2, len(w) + 1)]
    n, alpha, ml, seed = case['gen']
    r = Lcg(seed)
    tf = {}
    for w in pseudo_words(seed, n, alpha, ml):
        tf[w] = tf.get(w, 0) + 1 + (r(50) if r(5) == 0 else 0)
    return list(tf.items())


def check_initial(table, tf, cov, line_count, rec):
    """reserved types, then the characters kept by coverage with their counts; returns how many"""
    counts = {}
    for w, f in tf:
        for ch in w + SPACE:
            counts[ch] = counts.get(ch, 0) + f
    rec.eq([t.name for t in table[:6]], RESERVED, 'reserved types')
    n = 6
    while n < len(table) and table[n].level == 0:
        n += 1
    chars = {t.name: t.freq for t in table[6:n]}
    rec.eq(len(chars), n - 6, 'number of distinct characters')
    for ch, f in chars.items():
        rec.true(counts.get(ch) == f and ch != SPACE, f'character {ch!r} recorded with {f}, '
                                                      f'counted {counts.get(ch)}')
    want = {c: f for c, f in counts.items() if c != SPACE}
    if cov >= 1:
        rec.eq(chars, want, 'initial characters')
    for t in table[n:]:
        rec.eq(t.level, 1, f'level of merged type {t.name!r}')
    return n


def verify(table, tf, vs, mce, cov, rec):
    """replays the table as a trace of the greedy-merge system; returns the size of the start"""
    if vs <= 0:
        vs = float('inf')
    n0 = check_initial(table, tf, cov, None, rec)
    for i, t in enumerate(table):
        rec.eq(t.idx, i, f'index of type {t.name!r}')
    rec.true(len(table) <= vs, f'{len(table)} types exceed the requested {vs}')
    index = {t.name: t.idx for t in table[:n0]}
    segs = [([index.get(ch, UNK) for ch in w + SPACE], f) for w, f in tf]
    counts = pair_counts(segs)
    small = len(tf) <= 4
    if small:
        rec.state(tuple(tuple(s) for s, _ in segs))
    # occurrences, to recount only what changed
    where = {}
    for wi, (s, _) in enumerate(segs):
        for p in zip(s, s[1:]):
            where.setdefault(p, set()).add(wi)
    for t in table[n0:]:
        kids = t.kids
        rec.true(kids is not None and len(kids) == 2, f'type {t} is not composed of two parts')
        a, b = kids[0].idx, kids[1].idx
        best = max(counts.values(), default=0)
        got = counts.get((a, b), 0)
        rec.true(a < t.idx and b < t.idx and table[a] is not None, 'parts precede the type')
        rec.true(got == best and got > 0,
                 f'merge #{t.idx - n0} joins {table[a].name!r}+{table[b].name!r} with count {got}, '
                 f'but the best pair has {best}')
        rec.true(t.freq == got, f'{t.name!r} recorded with {t.freq}, counted {got}')
        rec.true(t.name == table[a].name + table[b].name, f'text of the joined type {t}')
        rec.true(kids[0] == table[a] and kids[1] == table[b], f'parts of {t.name!r} differ from '
                                                              f'the table')
        rec.true(got >= mce, f'merged {t.name!r} of count {got} below co-evidence {mce}')
        for wi in list(where.get((a, b), ())):
            s, f = segs[wi]
            for p in zip(s, s[1:]):
                counts[p] -= f
                if not counts[p]:
                    del counts[p]
                where[p].discard(wi)
            s = apply_merge(s, a, b, t.idx)
            segs[wi] = (s, f)
            for p in zip(s, s[1:]):
                counts[p] = counts.get(p, 0) + f
                where.setdefault(p, set()).add(wi)
        rec.step()
        if small:
            rec.state(tuple(tuple(s) for s, _ in segs))
        else:
            rec.state((len(tf), t.idx, t.name, got))
    best = max(counts.values(), default=0)
    if len(table) < vs:
        rec.true(best == 0 or best < mce, f'stopped at {len(table)} types of {vs} although a pair '
                                          f'of count {best} is left (co-evidence {mce})')
    rec.count('stop_size' if len(table) == vs else 'stop_no_pair' if best == 0 else 'stop_evidence')
    return n0


def check_seqs(case, rec):
    """BPELearn on id sequences: a plain list counts once, a tuple brings its frequency"""
    table = make_table('char', 'ab')
    ids = {t.name: t.idx for t in table}
    seqs, segs = [], []
    for i, w in enumerate(case['seqs']):
        s = [ids[c] for c in w]
        f = (1, 3, 2, 1)[i]
        seqs.append((s, f) if f > 1 or i == 3 and len(w) % 2 else s)
        if s:
            segs.append((list(s), f))
    learner = BPE.BPELearn(iter(seqs), vocab=list(table))
    out = learner.learn_codes(case['n'], case['mce'], 1)
    what = f'BPELearn on {seqs} with {case["n"]} merges and co-evidence {case["mce"]}'
    rec.eq(rows(out[:len(table)]), rows(table), what + ': initial types')
    rec.true(len(out) <= len(table) + case['n'], f'{what}: {len(out) - len(table)} merges')
    for t in out[len(table):]:
        counts = pair_counts(segs)
        a, b = (k.idx for k in t.kids)
        best = max(counts.values(), default=0)
        rec.true(counts.get((a, b)) == best == t.freq and best >= case['mce'],
                 f'{what}: {t.signature()} recorded with {t.freq} and count {counts.get((a, b))}, best is {best}')
        rec.eq((t.name, t.level), (out[a].name + out[b].name, 1), what + ': merged type')
        segs = [(apply_merge(s, a, b, t.idx), f) for s, f in segs]
        rec.step()
        rec.state(repr(segs))
    best = max(pair_counts(segs).values(), default=0)
    rec.true(len(out) == len(table) + case['n'] or best == 0 or best < case['mce'],
             f'{what}: stopped although a pair of count {best} is left')
    rec.trace()


def clocks(case):
    """every third case is trained under the real clock, the others under one that leaps or stands still
    (progress reports depend on the time passed)"""
    k = len(repr(case)) % 3
    if not k:
        return contextlib.nullcontext()
    ticks = itertools.count(0, 7 if k == 1 else 0)
    tick = lambda: float(next(ticks))   # noqa
    return swapped(time, time=tick, perf_counter=tick, monotonic=tick)


def before(case, rec):
    """something else fails first"""
    fail_first(case, rec, 3)


def check(case, rec):
    with clocks(case):
        table, tf, vs, mce, cov, done = train(case, rec)
    if done:
        return
    n0 = verify(table, tf, vs, mce, cov, rec)
    rec.trace()
    if len(table) > n0 + 2:
        rec.sample({'case': case if 'tf' in case else str(case),
                    'merges': [(t.name, t.freq) for t in table[n0:n0 + 6]]})


def train(case, rec):
    """the trained table and what it was trained with; the last item is true if the case is decided"""
    if 'seqs' in case:
        check_seqs(case, rec)
        return None, None, None, None, None, True
    tf = list(dict(build_tf(case)).items())
    cov = case.get('cov', 1.0)
    n_chars = len({ch for w, _ in tf for ch in w} - {SPACE})
    vs, mce = case['vs'], case['mce']
    if vs < -1 or vs == -1 and 'entry' not in case:
        vs = 6 + n_chars - vs
    if case.get('lines') or case.get('entry'):
        data, per = [], 7
        flat = [w for w, f in tf for _ in range(min(f, 40))]
        tf = {}
        for w in flat:
            tf[w] = tf.get(w, 0) + 1
        tf = list(tf.items())
        data = [' '.join(flat[i:i + per]) for i in range(0, len(flat), per)]
        if case.get('entry') == 'core':
            table = BPE.BPELearn.learn_subwords_from_corpus(
                iter(data), vocab_size=vs, min_co_evidence=mce,
                init_vocab_factory=lambda chars: C.CharScheme.get_init_vocab(chars, coverage=cov, min_freq=1))
            if vs == -1:
                n = check_initial(table, tf, cov, None, rec)
                rec.eq(len(table), n, 'number of types of the initial vocabulary')
                rec.trace()
                return table, tf, vs, mce, cov, True
        elif case.get('entry'):
            table = C.learn_vocab(iter(data), case['entry'], None, vs, char_coverage=cov, min_co_ev=mce)
        else:
            table = C.BPEScheme.learn(data, vocab_size=vs, min_co_evidence=mce, coverage=cov)
    else:
        data = [f'{w}\t{f}' for w, f in tf]
        table = C.BPEScheme.learn(data, vocab_size=vs, min_co_evidence=mce, coverage=cov,
                                  term_freqs=True)
    return table, tf, vs, mce, cov, False
