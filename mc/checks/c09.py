"""C09: stochastic splits are exactly the valid ones.

Explored: every composition tree with up to 5 (6) leaves over two characters and shared parts; for
each, ALL sequences of random outcomes (the random source is replaced by the explorer), so the set
of reachable splits is computed, not sampled, and compared with the listed permutations.
"""
import itertools
import random

from mc.common import *
from mc.core import short
from mc.core import explore

LEVEL = 'model_checking'
ASSUMPTIONS = ['random() returns values of [0, 1); the explorer returns 0.0, the largest value below the '
               'ratio, the ratio itself and the largest value below 1', 'types composed over fewer than 900 levels']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'types': f'all binary trees with 2..{5 if q else 6} leaves over characters a, b, ▁ last, plus '
            'chains of 12, trees of 3 and 4 leaves doubled and tripled, balanced trees of 8 and 16 leaves, trained tables', 'random outcomes': 'all',
            'ratios': [0.0, 1e-9, 0.1, 0.5, 0.999999, 1.0],
            'lines': 'all over a, b, x, blank up to length 5 with all outcomes on small tables'}


def trees(n):
    if n == 1:
        yield 'a'
        yield 'b'
        return
    for i in range(1, n):
        for left in trees(i):
            for r in trees(n - i):
                yield (left, r)


def shapes(n):
    if n == 1:
        yield 'a'
        return
    for i in range(1, n):
        for left in shapes(i):
            for r in shapes(n - i):
                yield (left, r)


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5):
        for t in trees(n):
            yield {'tree': t}
    for n in (5,) if q else (5, 6):
        for t in shapes(n):
            yield {'tree': t, 'alt': True}
    for t in (((('a', 'b'), ('a', 'b')), (('b', 'a'), ('a', 'a'))), chain(10), chain(10, True)):
        yield {'tree': t}
    for t in list(trees(3)) + list(trees(4)):       # made of twice, or three times, the same
        yield {'tree': (t, t)}
        if t == tuple_(t) and len(str(t)) < 24:
            yield {'tree': ((t, t), t)}
    for t in ((('a', 'a'), ('a', 'a')), (('a', 'b'), ('a', 'b'))):
        yield {'tree': ((t, t), (t, t))}    # 677 splits
    for i in range(6):
        yield {'lines': i}
    for i in range(4):
        yield {'trained': i}


def chain(n, right=False):
    t = 'a'
    for k in range(n):
        c = 'ab'[k % 2]
        t = (c, t) if right else (t, c)
    return t


def build(tree, alt=False):
    """table holding the tree, parts shared by structure; returns (table, type)"""
    table = make_table('bpe', 'ab')
    memo = {'a': table[6], 'b': table[7]}
    n = [0]

    def go(t):
        if isinstance(t, str):
            if alt:
                n[0] += 1
                return memo['ab'[n[0] % 2]]
            return memo[t]
        left, right = go(t[0]), go(t[1])
        key = (left.idx, right.idx)
        if key not in memo:
            ty = C.Type(left.name + right.name, level=1, idx=len(table), freq=2, kids=(left, right))
            table.append(ty)
            memo[key] = ty
        return memo[key]
    return table, go(tuple_(tree))


def tuple_(t):
    return t if isinstance(t, str) else tuple(tuple_(x) for x in t)


def splits(t):
    """all valid splits of a type, by the definition"""
    out = [(t.idx,)]
    if t.kids:
        out += [x + y for x in splits(t.kids[0]) for y in splits(t.kids[1])]
    return out


HIGH = 1 - 2.0 ** -53


class FixedRandom:
    """random source whose every outcome is a choice of the explorer"""

    def __init__(self, ch, values):
        self.ch, self.values, self.calls = ch, values, 0

    def __call__(self, *a):
        self.calls += 1
        return self.values[self.ch.choose(len(self.values))]


SEAM = [0]     # draws seen; without any, the code draws elsewhere and only validity is judged


def with_random(fn, values, rec, limit=None):
    """all results of fn over all random outcomes"""
    def run(ch):
        src = FixedRandom(ch, values)
        inst = getattr(random, '_inst', None)      # random.uniform() and others draw from it
        with swapped(random, random=src):
            if inst is not None:
                inst.random = src
            try:
                r = fn()
            finally:
                if inst is not None:
                    del inst.random
        SEAM[0] += src.calls
        rec.count('random_draws', src.calls)
        return r
    random.seed(0)
    yield from explore(run, limit=limit, rec=rec)


def below(x):
    import math
    return math.nextafter(x, 0.0)


def check_type(table, t, rec):
    names = [x.name for x in table]
    want = splits(t)
    perms = [tuple(p) for p in t.get_permutations()]
    rec.eq(sorted(perms), sorted(want), f'permutations of {t.signature()}')
    rec.true(len(set(perms)) == len(perms), f'{t.name!r}: a permutation is listed twice')
    pn = [tuple(p) for p in t.get_permutations(name=True)]
    rec.eq(pn, [tuple(names[i] for i in p) for p in perms], f'permutations of {t.name!r} by name')
    leaves = tuple(leaf_ids(t))
    for ratio in (0.5, 0.1, 1e-9, 0.999999):
        reached = set()
        for choices, r in with_random(lambda: t.get_stochastic_split(split_ratio=ratio), [0.0, HIGH], rec):
            r = tuple(r)
            rec.true(''.join(names[i] for i in r) == t.name, f'{t.name!r} split into {r}')
            reached.add(r)
            rec.trace()
            rec.state((t.name, r))
        rec.true(reached <= set(want), f'{t.signature()} is split into {sorted(reached - set(want))}')
        if t.kids and not SEAM[0]:
            rec.count('seam_not_hit')
            continue
        rec.eq(sorted(reached), sorted(set(want)), f'reachable splits of {t.signature()} at {ratio}')
        # boundary outcomes
        for v, split in ((below(ratio), True), (ratio, False), (HIGH, False), (0.0, True)):
            for _, r in with_random(lambda: t.get_stochastic_split(split_ratio=ratio), [v], rec):
                rec.eq(tuple(r), leaves if split else (t.idx,), f'{t.name!r} at ratio {ratio}, draws {v}')
                rec.trace()
    for _, r in with_random(lambda: t.get_stochastic_split(split_ratio=0.0), [0.0, HIGH], rec):
        rec.eq(tuple(r), (t.idx,), f'{t.name!r} at ratio 0')
    for _, r in with_random(lambda: t.get_stochastic_split(split_ratio=1.0, name=True), [0.0, HIGH], rec):
        rec.eq(tuple(r), tuple(names[i] for i in leaves), f'{t.name!r} at ratio 1')
    if t.kids and not SEAM[0]:
        return
    reached = {tuple(r) for _, r in with_random(lambda: t.get_stochastic_split(name=True, split_ratio=0.3),
                                                [0.0, HIGH], rec)}
    rec.eq(sorted(reached), sorted({tuple(names[i] for i in p) for p in want}), f'{t.name!r} by name')


def leaf_ids(t):
    if not t.kids:
        return [t.idx]
    return leaf_ids(t.kids[0]) + leaf_ids(t.kids[1])


LINE_TABLES = [[(6, 7)], [(6, 6), (8, 8)], [(6, 7), (8, 5)], [(6, 7), (7, 6), (8, 6), (6, 9)], [(7, 5), (6, 8)],
               [(6, 7), (8, 8), (9, 5)]]


def before(case, rec):
    """something else fails first"""
    fail_first(case, rec, 3)


def check(case, rec):
    SEAM[0] = 0
    if 'tree' in case:
        table, t = build(case['tree'], case.get('alt'))
        check_type(table, t, rec)
        rec.eq(len(set(rows(table))), len(table), 'table intact')
        rec.sample({'type': t.signature(), 'splits': sorted(splits(t))[:8]})
        return
    if 'lines' in case:
        table = make_table('bpe', 'ab', LINE_TABLES[case['lines']])
        scheme = C.BPEScheme(table)
        names = {x.name for x in table}
        lines = list(words('abx ', 5, 0)) + ['ab ab ab', 'abab aba']
        plain = {ln: (scheme.encode(ln), scheme.decode(scheme.encode(ln))) for ln in lines}
        for ln in lines:
            ids0, text0 = plain[ln]
            # every split of every token of the line is reachable, and nothing else
            # (types of the same text are interchangeable)
            wants = []
            alts = [[t for t in table if t.name == table[i].name] for i in ids0]
            for combo in itertools.product(*alts):
                want = {()}
                for t in combo:
                    want = {w + s for w in want for s in splits(t)}
                wants.append(sorted({tuple(table[i].name for i in w) for w in want}))
            if max(map(len, wants)) > 200:
                continue
            reached = set()
            for _, ids in with_random(lambda: scheme.encode(ln, split_ratio=0.4), [0.0, HIGH], rec):
                rec.true(scheme.decode(list(ids)) == text0, f'{ln!r} split into {ids} decodes to '
                         f'{scheme.decode(list(ids))!r}, unsplit to {text0!r}')
                reached.add(tuple(table[i].name for i in ids))
                rec.trace()
                rec.state((case['lines'], ln, tuple(ids)))
            rec.true(sorted(reached) in wants or not SEAM[0], f'reachable splits of line {ln!r} are {sorted(reached)}, '
                                               f'expected {wants[0]}')
            reached = set()
            for _, ps in with_random(lambda: scheme.encode_str(ln, split_ratio=0.4), [0.0, HIGH], rec):
                rec.true(all(p in names for p in ps), f'{ln!r}: pieces {ps}')
                reached.add(tuple(ps))
            rec.true(sorted(reached) in wants or not SEAM[0], f'reachable piece splits of line {ln!r} are '
                                               f'{sorted(reached)}, expected {wants[0]}')
            whole = [[table[x].name for t in combo for x in leaf_ids(t)]
                     for combo in itertools.product(*alts)]
            for ratio, which in ((0.0, [[table[i].name for i in ids0]]), (1.0, whole)):
                for _, ids in with_random(lambda: scheme.encode(ln, split_ratio=ratio), [0.0, HIGH], rec):
                    rec.true([table[i].name for i in ids] in which, f'{ln!r} at ratio {ratio}: {ids}')
            # splitting leaves no trace in the codec
            rec.true(scheme.encode(ln) == ids0, f'{ln!r} encodes differently after a split encoding')
        return
    i = case['trained']
    ws = pseudo_words(i, 300, 'abcde'[:2 + i], 9)
    text = [' '.join(ws[j:j + 9]) for j in range(0, len(ws), 9)]
    table = C.BPEScheme.learn(text, vocab_size=60 + 20 * i, min_co_evidence=1, coverage=1.0)
    scheme = C.BPEScheme(table)
    r = Lcg(i)
    for t in table:
        if len(splits(t)) <= 40:
            check_type(table, t, rec)
    whole = ' '.join(text)
    by_name = {t.name: t.idx for t in table}

    def follows(t, seq, pos):
        """position after the split of t that starts at pos, -1 if there is none"""
        if pos < 0 or pos >= len(seq):
            return -1
        if by_name[table[seq[pos]].name] == by_name[t.name]:
            return pos + 1
        return follows(t.kids[1], seq, follows(t.kids[0], seq, pos)) if t.kids else -1
    for ln in text + [whole, whole * 8, text[0].replace(' ', '') * 300]:
        base = scheme.encode(ln)
        for ratio in (0.05, 0.5, 0.95, 1.0):
            with swapped(random, random=lambda: r(1 << 24) / (1 << 24)):
                ids = scheme.encode(ln, split_ratio=ratio)
                ps = scheme.encode_str(ln, split_ratio=ratio)
            rec.eq(scheme.decode(list(ids)), normal(ln), f'{ln!r} split at {ratio}')
            rec.eq(scheme.decode_str(list(ps)), normal(ln), f'pieces of {ln!r} split at {ratio}')
            for seq in (ids, [by_name[p] for p in ps]):
                pos = 0
                for b in base:
                    pos = follows(table[b], seq, pos)
                if pos != len(seq):
                    rec.fail(f'{short(ln)} ({len(base)} tokens) split at {ratio} into {short(seq)}, which are not splits of its tokens')
            rec.trace()
            rec.step()
