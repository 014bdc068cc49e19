"""E03: BPE merge tracking equals recounting.

Explored: all lines up to length 5 (7) over {a, b} under tables of up to 3 merges chosen in every way (merges of
one symbol with itself, chains, merges over the space marker, pieces met in several ways), all pairs of
short lines, tables trained by the code on texts with runs of repeated symbols, all lines with symbols
outside the vocabulary; after every replayed merge the counts, the mean length and the imbalance are
compared with applying the merges so far to the text from scratch, and the codec with the codec of the
table up to that merge.
"""
import itertools
import os
import subprocess
import sys
from fractions import Fraction as F
from pathlib import Path

from mc.common import *
from mc.failing import fail_tools_first
from mc.core import short
from mc.pools import model_pools
from nlcodec.eval import bpe_len as L

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ["at least one line", "at least one merge", 'real numbers are compared to 1e-9']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'tables': f'all sequences of {2 if q else 3} merges over 2 characters and the space marker, '
            'and 6 trained tables of up to 60 merges', 'corpora': f'all lines up to length {5 if q else 7} over a and b (in one '
            f'corpus each of 1, 3 and all lines), lines of up to {2500 if q else 70000} repeated symbols and as many lines, lines of 33000 and 66000 symbols'}


def tables(n):
    """all merge lists of length n over a, b, ▁ (ids 6, 7, 5) and the pieces made before"""
    def rec_(ms):
        if len(ms) == n:
            yield list(ms)
            return
        have = [5, 6, 7] + [8 + i for i in range(len(ms))]
        for p in itertools.product(have, repeat=2):
            if p not in ms:
                yield from rec_(ms + [p])
    yield from rec_([])


def cases(tier):
    q = tier == 'quick'
    for n in (1, 2, 3):
        batch = []
        for i, ms in enumerate(tables(n)):
            if n == 3 and q and (ms[1][0] < 8 and ms[1][1] < 8 and ms[2][0] < 9 and ms[2][1] < 9):
                continue
            batch.append(ms)
            if len(batch) == 12:
                yield {'merges': batch}
                batch = []
        if batch:
            yield {'merges': batch}
    for k in range(6 if q else 24):
        yield {'trained': k}
    for n in [*range(2, 41, 1 if not q else 3), 100, 257, 1001, 2500] + ([] if q else [10000, 70000]):
        yield {'run': n}
    for n in (33000, 66000):
        for k in range(3):
            yield {'giant': n, 'table': k}
    for k in range(2):
        yield {'command': k}


def lines_up_to(n):
    out = ['']
    for k in range(1, n + 1):
        out += [''.join(t) for t in itertools.product('ab', repeat=k)]
    return out


def base_encode(table, line):
    """one id for every symbol (the starting vocabulary has pieces of one character only)"""
    names = {t.name: t.idx for t in table if t.level < 1}
    text = ''.join(w + SPACE for w in line.split()) or SPACE
    return [names.get(c, UNK) for c in text]


def model(table, merges, lines):
    """after 0, 1, .. merges: (vocabulary size, counts, mean length, imbalance)"""
    n0 = len(table) - len(merges)
    start = [base_encode(table, x) for x in lines]
    out = []
    for m in range(len(merges) + 1):
        seqs = []
        for s in start:
            for t in merges[:m]:
                s = apply_merge(s, t.kids[0].idx, t.kids[1].idx, t.idx)
            seqs.append(s)
        k = n0 + m
        stats = [0] * len(table)
        for s in seqs:
            for v in s:
                stats[v] += 1
        total = sum(stats)
        emd = F(sum(abs(c * k - total) for c in stats[:k]), 2 * k * total)
        out.append((k, stats, F(total, len(lines)), emd))
    return out


def track(rec, path, lines, table, merges, what):
    want = model(table, merges, lines)
    with model_pools(lambda n: 0):
        bpe = L.BPECodecXt(path)
        tracker = L.BpeTracker(bpe, iter(lines))
    res = tracker.track_merges()
    if len(res) != len(want):
        rec.fail(f'{what}: {len(res)} results for {len(merges)} merges')
    for m, ((k, emd, mean), w) in enumerate(zip(res, want)):
        if k != w[0] or abs(mean - float(w[2])) > 1e-9 or abs(emd - float(w[3])) > 1e-9:
            rec.fail(f'{what}: after {m} merges {(k, emd, mean)}, expected {w[0]} types, imbalance {w[3]}, '
                     f'mean length {w[2]}')
    got = [int(v) for v in tracker.uni]
    if got != want[-1][1]:
        rec.fail(f'{what}: counts after all {len(merges)} merges {got}, expected {want[-1][1]}')
    rec.trace()
    rec.step(len(merges))


def replay(rec, path, lines, table, merges, what):
    """after every replayed merge the codec is the codec of the table up to that merge"""
    bpe = L.BPECodecXt(path)
    n0 = len(table) - len(merges)
    for m in range(len(merges) + 1):
        if m:
            nxt = bpe.peek_merge()
            rec.eq((nxt.name, nxt.idx), (merges[m - 1].name, n0 + m - 1), f'{what}: the next merge after {m - 1}')
            got = bpe.merge()
            rec.eq((got.name, got.idx), (nxt.name, nxt.idx), f'{what}: merge {m}')
        rec.eq((len(bpe), bpe.merges_remaining(), bpe.total_types()), (n0 + m, len(merges) - m, len(table)),
               f'{what}: sizes after {m} merges')
        ref = C.BPEScheme(table[:n0 + m])
        for x in lines:
            got = bpe.encode(x)
            if got != ref.encode(x) or bpe.encode_str(x) != ref.encode_str(x) or bpe.decode(got) != ref.decode(got):
                rec.fail(f'{what}: after {m} merges {x!r} is {got}, the codec of {n0 + m} types gives {ref.encode(x)}')
    rec.trace()
    rec.step(len(merges))


def before(case, rec):
    fail_tools_first(case, rec)


def check(case, rec):
    q = rec.tier == 'quick'
    d = rec.tmp()
    path = os.path.join(d, 'm')
    if 'merges' in case:
        for ms in case['merges']:
            table = make_table('bpe', ['a', 'b'], [tuple(m) for m in ms])
            C.BPEScheme(table).save(path)
            merges = table[8:]
            lines = lines_up_to(5 if q else 7)
            short_ = lines_up_to(3)
            what = f'merges {ms}'
            track(rec, path, lines, table, merges, what)
            track(rec, path, [a + ' ' + b for a in short_ for b in short_], table, merges, what + ', lines of two words')
            if len(ms) < 3 or not q:
                for x in lines[:63]:
                    track(rec, path, [x], table, merges, f'{what}, line {x!r}')
                for i in range(0, len(lines) - 2, 3):
                    track(rec, path, lines[i:i + 3], table, merges, f'{what}, lines {lines[i:i + 3]}')
            replay(rec, path, lines[:31], table, merges, what)
            track(rec, path, ['xa', 'axa', 'aaxaa aa', '', 'ab▁ba'], table, merges, what + ', unknown symbols')
            rec.state(repr(ms))
        rec.sample({'merges': ms})
    elif 'trained' in case:
        k = case['trained']
        text = [' '.join(pseudo_words(k * 31 + i, 1 + i % 5, 'aab' if k % 2 else 'abcd', 9)) for i in range(60)]
        text += ['a' * (1 + i) for i in range(12)] + ['ab' * i for i in range(1, 8)]
        table = C.BPEScheme.learn(iter(text), vocab_size=30 + 12 * (k % 4), min_freq=1, coverage=1.0, min_co_evidence=1)
        C.BPEScheme(table).save(path)
        merges = [t for t in table if t.kids]
        for m in range(1, len(merges), 3):      # counts after every few merges
            part = table[:len(table) - len(merges) + m]
            C.BPEScheme(part).save(path)
            track(rec, path, text[::2], part, merges[:m], f'first {m} merges of trained table {k}')
        C.BPEScheme(table).save(path)
        replay(rec, path, text[::4], table, merges, f'trained table {k}')
        for lines in (text, text[:1], text[::-1][:15], [x for x in text if len(x) > 12], ['é' + x for x in text[:30]],
                      [x * 3 for x in text[60:72]]):
            track(rec, path, lines, table, merges, f'trained table {k}')
            rec.state((k, len(lines)))
    elif 'giant' in case:
        n, ms = case['giant'], ([(6, 6)], [(6, 7), (8, 8)], [(6, 6), (8, 8), (9, 7)])[case['table']]
        table = make_table('bpe', ['a', 'b'], ms)
        C.BPEScheme(table).save(path)
        track(rec, path, ['ab', 'aab' * (n // 3) + 'ab' * 40, 'b' * n + 'aaaa' * 9], table, table[8:], f'merges {ms}, lines of {n} symbols')
        rec.state((repr(ms), n))
    elif 'run' in case:
        n = case['run']
        for ms in ([(6, 6)], [(6, 6), (8, 8)], [(6, 6), (8, 6)], [(6, 6), (6, 8)], [(6, 6), (8, 8), (9, 9)],
                   [(6, 6), (8, 8), (9, 8), (10, 6)], [(6, 7), (8, 8)], [(6, 7), (8, 8), (9, 9)], [(6, 6), (7, 8), (9, 9)]):
            table = make_table('bpe', ['a', 'b'], ms)
            C.BPEScheme(table).save(path)
            for lines in (['a' * n], ['ab' * n], ['a' * n + 'b' + 'a' * (n - 1)], ['aab' * n, 'a' * n, 'b' + 'a' * n]):
                track(rec, path, lines, table, table[8:], f'merges {ms}, lines {short(lines)}')
                rec.state((repr(ms), n, len(lines[0])))
            if n > 40:
                for lines in (['ab'] * n, ['a', 'abab'] * n, ['x', 'b', '', 'aab aa'] * (n // 4)):
                    track(rec, path, lines, table, table[8:], f'merges {ms}, {len(lines)} lines {short(lines)}')
                    rec.state((repr(ms), n, len(lines)))
    else:
        command(rec, d, path, case['command'])


def command(rec, d, path, k):
    """the tool runs to its end with real processes"""
    table = make_table('bpe', ['a', 'b'], [(6, 6), (8, 7), (9, 5)])
    C.BPEScheme(table).save(path)
    text = os.path.join(d, 't')
    with open(text, 'w') as f:
        f.write('aab aa\nb\naaab\n' * (1 + k * 700))
    p = subprocess.run([sys.executable, '-m', 'nlcodec.eval.bpe_len', '-c', path, '-d', text], capture_output=True,
                       text=True, timeout=200)
    rec.eq(p.returncode, 0, f'exit code of bpe_len: {p.stderr[-600:]}')
    bpe = L.BPECodecXt(Path(path))
    lines = open(text).read().splitlines()
    tracker = L.BpeTracker(bpe, open(text))
    res = tracker.track_merges(do_log=True)
    for (n, emd, mean), w in zip(res, model(table, table[8:], lines)):
        rec.true(n == w[0] and abs(mean - float(w[2])) < 1e-9 and abs(emd - float(w[3])) < 1e-9,
                 f'real processes: {(n, emd, mean)}, expected {w}')
    rec.eq(len(res), 4, 'number of results')
    rec.trace()
    rec.step(3)
    rec.state(('command', k))
