"""C08: shrinking keeps exactly what is needed.

Explored: tables x file sets x thresholds, all combinations of a bounded family, on one codec object
that is shrunk again and again (shrinking must not change it), with the saved model reloaded.
"""
import gzip
import itertools
from pathlib import Path

from mc.common import *

LEVEL = 'model_checking'
ASSUMPTIONS = ['files of the byte codec: the line feed ending a line may be counted or not',
               'files of the class codec contain known labels']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'tables': f'all BPE tables of up to {2 if q else 3} merges over {{a, b, ▁}}, all subsets of word / '
            'character / label symbols, byte, trained tables of up to 500 types',
            'files': '1..3 plain or gzip files with up to 6 lines from a fixed family (blank lines, unknown '
            'symbols, every piece of the table)', 'large': 'lines and counts up to 65536 (thorough: 10**6), thresholds around each', 'thresholds': [0, 1, 2, 3, 5, 100]}


def cases(tier):
    q = tier == 'quick'
    from mc.checks.c03 import merge_seqs
    for n in range(0, 3 if q else 4):
        for seq in merge_seqs(n):
            yield {'kind': 'bpe', 'merges': seq}
    for m in ([(6, 7), (8, 8), (9, 9), (10, 5)], [(6, 6), (6, 6), (8, 7), (9, 7)], [(6, 7), (8, 5), (9, 9)],
              [(7, 5), (6, 8), (6, 9), (10, 10), (6, 6)]):
        yield {'kind': 'bpe', 'merges': m}
    for kind, syms in (('word', ['a', 'ab', 'b', 'é', '#']), ('char', list('abé#1')),
                       ('class', ['a', 'b c', '', '#', 'é'])):
        for k in range(1, len(syms) + 1):
            for sub in itertools.combinations(syms, k):
                yield {'kind': kind, 'syms': sorted(sub)}
    yield {'kind': 'byte'}
    for n in (127, 255, 256, 1000, 4096, 65535, 65536) + (() if q else (10 ** 6,)):
        for kind in ('bpe', 'word', 'char', 'class', 'byte'):
            yield {'kind': kind, 'large': n}
    for i in range(6 if q else 20):
        yield {'kind': 'bpe', 'trained': i}
        yield {'kind': 'word', 'trained': i}


TEXTS = [['a'], [''], ['ab ab', 'b'], ['aab abab', '', 'x'], ['aaaa', 'bbbb', 'ab ba ab ba', 'a b'],
         ['x y', 'é # 1', 'a'], ['abab' * 5, 'b a' * 4], ['  ', ' ab\t', 'a\u3000ab'],
         ['a b ab aab abb', 'ba bab', '#', '<s> <unk>', 'b', 'b']]


def file_sets(kind, labels):
    if kind == 'class':
        base = [[labels[0]], labels, labels + labels[:1] * 3, labels[-1:] * 2, labels[::2] * 2]
    else:
        base = TEXTS
    for i, t in enumerate(base):
        yield [(t, i % 2 == 1)]
    for i, j in ((0, 2), (3, 4), (4, 4), (1, 2)):
        yield [(base[i], False), (base[j], True)]
    yield [(base[2], True), (base[3], False), (base[4], False)]
    # the same file twice
    yield [(base[2], False), (base[2], False)]
    yield [(base[3], True), (base[4], False), (base[3], True)]


def before(case, rec):
    fail_first(case, rec)


def check(case, rec):
    kind = case['kind']
    d = Path(rec.tmp())
    labels = None
    if kind == 'byte':
        scheme = C.ByteScheme()
    elif 'trained' in case:
        i = case['trained']
        ws = pseudo_words(i, 700, 'abcdefghij'[:3 + i % 7], 4 + i % 9)
        text = [' '.join(ws[k:k + 9]) for k in range(0, len(ws), 9)]
        table = C.learn_vocab(text, kind, None, 60 + 60 * i if kind == 'bpe' else 300, min_freq=1,
                              **({'min_co_ev': 1, 'char_coverage': 1.0} if kind == 'bpe' else {}))
        scheme = SCHEMES[kind](table)
    elif 'large' in case:
        labels = ['#', 'a', 'é']
        scheme = C.BPEScheme(make_table('bpe', 'abé#', [(6, 7), (6, 5)])) if kind == 'bpe' else \
            SCHEMES[kind](make_table(kind, labels))
    elif kind == 'bpe':
        scheme = C.BPEScheme(make_table('bpe', 'ab', [tuple(m) for m in case['merges']]))
    else:
        labels = case['syms']
        scheme = SCHEMES[kind](make_table(kind, labels))
    if 'trained' in case:
        sets = [[(text[:5], False)], [(text[5:30], True), (text[:2] + ['zzz q'], False)], [(text, False)]]
    else:
        sets = list(file_sets(kind, labels))
    before = rows(scheme.table)
    thresholds = (0, 1, 2, 3, 5, 100)
    if 'large' in case:     # many lines, long lines, and thresholds around the counts
        n = case['large']
        if kind == 'class':
            sets = [[(['a'] * (n - 1) + ['é'] * n + ['#'], False)]]
        else:
            sets = [[(['a b'] * (n // 2) + ['ab é'] * (n - n // 2) + ['#'], False)],
                    [(['a ' * n, 'ab' * (n // 2)], True), (['é', 'a'], False)]]
        thresholds = (1, n // 2, n // 2 + 1, n - n // 2, n - 1, n, n + 1, 2 * n)
    k = 0
    for files in sets:
        paths = []
        seen = {}
        for lines, gz in files:
            key = repr(lines), gz
            if key in seen:
                paths.append(seen[key])
                continue
            k += 1
            p = d / (f'f{k}.txt' + ('.gz' if gz else ''))
            data = ''.join(x + '\n' for x in lines).encode('utf8')
            if lines[-1] and k % 4 == 0 and kind != 'byte':
                data = data[:-1]        # last line without line feed
            p.write_bytes(gzip.compress(data) if gz else data)
            paths.append(p if k % 3 else str(p))
            seen[key] = paths[-1]
        flat = [x for lines, _ in files for x in lines]
        freqs = [0] * len(before)
        for x in flat:
            for i in scheme.encode(x):
                freqs[i] += 1
        for mf in thresholds:
            if kind == 'class' and max(freqs) < mf:
                continue            # no type would be left
            for save in (True, False) if mf == 1 else (True,):
                out = d / f'out{k}.{mf}' if save else None
                mapping = scheme.shrink_vocab([Path(p) for p in paths] if k % 2 else list(paths), mf,
                                              save_at=out)
                expects = []
                for nl in ((0, len(flat)) if kind == 'byte' else (0,)):
                    fr = list(freqs)
                    if nl:
                        fr[10] += nl
                    keep = [r[2] == -1 or fr[r[0]] >= mf for r in before]
                    for r in reversed(before):
                        if keep[r[0]]:
                            for c in r[4]:
                                keep[c] = True
                    expects.append([i for i, x in enumerate(keep) if x])
                what = f'{kind} table shrunk with threshold {mf} on {short(flat)}'
                rec.true(list(mapping) in expects, f'{what}: kept {short(mapping)}, expected '
                                                   f'{short(expects[0])}')
                rec.eq(rows(scheme.table), before, f'{what}: the codec itself')
                rec.trace()
                rec.step()
                rec.state((kind, tuple(before), tuple(mapping)))
                if not save:
                    continue
                new = {old: i for i, old in enumerate(mapping)}
                want = [(new[r[0]], r[1], r[2], r[3], tuple(new[c] for c in r[4])) for r in before
                        if r[0] in new]
                if not want:
                    continue
                if not (kind in ('class',) and not want):
                    s2 = C.load_scheme(out)
                    rec.true(type(s2) is type(scheme), f'{what}: reloads as {type(s2).__name__}')
                    rec.eq(rows(s2.table), want, f'{what}: saved types')
                    for t in s2.table:
                        for c in t.kids or ():
                            rec.true(c == s2.table[c.idx], f'{what}: part {c} of {t.name!r}')
                    if mf <= 1:
                        for x in flat:
                            a, b = scheme.encode_str(x), s2.encode_str(x)
                            rec.true(list(a) == list(b), f'{what}: {x!r} was {short(a)}, now {short(b)}')
                            ids = s2.encode(x)
                            rec.true([mapping[i] for i in ids] == list(scheme.encode(x)) or kind == 'bpe',
                                     f'{what}: ids of {x!r} do not map back')
                            rec.true([s2.table[i].name for i in ids] ==
                                     [before[i][1] for i in scheme.encode(x)], f'{what}: ids of {x!r}')
                            rec.step()
    rec.sample({'case': case, 'kept': list(mapping)[:20]})


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'
