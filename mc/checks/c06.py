"""C06: vocabulary selection (coverage cut, minimum frequency, size limit) is exact.

Explored: every frequency profile up to a bound over a small term universe (with reserved literals
and orders of first appearance), every combination of settings.  Ties may be broken either way.
"""
import itertools
from fractions import Fraction

from mc.common import *

LEVEL = 'model_checking'
ASSUMPTIONS = ['terms of equal frequency may be ordered and cut in any order',
               'a coverage that is hit up to 1e-9 may be considered reached or not, unless all shares are '
               'dyadic fractions: then it is reached exactly when the sum says so']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'profiles': f'all frequency vectors of 1..{4 if q else 5} terms with frequencies 0..'
                        f'{3 if q else 4}', 'settings': 'coverage in 8 values x min_freq 0..4 x size '
            '-1, 0..12', 'levels': 'word, char, class',
            'ladder': f'up to {5000 if q else 70000} terms, frequencies up to 2**40'}


COVS = [0, 0.2, 0.34, 0.5, 0.66, 0.75, 0.9, 0.9995, 1.0]


def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    for k in range(1, n + 1):
        for fs in itertools.product(range(4 if q else 5), repeat=k):
            yield {'fs': list(fs)}
    for fs in ([2, 1, 0, 3], [1, 1, 1, 1], [4, 2, 2, 1], [1, 2, 3, 4]):
        for lits in itertools.product((0, 1, 3), repeat=3):
            yield {'fs': fs, 'lits': list(lits)}
    for i in range(3):
        yield {'text': i}
    for n in (255, 256, 1000, 5000) + (() if q else (20000, 70000)):
        yield {'wide': n}
    yield {'class': 1}


TERMS = {'word': ['wa', 'wb', '#', 'é', '0'], 'char': ['a', 'b', '#', 'é', '0'],
         'class': ['b c', 'a', '', 'é', '0']}


def spread(terms, fs, width):
    """lines in which term i occurs fs[i] times, interleaved"""
    left = list(fs)
    flat = []
    while any(left):
        for i, t in enumerate(terms):
            if left[i]:
                left[i] -= 1
                flat.append(t)
    return [flat[i:i + width] for i in range(0, len(flat), width)]


def expect(rec, table, counts, lits, line_count, cov, mf, vs, what):
    """table must be one of the vocabularies the statement allows"""
    total = sum(counts.values())
    order = sorted(counts.values(), reverse=True)
    ks = {len(order)}
    if cov:
        ks, cum, k = set(), Fraction(0), 0
        goal = Fraction(cov)
        # total a power of two: every share, and every sum of them, is a float without rounding
        eps = Fraction(0) if total and total & (total - 1) == 0 and total < 2 ** 40 else Fraction(1, 10 ** 9)
        for f in order:
            k += 1
            cum += Fraction(f, total)
            if cum >= goal - eps:
                ks.add(k)
                if cum > goal + eps or not eps:
                    break
        ks = ks or {len(order)}
        if not order:
            ks = {0}
    names = [t.name for t in table]
    rec.eq(names[:6], RESERVED, f'{what}: reserved types')
    rec.true(len(set(names)) == len(names), f'{what}: types are not distinct: {names[:40]}')
    got = [t.freq for t in table[6:]]
    options = []
    for k in ks:
        fs = [f for f in order[:k] if f >= (mf or 0)]
        if vs > 0:
            fs = fs[:max(0, vs - 6)]
        options.append(fs)
    rec.true(got in options, f'{what}: kept frequencies {short(got)}, expected {short(options)}')
    for t in table[6:]:
        rec.true(counts.get(t.name) == t.freq, f'{what}: {t.name!r} has {t.freq}, '
                                               f'counted {counts.get(t.name)}')
    for i, t in enumerate(table):
        rec.true(t.idx == i, f'{what}: {t.name!r} has index {t.idx} at position {i}')
        rec.true(not t.kids, f'{what}: {t.name!r} has parts')
    left_out = total - sum(got)
    for i, name in enumerate(RESERVED):
        f = lits.get(name, 0)
        if name == '<unk>':
            f += left_out
        if name in ('<s>', '</s>', '<cls>'):
            f += line_count
        g = table[i].freq
        rec.true(g == f or (f == 0 and g in (0, -1)), f'{what}: {name} has frequency {g}, expected {f}')
        rec.true(table[i].level == -1, f'{what}: {name} is not reserved')


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def run(kind, lines, counts, lits, cov, mf, vs, rec, api, what):
    if api == 'learn':
        table = SCHEMES[kind].learn(list(lines), vocab_size=vs, min_freq=mf, coverage=cov)
    elif api == 'top':
        table = C.learn_vocab(list(lines), kind, None, vs, min_freq=mf,
                              **({'char_coverage': cov} if kind == 'char' else {}))
        if kind == 'word':
            cov = 0
    else:
        data = [f'{t}\t{f}' for t, f in list(counts.items()) + list(lits.items()) if f]
        table = SCHEMES[kind].learn(data, vocab_size=vs, min_freq=mf, coverage=cov, term_freqs=True)
        # no header: the number of lines is not known
        expect(rec, table, {t: f for t, f in counts.items() if f}, lits, 0, cov, mf, vs, what)
        return table
    expect(rec, table, {t: f for t, f in counts.items() if f}, lits, len(lines), cov, mf, vs, what)
    return table


def before(case, rec):
    """something else fails first"""
    fail_first(case, rec, 3)


def check(case, rec):
    if 'class' in case:
        return check_class(rec)
    if 'text' in case:
        return check_text(case['text'], rec)
    if 'wide' in case:
        n = case['wide']
        terms = [f'w{k}' for k in range(n)]
        fs = [1 + (k * 7919) % 97 + (2 ** 40 if k % 500 == 3 else 0) for k in range(n)]
        counts = dict(zip(terms, fs))
        for cov, mf, vs in ((0, 1, -1), (0, 50, -1), (0, 1, n // 2), (0.5, 1, -1), (0.9999, 1, -1),
                            (0.99, 20, n // 3), (1.0, 1, 0), (0, 98, 0)):
            run('word', [], counts, {}, cov, mf, vs, rec, 'freqs', f'{n} words cov={cov} min={mf} size={vs}')
            rec.trace()
            rec.step()
            rec.state(('wide', n, cov, mf, vs))
        return
    fs = case['fs']
    lit_terms = ['<unk>', '<s>', '<pad>']
    lits = case.get('lits', [0, 0, 0])
    for kind in ('word', 'char'):
        terms = TERMS[kind][:len(fs)]
        counts = dict(zip(terms, fs))
        litc = dict(zip(lit_terms, lits)) if kind == 'word' else {}
        if kind == 'word':
            all_terms = terms + lit_terms
            lines = [' '.join(ln) for ln in spread(all_terms, fs + lits, 3)]
        else:
            # one character per line keeps the space marker out; blank lines count as lines
            lines = [''.join(ln) for ln in spread(terms, fs, 1)] + ['']
        big = sum(fs) >= 7
        for cov in COVS:
            for mf in range(0, 5):
                for vs in ((-1, 0, 5, 6, 7, 8, 9, 10, 11, 1000) if not big else (-1, 6, 7, 9, 10)):
                    what = f'{kind} {counts} {litc} coverage={cov} min_freq={mf} size={vs}'
                    t1 = run(kind, lines, counts, litc, cov, mf, vs, rec, 'learn', what)
                    rec.trace()
                    rec.step(3)
                    rec.state((kind, tuple(row(t) for t in t1)))
                    if cov in (0, 0.75) and vs in (-1, 8, 9):
                        run(kind, lines, counts, litc, cov, mf, vs, rec, 'freqs', what + ' from freqs')
                        rec.trace()
                    if mf and (kind == 'char') == bool(cov) and vs in (-1, 8):
                        run(kind, lines, counts, litc, cov, mf, vs, rec, 'top', what + ' learn_vocab')
                        rec.trace()
    rec.sample({'frequencies': fs, 'reserved literals': lits, 'lines': lines[:4]})


def check_text(i, rec):
    """running text: counts by an independent counter, blank lines, odd blanks and characters"""
    ws = pseudo_words(i, 900, 'abcdefghij'[:4 + 3 * i], 3 + i) + ODD_CHARS * 3 + ['<s>', '<unk>', '▁', '▁▁']
    lines = []
    for k in range(0, len(ws), 7):
        sep = UNI_SPACES[k % len(UNI_SPACES)]
        lines.append((sep if k % 3 else '') + (sep + ' ').join(ws[k:k + 7]) + ['', '\n', '  ', '\r\n'][k % 4])
    lines += ['', '   ', '\n']
    for kind in ('word', 'char'):
        counts = {}
        for ln in lines:
            toks = ln.split()
            for t in (toks if kind == 'word' else SPACE.join(toks)):
                counts[t] = counts.get(t, 0) + 1
        lits = {r: counts.pop(r) for r in RESERVED if r in counts}
        for cov in COVS:
            for mf in (0, 1, 2, 3, 10):
                for vs in (-1, 6, 7, 20, 50, len(counts) + 5, len(counts) + 6, len(counts) + 7):
                    t = run(kind, lines, counts, lits, cov, mf, vs, rec, 'learn',
                            f'{kind} text {i} coverage={cov} min_freq={mf} size={vs}')
                    rec.trace()
                    rec.step()
                    rec.state((kind, i, cov, mf, vs, len(t)))


def check_class(rec):
    labels = ['b c', 'a', '', 'é', '0', 'B', 'a b', '10', '9', '<s>', '#x', 'a,b', 'Z', '中', 'ab']
    for n in range(1, 6):
        for combo in itertools.combinations(labels, n):
            for rep in (1, 3):
                lines = [x for i, x in enumerate(combo) for _ in range(1 + (i * rep) % 3)]
                for variant in (lines, lines[::-1], [f' {x}\n' for x in lines]):
                    table = C.ClassScheme.learn(list(variant))
                    want = {}
                    for x in variant:
                        want[x.strip()] = want.get(x.strip(), 0) + 1
                    rec.eq([(t.idx, t.name, t.freq) for t in table],
                           [(k, x, want[x]) for k, x in enumerate(sorted(want))], f'classes of {variant}')
                    rec.trace()
                    rec.step()
                    rec.state(('class', tuple(sorted(want.items()))))
    for vs, mf, cov in ((-1, 1, 0.5), (3, 2, 0.99), (0, 20, 1.0), (1, 1, 0.1)):
        lines = ['x', 'y', 'x', 'z z', 'w']
        table = C.learn_vocab(lines, 'class', None, vs, min_freq=mf, char_coverage=cov)
        rec.eq([(t.idx, t.name, t.freq) for t in table], [(0, 'w', 1), (1, 'x', 2), (2, 'y', 1), (3, 'z z', 1)],
               f'classes whatever size={vs} min_freq={mf} coverage={cov}')
        rec.trace()
