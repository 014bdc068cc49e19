"""E02: codec quality estimates are exact.

Explored: the estimate of codecs of all kinds (several vocabularies) for all corpora of 1..2 lines over 8
lines (3 over 4), the corpora as list, iterator or file, and longer texts, against counts with exact
fractions; the command; all divergence measures on all pairs of distributions over up to 4 outcomes with
denominators up to 8 (12), on growing sizes, and on arrays that are no distributions.
"""
import collections
import contextlib
import io
import itertools
import math
import os
import subprocess
import sys
from fractions import Fraction as F

from mc.common import *
from mc.failing import fail_tools_first
from mc.threads import interrupted
from mc.core import short
from nlcodec import qestim as Q
from nlcodec.qestim import QualityEstimator as E
import numpy as np

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['labels of class codecs are known', 'measures are compared to 1e-9', 'at least one token']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'corpora': f'all sequences of 1..2 lines over {len(LINES)} lines, of 3 (and 4) over 4', 'codecs': '11 codecs of 5 kinds',
            'ladder': f'up to {20000 if q else 200000} types, lines and tokens per line',
            'distributions': f'all over 1..4 outcomes with denominators up to {8 if q else 12}'}


LINES = ['a b', '', 'b a  b', ' ', 'zz é', 'ab ba\u3000ab', 'b' * 9, '▁ a']


def codecs():
    yield 'word', C.WordScheme(make_table('word', ['a', 'b', 'ab']))
    yield 'word', C.WordScheme(make_table('word', ['zz']))
    yield 'char', C.CharScheme(make_table('char', ['a', 'b']))
    yield 'char', C.CharScheme(make_table('char', ['é', 'z', 'b', 'a']))
    yield 'bpe', C.BPEScheme(make_table('bpe', ['a', 'b'], [(6, 7), (7, 5), (8, 5)]))
    yield 'bpe', C.BPEScheme(make_table('bpe', ['a', 'b'], [(7, 7), (8, 8), (5, 6)]))
    yield 'bpe', C.BPEScheme(make_table('bpe', ['z']))
    yield 'byte', C.ByteScheme()
    yield 'class', C.ClassScheme(make_table('class', sorted({x.strip() for x in LINES}), freqs=[1] * 99))
    yield 'word', C.WordScheme.__new__(C.WordScheme)     # replaced below: a learned one
    yield 'bpe', C.BPEScheme.__new__(C.BPEScheme)


def codec(i):
    kind, sch = list(codecs())[i]
    if i == 9:
        sch = C.WordScheme(C.WordScheme.learn(iter(LINES * 2), vocab_size=9, min_freq=1))
    if i == 10:
        sch = C.BPEScheme(C.BPEScheme.learn(iter(LINES * 3), vocab_size=14, min_freq=1, coverage=0.9))
    return kind, sch


def cases(tier):
    q = tier == 'quick'
    for i in range(11):
        for a in range(len(LINES)):
            yield {'codec': i, 'first': a}
        for k in range(2 if q else 8):
            yield {'codec': i, 'text': k}
    for n in (300, 1000, 3000, 20000) if q else (300, 1000, 3000, 20000, 70000, 200000):
        yield {'wide': n}
    for k in range(1, 5):
        for j in range(8):
            yield {'distributions': k, 'shard': j}
    yield {'not_distributions': True}
    yield {'large': True}
    for i in (0, 4, 7):
        yield {'command': i}


def expected(kind, sch, lines):
    seqs = [list(sch.encode(x)) for x in lines]
    n_types = len(sch.table)
    stats = [0] * n_types
    for s in seqs:
        for t in s:
            stats[t] += 1
    n = sum(stats)
    unk = 0
    if kind not in ('byte', 'class'):
        unk = stats[UNK]
        # counted independently of the codec: symbols that the table does not have
        names = {t.name for t in sch.table}
        trows = rows(sch.table)
        ref = [p for x in lines for p in ref_pieces(kind, trows, x)]
        want = sum(1 for p in ref if p not in names or p == '<unk>')
        assert want == unk, (want, unk)
    imb = F(sum(abs(c * n_types - n) for c in stats), 2 * n * n_types) if n else None
    return n_types, n, F(n, len(lines)), unk, imb


def judge(rec, got, want, what):
    n_types, n, mean, unk, imb = want
    if (int(got.n_types), int(got.n_tokens), int(got.unk_count)) != (n_types, n, unk):
        rec.fail(f'{what}: {got}, expected {n_types} types, {n} tokens, {unk} unknown')
    if abs(got.mean_seq_len - float(mean)) > 1e-9:
        rec.fail(f'{what}: {got}, expected mean length {mean}')
    if imb is not None and abs(got.imbalance - float(imb)) > 1e-9:
        rec.fail(f'{what}: {got}, expected imbalance {imb}')
    rec.trace()
    rec.step()


def upset_estimator(est, lines, k):
    """an estimate that fails or is interrupted; the next one of the estimator may not notice"""
    calls = [lambda: est.estimate(broken_input(lines)), lambda: est.estimate(list(lines) + [None]), lambda: est.estimate(None),
             lambda: est._estimate([[0, 1], [10 ** 9]]), lambda: interrupted(lambda: est.estimate(lines), 6 + k % 40)]
    try:
        calls[k % len(calls)]()
    except Exception:
        pass


def wide(rec, n):
    """n types, n lines, lines of n tokens; one estimator for several corpora"""
    syms = [f'w{k}' for k in range(n)]
    for kind in ('word', 'class', 'char', 'bpe', 'byte'):
        if kind in ('char', 'bpe'):
            syms = [chr(0x4e00 + k) for k in range(min(n, 20000))]
        sch = C.ByteScheme() if kind == 'byte' else SCHEMES[kind](
            make_table(kind, syms if kind != 'class' else sorted(syms), *([[(6, 7), (8, 5)]] if kind == 'bpe' else [])))
        r = Lcg(n)
        one = [syms[r(len(syms))] for _ in range(n)]
        corpora = [one, [syms[0]] * n, one[:3], syms[-1:]]
        if kind != 'class':
            corpora += [[' '.join(one)], ['zz é'] * n + ['', one[0]], [' '.join(syms[:2] * n), 'q ' * n]]
        est = E(sch)
        for k, lines in enumerate(corpora + corpora[:1]):
            upset_estimator(est, lines[-3:], k)
            judge(rec, est.estimate(iter(lines)), expected(kind, sch, lines), f'{kind} codec of {len(sch.table)} types, {short(lines)}')
            rec.state((kind, n, len(lines)))


def before(case, rec):
    fail_tools_first(case, rec)


def check(case, rec):
    if 'wide' in case:
        return wide(rec, case['wide'])
    if 'codec' in case:
        kind, sch = codec(case['codec'])
        if 'text' in case:
            if kind == 'class':
                return
            k = case['text']
            lines = [' '.join(pseudo_words(k * 9 + i, i % 7, 'abzé', 3)) for i in range(200)]
            corpora = [lines, lines[::-1] + LINES, lines[1:2] * 50]
        else:
            a = LINES[case['first']]
            corpora = [[a]] + [[a, b] for b in LINES] + [[a, b, c] for b in LINES[:4] for c in LINES[:4]]
            if rec.tier != 'quick':
                corpora += [[a, *x] for x in itertools.product(LINES[:5], repeat=3)]
        est = E(sch)
        for n, lines in enumerate(corpora):
            if not any(len(list(sch.encode(x))) for x in lines):
                rec.count('no_tokens')
                continue
            want = expected(kind, sch, lines)
            for form in ([lines, iter(lines)] if n % 2 else [tuple(lines), (x for x in lines)]):
                upset_estimator(est, lines, n)
                judge(rec, (est if n % 3 else E(sch)).estimate(form), want, f'{kind} codec {case["codec"]}, {short(lines)}')
            rec.state((case['codec'], tuple(lines)))
        rec.sample({'codec': kind, 'lines': lines[:3], 'expected': repr(want)})
    elif 'distributions' in case:
        distributions(rec, case['distributions'], case['shard'])
    elif 'not_distributions' in case:
        rejected(rec)
    elif 'large' in case:
        large(rec)
    else:
        command(rec, case['command'])


def distrs(k, top):
    out = set()
    for den in range(1, top + 1):
        for cuts in itertools.combinations_with_replacement(range(den + 1), k - 1):
            c = (0,) + cuts + (den,)
            out.add(tuple(F(b - a, den) for a, b in zip(c, c[1:])))
    return sorted(out)


def measures(rec, p, q):
    """all measures for two distributions of fractions"""
    a, b = np.array([float(x) for x in p]), np.array([float(x) for x in q])
    what = f'{short(p)} and {short(q)}'
    keep = a.copy(), b.copy()
    want = sum(abs(x - y) for x, y in zip(p, q)) / 2
    for cost in (0.5, 1, 3):
        for kw in ({}, {'validate': False}):
            got = E.earth_mov_dist(a, b, moving_cost=cost, **kw)
            if abs(got - 2 * cost * float(want)) > 1e-9:
                rec.fail(f'earth mover distance at {cost} of {what}: {got}, expected {2 * cost * float(want)}')
    js = E.js_div(a, b)
    ref = 0.0
    for x, y in zip(p, q):
        m = (x + y) / 2
        ref += 0.5 * (float(x) * math.log(x / m) if x else 0) + 0.5 * (float(y) * math.log(y / m) if y else 0)
    if abs(js - ref) > 1e-9 or js < -1e-12 or js > math.log(2) + 1e-12:
        rec.fail(f'Jensen-Shannon divergence of {what}: {js}, expected {ref}')
    if (abs(js) < 1e-12) != (p == q):
        rec.fail(f'Jensen-Shannon divergence of {what}: {js}')
    if abs(js - E.js_div(b, a)) > 1e-12:
        rec.fail(f'Jensen-Shannon divergence of {what} is not symmetric')
    if all(y > 0 or x == 0 for x, y in zip(p, q)):
        kl = E.kl_div(a, b)
        ref = sum(float(x) * math.log(x / y) for x, y in zip(p, q) if x)
        if abs(kl - ref) > 1e-9 or kl < -1e-12 or (abs(kl) < 1e-12) != (p == q):
            rec.fail(f'Kullback-Leibler divergence of {what}: {kl}, expected {ref}')
    if not np.array_equal(a, keep[0]) or not np.array_equal(b, keep[1]):
        rec.fail(f'the measures altered {what}')
    rec.trace()
    rec.step(10)


def distributions(rec, k, shard):
    ds = distrs(k, {'quick': 8, 'thorough': 12}[rec.tier])
    for i, p in enumerate(ds):
        if i % 8 != shard:
            continue
        for q in ds:
            measures(rec, p, q)
            rec.state((p, q))
        got = E.EMD_simple(np.array([int(x * 27720) for x in p]))
        want = sum(abs(x - F(1, k)) for x in p) / 2
        if abs(got - float(want)) > 1e-9 or abs(E.EMD_simple([int(x * 27720) for x in p], 3) - 3 * float(want)) > 1e-9:
            rec.fail(f'imbalance of {p}: {got}, expected {want}')


def rejected(rec):
    good = [np.array([0.5, 0.5]), np.array([1.0, 0.0]), np.array([0.25, 0.75])]
    bad = [np.array([0.5, 0.6]), np.array([0.5, 0.4]), np.array([1.5, -0.5]), np.array([-1.0, 2.0]),
           np.array([float('nan'), 1.0]), np.array([2.0, 3.0]), np.array([0.0, 0.0]), np.array([0.499, 0.5]),
           np.array([0.3, 0.3, 0.4]), np.array([1.0]), np.array([float('inf'), 1.0]), np.array([1.0 + 1e-3, -1e-3])]
    for n in (4, 5, 10, 16, 100, 1000, 5000):    # one or few wrong entries among many
        for i in (0, n // 2, n - 1):
            for k, v in ((1, -1e-2), (1, -0.3), (2, -0.2), (1, float('nan'))):
                b = np.full(n, (1 - k * v) / (n - k) if v == v else 1 / n)
                b[[i, (i + 1) % n][:k]] = v
                bad.append(b)
            b = np.full(n, 1 / n)
            b[i] += 0.01
            bad.append(b)
        good.append(np.full(n, 1 / n))
    for b in bad:
        for g in [g for g in good if len(g) == len(b)] if len(b) > 3 else good:
            for name, fn in (('earth_mov_dist', E.earth_mov_dist), ('js_div', E.js_div)):
                for args in ((g, b), (b, g)):
                    try:
                        with np.errstate(all='ignore'):
                            got = fn(*args)
                    except Exception:
                        rec.trace()
                        rec.step()
                        rec.state((name, repr(args)))
                        continue
                    rec.fail(f'{name} of {short(args)} gives {got} instead of an error')


def large(rec):
    for n in (10, 100, 1000, 20000):
        for seed in range(3):
            r = Lcg(n + seed)
            c = [[r(50) * (r(3) > 0) for _ in range(n)] for _ in range(2)]
            if n <= 100:
                p, q = (tuple(F(x, sum(y)) for x in y) for y in c)
                measures(rec, p, q)
            want = F(sum(abs(x * n - sum(c[0])) for x in c[0]), sum(c[0]) * n) / 2
            rec.true(abs(E.EMD_simple(np.array(c[0])) - float(want)) < 1e-9, f'imbalance of {n} counts')
            rec.state((n, seed))


def command(rec, i):
    kind, sch = codec(i)
    d = rec.tmp()
    path, text = os.path.join(d, 'm'), os.path.join(d, 't')
    sch.save(path)
    for lines, end in ((LINES, '\n'), (LINES[:3], ''), (LINES[4:] * 30, '\n')):
        with open(text, 'w', encoding='utf8') as f:
            f.write('\n'.join(lines) + end)
        want = expected(kind, sch, lines)
        outs = []
        out = io.StringIO()
        with contextlib.redirect_stdout(out), open(text, encoding='utf8') as f:
            Q.estimate(path, f)
        outs.append(out.getvalue())
        out, _ = run_main(Q.main, ['q', '-c', path, '-d', text])
        outs.append(out)
        if len(lines) == 3:
            p = subprocess.run([sys.executable, '-m', 'nlcodec.qestim', '-c', path], stdin=open(text), timeout=120,
                               capture_output=True, text=True, encoding='utf8')
            rec.eq(p.returncode, 0, f'exit code of qestim: {p.stderr[-500:]}')
            outs.append(p.stdout)
        for out in outs:
            # the fields, by name
            vals = dict(x.split('=') for x in out.strip().split('(', 1)[1].rstrip(')\n').replace('np.float64(', '')
                        .replace(')', '').split(', '))
            judge(rec, Q.CodecQuality(n_types=int(vals['n_types']), imbalance=float(vals['imbalance']),
                                      n_tokens=int(vals['n_tokens']), mean_seq_len=float(vals['mean_seq_len']),
                                      unk_count=int(vals['unk_count'])), want, f'command, {kind}, {short(lines)}')
        rec.state(('command', i, len(lines)))
