"""E01: corpus n-gram statistics are exact.

Explored: n-gram windows of every sequence up to length 6 for every n up to 7 (as lists, tuples, strings,
arrays); recall, precision and frequencies for all pairs of candidate and reference corpora of one line of
up to 5 (7) items, of two lines of up to 2 (3) and of three lines of up to 1 (2), for n = 1..4; F1 over all fractions with
denominator up to 12; the three reports (termfreq, pr_measure with and without precomputed frequencies,
oov_count) for codecs of all kinds over all corpora of two lines and longer texts, through the
function and as real processes; against counts with exact fractions.
"""
import collections
import io
import itertools
import json
import os
import subprocess
import sys
from fractions import Fraction as F
from pathlib import Path

from mc.common import *
from mc.failing import fail_tools_first
from mc.core import short
from mc.pools import model_pools
from nlcodec import utils as U
from nlcodec.eval import oov_count, pr_measure, termfreq

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['equally many candidate and reference lines', 'at least one token for oov_count',
               'measures are compared to 1e-9, printed ones to 6 digits']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'windows': 'sequences up to length 6 over 3 items, n 1..7',
            'corpora': f'1 line of up to {5 if q else 7} items, 2 lines of up to {2 if q else 3}, 3 lines of up to {1 if q else 2}, '
                       '4 lines of up to 1, n 1..4',
            'reports': 'all corpora of 1..2 lines over 6 lines, 5 kinds of codecs, n 1..3, 12 texts of 30 lines',
            'ladder': f'up to {5000 if q else 70000} lines, items and occurrences; reports on up to {1500 if q else 6000} lines'}


def seqs(top, sym=(3, 8)):
    for n in range(top + 1):
        yield from itertools.product(sym, repeat=n)


LINES = ['a b', '', 'b a  b a b', ' zz', 'ab\u3000a é', 'b b b']


def cases(tier):
    q = tier == 'quick'
    yield {'windows': True}
    yield {'f1': True}
    for lines, top in ((1, 5 if q else 7), (2, 2 if q else 3), (3, 1 if q else 2), (4, 1)):
        for s in itertools.product(seqs(top), repeat=lines):
            yield {'cands': [list(x) for x in s], 'top': top}
    for kind in ('word', 'char', 'bpe', 'byte', 'class'):
        for i in range(len(LINES)):
            yield {'kind': kind, 'first': i}
        for k in range(3 if q else 12):
            yield {'kind': kind, 'text': k}
    for k in range(3):
        yield {'process': k}
    for n in (100, 300, 1100, 5000) if q else (100, 300, 1100, 5000, 20000, 70000):
        yield {'wide': n}
    for kind in ('word', 'char', 'bpe', 'byte'):
        for n in (300, 1500) if q else (300, 1500, 6000):
            yield {'kind': kind, 'lines': n}


def windows(seq, n):
    out = []
    i = 0
    while i + n <= len(seq):
        out.append(tuple(seq[j] for j in range(i, i + n)))
        i += 1
    return out


def model(cands, refs, n):
    """(recall, reference counts, precision, candidate counts)"""
    per = [(collections.Counter(windows(c, n)), collections.Counter(windows(r, n))) for c, r in zip(cands, refs)]
    out = []
    for this, other in ((1, 0), (0, 1)):
        ratios, freqs = collections.defaultdict(list), collections.Counter()
        for p in per:
            for g, f in p[this].items():
                ratios[g].append(F(min(f, p[other][g]), f))
                freqs[g] += f
        out += [{g: sum(v) / len(v) for g, v in ratios.items()}, dict(freqs)]
    return tuple(out)


def close(rec, got, want, what, eps=1e-9):
    if set(got) != set(want):
        rec.fail(f'{what}: n-grams {short(sorted(got))}, expected {short(sorted(want))}')
    for g, v in want.items():
        if abs(got[g] - float(v)) > eps:
            rec.fail(f'{what}: {got[g]} for {g}, expected {v}')


def wide(rec, n):
    """thousands of lines, of items, of occurrences"""
    r = Lcg(n)
    for lines, top, items in ((n, 6, 5), (n, 3, n), (2, n, 3), (3, n, n), (1, 7, 2)):
        c, f = ([[r(items) + 1 for _ in range(r(top + 1))] for _ in range(lines)] for _ in range(2))
        if top == n:
            c[0], f[-1] = [1] * n, [1, 2] * (n // 2)
        for k in (1, 2, 5):
            got = pr_measure.count_gram_recall(iter(c), iter(f), n=k)
            for name, g, w in zip(('recall', 'reference counts', 'precision', 'candidate counts'), got, model(c, f, k)):
                close(rec, g, w, f'{k}-grams of {lines} lines of up to {top} of {items} items: {name}')
            allg = U.make_n_grams_all(iter(c), k)
            rec.eq({tuple(g): v for g, v in allg.items()}, dict(collections.Counter(g for s in c for g in windows(s, k))),
                   f'{k}-grams of {lines} lines of up to {top} of {items} items')
            rec.trace()
            rec.step(lines)
            rec.state((n, lines, top, items, k))


def before(case, rec):
    fail_tools_first(case, rec)


def check(case, rec):
    if 'wide' in case:
        return wide(rec, case['wide'])
    if 'windows' in case:
        for s in seqs(6, (1, 2, 'x')):
            for n in range(1, 8):
                for form in (list(s), tuple(s), ''.join(map(str, s))):
                    rec.eq([tuple(g) for g in U.make_n_grams(form, n)], windows(form, n), f'{n}-grams of {form!r}')
                rec.step(3)
                rec.state((s, n))
        small = list(seqs(3, (1, 2)))
        for a in small:
            for b in small:
                for n in range(1, 5):
                    want = collections.Counter(windows(a, n) + windows(b, n))
                    for form in ([a, b], iter([list(a), list(b)]), ([np_arr(x).tolist() for x in (a, b)])):
                        got = U.make_n_grams_all(form, n)
                        rec.eq({tuple(k): v for k, v in got.items()}, dict(want), f'{n}-grams of {a}, {b}')
                        rec.trace()
                        rec.step()
        return
    if 'f1' in case:
        vals = sorted({F(a, b) for b in range(1, 13) for a in range(b + 1)})
        for p in vals:
            for r in vals:
                want = 2 * p * r / (p + r) if p + r else F(0)
                got = pr_measure.f1_measure(float(p), float(r))
                rec.true(0 <= got <= 1 + 1e-15 and abs(got - float(want)) < 1e-12, f'F1 of {p} and {r} is {got}')
                rec.step()
                rec.state((p, r))
        rec.trace()
        return
    if 'cands' in case:
        cands = case['cands']
        for refs in itertools.product(seqs(case['top']), repeat=len(cands)):
            for n in range(1, 5):
                m = model(cands, refs, n)
                for form in range(2):
                    c, r = ([tuple(x) for x in cands], list(refs)) if form else \
                        (iter(cands), iter([list(x) for x in refs]))
                    got = pr_measure.count_gram_recall(c, r, n=n)
                    what = f'{n}-grams of {cands} against {refs}'
                    for name, g, w in zip(('recall', 'reference counts', 'precision', 'candidate counts'), got, m):
                        close(rec, g, w, f'{what}: {name}')
                    rec.trace()
                rec.step(sum(len(x) for x in m))
                rec.state((repr(cands), refs, n))
        rec.sample({'candidates': cands, 'references': [list(x) for x in refs], 'recall of 1-grams': repr(m[0])})
        return
    d = rec.tmp()
    if 'process' in case:
        return processes(rec, d, case['process'])
    kind = case['kind']
    path = os.path.join(d, 'm')
    sch = codec(kind, path)
    if 'lines' in case:
        n = case['lines']
        texts = [[' '.join(pseudo_words(n + i + 7 * s, 1 + i % 6, 'abc', 3)) for i in range(n)] for s in (0, 1)]
        reports(rec, sch, kind, path, texts[0], texts[1], d, (1, 2))
        return
    if 'text' in case:
        k = case['text']
        texts = [[' '.join(pseudo_words(k * 7 + i + 100 * s, i % 6, 'abc', 2)) for i in range(30)] for s in (0, 1)]
        reports(rec, sch, kind, path, texts[0], texts[1], d, (1, 2, 4))
        reports(rec, sch, kind, path, texts[0][:1], texts[1][1:2], d, (1, 3))
        return
    a = LINES[case['first']]
    for b in LINES:
        reports(rec, sch, kind, path, [a], [b], d, (1, 2))
        for c in LINES[::2]:
            reports(rec, sch, kind, path, [a, b], [c, a], d, (1, 3))


def np_arr(x):
    import numpy as np
    return np.array(x, dtype=np.int32)


def codec(kind, path):
    if kind == 'byte':
        sch = C.ByteScheme()
    elif kind == 'class':
        sch = C.ClassScheme(make_table('class', sorted({x.strip() for x in LINES} | {
            ' '.join(pseudo_words(k * 7 + i + 100 * s, i % 6, 'abc', 2)) for k in range(12) for i in range(30)
            for s in (0, 1)}), freqs=[1] * 999))
    elif kind == 'word':
        sch = C.WordScheme(make_table('word', ['a', 'b', 'ab', 'c']))
    elif kind == 'char':
        sch = C.CharScheme(make_table('char', ['a', 'b', 'c', ',']))
    else:
        sch = C.BPEScheme(make_table('bpe', ['a', 'b', 'c'], [(6, 7), (7, 5), (9, 5)]))
    sch.save(path)
    return C.load_scheme(path)


def as_file(d, name, lines, end=True):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf8', newline='') as f:
        f.write('\n'.join(lines) + ('\n' if end and lines else ''))
    return p


def read_freqs(rec, text, sch, want, n, what):
    got = {}
    for line in text.splitlines():
        gram, freq, names = json.loads(line)
        if tuple(gram) in got:
            rec.fail(f'{what}: {gram} is listed twice')
        got[tuple(gram)] = freq
        if list(names) != [sch.table[g].name for g in gram]:
            rec.fail(f'{what}: {gram} is named {names}')
    if got != dict(want):
        rec.fail(f'{what}: {short(got)}, expected {short(dict(want))}')


def read_report(rec, text, sch, m, n, freqs, what):
    """the table of pr_measure against the model (recall, reference counts, precision, candidate counts)"""
    recall, ref, prec, cand = m
    lines = text.split('\n')
    head = lines[0].split('\t')
    if lines[-1]:
        rec.fail(f'{what}: the last line is not ended')
    seen = {}
    last = None
    for i, line in enumerate(lines[1:-1]):
        row_ = dict(zip(head, line.split('\t')))
        g = tuple(int(x) for x in row_['Gram'].split(','))
        if g in seen:
            rec.fail(f'{what}: {g} is reported twice')
        seen[g] = row_
        if len(g) != n:
            rec.fail(f'{what}: an n-gram {g} for n={n}')
        if row_['Name'] != ','.join(sch.table[x].name for x in g):
            rec.fail(f'{what}: {g} is named {row_["Name"]!r}')
        rank = int(row_['RankF'])
        if int(row_['Rank']) != i + 1 or last is not None and rank > last:
            rec.fail(f'{what}: rank {row_["Rank"]} with frequency {rank} after {last}')
        last = rank
        want_rank = ref.get(g) if freqs is None else freqs.get(g, -1)
        if rank != want_rank:
            rec.fail(f'{what}: {g} is ranked by {rank}, expected {want_rank}')
        if g in ref and (int(row_['RefF']) != ref[g] or abs(float(row_['Recall']) - float(recall[g])) > 1e-5):
            rec.fail(f'{what}: {row_}, expected {ref[g]} in references, recall {recall[g]}')
        if g not in ref and float(row_['Recall']) != 0:
            rec.fail(f'{what}: {row_}, which is in no reference')
        if g in cand and (int(row_['CandF']) != cand[g] or abs(float(row_['Precision']) - float(prec[g])) > 1e-5):
            rec.fail(f'{what}: {row_}, expected {cand[g]} in candidates, precision {prec[g]}')
        p, r, f1 = float(row_['Precision']), float(row_['Recall']), float(row_['F1'])
        if not 0 <= f1 <= 1 or abs(f1 - (2 * p * r / (p + r) if p + r else 0)) > 2e-5:
            rec.fail(f'{what}: F1 in {row_}')
    want = set(ref) if freqs is None else set(ref) | {g for g in freqs if g in cand}
    if set(seen) != want:
        rec.fail(f'{what}: reports {short(sorted(seen))}, expected {short(sorted(want))}')


def oov_model(sch, lines):
    toks = collections.Counter(w for x in lines for w in x.split())
    names = {t.name for t in sch.table}
    iv = {w: f for w, f in toks.items() if w in names}
    return len(iv), len(toks) - len(iv), sum(iv.values()), sum(toks.values()) - sum(iv.values())


def read_oov(rec, out, want, what):
    rows_ = [x.split('\t') for x in out.strip().split('\n')]
    got = (int(rows_[1][1]), int(rows_[1][2]), int(rows_[2][1]), int(rows_[2][2]))
    if got != want:
        rec.fail(f'{what}: types and tokens in and out of vocabulary {got}, expected {want}')
    tot = want[2] + want[3]
    for x, n in zip(rows_[3][1:], want[2:]):
        if abs(float(x) - 100 * n / tot) > 0.0051:
            rec.fail(f'{what}: {x} % for {n} of {tot}')


def reports(rec, sch, kind, path, cands, refs, d, ns):
    enc = [[list(sch.encode(x)) for x in lines] for lines in (cands, refs)]
    fc, fr = as_file(d, 'c', cands, end=len(cands) % 2 == 0 or not cands[-1]), as_file(d, 'r', refs)
    for n in ns:
        with model_pools(lambda k: 0):
            out = io.StringIO()
            with open(fr, encoding='utf8', newline='\n') as f:
                termfreq.main(inp=f, out=out, n=n, model_path=Path(path))
            freqs = collections.Counter(g for s in enc[1] for g in windows(s, n))
            what = f'{kind}, {short(cands)} against {short(refs)}, n={n}'
            read_freqs(rec, out.getvalue(), sch, freqs, n, f'termfreq, {what}')
            m = model(enc[0], enc[1], n)
            for pre in (None, 'refs', 'cands'):
                given = None
                if pre:
                    given = collections.Counter(g for s in enc[pre == 'refs'] for g in windows(s, n))
                    lines = [json.dumps([list(g), k, [sch.table[x].name for x in g]]) + '\n' for g, k in given.items()]
                out = io.StringIO()
                with open(fr, encoding='utf8', newline='\n') as f1, open(fc, encoding='utf8', newline='\n') as f2:
                    pr_measure.main(model_path=Path(path), cands=f2, refs=f1, n=n, out=out,
                                    freqs=iter(lines) if pre else None)
                read_report(rec, out.getvalue(), sch, m, n, given, f'pr_measure, {what}, frequencies of {pre}')
                rec.trace()
        rec.state((kind, tuple(cands), tuple(refs), n))
        rec.step(2)
    if kind == 'word' and any(x.split() for x in cands):
        with open(fc, encoding='utf8', newline='\n') as f:
            out, _ = run_main(lambda: oov_count.main(f, Path(path)), ['x'])
        read_oov(rec, out, oov_model(sch, cands), f'oov_count, {short(cands)}')
        rec.trace()


def processes(rec, d, k):
    """the reports as commands"""
    kind = ['word', 'bpe', 'byte'][k]
    path = os.path.join(d, 'm')
    sch = codec(kind, path)
    cands, refs = LINES[:4] + ['a ab b'], LINES[1:]
    fc, fr = as_file(d, 'c', cands), as_file(d, 'r', refs)
    enc = [[list(sch.encode(x)) for x in lines] for lines in (cands, refs)]

    def run(mod, *args):
        p = subprocess.run([sys.executable, '-m', f'nlcodec.eval.{mod}', *args], capture_output=True, text=True,
                           encoding='utf8', cwd=d, timeout=120)
        rec.eq(p.returncode, 0, f'exit code of {mod} {args}: {p.stderr[-500:]}')
        return p.stdout
    for n in (1, 2, 3):
        out, tf = os.path.join(d, f'o{n}'), os.path.join(d, f'tf{n}')
        run('termfreq', '-i', fr, '-m', path, '-n', str(n), '-o', tf)
        freqs = collections.Counter(g for s in enc[1] for g in windows(s, n))
        read_freqs(rec, open(tf, encoding='utf8').read(), sch, freqs, n, f'termfreq -n {n}')
        run('pr_measure', '-c', fc, '-r', fr, '-m', path, '-n', str(n), '-o', out, *(['-f', tf] if n != 2 else []))
        read_report(rec, open(out, encoding='utf8', newline='\n').read(), sch, model(enc[0], enc[1], n), n,
                    dict(freqs) if n != 2 else None, f'pr_measure -n {n}')
        rec.trace(2)
        rec.state(('process', kind, n))
        rec.step()
    if kind == 'word':
        read_oov(rec, run('oov_count', '-i', fc, '-m', path), oov_model(sch, cands), 'oov_count')
