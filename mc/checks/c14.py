"""C14: term counting on Spark is exact and reusable.

Runs the real code on local Spark.  Explored: every file set of up to 3 lines over 5 lines split over one
or two files in every way, counted with and without deduplication under several partitionings (down to
partitions smaller than a line) against a recount; larger texts with more
partitions than lines, and with up to 12000 (150000) types; nlcodec-learn for every history of two runs over levels (first run, rerun, other level on the saved
files), its models judged by the selection model (C06) and the merge model (C01).
"""
import collections
import itertools
import os
import sys
from pathlib import Path

from mc.common import *
from mc import sparky
from mc.checks import c01, c06
from nlcodec import learn as LEARN
from nlcodec import term_freq as TF

LEVEL = 'model_checking'
PLAIN_DIRS = True
CASE_TIMEOUT = 400
PROCS = 4
ASSUMPTIONS = ['text without carriage returns', 'class labels given to nlcodec-learn hold no whitespace',
               'terms of equal frequency may be cut in any order']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'files': f'all sequences of 1..{2 if q else 3} lines over 6 lines (3 lines over 3), split over 1..2 '
                     'files', 'partitionings': '1 partition, at most 5 bytes, at least 4 partitions',
            'dedup': 'both', 'learn': 'all histories of two runs over word, char, bpe and settings'}


LINES = ['', 'a b a', ' b ', 'é▁ # a', 'a b a ', '<!S!> a']


def seqs(tier):
    q = tier == 'quick'
    yield ()
    for k in (1, 2) if q else (1, 2, 3):
        yield from itertools.product(LINES, repeat=k)
    if q:
        yield from itertools.product(LINES[:3], repeat=3)


def cases(tier):
    for i, s in enumerate(seqs(tier)):
        yield {'lines': list(s), 'i': i}
    for i in range(6 if tier == 'quick' else 24):
        yield {'text': i}
    for n in (1500, 12000) if tier == 'quick' else (1500, 12000, 66000, 150000):
        yield {'wide': n}
    for n in (33000, 140000) if tier == 'quick' else (33000, 140000, 1100000):
        yield {'long': n}
    for a in range(len(HIST)):
        for b in range(len(HIST)):
            if max(a, b) > 4 and a + b not in (6, 8, 11):
                continue
            yield {'history': [a, b], 'dedup': (a + b) % 2 == 0}
    for d in (True, False):
        yield {'freq': d}


HIST = [('word', []), ('char', []), ('bpe', ['-vs', '40', '-mce', '1', '-cv', '1.0']),
        ('bpe', ['-vs', '25', '-mce', '2', '-cv', '1.0']), ('word', ['-mf', '2', '-vs', '12']), ('class', []), ('byte', [])]


def recount(lines, dedup):
    if dedup:
        lines = list(dict.fromkeys(lines))
    words = collections.Counter(w for x in lines for w in x.split())
    chars = collections.Counter()
    for w, f in words.items():
        for ch in w:
            chars[ch] += f
    return dict(words), dict(chars), len(lines)


def write(d, name, lines, end=True):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf8', newline='') as f:
        f.write('\n'.join(lines) + ('\n' if end and lines else ''))
    return p


PARTS = [dict(), dict(max_bytes=5), dict(min_parts=4, max_bytes=1000, shuffle=1), dict(max_bytes=1, shuffle=5)]


def judge(rec, what, got, want):
    for name, g, w in zip(('word counts', 'character counts', 'line count'), got, want):
        g = dict(g) if isinstance(w, dict) else g
        if g != w:
            rec.fail(f'{what}: {name} {short(g)}, expected {short(w)}')


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def check(case, rec):
    d = rec.tmp()
    if 'history' in case:
        return check_history(case, rec, d)
    if 'freq' in case:
        return check_freq(case['freq'], rec, d)
    if 'text' in case:
        i = case['text']
        lines = [' '.join(pseudo_words(i * 50 + k, k % 9, 'abcdéf'[:2 + i % 4], 1 + k % 5)) for k in range(60 + 30 * i)]
        lines += ['a\u3000b\x85c \x1c d', '0 00 "x" \\', 'İ ß SS', '\U0001F600 e\u0301 é', 'x' * 3000, '  ']
        lines += lines[:20] + ['<!S!> <!S!>', '<unk> <s>']
        splits = [[lines], [lines[:33], lines[33:]], [lines[:1], lines[1:50], [], lines[50:]]]
        parts = [PARTS[0], dict(max_bytes=400 + 100 * i, shuffle=7)] + ([dict(min_parts=9, shuffle=2)] if i % 2 else [])
    elif 'wide' in case:    # many types, in one partition and in several
        n = case['wide']
        ids = [(k * k * 7 + k) % n for k in range(2 * n)] + list(range(n))
        lines = [' '.join(f'w{j}' for j in ids[k:k + 1 + k % 23]) for k in range(0, len(ids), 23)]
        lines += [' '.join(f'w{j}' for j in range(n))] + lines[::-5] + [chr(0x4e00 + k % 20000) for k in range(0, n, 3)]
        splits = [[lines], [lines[:99], lines[99:]]]
        parts = [dict(shuffle=1), dict(min_parts=4, shuffle=3)]
    elif 'long' in case:    # a line of very many words, a very long word, and many repeats of a line
        n = case['long']
        lines = ['a b', 'w ' * n + 'z', 'ab' * n, 'a b'] + ['r s'] * (n // 10) + ['last']
        splits = [[lines]]
        parts = [dict(shuffle=1)]
    else:
        lines = case['lines']
        splits = [[lines]] + ([[lines, lines]] if not lines else []) + [[lines[:k], lines[k:]] for k in range(1, len(lines))]
        if len(lines) == 2:
            splits.append([lines[:1], lines[1:], []])
        parts = [PARTS[case['i'] % 4], PARTS[(case['i'] + 1) % 4]]
    for si, split in enumerate(splits):
        paths = [write(d, f"f{si}.{k}", x, end=(si + k) % 2 == 0 or not x or x[-1] == '') for k, x in enumerate(split)]
        for dedup in (True, False):
            want = recount(lines, dedup)
            for cutting in parts if si == 0 else parts[:1]:
                with sparky.cut(**cutting) as s:
                    stops = len(sparky.STOPS)
                    got = TF.word_counts([Path(p) for p in paths], dedup=dedup, spark=s)
                    rec.eq(len(sparky.STOPS), stops, 'a session given by the caller was stopped')
                judge(rec, f'{short(split)} dedup={dedup} partitions {cutting}', got, want)
                if si == 0 and cutting is parts[0] and case.get('i', 0) % 9 == 0:     # a file twice, and by another name
                    link = os.path.join(d, f'link{dedup}')
                    os.symlink(paths[0], link)
                    for again in ([paths[0]], [link]):
                        got = TF.word_counts([Path(p) for p in paths + again], dedup=dedup, spark=s)
                        judge(rec, f'{short(split)} and the first file again, dedup={dedup}', got, recount(sum(split, []) + split[0], dedup))
                rec.trace()
                rec.step()
                rec.state((repr(split)[:3000], dedup, tuple(sorted(cutting.items()))))
    rec.sample({'files': short(split), 'words': short(want[0])})


def check_freq(dedup, rec, d):
    """the nlcodec-freq command"""
    lines = ['a b a', '', 'a b a', '#x 0', 'é']
    paths = [write(d, 'f', lines[:3]), write(d, 'g', lines[3:])]
    want = recount(lines, dedup)
    wf, cf = os.path.join(d, 'wf'), os.path.join(d, 'cf')
    argv = ['nlcodec-freq', '-i'] + paths + ['-wf', wf, '-cf', cf] + (['-dd'] if dedup else ['-ndd'])
    out, code = run_main(TF.main, argv)
    rec.eq(code, 0, 'exit code of nlcodec-freq')
    for p, w in ((wf, want[0]), (cf, want[1])):
        with open(p, encoding='utf8') as f:
            got, n = C.WordScheme.read_term_freqs(f)
        rec.eq(dict(got), w, f'{os.path.basename(p)} with dedup={dedup}')
        rec.eq(n, want[2], f'line count in {os.path.basename(p)} with dedup={dedup}')
    # a session of its own
    stops = len(sparky.STOPS)
    got = TF.word_counts([Path(p) for p in paths], dedup=dedup)
    rec.true(len(sparky.STOPS) > stops, 'a session of its own is left running')
    judge(rec, f'own session, dedup={dedup}', got, want)
    rec.trace(2)
    rec.state(('freq', dedup))


TEXT = ['abab ab a', 'ab aab b', '', 'abab ab a', 'ab é b ab', 'aab aab', 'c #', 'c c d', 'ab']


def check_history(case, rec, d):
    paths = [write(d, 'f', TEXT[:4]), write(d, 'g', TEXT[4:])]
    words, chars, n = recount(TEXT, case['dedup'])
    model = os.path.join(d, 'm.model')
    seen = {}
    runs = list(case['history']) + [case['history'][-1]]
    for k, h in enumerate(runs):
        level, opts = HIST[h]
        if os.path.exists(model):
            os.remove(model)
        if k == 2:      # the text is not needed any more
            for p in paths:
                with open(p, 'w') as f:
                    f.write('zz zz\n')
        out, code = run_main(LEARN.main, ['nlcodec-learn', '-i'] + paths + ['-m', model, '-l', level] + opts +
                             (['--dedup'] if case['dedup'] else []))
        rec.eq(code, 0, f'exit code of nlcodec-learn -l {level} {opts}')
        sch = C.load_scheme(model)
        what = f'nlcodec-learn -l {level} {opts} dedup={case["dedup"]} run {k + 1} of {runs}'
        rec.eq(sch.name, level, what + ': kind')
        t = sch.table
        if level == 'bpe':
            mce = int(opts[3])
            c01.verify(t, list(words.items()), int(opts[1]), mce, 1.0, rec)
        elif level == 'word':
            c06.expect(rec, t, dict(words), {}, n, 0, int(opts[1]) if opts else C.WORD_MIN_FREQ,
                       int(opts[3]) if opts else -1, what)
        elif level == 'class':
            rec.eq([(x.name, x.freq) for x in t], sorted(words.items()), what + ': labels')
        elif level == 'byte':
            rec.eq(rows(t), rows(C.ByteScheme().table), what + ': table')
        else:
            c06.expect(rec, t, dict(chars), {}, n, C.CHAR_COVERAGE, C.CHAR_MIN_FREQ, -1, what)
        if h in seen:
            rec.eq(rows(t), seen[h], what + ': model of the rerun')
        seen[h] = rows(t)
        rec.trace()
        rec.step()
        rec.state((tuple(runs[:k + 1]), case['dedup']))
    rec.sample({'history': [HIST[h] for h in runs], 'types': [x.name for x in t][6:12]})


def worker_setup(rec):
    sparky.start(rec.scratch)


def worker_teardown(rec):
    sparky.stop()


def before(case, rec):
    fail_first(case, rec)
