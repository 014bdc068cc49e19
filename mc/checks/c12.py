"""C12: frequency files stand in for raw text.

Explored: every frequency table over a universe of terms that look like headers, comments, numbers or
JSON, written with the real writer and read back along every route (plain, gzip, open file, list; with
the header and with the header line taken away); every small corpus x settings learned from text and
from the file counted from it, compared with each other and with the selection model of C06; BPE tables
learned from files replayed on the merge model of C01.
"""
import collections
import io
import itertools
import os

from mc.common import *
from mc.checks import c01, c06
from nlcodec import term_freq as TF
from nlcodec import utils as U

LEVEL = 'model_checking'
CASE_TIMEOUT = 120
ASSUMPTIONS = ['terms are what splitting on blanks yields, so they hold no blanks and are not empty',
               'terms of equal frequency may be cut in any order']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'tables': f'all ordered selections of up to {3 if q else 4} of 16 special terms with '
                      'frequencies 1..2 (3 orders of magnitude)', 'routes': 'plain, gzip, handle, list; '
            'header kept and removed', 'corpora': 'all corpora of up to 3 lines of up to 2 words over 3 '
            'words, settings as in C06', 'ladder': '70000 terms, frequencies up to 2**62'}


TERMS = ['a', '#', '##', '#{', '#{"line_count":7}', '{"types":1}', '0', '12', '-3', '"', '\\', 'é', 'e\u0301',
         '\ufeff', '中\U0001F600', '\u200b', "#'", '1,000', '<unk>', '#a']


def cases(tier):
    q = tier == 'quick'
    for k in range(0, (2 if q else 3) + 1):
        for combo in itertools.permutations(TERMS, k):
            yield {'terms': list(combo)}
    for combo in itertools.combinations(TERMS, 3 if q else 4):
        yield {'terms': list(combo)}
    for i in range(40 if q else 200):
        yield {'learn': i, 'of': 40 if q else 200}
    for i in range(6):
        yield {'text': i}
    for i in range(60 if q else 300):
        yield {'bpe': i}
    for n in (1000, 20000, 70000):
        yield {'wide': n}


def no_header(text):
    return text.split('\n', 1)[1]


def routes(rec, stats, meta):
    """the file written for stats, read back in every way; yields (route, has header, reader)"""
    d = rec.tmp()
    for name in ('tf', 'tf.gz', 'x.wordfreq.gz', 'tf.tsv'):
        p = os.path.join(d, name)
        with U.IO.writer(p) as out:
            TF.write_stats(stats, out, **meta)
        yield p, True, (lambda: U.IO.reader(p))
    buf = io.StringIO()
    TF.write_stats(stats, buf, **meta)
    text = buf.getvalue()
    yield 'buffer', True, (lambda: closing(io.StringIO(text)))
    yield 'list', True, (lambda: closing([x for x in text.split('\n') if x]))
    bare = no_header(text)
    p2 = os.path.join(d, 'bare')
    with open(p2, 'w', encoding='utf8') as f:
        f.write(bare)
    yield 'bare file', False, (lambda: U.IO.reader(p2))
    yield 'bare list', False, (lambda: closing([x for x in bare.split('\n') if x]))


@contextlib.contextmanager
def closing(x):
    yield x


def before(case, rec):
    fail_first(case, rec)


def check(case, rec):
    if 'terms' in case:
        return check_terms(case['terms'], rec)
    if 'learn' in case:
        return check_learn(case, rec)
    if 'text' in case:
        i = case['text']
        lines = [' '.join(pseudo_words(i * 50 + k, k % 9, 'abcdef'[:2 + i], 4)) for k in range(120)]
        lines += ['# #{ 0', ' #{"line_count":1} ', '', 'a\u3000b\x85c', '<s> <unk> ▁']
        for vs in (-1, 0, 7, 12, 40):
            for mf in (1, 2, 5):
                for cov in (0, 0.8):
                    compare_learn(rec, lines, vs, mf, cov, gz=True)
        return
    if 'bpe' in case:
        return check_bpe(case['bpe'], rec)
    n = case['wide']
    stats = {f't{(k * 7919) % n}': 1 + (k * 31) % 1000 + (2 ** 62 if k % 997 == 5 else 0) for k in range(n)}
    check_stats(rec, stats, {'line_count': 12345678901})


def check_terms(terms, rec):
    for fs in itertools.product((1, 2), repeat=len(terms)):
        for meta in ({}, {'line_count': 0}, {'line_count': 5}, {'line_count': 1, 'note': '\t#x'}):
            check_stats(rec, dict(zip(terms, fs)), meta)
    if terms:
        check_stats(rec, {t: 10 ** (6 * i) for i, t in enumerate(terms)}, {'line_count': 3})
        check_stats(rec, collections.Counter({t: 3 for t in terms}), {'line_count': 3})


def check_stats(rec, stats, meta):
    before = dict(stats)
    for route, header, open_it in routes(rec, stats, meta):
        if not header and not stats:
            continue
        with open_it() as lines:
            got, count = C.WordScheme.read_term_freqs(lines)
        what = f'{dict(list(stats.items())[:5])} {meta} by {route}'
        rec.eq(dict(got), before, what + ': terms and counts')
        if header and 'line_count' in meta:
            rec.eq(count, meta['line_count'], what + ': line count')
        elif count is not None and count > 0:
            rec.fail(f'{what}: line count {count} out of nothing')
        rec.step()
        rec.state((tuple(stats.items())[:20], len(stats), tuple(meta), os.path.basename(route)))
        rec.trace()
    rec.eq(dict(stats), before, 'the table given to write_stats')
    rec.sample({'stats': dict(list(stats.items())[:5]), 'meta': meta})


WORDS = ['a', 'bb', '#']
LINES = [''] + WORDS + [f'{x} {y}' for x in WORDS for y in WORDS]


def check_learn(case, rec):
    corpora = [c for k in (1, 2, 3) for c in itertools.product(LINES, repeat=k)]
    for j, lines in enumerate(corpora):
        if j % case['of'] != case['learn']:
            continue
        if not any(lines):
            continue
        for vs in (-1, 7, 8):
            for mf in (1, 2):
                for cov in (0, 0.6):
                    compare_learn(rec, lines, vs, mf, cov)


def compare_learn(rec, lines, vs, mf, cov, gz=False):
    counts = collections.Counter(w for x in lines for w in x.split())
    buf = io.StringIO()
    if gz:
        p = os.path.join(rec.tmp(), 'c.wordfreq.gz')
        with U.IO.writer(p) as out:
            TF.write_stats(counts, out, line_count=len(lines))
        reader = lambda: U.IO.reader(p)      # noqa
    else:
        TF.write_stats(counts, buf, line_count=len(lines))
        reader = lambda: closing(buf.getvalue().split('\n')[:-1])     # noqa
    what = f'{short(lines)} size={vs} min_freq={mf} coverage={cov}'
    a = C.WordScheme.learn(list(lines), vocab_size=vs, min_freq=mf, coverage=cov)
    with reader() as inp:
        b = C.WordScheme.learn(inp, vocab_size=vs, min_freq=mf, coverage=cov, term_freqs=True)
    plain = {k: v for k, v in counts.items() if k not in RESERVED}
    lits = {k: v for k, v in counts.items() if k in RESERVED}
    c06.expect(rec, a, dict(plain), lits, len(lines), cov, mf, vs, what + ' from text')
    c06.expect(rec, b, dict(plain), lits, len(lines), cov, mf, vs, what + ' from frequencies')
    same(rec, a, b, what)
    if not cov and mf >= 1:
        with reader() as inp:
            c = C.learn_vocab(inp, 'word', None, vs, min_freq=mf, term_freqs=True)
        same(rec, a, c, what + ' by learn_vocab')
    rec.trace(2)
    rec.step(2)
    rec.state((tuple(lines[:6]), vs, mf, cov))
    rec.sample({'lines': list(lines)[:4], 'settings': [vs, mf, cov], 'types': [t.name for t in b[6:12]]})


def same(rec, a, b, what):
    """same types with the same frequencies; among those of the lowest frequency kept, which may tie
    with dropped ones, only the number must agree"""
    fa, fb = [t.freq for t in a], [t.freq for t in b]
    rec.eq(fb, fa, what + ': frequencies from the file against those from the text')
    low = fa[-1]
    rec.eq({(t.name, t.freq) for t in b if t.freq > low or t.level < 0},
           {(t.name, t.freq) for t in a if t.freq > low or t.level < 0}, what + ': types')


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def check_bpe(i, rec):
    r = Lcg(i + 1)
    alpha = ['ab', 'abc', 'ab#', 'abé中', '#{0'][i % 5]
    if i < 20:
        lines = [' '.join(alpha[r(len(alpha))] * (1 + r(4)) + alpha[r(len(alpha))] * r(3)
                          for _ in range(1 + r(3))) for _ in range(1 + i % 4)]
    else:
        lines = [' '.join(pseudo_words(i * 131 + k, 1 + k % 6, alpha, 3 + i % 6)) for k in range(5 + 4 * (i % 9))]
    counts = collections.Counter(w for x in lines for w in x.split())
    gz = os.path.join(rec.tmp(), 'bpe.wordfreq.gz')
    with U.IO.writer(gz) as out:
        TF.write_stats(counts, out, line_count=len(lines))
    chars = {ch for w in counts for ch in w}
    for extra, mce in ((1, 1), (4, 1), (1000, 1), (1000, 2), (1000, 3), (25, 2)):
        vs = 6 + len(chars) + extra
        with U.IO.reader(gz) as inp:
            t = C.BPEScheme.learn(inp, vocab_size=vs, min_co_evidence=mce, coverage=1.0, term_freqs=True)
        c01.verify(t, list(counts.items()), vs, mce, 1.0, rec)
        t0 = C.BPEScheme.learn(list(lines), vocab_size=vs, min_co_evidence=mce, coverage=1.0)
        c01.verify(t0, list(counts.items()), vs, mce, 1.0, rec)
        rec.eq({(x.name, x.freq) for x in t if x.level <= 0 and x.freq > 0 and x.level == 0},
               {(x.name, x.freq) for x in t0 if x.level <= 0 and x.freq > 0 and x.level == 0},
               'characters of both trainings')
        with U.IO.reader(gz) as inp:
            t2 = C.learn_vocab(inp, 'bpe', None, vs, term_freqs=True, char_coverage=1.0, min_co_ev=mce)
        rec.eq(rows(t2), rows(t), 'learn_vocab of the same file')
        rec.trace(2)
    rec.sample({'lines': lines[:3], 'merges': [(x.name, x.freq) for x in t if x.kids][:6]})
