"""C03: BPE segmentation is greedy longest match.

Explored: every vocabulary reachable by a bounded number of merges over a small alphabet (including
several merges with the same text), every line up to a length over known, unknown and blank
characters, on one codec object that lives through the whole history of lines.
"""
import itertools

from mc.common import *

LEVEL = 'model_checking'
ASSUMPTIONS = ['reserved pieces are pieces: a literal <s> in a line is matched like any other piece',
               'an empty line is the space marker alone']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'vocabularies': f'all sequences of up to {3 if q else 4} merges over {{a, b, ▁}} '
                            '(equal texts allowed; pieces that span several words up to 3 merges), plus chosen deep '
                            'ones and trained ones',
            'lines': f'all over a, b, x (unknown), blank up to length 5..7 (shorter for more '
                     'merges), longer ones over single letters, odd characters',
            'ladder': 'lines and pieces up to 20000 characters',
            'history': 'one codec for all lines of a case, with refused calls in between; lines of 12..5000 characters '
                       'that differ in one or two places'}


def merge_seqs(n):
    """all sequences of n merges over pieces a=6, b=7, ▁=5"""
    def rec(seq, names):
        if len(seq) == n:
            yield tuple(seq)
            return
        for x, y in itertools.product(sorted(names), repeat=2):
            nm = names[x] + names[y]
            if (x, y) in seq or n > 3 and SPACE in nm[:-1]:
                continue
            new = 8 + len(seq)
            yield from rec(seq + [(x, y)], {**names, new: nm})
    yield from rec([], {5: SPACE, 6: 'a', 7: 'b'})


def cases(tier):
    q = tier == 'quick'
    yield {'merges': [], 'len': 6}
    for n in range(1, (4 if q else 5)):
        for seq in merge_seqs(n):
            yield {'merges': seq, 'len': {1: 7, 2: 6, 3: 5 if q else 6, 4: 5}[n]}
    deep = [[(6, 6), (8, 6), (9, 6)], [(6, 7), (8, 8), (9, 9)], [(6, 7), (7, 6), (8, 6), (6, 9)],
            [(6, 6), (8, 8), (9, 9), (10, 5)], [(6, 7), (8, 6), (7, 6), (6, 10), (9, 11)],
            [(7, 5), (6, 8), (6, 9), (7, 10)], [(6, 6), (6, 8), (8, 6), (9, 10), (10, 9)],
            [(6, 7), (8, 5), (8, 8), (10, 9), (6, 8)], [(6, 7), (7, 7), (6, 9), (8, 7), (11, 6)],
            [(6, 5), (8, 7), (9, 5), (10, 6), (7, 11)], [(5, 6), (7, 8), (9, 5), (10, 8), (5, 5)]]
    for m in deep:
        yield {'merges': m, 'len': 7 if q else 8}
    for i in range(6):
        yield {'trained': i}
    for i in range(len(ODD)):
        yield {'odd': i}
    yield {'ladder': 'a'}
    yield {'ladder': 'train'}
    yield {'ladder': 'big'}


ODD = ['spaces', 'chars', 'reserved', 'unknown', 'marker', 'joined', 'long', 'alike']
# characters that join, modify or pair up with their neighbours
JOINING = ['\u200d', '\u200c', '\ufe0f', '\ufe0e', '\u0301', '\u0308', '\u20e3', '\u034f', '\U0001F3FD', '\U0001F468', '\U0001F469',
           '\U0001F1E9', '\U0001F1EA', 'क', '्', 'ि', 'ᄒ', 'ᅡ', 'ᆫ', '한', 'é', 'e', 'ﬁ', 'ǆ', 'ß', 'ı', '\u200f', '\u202e', '\u2066', '\u00ad',
           '\u2060', '\ufeff', '\ue000', '\U000f0000', '\U0010ffff', '\x00', '\x7f', '\u0600', '\U000e0041', '③', 'Å', 'Ω', 'ｶ', 'ﾞ', 'か', '\u3099']


def verify(scheme, trows, lines, rec, what):
    names = {r[1]: None for r in trows}
    name_of = {r[0]: r[1] for r in trows}
    for n, line in enumerate(lines):
        if n % 400 == 10:
            upset(scheme)
        want = ref_pieces('bpe', trows, line)
        got = scheme.encode_str(line)
        if got != want:
            rec.fail(f'{what}: {line!r} is split into {short_(got)}, greedy longest match gives '
                     f'{short_(want)}')
        ids = scheme.encode(line)
        for i in ids:
            if i not in name_of:
                rec.fail(f'{what}: id {i} of {line!r} is not in the table')
        if [name_of[i] for i in ids] != want:
            rec.fail(f'{what}: ids of {line!r} denote {short_([name_of[i] for i in ids])}, the '
                     f'pieces are {short_(want)}')
        rec.trace()
        rec.step(len(want))
        if len(want) < 200:
            rec.state((what, tuple(want)))


def short_(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + f'... ({len(x)} pieces)'


def check(case, rec):
    if 'merges' in case:
        merges = [tuple(m) for m in case['merges']]
        table = make_table('bpe', 'ab', merges)
        trows = rows(table)
        scheme = C.BPEScheme(table)
        lines = list(words('abx ', case['len'], 0))
        what = str(tuple(m for m in merges))
        verify(scheme, trows, lines, rec, what)
        # the same codec after all that history, in reverse, on the longest ones
        verify(scheme, trows, lines[:-300:-1], rec, what)
        longer = [''.join(c * k for c, k in zip(cs, (9, 1, 8))) for cs in
                  itertools.product('abx ', repeat=3)] + ['ab' * 10, 'aab' * 9, 'abb' * 7 + ' a',
                                                          'ba' * 9 + 'x' + 'ab' * 5, 'a' * 33]
        verify(scheme, trows, longer, rec, what)
        rec.eq(rows(scheme.table), trows, 'the vocabulary after encoding')
        rec.sample({'merges': merges, 'line': 'abab xa', 'pieces': ref_pieces('bpe', trows, 'abab xa')})
        return
    if 'trained' in case:
        i = case['trained']
        ws = pseudo_words(i + 50, 300 + 100 * i, 'abcdefgh'[:3 + i], 6 + i)
        lines = [' '.join(ws[j:j + 11]) for j in range(0, len(ws), 11)]
        table = C.BPEScheme.learn(lines, vocab_size=40 + 40 * i, min_co_evidence=1, coverage=1.0)
        scheme = C.BPEScheme(table)
        test = lines[:25] + [w for w in pseudo_words(99, 200, 'abcdefghz ', 30)]
        verify(scheme, rows(table), test, rec, f'trained {i}')
        verify(scheme, rows(table), lines[::-1][:25], rec, f'trained {i}')
        return
    if 'odd' in case:
        kind = ODD[case['odd']]
        chars = ['a', 'b', 'é', '中', '\U0001F600', '#', '0', '<', '>', 's', '/', 'e', '\u0301', 'İ',
                 '\u200b', 'u', 'n', 'k']
        table = make_table('bpe', chars, [(6, 7), (8, 9), (10, 10), (11, 12), (13, 15), (24, 5), (6, 5),
                                          (25, 25), (16, 18)])
        scheme = C.BPEScheme(table)
        trows = rows(table)
        if kind == 'spaces':
            lines = [f'{x}ab{y}a{z}' for x in UNI_SPACES + [''] for y in UNI_SPACES
                     for z in ('', ' ', '\n', '\r\n', '\u3000')]
            lines += [''.join(t) for t in itertools.product(['a', ' ', '\t', '\n', '\x1c', '\u2028'],
                                                            repeat=4)]
            lines += ['', ' ', '\n', '\t \n']
        elif kind == 'chars':
            alpha = ['a', 'b'] + ODD_CHARS
            lines = [''.join(t) for n in (1, 2) for t in itertools.product(alpha, repeat=n)]
            lines += [''.join(t) for t in itertools.product(alpha[:9], repeat=3)]
        elif kind == 'reserved':
            lits = ['<s>', '</s>', '<unk>', '<pad>', '<cls>', '▁', 'a', 'b', '<', '>', ' ']
            lines = [''.join(t) for n in (1, 2, 3) for t in itertools.product(lits, repeat=n)]
        elif kind == 'marker':
            lines = [''.join(t) for n in range(1, 6) for t in itertools.product(['▁', 'a', ' ', 'b'],
                                                                              repeat=n)]
        elif kind == 'joined':
            lines = [a + b for a in JOINING for b in JOINING] + [f'a{a}{b}b' for a in JOINING for b in JOINING]
            few = JOINING[:15]
            lines += [''.join(t) for t in itertools.product(few, repeat=3)]
            verify(scheme, trows, lines, rec, kind)
            table = make_table('bpe', JOINING[::2], [(6, 7), (10, 7), (8, 6), (11, 9)])     # half of them known
            scheme = C.BPEScheme(table)
            trows = rows(table)
        elif kind == 'alike':
            lines = [ln for n in LOOKALIKE_LENGTHS for s in (' ', 'x') for ln in lookalikes(n, s)]
        elif kind == 'long':
            lines = ['ab' * 40000, 'a ' * 70000, 'x' * 66000, 'ab x ' * 30000 + 'b', 'é' * 70000 + 'a']
        else:
            lines = ['x' * n for n in range(1, 70)] + ['x' * n + 'ab' for n in range(30)] \
                + ['ab' + 'y' * n + 'z' for n in range(30)] + ['q w e r t y ' * 5]
        verify(scheme, trows, lines, rec, kind)
        return
    if case['ladder'] == 'a':
        merges = [(6, 6)] + [(8 + k, 8 + k) for k in range(9)]   # aa .. a^1024
        table = make_table('bpe', 'ab', merges)
        scheme = C.BPEScheme(table)
        trows = rows(table)
        lines = ['a' * n for n in range(0, 300)] + ['a' * n + 'x' + 'a' * (n // 2) for n in
                                                    (255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047,
                                                     2048, 4097, 20000)]
        verify(scheme, trows, lines, rec, 'powers of a')
    elif case['ladder'] == 'train':
        table = C.BPEScheme.learn(['a' * 3000 + ' ' + 'b' * 700] * 3, vocab_size=80,
                                  min_co_evidence=2, coverage=1.0)
        scheme = C.BPEScheme(table)
        verify(scheme, rows(table), ['a' * 3000, 'b' * 700, 'a' * 2999 + ' ' + 'b' * 1399], rec,
               'very long pieces')
        ws = pseudo_words(7, 3000, 'abcdef', 10)
        verify(scheme, rows(table), [' '.join(ws), ''.join(ws)[:9000]], rec, 'long lines')
    else:
        n = 3000
        chars = [chr(0x4e00 + k) for k in range(n)]
        table = make_table('bpe', chars, [(6 + k, 6 + (k * 7) % n) for k in range(1, 1500)])
        scheme = C.BPEScheme(table)
        r = Lcg(3)
        lines = [''.join(chars[(k * 7 ** j) % n] for j in range(5)) for k in range(1, 1500, 3)] + \
                [''.join(chars[r(n)] for _ in range(40)) for _ in range(60)]
        verify(scheme, rows(table), lines, rec, 'wide vocabulary')
