"""C04: decode(encode(line)) restores the line; ids and pieces denote the same symbols.

Explored: every vocabulary that is a subset of a small symbol universe, every line up to a length
over known, unknown and blank symbols, on codec objects that live through the whole history
(encode / encode pieces / decode interleaved, forward and backward, results changed by the caller), for tables built by hand,
learned, and reloaded from a file.
"""
import io
import itertools

from mc.common import *

LEVEL = 'model_checking'
ASSUMPTIONS = ['restoration is claimed for lines whose symbols are known and that contain no space '
               'marker themselves', 'unknown labels of the class codec are outside the claim']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'vocabularies': 'every non-empty subset of 5 symbols (char, class: labels, word: words), '
                            'BPE tables of up to 2 merges, hand-made / learned / reloaded',
            'lines': f'every line of up to {5 if q else 6} symbols over known, unknown, blank (word: '
                     'words), all pairs of odd characters and unicode blanks',
            'ladder': 'lines up to 70000 symbols, vocabularies up to 70000 types'}


WORDS = ['a', 'ab', 'b', 'ba', 'é']

RESERVED_NAMES = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', SPACE]


def subsets(xs):
    for n in range(1, len(xs) + 1):
        for c in itertools.combinations(xs, n):
            yield list(c)


def cases(tier):
    q = tier == 'quick'
    for kind in ('char', 'word'):
        for sub in subsets(list('abé1中') if kind == 'char' else WORDS):
            for origin in ('made', 'learned', 'reloaded'):
                yield {'kind': kind, 'sub': sub, 'origin': origin, 'len': 4 if q else 5}
    for n in (1, 2):
        for seq in _merge_seqs(n):
            for origin in ('made', 'reloaded'):
                yield {'kind': 'bpe', 'merges': seq, 'origin': origin, 'len': 5 if q else 6}
    for sub in subsets(['a', 'b c', ' x', '', 'é,ü', '1']):
        yield {'kind': 'class', 'sub': [s.strip() for s in sub], 'origin': 'made'}
        yield {'kind': 'class', 'sub': [s.strip() for s in sub], 'origin': 'learned'}
    for kind in ('char', 'word', 'bpe', 'class'):
        yield {'kind': kind, 'odd': True}
        for n in (10, 100, 255, 256, 257, 1000, 4097, 20000, 70000):
            yield {'kind': kind, 'long': n}
    for kind in ('word', 'char', 'class'):
        for n in (255, 256, 1000, 33000, 70000) if kind != 'char' else (255, 256, 1000, 19000):
            yield {'kind': kind, 'wide': n}


def _merge_seqs(n):
    from mc.checks.c03 import merge_seqs
    return merge_seqs(n)


def build(case, kind):
    origin = case.get('origin', 'made')
    if kind == 'bpe':
        table = make_table('bpe', 'ab', [tuple(m) for m in case['merges']])
    elif origin == 'learned' and kind == 'class':
        table = C.ClassScheme.learn(case['sub'] + case['sub'][:1])
    elif origin == 'learned':
        table = SCHEMES[kind].learn([' '.join(case['sub'])] * 2, min_freq=1, vocab_size=0,
                                    **({'coverage': 1.0} if kind == 'char' else {}))
    else:
        table = make_table(kind, sorted(set(case['sub'])) if kind == 'class' else case['sub'])
    scheme = SCHEMES[kind](table)
    if origin == 'reloaded':
        buf = io.StringIO()
        scheme.save(buf)
        buf.seek(0)
        scheme = C.load_scheme(buf)
    return scheme


def verify(kind, scheme, lines, rec, tag):
    trows = rows(scheme.table)
    name_of = {r[0]: r[1] for r in trows}
    known = {r[1] for r in trows}
    for n, line in enumerate(lines):
        if n % 400 == 10:
            upset(scheme)
        want = ref_pieces(kind, trows, line)
        pieces = scheme.encode_str(line)
        ids = scheme.encode(line)
        if list(pieces) != want:
            rec.fail(f'{kind} pieces of {line!r} are {short_(pieces)}, expected {short_(want)}')
        if len(ids) != len(want):
            rec.fail(f'{kind}: {line!r} has {len(want)} pieces but {len(ids)} ids')
        all_known = True
        for i, p in zip(ids, want):
            if p in known:
                if i not in name_of or name_of[i] != p:
                    rec.fail(f'{kind}: id {i} ({name_of.get(i)!r}) of {line!r} stands for piece {p!r}')
            else:
                all_known = False
                if kind != 'class' and i != UNK:
                    rec.fail(f'{kind}: unknown symbol {p!r} of {line!r} got id {i}, not {UNK}')
        if kind == 'bpe':
            all_known = ''.join(want) == (''.join(w + SPACE for w in line.split()) or SPACE)
        if all_known and (kind in ('class', 'word') or SPACE not in line):
            expect = line.strip() if kind == 'class' else normal(line)
            back = scheme.decode(list(ids))
            if back != expect:
                rec.fail(f'{kind}: ids of {line!r} decode to {short_(back)}, expected {short_(expect)}')
            back = scheme.decode_str(list(pieces))
            if back != expect:
                rec.fail(f'{kind}: pieces of {line!r} decode to {short_(back)}, expected '
                         f'{short_(expect)}')
            rec.count('round_trips')
        for own in (ids, pieces):       # the results belong to the caller
            if isinstance(own, list):
                own.append(own[0] if own else 0)
        rec.trace()
        rec.step(3)
        if len(want) < 100:
            rec.state((tag, tuple(want)))


def short_(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + f'... ({len(x)})'


def check(case, rec):
    kind = case['kind']
    if case.get('odd'):
        alpha = ['a', 'b'] + ODD_CHARS
        lines = [x + y for x in alpha for y in alpha] + [f'a{s}b{t}' for s in UNI_SPACES for t in
                                                         UNI_SPACES + ['', '\n', '\r\n']]
        lines += [f'{s}a b{s}' for s in UNI_SPACES + ['\n', '\r']] + ['', ' ', '\n']
        lits = ['<s>', '</s>', '<unk>', '<pad>', '<cls>', 'a', 'b', 'ab', ' ']
        lines += [''.join(t) for n in (1, 2, 3) for t in itertools.product(lits, repeat=n)]
        if kind == 'word':
            table = make_table('word', ['a', 'b', 'ab'] + [c for c in ODD_CHARS])
        elif kind == 'class':
            labels = sorted({ln.strip() for ln in lines if '\t' not in ln})
            table = make_table('class', labels)
            lines = [ln for ln in lines if '\t' not in ln]
        else:
            chars = ['a', 'b', '<', '>', 's', 'u', 'n', 'k', '/', 'p', 'd', 'c', 'l'] + ODD_CHARS
            chars = list(dict.fromkeys(c for x in chars for c in x))
            table = make_table(kind, chars)
        verify(kind, SCHEMES[kind](table), lines + lines[::-1], rec, 'odd')
        return
    if 'long' in case:
        n = case['long']
        ws = pseudo_words(n, n // 4 + 1, 'abc', 5)
        text = ' '.join(ws)
        table = {'word': lambda: make_table('word', sorted(set(ws))),
                 'char': lambda: make_table('char', 'abc'),
                 'bpe': lambda: make_table('bpe', 'abc', [(6, 7), (9, 8), (7, 7)]),
                 'class': lambda: make_table('class', [text, 'b'])}[kind]()
        lines = [text, text + '  ', text.replace(' ', '   ')] if kind != 'class' else [text, 'b']
        if kind != 'class':
            lines += [text + ' zz', 'a' * n, 'a ' * n, ' ' * n + 'a', 'ab' * (n // 2)]
            lines += [f'{r} {text} {r} zz ' * 2 for r in RESERVED_NAMES] + [' '.join(RESERVED_NAMES) + ' ' + 'a zz ' * n]
        verify(kind, SCHEMES[kind](table), lines, rec, ('long', n))
        for n in LOOKALIKE_LENGTHS if n <= 1000 else ():
            lines = list(lookalikes(n))
            tables = {'word': ['ab', 'a', 'b'], 'char': 'ab', 'bpe': 'ab', 'class': sorted(set(lines))}
            table = make_table(kind, tables[kind], [(6, 7), (7, 6)] if kind == 'bpe' else ())
            verify(kind, SCHEMES[kind](table), lines, rec, ('alike', n))
        return
    if 'wide' in case:
        n = case['wide']
        syms = [chr(0x4e00 + k) for k in range(n)] if kind == 'char' else [f'w{k}' for k in range(n)]
        if kind == 'class':
            syms.sort()
        scheme = SCHEMES[kind](make_table(kind, syms))
        step = max(1, n // 3000)
        lines = [s for s in syms[::step]] + syms[-5:]
        if kind != 'class':
            lines += [' '.join(syms[k:k + 20]) for k in range(0, n, 20 * step)] + ['zzz' + syms[-1]]
        verify(kind, scheme, lines, rec, ('wide', n))
        return
    scheme = build(case, kind)
    before = rows(scheme.table)
    if kind == 'word':
        units = WORDS + ['x']
        lines = []
        for n in range(0, case['len'] + 1):
            for t in itertools.product(units, repeat=n):
                lines.append(' '.join(t))
        lines += ['  a   ab ', '\ta\tb', 'a\u3000b', 'ab\n', ' b \n', 'a\xa0x\u2003ab']
    elif kind == 'class':
        lines = ['a', 'b c', 'x', ' x', 'x ', '', ' ', 'é,ü', '1', 'a\n', ' b c \n', 'b  c', '1 ']
        lines = [a for a in lines if a.strip() in {r[1] for r in before}]
    elif kind == 'char':
        lines = list(words('abé1中x ', case['len'], 0)) + ['aab bba', ' a  b\n', 'a\u2003b']
    else:
        lines = list(words('abx ', case['len'], 0)) + ['abab  ba ', 'a▁b', '▁', 'ab▁ ▁']
    tag = repr(case)
    verify(kind, scheme, lines, rec, tag)
    verify(kind, scheme, lines[:-200:-1], rec, tag)
    rec.eq(rows(scheme.table), before, 'the table after encoding and decoding')
    if kind == 'class':
        names = [r[1] for r in before]
        for combo in itertools.product(range(len(names)), repeat=2):
            rec.eq(scheme.decode(list(combo)), ','.join(names[i] for i in combo), 'several labels')
    rec.sample({'kind': kind, 'types': [r[1] for r in before], 'line': lines[-1],
                'ids': list(scheme.encode(lines[-1]))})
