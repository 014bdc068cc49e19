"""C07: saving and reloading is the identity on codecs.

Explored: every learned or hand-made table of a bounded family x every way to save x every way to
load; a history of save, load, encode, save again is run and compared at every step; processes whose locale is not UTF-8.
"""
import io
import itertools
from pathlib import Path

from mc.common import *

LEVEL = 'model_checking'
ASSUMPTIONS = ['class labels contain neither tabs nor line breaks (the file is tab separated)']
SAVES = ['path', 'str', 'handle', 'stringio', 'learn']
LOADS = ['path', 'str', 'handle', 'stringio']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'tables': 'all BPE tables of up to ' + ('2' if q else '3') + ' merges over {a, b, ▁} (equal texts '
            'included), every subset of 6 odd word/character/label symbols, trained tables with up to '
            '3000 types, unknown and marker pieces in merges, frequencies from -1 to 2**70',
            'save': SAVES, 'load': LOADS}


SYMS = ['a', '#', '#{"x":1}', '中', '\U0001F600', '0', '\u200b', '"', '\ufeff']
LABELS = ['a b', '#', '', '0', 'a,b', '中  x', '#{"x":1}', '"q"', '\ufeffx', 'x\x85y', 'x\u2028y', 'a\x1fb\x1cc',
          'a\xa0b\x0bc\x0cd']


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 3 if q else 4):
        from mc.checks.c03 import merge_seqs
        for seq in merge_seqs(n):
            yield {'kind': 'bpe', 'merges': seq}
    for kind in ('word', 'char', 'class'):
        syms = LABELS if kind == 'class' else SYMS
        for k in range(0 if kind != 'class' else 1, 4):
            for sub in itertools.combinations(syms, k):
                if kind == 'char' and any(len(s) > 1 for s in sub):
                    continue
                yield {'kind': kind, 'syms': list(sub)}
    for kind in ('bpe', 'word', 'char', 'class', 'byte'):
        for i in range(4 if q else 12):
            yield {'kind': kind, 'trained': i}
    for f in (0, 1, -1, 2 ** 31, 2 ** 53 + 1, 2 ** 63, 2 ** 70):
        yield {'kind': 'bpe', 'freq': f}
    for n in (300, 3000):
        yield {'kind': 'bpe', 'deep': n}
    yield {'kind': 'bpe', 'unk': 1}
    for n in (1, 2, 3, 4, 7):
        yield {'kind': 'bpe', 'parts': n}
    for a in SCHEMES:
        for b in SCHEMES:
            yield {'kind': a, 'over': b}
    for kind in ('bpe', 'word', 'char', 'class'):
        yield {'kind': kind, 'locale': 1}


TEST = ['', 'a', 'ab', 'ab ba', ' aab  bab ', 'x', '# a', '中\U0001F600 0', 'a b', 'a▁b', '<s> <unk>', 'aa' * 20,
        '#{"x":1}', '\u200b\ufeffa', '"', 'a\u3000b']


LOCALE_CODE = """
import json, sys
from pathlib import Path
from nlcodec import load_scheme
out = []
for form in (str, Path):
    s = load_scheme(form(sys.argv[1]))
    s.save(form(sys.argv[2]))
    s2 = load_scheme(form(sys.argv[2]))
    for x in (s, s2):
        out.append([[t.name, t.level, t.idx, t.freq, [k.idx for k in t.kids or ()]] for t in x.table])
print(json.dumps(out))
"""


def other_locale(rec, kind, d):
    """model files are UTF-8 whatever the locale"""
    if kind == 'bpe':
        table = make_table('bpe', ['é', '中', '\U0001F600'], [(6, 7), (9, 8), (8, 5)])
    else:
        table = make_table(kind, ['b', '\U0001F600', 'é', '中'] if kind != 'class' else ['b', 'é x', '中'])
    p, p2 = str(Path(d) / 'm'), str(Path(d) / 'm2')
    SCHEMES[kind](table).save(p)
    want = [[t.name, t.level, t.idx, t.freq, [k.idx for k in t.kids or ()]] for t in table]
    for utf8 in (False, True):
        got = in_locale(LOCALE_CODE, p, p2, utf8=utf8)
        rec.eq(got, [want] * 4, f'{kind} codec in a process whose locale {"is" if utf8 else "is not"} UTF-8')
        rec.eq(rows(C.load_scheme(p2).table), rows(table), f'{kind} codec saved in another locale')
        rec.trace()
        rec.step(4)
        rec.state((kind, 'locale', utf8))


def make(case, rec):
    kind = case['kind']
    if 'merges' in case:
        return make_table('bpe', 'ab', [tuple(m) for m in case['merges']]), None
    if 'syms' in case:
        syms = sorted(case['syms']) if kind == 'class' else case['syms']
        return make_table(kind, syms), None
    if 'freq' in case:
        t = make_table('bpe', 'ab', [(6, 7), (8, 8)])
        return [x.copy(freq=case['freq']) if not x.kids else x for x in t[:8]] + \
            C_rebuild(t, case['freq']), None
    if 'parts' in case:     # composed of any number of parts
        t = make_table('bpe', 'abcd', [(6, 7)])
        kids = tuple(t[5 + (k * k) % 6] for k in range(case['parts']))
        t.append(C.Type(''.join(k.name for k in kids), level=1, idx=len(t), freq=3, kids=kids))
        t.append(C.Type(t[-1].name * 2, level=1, idx=len(t), freq=3, kids=(t[-1], t[-1])))
        t.append(C.Type(t[-1].name + 'd', level=2, idx=len(t), freq=3, kids=(t[-1], t[9])))
        return t, None
    if 'deep' in case:
        return C.BPEScheme.learn(['ab' * case['deep'], ''.join(chr(0x4e00 + k) for k in range(100))] * 3,
                                 vocab_size=400, min_co_evidence=2, coverage=1.0), None
    if 'unk' in case:
        return C.BPEScheme.learn(['abx abx abx aby ab'], vocab_size=16, min_co_evidence=1, coverage=0.7), None
    i = case['trained']
    ws = pseudo_words(i, 200 + 900 * (i % 4), 'abcdefghij'[:2 + i], 3 + 2 * i) + SYMS
    lines = [' '.join(ws[j:j + 5]) for j in range(0, len(ws), 5)]
    kw = {'word': dict(vocab_size=[-1, 50, 300, 0][i % 4]), 'char': dict(vocab_size=[-1, 9, 0, 12][i % 4]),
          'class': dict(vocab_size=-1), 'byte': dict(vocab_size=-1),
          'bpe': dict(vocab_size=[40, 60, 200, 500][i % 4], min_co_ev=[1, 1, 2, 3][i % 4],
                      char_coverage=[1.0, 0.99, 1.0, 0.95][i % 4])}[kind]
    if kind == 'class':
        lines = [ln for ln in lines]
    return None, (lines, kind, kw)


def C_rebuild(t, f):
    """types 8 and 9 of the table again, over parts with the new frequency"""
    base = [x.copy(freq=f) for x in t[:8]]
    a = t[8].copy(freq=f, kids=(base[6], base[7]))
    b = t[9].copy(freq=f, kids=(a, a))
    return [a, b]


def save_one(scheme, how, d, k, train, rec):
    p = Path(d) / f'm{k}.{how}.model'
    if how == 'learn':
        if not train:
            return None
        lines, kind, kw = train
        C.learn_vocab(list(lines), kind, p if k % 2 else str(p), min_freq=1, **kw)
        return p
    if how == 'path':
        scheme.save(p)
    elif how == 'str':
        scheme.save(str(p))
    elif how == 'handle':
        with open(p, 'w', encoding='utf8') as f:
            scheme.save(f)
            rec.true(not f.closed, "saving closed the caller's file")
    else:
        buf = io.StringIO()
        scheme.save(buf)
        rec.true(not buf.closed, "saving closed the caller's buffer")
        p.write_text(buf.getvalue(), encoding='utf8')
    return p


def load_one(p, how, rec):
    if how == 'path':
        return C.load_scheme(Path(p))
    if how == 'str':
        return C.load_scheme(str(p))
    if how == 'handle':
        with open(p, encoding='utf8') as f:
            return C.load_scheme(f)
    return C.load_scheme(io.StringIO(p.read_text(encoding='utf8')))


def observe(scheme, lines):
    out = []
    for ln in lines:
        ids = scheme.encode(ln)
        pieces = scheme.encode_str(ln)
        out.append((list(ids), list(pieces), scheme.decode(list(ids)), scheme.decode_str(list(pieces))))
    return out


def small_tables(kind):
    if kind == 'byte':
        return [C.ByteScheme.get_init_vocab()]
    a, b = ['a', 'b'], ['b', 'c']
    out = [make_table(kind, a), make_table(kind, b)]
    if kind == 'bpe':
        out += [make_table(kind, 'ab', [(6, 7), (7, 6)]), make_table(kind, 'ab', [(7, 6), (6, 7)])]
    return out


def over(kinds, rec):
    """a place that holds one model after another, many of one size, loaded every time"""
    p = Path(rec.tmp()) / 'm'
    tables = [(k, t) for k in kinds for t in small_tables(k)]
    for i, j in itertools.permutations(range(len(tables)), 2):
        for k in (i, j, i):
            kind, t = tables[k]
            for n, how in enumerate(LOADS):
                if n < 2:
                    SCHEMES[kind](t).save(str(p) if n else p)
                s = load_one(p, how, rec)
                rec.true(type(s) is SCHEMES[kind], f'{kind} saved over another, loaded by {how}: a {type(s).__name__}')
                rec.eq(rows(s.table), rows(t), f'{kind} saved over another, loaded by {how}: types')
                rec.step()
        rec.trace()
        rec.state((kinds, i, j))


def before(case, rec):
    """something else fails first"""
    fail_first(case, rec, 3)


def check(case, rec):
    if 'over' in case:
        return over((case['kind'], case['over']), rec)
    if 'locale' in case:
        return other_locale(rec, case['kind'], rec.tmp())
    table, train = make(case, rec)
    kind = case['kind']
    if train:
        lines, _, kw = train
        table = C.learn_vocab(list(lines), kind, None, min_freq=1, **kw)
        tests = TEST + lines[:30]
    else:
        tests = TEST
    if kind == 'class':
        tests = [t.name for t in table] + [f' {t.name}\n' for t in table]
    scheme = SCHEMES[kind](table)
    want_rows = rows(table)
    want_obs = observe(scheme, tests)
    d = rec.tmp()
    k = 0
    for how_s in SAVES:
        p = save_one(scheme, how_s, d, k, train, rec)
        if p is None:
            continue
        for how_l in LOADS:
            k += 1
            what = f'{kind} codec saved by {how_s}, loaded by {how_l}'
            s2 = load_one(p, how_l, rec)
            rec.true(type(s2) is type(scheme), f'{what} is a {type(s2).__name__}')
            rec.eq(rows(s2.table), want_rows, f'{what}: types')
            for t1, t2 in zip(scheme.table, s2.table):
                if not (t1 == t2 and t2 == t1):
                    rec.fail(f'{what}: type {t2!r} does not equal the original {t1!r}')
            rec.true(list(s2.table) == list(table), f'{what}: tables differ')
            rec.eq(len(s2), len(scheme), f'{what}: size')
            got = observe(s2, tests)
            for ln, g, w in zip(tests, got, want_obs):
                if g != w:
                    rec.fail(f'{what}: {ln[:200]!r} gives {short(g)}, originally {short(w)}')
            # second generation
            buf = io.StringIO()
            s2.save(buf)
            buf.seek(0)
            s3 = C.load_scheme(buf)
            rec.true(type(s3) is type(scheme), f'{what}, saved again: a {type(s3).__name__}')
            rec.eq(rows(s3.table), want_rows, f'{what}, saved again: types')
            rec.trace(len(tests))
            rec.step(4)
            rec.state((kind, tuple(want_rows), how_s, how_l))
        rec.eq(rows(scheme.table), want_rows, 'the original after saving')
        rec.true(observe(scheme, tests) == want_obs, 'the original codec changed by saving')
    rec.sample({'case': case, 'types': [r[1] for r in want_rows][:12]})


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'
