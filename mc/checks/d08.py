"""D08: bitext records stay aligned.

Runs the real code on local Spark.  Every file pair holds ALL combinations of the line kinds of both sides
(empty, blank, without tokens, shorter than, exactly at and above the limits, unknown words, odd characters) in
rotated orders, so that every kind comes first and last once; explored for pairs of codecs of all kinds, limits,
truncating or not, partitionings of input and output, through the library and through the command; every
record is compared with the encodings of its own line.  All files of one and two lines over fewer kinds,
and all pairs of different line counts up to 4.
"""
import gzip
import itertools
import os
from pathlib import Path

from mc.common import *
from mc.dbs import fail_db_first
from mc import sparky
from mc.dbs import *
from nlcodec import bitextdb as BT
from nlcodec import spark as SP

LEVEL = 'model_checking'
PLAIN_DIRS = True
CASE_TIMEOUT = 400
PROCS = 4
ASSUMPTIONS = ['text without carriage returns', 'limits of at least 1', 'at least one line is kept']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'line kinds': f'{len(KINDS)} x {len(KINDS)} combinations in every file pair', 'codecs': '8 pairs of word, '
            'char, bpe, byte, class; and a tokenizer giving arrays', 'limits': LIMITS,
            'input partitions': '1, cut at 400 and at 130 bytes (short files: 4, 2), at least 5', 'output partitions': '0, 1, 2, 5, 12',
            'small files': f'all sequences of 1..2 lines over {3 if q else 5} kinds', 'unequal': '0..4 lines each',
            'ladder': f'up to {70000 if q else 130000} types, tokens per line, 12000 lines', 'gzip': 'either side, both'}


KINDS = ['', 'ab', ' ', 'ab ab', 'ab ab ab', 'ab b ab b', 'ab b ab b ab b ab', 'zz é', 'é▁ # \u2028 b', '\ta  b\u3000']
LIMITS = [(3, 3), (1, 2), (256, 256), (7, 5), (2, 13)]
PARTS = [dict(), dict(max_bytes=400), dict(max_bytes=130, shuffle=5), dict(min_parts=5, max_bytes=1000, shuffle=1)]
SMALL = [dict(), dict(max_bytes=4), dict(max_bytes=2, shuffle=2), dict(min_parts=5, max_bytes=1000, shuffle=1)]
OUT = [0, 2, 1, 5, 12]
PAIRS = [('word', 'word'), ('bpe', 'bpe'), ('char', 'word'), ('word', 'byte'), ('bpe', 'class'), ('byte', 'char'),
         ('array', 'array'), ('class', 'bpe')]


def cases(tier):
    q = tier == 'quick'
    n = 0
    for p in range(len(PAIRS)):
        for l in range(len(LIMITS)):
            for trunc in (True, False):
                for k in range(1 if q else 8):
                    n += 1
                    yield {'pair': p, 'limits': l, 'truncate': trunc, 'cut': (n + n // 4) % 4, 'out': n % 5,
                           'rot': n * 7 % 100, 'main': n % 3 == 0}
    kinds = ['', 'ab b', 'ab ab ab b'] if q else ['', ' ', 'ab b', 'ab ab ab b', 'é']
    for n in (1, 2):
        for x in itertools.product(kinds, repeat=n):
            if q and n == 2 and len(set(x)) < 2 and x[0] != 'ab b':
                continue
            yield {'src': list(x), 'kinds': kinds}
    for a in range(5):
        yield {'unequal': a}
    for k in range(2 if q else 6):
        yield {'ladder': k}
    for k in range(2 if q else 6):
        yield {'big': k}
    for k in range(3):
        yield {'gz': k}


def models(d):
    """one model file per kind"""
    out = {}
    table = make_table('bpe', ['a', 'b', 'é'], [(6, 7), (6, 5), (7, 5), (9, 5)])
    for kind, t in (('word', make_table('word', ['ab', 'b', '#'])), ('char', make_table('char', ['a', 'b', ' ', 'é'])),
                    ('bpe', table), ('class', make_table('class', ['ab', 'ab b', '#'])), ('byte', None)):
        out[kind] = os.path.join(d, kind + '.model')
        if kind == 'byte':
            C.ByteScheme().save(out[kind])
        else:
            SCHEMES[kind](t).save(out[kind])
    return out


def as_array(encode):
    return lambda line: np.array(encode(line), dtype=np.int64)


def write(d, name, lines, end=True):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf8', newline='') as f:
        f.write('\n'.join(lines) + ('\n' if end and lines else ''))
    return p


def zipped(path):
    with open(path, 'rb') as f, gzip.open(path + '.gz', 'wb') as g:
        g.write(f.read())
    return path + '.gz'


def expected(src, tgt, enc_x, enc_y, limits, trunc):
    out = {}
    for i, (a, b) in enumerate(zip(src, tgt)):
        if not a or not b:
            continue
        x, y = ints(enc_x(a)), ints(enc_y(b))
        if not x or not y:
            continue
        if trunc:
            x, y = x[:limits[0]], y[:limits[1]]
        elif len(x) > limits[0] or len(y) > limits[1]:
            continue
        out[i] = (tuple(x), tuple(y))
    return out


def judge(rec, path, want, what, names):
    db = D.MultipartDb.load(path)
    got = [(r.id, rec_values(r, names)) for r in db]
    if len(db) != len(got) or len(got) != len(dict(got)):
        rec.fail(f'{what}: {len(db)} records reported, {len(got)} read, {len(dict(got))} ids')
    got = {int(k): v for k, v in got}
    if got != want:
        extra = {k: v for k, v in got.items() if want.get(k) != v}
        lost = {k: v for k, v in want.items() if k not in got}
        rec.fail(f'{what}: records {short(extra)} are not as expected ({short({k: want.get(k) for k in extra})}), '
                 f'missing {short(lost)}')
    rec.trace()
    rec.step(len(want))


def build(s, kind_x, kind_y, files, limits, trunc, out, path, mods, main, names=('x', 'y')):
    """the database, through the command or the library"""
    if main:
        argv = ['nlcodec-db', '-sm', mods[kind_x]] + (['-tm', mods[kind_y]] if kind_x != kind_y else []) + \
               ['-st', files[0], '-tt', files[1], '-db', path, '-np', str(out), '-sl', str(limits[0]), '-tl',
                str(limits[1]), '--truncate' if trunc else '--no-truncate']
        if names != ('x', 'y'):
            argv += ['-sn', names[0], '-tn', names[1]]
        _, code = run_main(BT.main, argv)
        if code:
            raise RuntimeError(f'exit code {code}')
        return
    enc = [codec(mods, k).encode for k in (kind_x, kind_y)]
    if kind_x == 'array':
        enc = [as_array(e) for e in enc]
    df = SP.read_raw_bitext_tok(spark=s, src_path=Path(files[0]), tgt_path=files[1], truncate=trunc, src_len=limits[0],
                                tgt_len=limits[1], src_tokenizer=enc[0], tgt_tokenizer=enc[1])
    SP.rdd_as_db(df.rdd.map(lambda r: (r.id, (r.x, r.y))), Path(path), field_names=names, repartition=out)


def codec(mods, kind):
    return C.load_scheme(mods['word' if kind == 'array' else kind])


def check(case, rec):
    d = rec.tmp()
    mods = models(d)
    if 'pair' in case:
        kx, ky = PAIRS[case['pair']]
        combos = [(a, b) for a in KINDS for b in KINDS]
        combos = combos[case['rot']:] + combos[:case['rot']]
        limits, trunc = LIMITS[case['limits']], case['truncate']
        src, tgt = [a for a, _ in combos], [b for _, b in combos]
        run(rec, d, mods, kx, ky, src, tgt, limits, trunc, PARTS[case['cut']], OUT[case['out']],
            case['main'] and kx != 'array', case)
    elif 'src' in case:
        src = case['src']
        for n, tgt in enumerate(itertools.product(case['kinds'], repeat=len(src))):
            if rec.tier == 'quick' and len(src) == 2 and (n + len(src[0])) % 3:
                continue
            run(rec, d, mods, 'word', 'word', src, list(tgt), (3, 4), n % 2 == 0, SMALL[n % 4], OUT[n % 3], False,
                (src, tgt))
    elif 'big' in case:
        # types and tokens beyond 65535, lines by the thousand, lines of thousands of tokens
        k = case['big']
        n = [70000, 20000, 3000, 130000, 66000, 5000][k]
        table = make_table('word', [f'w{i}' for i in range(n)])
        C.WordScheme(table).save(mods['word'])
        src = [f'w{i * 7 % n} w{n - 1 - i % n}' for i in range([3000, 12000][k % 2])]
        tgt = [f'w{n - 1} ' * (i % 3) + f'w{i % n}' for i in range(len(src))]
        src[5], tgt[6], tgt[9] = ' '.join(f'w{i}' for i in range(n)), 'w1 ' * n, 'w2 ' * 700
        run(rec, d, mods, 'word', 'word', src, tgt, (n + 1, n - 1) if k % 2 else (n, 600), k % 2 == 1,
            [dict(), dict(max_bytes=30000, shuffle=2)][k % 2], [3, 0][k % 2], k == 0, case)
    elif 'gz' in case:
        k = case['gz']
        combos = [(a, b) for a in KINDS for b in KINDS]
        run(rec, d, mods, *PAIRS[k], [a for a, _ in combos], [b for _, b in combos], LIMITS[k], k == 1, PARTS[k],
            OUT[k], k == 2, case, gz=[1, 2, 3][k])
    elif 'unequal' in case:
        unequal(rec, d, mods, case['unequal'])
    else:
        k = case['ladder']
        r = Lcg(k)
        lines = [[' '.join(pseudo_words(i * 2 + s, r(9), 'ab', 2)) for i in range(700 + 300 * k)] for s in (0, 1)]
        run(rec, d, mods, 'bpe', 'word', *lines, (9, 6), k % 2 == 0, dict(max_bytes=2000 + 500 * k, shuffle=6),
            [0, 7, 3][k % 3], True, case)


def run(rec, d, mods, kx, ky, src, tgt, limits, trunc, cutting, out, main, what, gz=0):
    enc = [codec(mods, k).encode for k in (kx, ky)]
    want = expected(src, tgt, *enc, limits, trunc)
    if not want:
        rec.count('nothing_kept')
        return
    files = write(d, 'src', src, end=not src[-1] or len(src) % 2 == 0), write(d, 'tgt', tgt)
    if gz:
        files = tuple(zipped(f) if gz >> i & 1 else f for i, f in enumerate(files))
    path = os.path.join(d, f'db{rec.traces}')
    names = [('x', 'y'), ('src', 'tgt'), ('y', 'x')][len(want) % 3]
    with sparky.cut(**cutting) as s:
        build(s, kx, ky, files, limits, trunc, out, path, mods, main, names)
    judge(rec, path, want, f'{short(what)}: {kx}-{ky}, limits {limits}, truncate {trunc}, partitions {cutting} and '
          f'{out}, command {main}, fields {names}', names)
    rec.state((kx, ky, limits, trunc, tuple(src[:5]), tuple(tgt[:5]), len(src), repr(cutting), out))
    rec.sample({'src': src[:4], 'tgt': tgt[:4], 'records': len(want)})


def unequal(rec, d, mods, a):
    for b in range(5):
        if a == b:
            continue
        files = write(d, f's{a}.{b}', ['ab'] * a), write(d, f't{a}.{b}', ['ab'] * b)
        path = os.path.join(d, f'un{a}.{b}')
        for main in (False, True):
            with sparky.cut(**SMALL[(a + b) % 4]) as s:
                try:
                    build(s, 'word', 'word', files, (9, 9), True, 0, path, mods, main)
                except Exception:
                    rec.trace()
                    rec.step()
                    rec.state((a, b, main))
                    continue
            rec.fail(f'files of {a} and {b} lines are accepted')


def worker_setup(rec):
    sparky.start(rec.scratch)


def worker_teardown(rec):
    sparky.stop()


def before(case, rec):
    fail_db_first(case, rec)
