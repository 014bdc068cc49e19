"""C05: the byte codec is lossless, and decoding is total.

Explored: every Unicode scalar value as a string of its own, all pairs/triples of representative
characters, every id sequence of length up to 2 and all longer ones over representative bytes and
the sentence markers.
"""
import io
import itertools

from mc.common import *

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['strings are sequences of Unicode scalar values (no lone surrogates)']
REP = [0x00, 0x09, 0x0a, 0x0f, 0x10, 0x20, 0x41, 0x61, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2,
       0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 256, 257]
BLOCK = 0x2000


def BOUNDS(tier):
    q = tier == 'quick'
    return {'characters': 'all 1112064 Unicode scalar values, each as a string',
            'strings': f'all strings of length {3 if q else 4} over 24 representative characters',
            'id sequences': f'all of length 0..2 over 258 ids, all of length {4 if q else 5} over '
                            f'{len(REP)} representative ids', 'ladder': 'strings up to 300000 characters'}


CH = ['\x00', '\x01', '\n', '\r', '\t', '\x0f', '\x10', ' ', 'a', 'f', '0', '\x7f', '\x80', 'é', '\u07ff',
      '\u0800', '\u2028', '\ud7ff', '\ue000', '\ufeff', '\uffff', '\U00010000', '\U0001F600', '\U0010ffff']


def cases(tier):
    q = tier == 'quick'
    yield {'strings': 2, 'first': None}
    yield {'ids': 1}
    for b in range(258):
        yield {'ids': 2, 'first': b}
    for i in range(len(CH)):
        yield {'strings': 3 if q else 4, 'first': i}
    for i in range(len(REP)):
        for j in range(len(REP)):
            yield {'seq': 4 if q else 5, 'first': [REP[i], REP[j]]}
    for start in range(0, 0x110000, BLOCK):
        yield {'block': start}
    yield {'long': 1}
    yield {'reload': 1}


def ref_decode(ids):
    out, run = [], []
    for i in ids:
        if i >= 256:
            out.append(bytes(run).decode('utf-8', 'replace'))
            run = []
            out.append('<s>' if i == 256 else '</s>')
        else:
            run.append(i)
    out.append(bytes(run).decode('utf-8', 'replace'))
    return ''.join(out)


def worker_setup(rec):
    global scheme, names
    scheme = C.ByteScheme()
    names = [t.name for t in scheme.table]


def one_string(s, rec):
    ids = scheme.encode(s)
    want = list(s.encode('utf-8'))
    if list(ids) != want:
        rec.fail(f'{s[:80]!r} encodes to {list(ids)[:60]}, its bytes are {want[:60]}')
    if scheme.decode(ids) != s:
        rec.fail(f'{s[:80]!r} decodes to {scheme.decode(ids)[:80]!r}')
    pieces = scheme.encode_str(s)
    if scheme.decode_str(pieces) != s:
        rec.fail(f'the pieces of {s[:80]!r} decode to {scheme.decode_str(pieces)[:80]!r}')
    if [names.index(p) for p in pieces[:50]] != want[:50]:
        rec.fail(f'the pieces of {s[:80]!r} are {pieces[:50]}')
    rec.trace()
    rec.step(len(want))


def one_seq(ids, rec):
    want = ref_decode(ids)
    got = scheme.decode(list(ids))
    if got != want:
        rec.fail(f'ids {list(ids)} decode to {got!r}, expected {want!r}')
    got = scheme.decode_str([names[i] for i in ids])
    if got != want:
        rec.fail(f'pieces {[names[i] for i in ids]} decode to {got!r}, expected {want!r}')
    rec.trace()
    rec.step(len(ids))
    rec.state(('dec', want))


def check(case, rec):
    global scheme
    upset(scheme)
    if 'block' in case:
        for cp in range(case['block'], min(case['block'] + BLOCK, 0x110000)):
            if 0xd800 <= cp < 0xe000:
                continue
            one_string(chr(cp), rec)
            rec.state(('chr', cp))
    elif 'strings' in case:
        n, f = case['strings'], case['first']
        if f is None:
            for k in range(n + 1):
                for t in itertools.product(CH, repeat=k):
                    one_string(''.join(t), rec)
                    rec.state(('str', t))
        else:
            for t in itertools.product(CH, repeat=n - 1):
                one_string(CH[f] + ''.join(t), rec)
                rec.state(('str', CH[f], t))
    elif case.get('ids') == 1:
        one_seq([], rec)
        for b in range(258):
            one_seq([b], rec)
    elif 'ids' in case:
        for b in range(258):
            one_seq([case['first'], b], rec)
    elif 'seq' in case:
        for n in range(1, case['seq'] - 1):
            for t in itertools.product(REP, repeat=n):
                one_seq(list(case['first']) + list(t), rec)
        rec.sample({'ids': list(case['first']) + [REP[9], 256], 'text': ref_decode(list(case['first']) + [REP[9], 256])})
    elif 'long' in case:
        for n in LOOKALIKE_LENGTHS:
            for line in lookalikes(n):
                one_string(line, rec)
            upset(scheme)
        text = ''.join(CH)
        for n in (15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096,
                  4097, 8191, 8193, 65535, 65536, 65537, 300000):
            one_string((text * (n // len(text) + 1))[:n], rec)
            one_string(('é' * n)[:n], rec)
            one_string(('a' + '\U0001F600' * n)[:n], rec)
            ids = ([256] + list('a\U0001F600\n'.encode()) + [257]) * (n // 8 + 1)
            one_seq(ids, rec)
            one_seq(ids[:n] + [0xe4, 0xb8], rec)
            rec.state(('long', n))
    elif 'reload' in case:
        keep = scheme
        try:
            for make in (lambda: C.ByteScheme(C.ByteScheme.learn(['x'])), lambda: C.ByteScheme(None),
                         reloaded):
                scheme = make()
                rec.eq([t.name for t in scheme.table], names, 'byte vocabulary')
                rec.eq(len(scheme), 258, 'byte vocabulary size')
                for k in range(3):
                    for t in itertools.product(CH, repeat=k):
                        one_string(''.join(t), rec)
                for t in itertools.product(REP, repeat=2):
                    one_seq(list(t), rec)
        finally:
            scheme = keep


def reloaded():
    buf = io.StringIO()
    C.ByteScheme().save(buf)
    buf.seek(0)
    s = C.load_scheme(buf)
    assert isinstance(s, C.ByteScheme)
    return s
