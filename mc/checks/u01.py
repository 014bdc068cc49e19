"""U01: files read back as written, compressed or not.

Explored on real files: every content of up to 3 (4) units over an alphabet of line-break-like, multi-byte and
control characters, plain and compressed, as text and as bytes, whole, by lines and as a stream of several
files; every sequence of up to 4 (5) operations (replace, append, read, an error inside the block) with small
contents, text and binary mixed, against a byte string; contents around the buffer sizes with characters
across every boundary; files made by other programs (several gzip members);
processes whose locale is not UTF-8.
"""
import gc
import gzip
import itertools
import os
from pathlib import Path

from mc.common import *
from mc.failing import fail_tools_first
from mc.core import short
from nlcodec.utils import IO

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['text that UTF-8 can express (no lone surrogates)']

UNITS = ['a', '\n', '\r', '\r\n', '\x0b', '\x1c', '\x85', '\u2028', 'é', '\U0001F600', '\x00', '\ufeff', '\x1a', ' ', '\t']
BYTES = [b'a', b'\n', b'\r', b'\r\n', b'\xff', b'\xc3', b'\x00', b'\x1f\x8b', b'\x80', b'\xef\xbb\xbf']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'texts': f'all of up to {3 if q else 4} of {len(UNITS)} units', 'bytes': f'all of up to {3 if q else 4} of '
            f'{len(BYTES)} units', 'histories': f'all sequences of up to {4 if q else 5} operations of 10 kinds, {2} names',
            'long': 'lengths around 128, 1024, 4096, 8192, 65536, 131072, 1 MiB'}


NAMES = ['f', 'f.gz']
OPS = [('w', 't', 'x\ny'), ('w', 'b', b'\xff\n'), ('a', 't', 'é\r\n'), ('a', 'b', b'z'), ('w', 't', ''), ('a', 't', ''),
       ('r', 't', None), ('r', 'b', None), ('e', 'w', 'partial\n'), ('e', 'a', 'tail')]


def cases(tier):
    q = tier == 'quick'
    top = 3 if q else 4
    for u in range(len(UNITS)):
        yield {'text': u, 'top': top}
    for u in range(len(BYTES)):
        yield {'bytes': u, 'top': top}
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield {'ops': [a, b], 'top': 4 if q else 5}
    for n in (1 << 20, 131072, 65536, 8192, 4096, 1024, 128, 100, 1):
        for b in range(6):
            if n < 1 << 20 or b < (2 if q else 6):
                yield {'long': n, 'base': b}
    yield {'streams': 0}
    yield {'streams': 1}
    yield {'foreign': True}
    yield {'closing': True}
    yield {'locale': True}


def ref_lines(data):
    """split after line feeds only"""
    nl = '\n' if isinstance(data, str) else b'\n'
    parts = data.split(nl)
    return [p + nl for p in parts[:-1]] + ([parts[-1]] if parts[-1] else [])


def open_fds():
    return set(os.listdir('/proc/self/fd'))


def form(path, k):
    return Path(path) if k % 2 else str(path)


def write(path, data, k, append=False):
    text = isinstance(data, str)
    if k % 3 == 0:
        cm = IO.writer(form(path, k), text=text, append=append)
    elif k % 3 == 1 or not text:
        cm = IO(form(path, k), ('a' if append else 'w') + ('t' if text else 'b'))
    else:
        cm = IO(form(path, k), 'a' if append else 'w')
    with cm as f:
        if k % 2:
            f.write(data)
        else:
            for x in ref_lines(data):
                f.write(x)


def read_all(rec, path, data, k, what):
    """data: bytes of the file; text is compared when it is UTF-8"""
    try:
        text = data.decode('utf8')
    except UnicodeDecodeError:
        text = data.decode('utf8', errors='replace')
    for want, t in ((data, False), (text, True)):
        with IO.reader(form(path, k), text=t) as f:
            got = f.read()
        if got != want:
            rec.fail(f'{what}: {"text" if t else "bytes"} {short(got)}, expected {short(want)}')
        with IO(form(path, k + 1), 'rt' if t else 'rb') as f:
            got = list(f)
        if got != ref_lines(want):
            rec.fail(f'{what}: lines {short(got)}, expected {short(ref_lines(want))}')
        got = list(IO.read_as_stream([form(path, k)], text=t))
        if got != ref_lines(want):
            rec.fail(f'{what}: streamed lines {short(got)}, expected {short(ref_lines(want))}')
    with IO(form(path, k)) as f:
        got = []
        while True:
            x = f.readline()
            if not x:
                break
            got.append(x)
    if got != ref_lines(text):
        rec.fail(f'{what}: lines read one by one {short(got)}, expected {short(ref_lines(text))}')
    rec.trace()
    rec.step(4)


def before(case, rec):
    fail_tools_first(case, rec)


def check(case, rec):
    d = rec.tmp()
    if 'text' in case or 'bytes' in case:
        units, u = (UNITS, case['text']) if 'text' in case else (BYTES, case['bytes'])
        k = u
        for n in range(case['top']):
            for rest in itertools.product(units, repeat=n):
                if n == 3 and k % 3 and 'text' in case:      # thorough: every third of the longest
                    k += 1
                    continue
                data = units[u] + (units[0][:0]).join(rest)
                raw = data.encode('utf8') if isinstance(data, str) else data
                for name in NAMES:
                    path = os.path.join(d, name)
                    write(path, data, k)
                    read_all(rec, path, raw, k, f'{name} with {data!r}')
                rec.state(data)
                k += 1
        rec.sample({'content': repr(data)})
    elif 'ops' in case:
        histories(rec, d, case)
    elif 'long' in case:
        n = case['long']
        for base in [('a' * 79 + '\n', '中\U0001F600', 'é' * 3 + '\n', '\r\n', 'a', 'x\r' * 5 + '\n')[case['base']]]:
            body = base * (n // len(base) + 2)
            for off in range(-2, 3):
                for tail in ('', '\n', '中', '\r'):
                    text = body[:max(0, n + off - 3)] + 'é中\n'[:3] + tail
                    raw = text.encode('utf8')
                    for name in NAMES:
                        if n >= 1 << 17 and (off % 2 or tail == '\r'):
                            continue
                        path = os.path.join(d, name)
                        write(path, text if off % 2 else raw, off + 2)
                        read_all(rec, path, raw, off, f'{name} with {len(raw)} bytes of {base!r}')
                    rec.state((n, base, off, tail))
    elif 'streams' in case:
        streams(rec, d, case['streams'])
    elif 'foreign' in case:
        foreign(rec, d)
    elif 'locale' in case:
        locales(rec, d)
    else:
        closing(rec, d)


def histories(rec, d, case):
    first = [OPS[i] for i in case['ops']]
    for n in range(case['top'] - 1):
        for rest in itertools.product(range(len(OPS)), repeat=n):
            if n == 3 and sum(rest) % 4:
                continue
            seq = first + [OPS[i] for i in rest]
            # reading is judged at the end of every prefix anyway: only keep it at one place
            for name in NAMES:
                path = os.path.join(d, name)
                if os.path.exists(path):
                    os.remove(path)
                model = None
                for k, (op, arg, data) in enumerate(seq):
                    raw = data.encode('utf8') if isinstance(data, str) else data
                    if op == 'r':
                        if model is None:
                            continue
                        with IO.reader(path, text=arg == 't') as f:
                            got = f.read()
                        want = model if arg == 'b' else model.decode('utf8', errors='replace')
                        if got != want:
                            rec.fail(f'{name} after {seq[:k]}: {got!r}, expected {want!r}')
                    elif op == 'e':
                        try:
                            with IO.writer(path, append=arg == 'a') as f:
                                f.write(data)
                                raise KeyError('in the block')
                        except KeyError:
                            pass
                        model = raw if arg == 'w' or model is None else model + raw
                        if not f.closed:
                            rec.fail(f'{name}: not closed after an error')
                    else:
                        write(path, data, k + len(rest), append=op == 'a')
                        model = raw if op == 'w' or model is None else model + raw
                    rec.step()
                if model is not None:
                    with IO.reader(path, text=False) as f:
                        got = f.read()
                    if got != model:
                        rec.fail(f'{name} after {seq}: {got!r}, expected {model!r}')
                rec.trace()
            rec.state((tuple(case['ops']), rest))
    rec.sample({'operations': [list(map(repr, s)) for s in seq]}, 1)


def streams(rec, d, mixed):
    parts = ['', 'a\nb', 'c\n', '\n', 'x\ry\r\n', '\u2028z', '\x85\n\n']
    files = []
    for i, p in enumerate(parts):
        for name in NAMES:
            path = os.path.join(d, f'{i}{name}')
            write(path, p, i)
            files.append((path, p))
    before = open_fds()
    for n in range(0, 4):
        for combo in itertools.product(range(len(files)), repeat=n):
            if n == 3 and (sum(combo) + mixed) % 2:
                continue
            paths = [form(files[i][0], i + mixed) for i in combo]
            want = [x for i in combo for x in ref_lines(files[i][1])]
            got = list(IO.read_as_stream(paths))
            if got != want:
                rec.fail(f'stream of {[files[i] for i in combo]}: {got}, expected {want}')
            got = list(IO.read_as_stream(tuple(paths), text=False))
            if got != [x.encode('utf8') for x in want]:
                rec.fail(f'stream of {[files[i] for i in combo]}: {got}')
            if n == 2:      # stopped after every number of lines
                for k in range(len(want) + 1):
                    it = IO.read_as_stream(paths)
                    for _ in range(k):
                        next(it)
                    it.close()
                    if len(open_fds() - before) > 1:      # the listing itself
                        rec.fail(f'a stream stopped after {k} lines leaves files open')
            rec.trace()
            rec.step(n)
            rec.state((combo, mixed))
    if len(open_fds() - before) > 1:
        rec.fail('streams leave files open')


def foreign(rec, d):
    parts = [b'', b'a\nb', b'\xff\n', 'é\r\n中'.encode(), b'x' * 70000 + b'\n']
    for n in range(1, 4):
        for combo in itertools.product(parts, repeat=n):
            data = b''.join(combo)
            path = os.path.join(d, 'm.gz')
            with open(path, 'wb') as f:
                for i, p in enumerate(combo):
                    f.write(gzip.compress(p, compresslevel=1 + 4 * (i % 2)))
            read_all(rec, path, data, n, f'gzip members {short(combo)}')
            write(path, data, n)
            with gzip.open(path, 'rb') as f:
                if f.read() != data:
                    rec.fail(f'what is written compressed is not gzip: {short(data)}')
            for name in ('g', 'gz', 'f.gz.txt', 'fgz', 'a.tsv'):
                p2 = os.path.join(d, name)
                write(p2, data, n)
                with open(p2, 'rb') as f:
                    if f.read() != data:
                        rec.fail(f'{name} is not plain: {short(data)}')
                read_all(rec, p2, data, n, f'{name} with {short(data)}')
            rec.state(combo)


LOCALE_CODE = """
import json, sys
from nlcodec.utils import IO
got = []
for p in sys.argv[1:]:
    with IO.writer(p) as f:
        f.write(%(a)s)
    with IO(p, 'at') as f:
        f.write(%(b)s)
    with IO.writer(p, append=True) as f:
        f.write(%(a)s)
    with IO.reader(p) as f:
        got.append(f.read())
    with IO(p, 'rt') as f:
        got.append(''.join(f))
    with IO(p) as f:
        got.append(f.read())
    with IO(p, 'w') as f:
        f.write(%(a)s)
    with IO(p, 'a') as f:
        f.write(%(b)s + %(a)s)
    got.append(''.join(IO.read_as_stream([p])))
print(json.dumps(got))
"""


def locales(rec, d):
    """text files are UTF-8 whatever the locale"""
    for utf8 in (False, True):
        for a, b in itertools.product(('é中\n', '\U0001F600', '\x85a\r\n', 'ascii'), repeat=2):
            paths = [os.path.join(d, n) for n in NAMES]
            got = in_locale(LOCALE_CODE % dict(a=ascii(a), b=ascii(b)), *paths, utf8=utf8)
            what = f'{(a, b, a)} written in {"a UTF-8" if utf8 else "an ASCII"} locale'
            rec.eq(got, [a + b + a] * 8, what)
            for p in paths:
                read_all(rec, p, (a + b + a).encode('utf8'), 0, what)
            rec.state(('locale', utf8, a, b))


def closing(rec, d):
    gc.collect()
    before = open_fds()
    for name in NAMES:
        path = os.path.join(d, name)
        write(path, 'a\nb\n', 0)
        for mode in ('r', 'rt', 'rb', 'w', 'wt', 'wb', 'a', 'at', 'ab'):
            for error in (None, ValueError('x'), KeyboardInterrupt(), GeneratorExit(), StopIteration()):
                write(path, 'a\nb\n', 0)
                seen = None
                try:
                    with IO(path, mode) as f:
                        if error is not None:
                            raise error
                except BaseException as e:
                    seen = e
                if seen is not error:
                    rec.fail(f'{name}, mode {mode}: {error!r} in the block becomes {seen!r}')
                if not f.closed:
                    rec.fail(f'{name}, mode {mode}: not closed after {error!r}')
                if len(open_fds() - before) > 1:
                    rec.fail(f'{name}, mode {mode}: the file stays open after {error!r}')
                with IO.reader(path) as g:
                    got = g.read()
                want = '' if 'w' in mode else 'a\nb\n'
                if got != want:
                    rec.fail(f'{name}, mode {mode}: {got!r}, expected {want!r}')
                rec.trace()
                rec.step()
                rec.state((name, mode, repr(error)))
        missing = os.path.join(d, 'missing' + name)
        for mode in ('r', 'rt', 'rb'):
            try:
                with IO(missing, mode):
                    pass
            except OSError:
                continue
            rec.fail(f'reading a missing {name} raises nothing')
