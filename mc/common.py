"""Shared by the checks: quiet import of the code under test, alphabets, and reference models.

The reference models are written from the property statements, not from the code.
"""
import contextlib
import gc
import io
import itertools
import json
import logging
import os
import random
import subprocess
import sys
import zlib

import tqdm as _tqdm

_tqdm.tqdm.monitor_interval = 0

import nlcodec  # noqa: E402
from nlcodec import codec as C  # noqa: E402

logging.disable(logging.CRITICAL)

assert os.path.realpath(nlcodec.__file__).startswith(os.path.realpath(
    os.environ.get('MC_REPO', '/repo'))), nlcodec.__file__

SPACE = '▁'
RESERVED = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']
PAD, UNK, BOS, EOS, CLS, SP = range(6)


# ------------------------------------------------------------------ small generators
def words(alphabet, max_len, min_len=1):
    """all strings over the alphabet, shortest first"""
    for n in range(min_len, max_len + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


class Lcg:
    """deterministic generator for the size ladders (independent of VERIF_SEED)"""

    def __init__(self, seed):
        self.x = (seed * 2654435761 + 12345) & 0xffffffff

    def __call__(self, n):
        self.x = (self.x * 1664525 + 1013904223) & 0xffffffff
        return (self.x >> 8) % n


def pseudo_words(seed, n, alphabet='abcde', max_len=12, min_len=1):
    r = Lcg(seed)
    out = []
    for _ in range(n):
        ln = min_len + r(max_len - min_len + 1)
        out.append(''.join(alphabet[min(r(len(alphabet)), r(len(alphabet)))] for _ in range(ln)))
    return out


# characters that tend to be special: unicode spaces, combining, astral, markers, digits, quotes
ODD_CHARS = ['é', 'e\u0301', '中', '\U0001F600', '\u200b', '\ufeff', '\u0301', '#', '{', '"', '\\', '0',
             'İ', 'ß', '\x00', '\x7f', "'", ',', '-', '.', 'ａ', '\ufffd', '\u00ad', '١', '\ud7ff',
             '\ue000', '\U0010ffff']
UNI_SPACES = [' ', '\t', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85', '\xa0', '\u1680',
              '\u2000', '\u2003', '\u2028', '\u2029', '\u202f', '\u205f', '\u3000']


# ------------------------------------------------------------------ types / tables
def row(t):
    return (t.idx, t.name, t.level, t.freq, tuple(k.idx for k in t.kids) if t.kids else ())


def rows(table):
    return [row(t) for t in table]


def reserved_types():
    return [C.Type(n, level=-1, idx=i, freq=-1) for i, n in enumerate(RESERVED)]


def make_table(kind, chars_or_words, merges=(), freqs=None):
    """a table built by hand: reserved types, plain types, and merges as (left idx, right idx)"""
    level = {'char': 0, 'bpe': 0, 'word': 2, 'class': 0}[kind]
    table = [] if kind == 'class' else reserved_types()
    for j, w in enumerate(chars_or_words):
        f = freqs[j] if freqs else 10 * (len(chars_or_words) - j)
        table.append(C.Type(w, level=level, idx=len(table), freq=f))
    for a, b in merges:
        table.append(C.Type(table[a].name + table[b].name, level=1, idx=len(table), freq=3,
                            kids=(table[a], table[b])))
    return table


SCHEMES = {'word': C.WordScheme, 'char': C.CharScheme, 'bpe': C.BPEScheme, 'class': C.ClassScheme,
           'byte': C.ByteScheme}


def make_scheme(kind, table=None):
    return SCHEMES[kind](table) if kind != 'byte' or table else C.ByteScheme()


# ------------------------------------------------------------------ reference model of encoding
_LAST = [None, 0, None, None]      # the table asked for last


def ref_pieces(kind, table_rows, line):
    """pieces the model expects for a line (BPE: list of texts, '<unk>' where none starts)"""
    if kind == 'word':
        return line.split()
    if kind == 'char':
        return list(SPACE.join(line.split()))
    if kind == 'class':
        return [line.strip()]
    if kind == 'byte':
        return list(line.encode('utf-8'))
    if _LAST[0] is not table_rows or _LAST[1] != len(table_rows):
        names = {r[1] for r in table_rows}
        _LAST[:] = table_rows, len(table_rows), names, sorted({len(n) for n in names if n}, reverse=True)
    names, lengths = _LAST[2:]
    text = ''.join(w + SPACE for w in line.split()) or SPACE
    out, i = [], 0
    while i < len(text):
        for n in lengths:
            if i + n <= len(text) and text[i:i + n] in names:
                out.append(text[i:i + n])
                i += n
                break
        else:
            out.append('<unk>')
            i += 1
    return out


def ref_ids(kind, table_rows, line):
    """for each position the set of acceptable ids"""
    if kind == 'byte':
        return [{b} for b in line.encode('utf-8')]
    by_name = {}
    for r in table_rows:
        by_name.setdefault(r[1], set()).add(r[0])
    return [by_name.get(p, {UNK if kind != 'class' else -1})
            for p in ref_pieces(kind, table_rows, line)]


def normal(line):
    return ' '.join(line.split())


# ------------------------------------------------------------------ reference model of BPE merging
def pair_counts(segs):
    cnt = {}
    for seq, f in segs:
        for p in zip(seq, seq[1:]):
            cnt[p] = cnt.get(p, 0) + f
    return cnt


def apply_merge(seq, a, b, new):
    out, i, n = [], 0, len(seq)
    while i < n:
        if i + 1 < n and seq[i] == a and seq[i + 1] == b:
            out.append(new)
            i += 2
        else:
            out.append(seq[i])
            i += 1
    return out


# ------------------------------------------------------------------ running the command line
@contextlib.contextmanager
def swapped(obj, **attrs):
    old = {k: getattr(obj, k) for k in attrs}
    for k, v in attrs.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def run_main(main, argv, stdin=None):
    """runs a command's main() in this process; returns (stdout text, exit code)"""
    out = io.StringIO()
    new_in = io.StringIO(stdin) if stdin is not None else sys.stdin
    code = 0
    with swapped(sys, argv=list(argv), stdin=new_in), contextlib.redirect_stdout(out):
        try:
            main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    gc.collect()
    return out.getvalue(), code


def in_locale(code, *args, utf8=False):
    """runs the code in a new process whose locale knows ASCII only; returns what it prints as JSON"""
    env = dict(os.environ, LC_ALL='C.UTF-8' if utf8 else 'C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    p = subprocess.run([sys.executable, '-B', '-c', code] + list(args), env=env, capture_output=True, timeout=200)
    out = p.stdout.decode('ascii')
    if p.returncode or not out:
        return f'exit code {p.returncode}: ' + p.stderr.decode('utf8', errors='replace')[-600:]
    return json.loads(out.splitlines()[-1])


# ------------------------------------------------------------------ disturbances: calls that fail, before those judged
class BrokenIO(io.StringIO):
    def write(self, s):
        if self.tell() > 40:
            raise OSError('no space')
        return super().write(s)


def broken_input(lines):
    yield from lines
    raise OSError('unreadable')


def fail_training(k):
    """the k-th of the trainings, loads and saves that fail or are interrupted; what follows must not notice"""
    from mc.threads import interrupted
    text = ['abab aab zz', 'ab ba aab', '<unk> ▁ a']
    learn = lambda kind, data, **kw: SCHEMES[kind].learn(data, **kw)
    bpe = dict(vocab_size=40, min_co_evidence=1)
    calls = [lambda: learn('bpe', broken_input(text), **bpe), lambda: learn('bpe', text, vocab_size=3),
             lambda: learn('word', broken_input(text)), lambda: learn('char', broken_input(text)),
             lambda: learn('bpe', ['a\t3', 'ab\tx'], term_freqs=True, **bpe), lambda: learn('class', broken_input(text)),
             lambda: learn('bpe', [], **bpe), lambda: learn('word', ['a\t3', 'ab'], term_freqs=True),
             lambda: C.learn_vocab(text, 'none', None, 10), lambda: C.load_scheme(io.StringIO('#{"total": 3}\n0\t<pad>\t')),
             lambda: C.load_scheme(io.StringIO('')), lambda: C.WordScheme(learn('word', text)).save(BrokenIO()),
             lambda: learn('bpe', text, bad=1, **bpe), lambda: C.BPEScheme(learn('bpe', text, **bpe)).encode(None),
             lambda: C.BPEScheme(learn('word', text)[1:])]
    calls += [lambda i=i: interrupted(lambda: learn('bpe', text, **bpe), i) for i in range(5, 1300, 61)]
    calls += [lambda i=i: interrupted(lambda: learn('word', text), i) for i in range(2, 60, 7)]
    try:
        calls[k % len(calls)]()
    except Exception:
        pass


def fail_first(case, rec, every=3):
    """before a case: one of the failing calls, before a replayed case all of them"""
    n = zlib.crc32(json.dumps(case, sort_keys=True, default=repr).encode())
    for k in range(50) if rec.replaying else [n // every] * (n % every == 0):
        fail_training(k)
        rec.count('failed_before')


def upset(scheme):
    """calls that a codec refuses, or answers with whatever; they may not change what it does afterwards"""
    for f in (lambda: scheme.encode(None), lambda: scheme.encode(5), lambda: scheme.encode_str(['a', 'b']),
              lambda: scheme.decode([0, 10 ** 9]), lambda: scheme.decode([97, None]), lambda: scheme.decode_str(['a', None]),
              lambda: scheme.decode_str(['61', 'zz']), lambda: scheme.encode('ab a', split_ratio='x'),
              lambda: scheme.save(BrokenIO()), lambda: list(C.encode(broken_input(['a ab', 'b']), scheme, indices=True)),
              lambda: list(C.decode(broken_input(['0 1', '6']), scheme, indices=True)),
              lambda: next(C.encode(['ab a', 'b'], scheme)), lambda: scheme.shrink_vocab(['/nonexistent'], 1)):
        try:
            f()
        except Exception:
            pass


def lookalikes(n, sep=' '):
    """lines of n characters that differ from the first in one place only, or have two places exchanged"""
    base = (('ab' + sep + 'ba' + sep + 'aab' + sep + 'b' + sep) * (n // 10 + 1))[:n - 1] + 'a'
    yield base
    flip = {'a': 'b', 'b': 'a', sep: 'a'}
    places = [0, 1, 2, 5, 7, 8, 15, 16, 20, 31, 32, 50, 51, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, n // 4, n // 3,
              n // 2, n // 2 + 1, 2 * n // 3, 3 * n // 4, n - 129, n - 101, n - 65, n - 51, n - 33, n - 17, n - 9, n - 3, n - 2, n - 1]
    for p in dict.fromkeys(p for p in places if 0 <= p < n):
        yield base[:p] + flip[base[p]] + base[p + 1:]
        q = (p + n // 2) % n
        if base[q] != base[p]:
            i, j = sorted((p, q))
            yield base[:i] + base[j] + base[i + 1:j] + base[i] + base[j + 1:]
    yield base


LOOKALIKE_LENGTHS = (12, 30, 70, 140, 300, 1030, 5000)
