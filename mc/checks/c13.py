"""C13: the command line encodes and decodes line by line.

Explored: every input file of up to 3 lines over a set of normal, blank, odd and unknown lines, with and
without the final line feed, for models of all five kinds, encode and decode, pieces and ids; the output
file must be the per-line model's output, and feeding it back must restore the known lines.  Random-length
ladders up to 20000 lines; every learn setting of a list against the library call with the same settings.
Most runs call main() with argv; a part of every family runs the real process with files and with pipes.
"""
import io
import itertools
import os
import subprocess
import sys

from mc.common import *
from mc.failing import command_calls, fail_tools_first
from mc.core import REPO
from nlcodec import __main__ as CLI

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['lines end at line feeds; carriage returns and lone surrogates are left out',
               'class labels are single words for decode']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'files': f'all of up to {2 if q else 3} lines over 8..11 lines per kind (3 lines over 4), with and '
                     'without final line feed', 'kinds': 5, 'modes': 'pieces, ids', 'learn settings': 60,
            'processes': 60, 'ladder': '20001 lines; lines of 150000 characters'}


PLAIN = ['', 'a', ' ab  b ', 'b a\tab', '   ', 'x a', 'aab\u3000é', 'a\x0bb', 'ab\x85a\u2028b', '\x1cb', '\ufeffa b']
LINES = {'word': PLAIN, 'char': PLAIN, 'bpe': PLAIN,
         'class': ['a', ' b ', 'é', 'c,d', 'b\t', '1', '\u3000a'],
         'byte': ['', 'a', ' ab  b ', '\t', 'é中\U0001F600', '\x00\x01\x1f', 'ab\x85a\u2028b', '<s>', '\x7f\u00ff', '0a', '\ufeffb']}
KINDS = tuple(LINES)


def cases(tier):
    q = tier == 'quick'
    for kind in KINDS:
        ls = LINES[kind]
        for k in (0, 1, 2) if q else (0, 1, 2, 3):
            for first in (ls if k else [None]):
                yield {'kind': kind, 'k': k, 'first': first}
        yield {'kind': kind, 'k': 3, 'few': True}
        for n in (100, 8191, 8192, 8193, 20001):
            yield {'kind': kind, 'lines': n}
        for n in (1000, 8192, 70000, 150000):
            yield {'kind': kind, 'long': n}
        yield {'kind': kind, 'process': True}
    for i in range(len(SETTINGS)):
        yield {'learn': i}
    for i in range(0, len(SETTINGS), 6):
        yield {'learn': i, 'process': True}
    yield {'ids': True}


TEXT = ['aab ab', 'ab aab b', 'b', '', 'ab é', 'abab ab', '# a', '<s> a', 'aab  b a']
SETTINGS = [dict(level=lv, vs=vs, mf=mf, cv=cv, mce=mce) for lv, vs, mf, cv, mce in
            [('word', None, None, None, None), ('word', 8, 1, None, None), ('word', -1, 2, None, None),
             ('word', 9, None, None, None), ('word', None, 1, 0.5, 3), ('word', 0, 1, None, None),
             ('char', None, None, None, None), ('char', 9, 1, 0.9, None), ('char', None, 2, 1.0, None),
             ('char', 8, None, None, None), ('char', None, None, 0.6, 5), ('char', None, 20, 1.0, None),
             ('bpe', 14, None, None, None), ('bpe', 20, None, 1.0, 1), ('bpe', 16, None, 0.9, 2),
             ('bpe', None, None, None, 3), ('bpe', 0, None, 1.0, 4), ('bpe', 18, 3, 1.0, 2),
             ('class', None, None, None, None), ('class', 3, 2, 0.5, 7), ('byte', None, None, None, None),
             ('byte', 10, 2, 0.4, 6)]]
SETTINGS += [dict(s, tfs=True) for s in SETTINGS if s['level'] in ('word', 'bpe')]


def scheme(kind):
    if kind == 'byte':
        return C.ByteScheme()
    if kind == 'class':
        return C.ClassScheme(make_table('class', sorted(['a', 'b', 'é', 'c,d', '1'])))
    if kind == 'word':
        return C.WordScheme(make_table('word', ['a', 'b', 'ab']))
    if kind == 'char':
        return C.CharScheme(make_table('char', 'ab'))
    t = make_table('bpe', 'ab', [(6, 7), (6, 8), (7, 5), (9, 5)])
    return C.BPEScheme(t)


def run_cli(rec, args, stdin=None, process=False):
    """returns what was written to stdout"""
    if process:
        env = dict(os.environ, PYTHONPATH=REPO)
        p = subprocess.run([sys.executable, '-B', '-m', 'nlcodec'] + [str(a) for a in args],
                           input=(stdin or '').encode('utf8'), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=200)
        rec.count('processes')
        if p.returncode:
            rec.fail(f'nlcodec {args} exits with {p.returncode}: {p.stderr.decode()[-500:]}')
        return p.stdout.decode('utf8')
    out, code = run_main(CLI.main, ['nlcodec'] + [str(a) for a in args], stdin)
    if code:
        rec.fail(f'nlcodec {args} exits with {code}')
    return out


def transform(rec, task, model, text, idx, d, process=False, pipes=False):
    args = [task, '-m', model] + (['-idx'] if idx else [])
    if pipes:
        return run_cli(rec, args, text, process)
    inp, out = os.path.join(d, 'inp'), os.path.join(d, 'out')
    if os.path.exists(out):
        os.remove(out)
    with open(inp, 'w', encoding='utf8', newline='') as f:
        f.write(text)
    run_cli(rec, args + ['-i', inp, '-o', out], None, process)
    with open(out, encoding='utf8', newline='') as f:
        return f.read()


def file_lines(text):
    ls = text.split('\n')
    return ls[:-1] if ls[-1] == '' else ls


def verify(rec, kind, sch, model, text, d, process=False, pipes=False):
    trows = rows(sch.table)
    lines = file_lines(text)
    names = {r[1]: r[0] for r in reversed(trows)}
    for idx in (False, True):
        what = f'{kind} encode{" -idx" if idx else ""} of {short(text)}'
        got = transform(rec, 'encode', model, text, idx, d, process, pipes)
        want = []
        for ln in lines:
            if kind == 'byte':
                seq = [str(b) for b in ln.encode()] if idx else sch.encode_str(ln)
            elif idx:
                seq = [str(min(x)) for x in ref_ids(kind, trows, ln)]
            else:
                seq = ref_pieces(kind, trows, ln)
            lib = [str(x) for x in (sch.encode(ln) if idx else sch.encode_str(ln))]
            if lib != list(seq) and kind != 'bpe':
                rec.fail(f'{what}: the codec gives {lib} for {ln!r}')
            want.append(' '.join(lib))
        check_text(rec, what, got, want)
        # feed it back
        what = f'{kind} decode{" -idx" if idx else ""} of {short(got)}'
        back = transform(rec, 'decode', model, got, idx, d, process, pipes)
        wb = []
        for enc, ln in zip(file_lines(got), lines):
            toks = enc.split()
            known = (kind == 'byte' or
                     all(p in names for p in ref_pieces(kind, trows, ln)) and
                     (kind != 'bpe' or '<unk>' not in ref_pieces(kind, trows, ln)))
            if known:
                wb.append(ln if kind == 'byte' else normal(ln))
            elif kind == 'class':
                wb.append(None)
            else:
                wb.append(sch.decode([int(x) for x in toks]) if idx else sch.decode_str(toks))
        check_text(rec, what, back, wb)
    rec.trace(4)
    rec.step(4 * len(lines) + 4)
    rec.state((kind, text[:200], len(text)))


def check_text(rec, what, got, want):
    """want: list of lines (None: any)"""
    lines = got.split('\n')
    if got and lines[-1] != '':
        rec.fail(f'{what}: the last line is not ended: {short(got[-80:])}')
    lines = lines[:-1]
    if len(lines) != len(want):
        rec.fail(f'{what}: {len(lines)} lines instead of {len(want)}: {short(lines)} for {short(want)}')
    for i, (g, w) in enumerate(zip(lines, want)):
        if w is not None and g != w:
            rec.fail(f'{what}: line {i} is {short(g)}, expected {short(w)}')


def short(x):
    s = repr(x)
    return s if len(s) < 250 else s[:250] + '...'


def files(case, tier):
    ls = LINES[case['kind']]
    if case.get('few'):
        ls = ls[:4]
        combos = itertools.product(ls, repeat=3)
    elif not case['k']:
        combos = [()]
    else:
        combos = ((case['first'],) + c for c in itertools.product(ls, repeat=case['k'] - 1))
    for c in combos:
        yield '\n'.join(c) + '\n' if c else ''
        if c and c[-1] != '':
            yield '\n'.join(c)


def check(case, rec):
    if 'learn' in case:
        return check_learn(case, rec)
    d = rec.tmp()
    if 'ids' in case:
        return check_ids(rec, d)
    kind = case['kind']
    sch = scheme(kind)
    model = os.path.join(d, 'model')
    sch.save(model)
    if 'process' in case:
        ls = LINES[kind]
        for text in ('\n'.join(ls) + '\n', '\n'.join(ls[::-1] + ls[1:2]), ''):
            verify(rec, kind, sch, model, text, d, True, False)
            if kind == 'class' or '\x00' not in text:
                verify(rec, kind, sch, model, text, d, True, True)
            verify(rec, kind, sch, model, text, d, False, True)
        return
    if 'lines' in case or 'long' in case:
        ls = LINES[kind]
        if 'lines' in case:
            r = Lcg(case['lines'])
            texts = [ls[r(len(ls))] for _ in range(case['lines'])]
        else:
            n = case['long']
            texts = (['a', 'b', 'a'] if kind == 'class'
                     else ['ab a ' * (n // 5), ('ab' * n)[:n], '', ' ' * n, 'a' * (n - 1)])
        verify(rec, kind, sch, model, '\n'.join(texts) + '\n', d)
        return
    for text in files(case, rec.tier):
        verify(rec, kind, sch, model, text, d)
    rec.sample({'kind': kind, 'file': text})


def check_ids(rec, d):
    """decode of arbitrary id and piece lines"""
    for kind in KINDS:
        sch = scheme(kind)
        model = os.path.join(d, 'm' + kind)
        sch.save(model)
        n = len(sch.table)
        if kind == 'class':
            seqs = [[i] for i in range(n)]
        else:
            seqs = [[]] + [[i] for i in range(n)] + [[i, (i * 7 + 3) % n] for i in range(n)] + \
                   [[i, i, (i + 1) % n] for i in range(n)]
        for sep in (' ', '  ', '\t'):
            text = ''.join(sep.join(map(str, s)) + '\n' for s in seqs)
            check_text(rec, f'{kind} decode of ids', transform(rec, 'decode', model, text, True, d),
                       [no_break(sch.decode(list(s))) for s in seqs]) if kind != 'byte' else None
            keep = [s for s in seqs if all(x not in (10, 13) for x in s)]
            text = ''.join(sep.join(map(str, s)) + '\n' for s in keep)
            check_text(rec, f'{kind} decode of ids', transform(rec, 'decode', model, text, True, d),
                       [sch.decode(list(s)) for s in keep])
            text = ''.join(sep.join(sch.table[x].name for x in s) + '\n' for s in keep)
            check_text(rec, f'{kind} decode of pieces', transform(rec, 'decode', model, text, False, d),
                       [sch.decode_str([sch.table[x].name for x in s]) for s in keep])
        rec.trace(9)
        rec.step(len(seqs))
        rec.state((kind, 'ids'))


def no_break(s):
    return s


def check_learn(case, rec):
    s = SETTINGS[case['learn']]
    d = rec.tmp()
    inp = os.path.join(d, 'inp')
    if s.get('tfs'):
        counts = {}
        for x in TEXT:
            for w in x.split():
                counts[w] = counts.get(w, 0) + 1
        body = [f'{w}\t{f}' for w, f in counts.items()]
        texts = [body, ['#{"line_count": 9, "types": 7}'] + body]
    else:
        texts = [TEXT, TEXT * 3, ['a'] if s['level'] != 'bpe' else TEXT[:3]]
    for lines in texts:
        lines = [x.strip() for x in lines] if s['level'] == 'class' else lines
        with open(inp, 'w', encoding='utf8') as f:
            f.write('\n'.join(lines) + '\n')
        model = os.path.join(d, 'cli.model')
        args = ['learn', '-i', inp, '-m', model, '-l', s['level']]
        for flag, k in (('-vs', 'vs'), ('-mf', 'mf'), ('-cv', 'cv'), ('-mce', 'mce')):
            if s[k] is not None:
                args += [flag, s[k]]
        if s.get('tfs'):
            args.append('-tfs')
        kw = {}
        if s['cv'] is not None:
            kw['char_coverage'] = s['cv']
        if s['mce'] is not None:
            kw['min_co_ev'] = s['mce']
        lib = os.path.join(d, 'lib.model')
        with open(inp, encoding='utf8') as f:
            table = C.learn_vocab(f, s['level'], lib, s['vs'] if s['vs'] is not None else -1,
                                  min_freq=s['mf'], term_freqs=bool(s.get('tfs')), **kw)
        for pipes in (False, True):
            if os.path.exists(model):
                os.remove(model)
            if pipes:
                run_cli(rec, args[:1] + args[3:], '\n'.join(lines) + '\n', case.get('process'))
            else:
                run_cli(rec, args, None, case.get('process'))
            a, b = C.load_scheme(model), C.load_scheme(lib)
            what = f'learn {s} of {short(lines)}'
            rec.eq(type(a), type(b), what + ': kind')
            rec.eq(rows(a.table), rows(b.table), what + ': types')
            rec.eq(rows(a.table), rows(table), what + ': types against the returned ones')
            rec.trace()
            rec.step()
        rec.state((tuple(sorted(map(str, s.items()))), len(lines)))
    rec.sample({'settings': s, 'types': [t.name for t in table][6:14]})


def before(case, rec):
    fail_tools_first(case, rec, command_calls)
