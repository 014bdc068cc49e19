"""X01: the script expanders (experimental/) are invertible and keep everything else.

Explored: all strings up to length 6 (7) over one character of every class the converters distinguish, all
pairs (triples over a subset) of characters of the Devanagari block, blanks and others, every Unicode scalar value
alone and between two consonants, long lines; on converter objects that live through the whole history, line by line, through the
stream functions and through the commands.  The model is the per-character definition.
"""
import importlib.util
import io
import itertools
import os
import subprocess
import sys
import unicodedata
from pathlib import Path

from mc.common import *
from mc.failing import converter_calls, fail_tools_first
from mc.core import short

LEVEL = 'model_checking'
CASE_TIMEOUT = 200
ASSUMPTIONS = ['restoration is claimed for texts in which every vowel sign and virama directly follows a consonant and that hold '
               'none of the marks the converters add (lite: and no full implicit vowel right after a consonant, and viramas only '
               'between consonants and at ends of words)',
               'lines end at line feeds and hold no carriage returns']
CLASSES = ['क', 'य', 'अ', 'आ', 'ा', '्', ' ', 'ं', 'x']
BLOCK = 0x2000
VOW = {'अ': None, 'आ': '\u093e', 'इ': '\u093f', 'ई': '\u0940', 'उ': '\u0941', 'ऊ': '\u0942', 'ऋ': '\u0943', 'ॠ': '\u0944',
       'ऍ': '\u0945', 'ऎ': '\u0946', 'ए': '\u0947', 'ऐ': '\u0948', 'ऑ': '\u0949', 'ऒ': '\u094a', 'ओ': '\u094b',
       'औ': '\u094c', 'ऌ': '\u0962', 'ॡ': '\u0963'}
SIGN = {v: k for k, v in VOW.items() if v}
CONS = {chr(c) for c in range(0x915, 0x93a)} | {chr(c) for c in range(0x958, 0x960)}
VIRAMA, IMPL, MARK, DOTS = '\u094d', 'अ', '\ue000', '⋮'
BLANKS = ' \t\n'


def BOUNDS(tier):
    q = tier == 'quick'
    return {'strings': f'all up to length {6 if q else 7} over {len(CLASSES)} characters (one or two per class)',
            'pairs': 'all pairs, and all triples that start with a consonant, over the 128 Devanagari characters and 8 others',
            'characters': 'all Unicode scalar values between two consonants',
            'lines': 'files of up to 5000 lines, lines of up to 200000 characters'}


def cases(tier):
    q = tier == 'quick'
    n = 6 if q else 7
    for k in range(n):
        yield {'strings': k, 'first': None}
    for a in CLASSES:
        for b in CLASSES:
            yield {'strings': n, 'first': a + b}
    for i in range(len(chars())):
        yield {'pairs': i}
    for start in range(0, 0x110000, BLOCK):
        yield {'block': start}
    for n in (1, 2, 3, 1000, 5000):
        yield {'stream': n}
    for start in range(0, 0x110000, 16 * BLOCK):
        yield {'stream': 0, 'odd': start}
    yield {'long': 1}
    for tool in ('unicode_fix', 'uxdx'):
        for i in range(3):
            yield {'cli': tool, 'i': i}


def chars():
    return [chr(c) for c in range(0x900, 0x980)] + [' ', '\t', 'x', '-', '1', '中', '\u200d', '\U0001F600']


def load(name):
    path = os.path.join(os.environ.get('MC_REPO', '/repo'), 'experimental', name + '.py')
    spec = importlib.util.spec_from_file_location('experimental_' + name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def worker_setup(rec):
    global full, lite, dots, UF, UX
    UF, UX = load('unicode_fix'), load('uxdx')
    full = UF.get_aubugida('hin')
    lite = UF.AbugidaLangLite('hin', vowels=dict(VOW), consonants=set(CONS), impl_vowel=IMPL, virama=VIRAMA)
    dots = UX.Devanagari()


def well_formed(s):
    return MARK not in s and all(i and s[i - 1] in CONS for i, c in enumerate(s) if c in SIGN or c == VIRAMA)


def ref_full(s):
    out = []
    for i, c in enumerate(s):
        nxt = s[i + 1] if i + 1 < len(s) else ' '
        if c == VIRAMA:
            continue
        if c in VOW:
            out.append(c if i == 0 or s[i - 1] in BLANKS else c + MARK)
        elif c in CONS:
            out.append(c if nxt in SIGN or nxt == VIRAMA else c + IMPL)
        else:
            out.append(SIGN.get(c, c))
    return ''.join(out)


def ref_dots(s):
    return ''.join(c + DOTS if c in CONS and s[i + 1:i + 2] in CONS else c for i, c in enumerate(s))


def one(s, rec):
    if DOTS not in s:
        got = dots.encode(s)
        if got != ref_dots(s):
            rec.fail(f'uxdx expands {short(s)} to {short(got)}, expected {short(ref_dots(s))}')
        if dots.decode(got) != s:
            rec.fail(f'uxdx restores {short(s)} as {short(dots.decode(got))}')
        rec.trace()
    if not well_formed(s):
        return
    got = full.encode(s)
    if got != ref_full(s):
        rec.fail(f'the converter expands {short(s)} to {short(got)}, expected {short(ref_full(s))}')
    back = full.decode(got)
    if back != s:
        rec.fail(f'the converter restores {short(s)} (expanded to {short(got)}) as {short(back)}')
    if not any(a in CONS and b == IMPL or a == VIRAMA and b not in CONS and b not in BLANKS for a, b in zip(s, s[1:])):
        back = lite.decode(lite.encode(s))
        if back != s:
            rec.fail(f'the lite converter restores {short(s)} as {short(back)}')
    rec.trace()
    rec.step(len(s))


def syllables(n, seed):
    """well-formed lines of about n characters"""
    r = Lcg(seed)
    cons, signs, vows = sorted(CONS), sorted(SIGN), sorted(VOW)
    out = []
    while len(out) < n:
        k = r(8)
        if k < 3:
            out += [cons[r(len(cons))], signs[r(len(signs))]]
        elif k < 4:
            out += [cons[r(len(cons))], VIRAMA]
        elif k < 6:
            out.append(cons[r(len(cons))])
        elif k < 7:
            out.append(vows[r(len(vows))])
        else:
            out.append(' .x\u0902'[r(4)])
    return ''.join(out)


def pipe(mod, lines, decode, args):
    out = io.StringIO()
    mod.main(io.StringIO(''.join(x + '\n' for x in lines), newline='\n'), out, *args, decode=decode)
    return out.getvalue()


def check(case, rec):
    if 'strings' in case:
        n, first = case['strings'], case['first']
        for t in itertools.product(CLASSES, repeat=n - len(first or '')):
            one((first or '') + ''.join(t), rec)
    elif 'pairs' in case:
        al = chars()
        a = al[case['pairs']]
        for b in al:
            one(a + b, rec)
            if a in CONS:
                for c in al:
                    one(a + b + c, rec)
    elif 'block' in case:
        for c in range(case['block'], case['block'] + BLOCK):
            if 0xd800 <= c < 0xe000:
                continue
            one('क' + chr(c) + 'ख', rec)
    elif 'long' in case:
        for n in (127, 128, 129, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 200000):
            one(syllables(n, n)[:n].rstrip(VIRAMA), rec)
            one('क' * n, rec)
    elif 'stream' in case:
        lines = [syllables(i % 40, i) for i in range(case['stream'])]
        lines = [x.strip(VIRAMA) for x in lines]
        if 'odd' in case:
            # lines that begin and end with every sort of character (all of the formatting, blank and
            # control characters; of the others one in 61)
            odd = [c for c in map(chr, range(case['odd'], min(0x110000, case['odd'] + 16 * BLOCK))) if c not in '\n\r\ue000⋮' and
                   unicodedata.category(c) != 'Cs' and (unicodedata.category(c)[0] in 'CZM' and unicodedata.category(c) not in ('Cn', 'Co')
                                                        or ord(c) % 61 == 0)]
            lines = [x for c in odd for x in (c, c + 'क', 'क' + c, c + ' क' + c) if well_formed(x)]
        for lang in ('hin', 'devanagari', 'hindi', 'sanskrit', UF.get_aubugida('hin')):
            enc = pipe(UF, lines, False, (lang,))
            if enc != ''.join(ref_full(x) + '\n' for x in lines):
                rec.fail(f'{len(lines)} lines are not expanded line by line ({lang})')
            if pipe(UF, enc.split('\n')[:-1], True, (lang,)) != ''.join(x + '\n' for x in lines):
                rec.fail(f'{len(lines)} lines are not restored line by line ({lang})')
        enc = pipe(UX, lines, False, ())
        if enc != ''.join(ref_dots(x) + '\n' for x in lines):
            rec.fail(f'uxdx does not expand {len(lines)} lines line by line')
        if pipe(UX, enc.split('\n')[:-1], True, ()) != ''.join(x + '\n' for x in lines):
            rec.fail(f'uxdx does not restore {len(lines)} lines line by line')
        for got, want in ((full.encode_all(iter(lines)), map(ref_full, lines)),
                          (full.decode_all(map(ref_full, lines)), lines)):
            if list(got) != list(want):
                rec.fail(f'the stream functions change {len(lines)} lines')
        rec.trace(6)
    else:
        d = Path(rec.tmp())
        text = [['', 'नमस्ते दुनिया', ' क ', 'गए', '', 'x'], [], [syllables(i, i).strip(VIRAMA) for i in range(300)]][case['i']]
        text = ''.join(x + '\n' for x in text)
        if case['i'] == 0:
            text = text[:-1]     # no line feed at the end
        src, enc, dec = d / 'src', d / 'enc', d / 'dec'
        src.write_text(text, encoding='utf8', newline='\n')
        tool = os.path.join(os.environ.get('MC_REPO', '/repo'), 'experimental', case['cli'] + '.py')
        extra = ['-l', 'hin'] if case['cli'] == 'unicode_fix' else []
        for args in (['-i', src, '-o', enc], ['-d', '-i', enc, '-o', dec]):
            p = subprocess.run([sys.executable, '-B', tool] + extra + [str(a) for a in args], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=100)
            if p.returncode:
                rec.fail(f'{case["cli"]} fails: {p.stderr.decode()[-200:]}')
        ref = ref_full if extra else ref_dots
        lines = text.split('\n')[:-1] if text.endswith('\n') else text.split('\n') if text else []
        if enc.read_bytes().decode('utf8') != ''.join(ref(x) + '\n' for x in lines):
            rec.fail(f'{case["cli"]} does not expand the file line by line')
        if dec.read_bytes().decode('utf8') != ''.join(x + '\n' for x in lines):
            rec.fail(f'{case["cli"]} does not restore the file line by line')
        rec.trace(2)


def before(case, rec):
    fail_tools_first(case, rec, lambda d: converter_calls(full, lite, dots))
