"""Calls of the tools that fail, are given up or interrupted, made before a case: what follows must not notice."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile
import zlib

import numpy as np

from mc.common import *
from mc.threads import interrupted


class Broken(str):
    def split(self, *a):
        raise OSError('unreadable')

    strip = rstrip = split


def tool_calls(d):
    from nlcodec import qestim as Q, term_freq as TF, utils as U
    from nlcodec.eval import bpe_len, oov_count, pr_measure, termfreq
    from nlcodec.dstruct import LnNode, MaxHeap, TrNode
    from nlcodec.para import mapred as M
    f = lambda n: os.path.join(d, n)
    word = C.WordScheme(C.WordScheme.learn(['a b ab', 'ab x']))
    model = f('m')
    word.save(model)
    E = Q.QualityEstimator
    est = E(word)
    lines = ['a b ab', 'x ab', 'a']
    broken = lambda: broken_input(lines)

    def opened(name, mode, **kw):
        with U.IO(f(name), mode, **kw) as h:
            h.write('text\n' if 'b' not in mode else b'text\n')
            raise RuntimeError('in the block')

    def heap():
        h = MaxHeap({1: 3})
        h.pop()
        h.pop()

    def trie():
        t = TrNode(idx='')
        t.get_node('abc').data = 1
        t.get_node('abd', create_missing=False)

    def listed():
        ns = LnNode.from_seq([1, 2, 3])
        ns[1].delete()
        LnNode.from_seq(None)

    def reduce_of(items):
        return M.MapReduce(mapper=M.word_count_line, reducer=M.merge_freqs, default={})(items, map_pool=map, reduce_pool=map)

    def bad_reducer(a, b):
        raise RuntimeError('reducer')
    calls = [lambda: est.estimate(broken()), lambda: est.estimate([]), lambda: est.estimate([None]),
             lambda: E(None), lambda: est._estimate([[0, 1], [99]]), lambda: E.js_div(np.array([.5, .6]), np.array([.5, .5])),
             lambda: E.earth_mov_dist(np.array([1.]), np.array([.5, .5])), lambda: E.kl_div([.5, .5], [1., 0.]),
             lambda: E.validate_distribution(np.array([1.5, -.5])),
             lambda: U.make_n_grams_all(iter([['a', 'b'], None]), 1), lambda: U.make_n_grams_all(broken_input([['a'], ['b']]), 1),
             lambda: U.make_n_grams(['a'], 0), lambda: pr_measure.count_gram_recall([[1, 2], [1]], [[1], None], n=1),
             lambda: pr_measure.f1_measure(2, 1), lambda: oov_count.main(broken(), model),
             lambda: oov_count.term_freqs(broken()), lambda: list(termfreq.encode_all(broken(), word)),
             lambda: next(termfreq.encode_all(iter(lines), word)), lambda: bpe_len.BPECodecXt(model),
             lambda: bpe_len.BPECodecXt(f('missing')), lambda: TF.write_stats({'a': 3, 'b': 'x'}, io.StringIO()),
             lambda: TF.write_stats({'a' * 30: 3, 'b' * 30: 2}, BrokenIO()),
             lambda: U.filter_types_coverage({'a': 1}, 2), lambda: U.filter_types_coverage({'a': 1, 'b': 'x'}, .5),
             lambda: opened('t', 'w'), lambda: opened('t.gz', 'wt'), lambda: opened('t', 'ab'), lambda: opened('no/t', 'w'),
             lambda: opened('t', 'w', encoding='none'), lambda: next(U.IO.read_as_stream([f('t'), f('missing')])),
             lambda: list(U.IO.read_as_stream([f('m'), f('missing')])), lambda: list(U.IO.read_as_stream([None])),
             heap, trie, listed, lambda: reduce_of(broken()), lambda: reduce_of([]), lambda: reduce_of(['a', Broken('b'), 'c d']),
             lambda: M.MapReduce(mapper=M.word_count_line, reducer=bad_reducer, default={})(lines, map_pool=map, reduce_pool=map),
             lambda: list(M.pair_subsequent(broken_input([1, 2, 3]))), lambda: next(M.pair_subsequent([1, 2, 3]))]
    for i in range(3, 60, 6):
        calls += [lambda i=i: interrupted(lambda: est.estimate(lines), i),
                  lambda i=i: interrupted(lambda: pr_measure.count_gram_recall([[1, 2], [1]], [[1], [2, 1]], n=1), i),
                  lambda i=i: interrupted(lambda: U.make_n_grams_all([['a', 'b'], ['c']], 1), i),
                  lambda i=i: interrupted(lambda: reduce_of(lines), i)]
    return calls


def command_calls(d):
    """failing commands: wrong arguments, files and lines; broken input and output; interrupted ones"""
    from nlcodec import __main__ as CLI, term_freq as TF
    f = lambda n: os.path.join(d, n)
    C.WordScheme(C.WordScheme.learn(['a b ab', 'ab x'])).save(f('w'))
    C.ByteScheme().save(f('b'))
    for name, data in (('bad', b'a\n\xff\xfe b\nab\n'), ('text', b'a b\nab x\n'), ('ids', b'6 7\n99 x\n6\n'), ('cut', b'#{"total": 3}\n')):
        with open(f(name), 'wb') as h:
            h.write(data)

    def run(*args, stdin=None, main=CLI.main):
        return run_main(main, ['x'] + [str(a) for a in args], stdin)

    def no_room(*args):
        with swapped(sys, argv=['nlcodec'] + list(args), stdin=io.StringIO('a b ab\n' * 40), stdout=BrokenIO()):
            CLI.main()
    calls = [lambda: run('encode'), lambda: run('none', '-m', f('w')), lambda: run('encode', '-m', f('no')), lambda: run('-v'),
             lambda: run('encode', '-m', f('cut'), stdin='a'), lambda: run('encode', '-m', f('w'), '-i', f('no')),
             lambda: run('encode', '-m', f('w'), '-i', f('bad'), '-o', f('o')), lambda: run('encode', '-m', f('w'), '-i', d),
             lambda: run('encode', '-m', f('w'), '-i', f('bad'), '-o', f('o'), '-idx'), lambda: run('learn', '-m', f('n')),
             lambda: run('decode', '-m', f('w'), '-i', f('ids'), '-o', f('o'), '-idx'), lambda: no_room('encode', '-m', f('w')),
             lambda: run('decode', '-m', f('b'), '-i', f('ids'), '-o', f('o')), lambda: no_room('encode', '-m', f('w'), '-idx'),
             lambda: run('decode', '-m', f('w'), '-i', f('text'), '-o', f('o'), '-idx'), lambda: run('learn', '-l', 'none', '-m', f('n')),
             lambda: run('learn', '-l', 'bpe', '-vs', 2, '-m', f('n'), stdin='a b'), lambda: run('learn', '-l', 'word', '-mf', 'x', '-m', f('n')),
             lambda: run('learn', '-l', 'word', '-tfs', '-m', f('n'), stdin='a\tx\n'), lambda: run('learn', '-l', 'bpe', '-vs', 20, '-m', f('no/n'), stdin='ab ab'),
             lambda: run('learn', '-l', 'char', '-cv', 2, '-m', f('n'), stdin='a b'), lambda: run('learn', '-l', 'word', '-m', f('n'), '-i', f('bad')),
             lambda: run('estimate', '-m', f('no'), stdin='a'), lambda: run('estimate', '-m', f('w'), '-i', f('bad')),
             lambda: run('-i', f('bad'), '-o', f('o'), main=TF.main), lambda: run('-i', f('no'), main=TF.main)]
    for i in range(4, 160, 12):
        calls += [lambda i=i: interrupted(lambda: run('encode', '-m', f('w'), '-i', f('text'), '-o', f('o')), i),
                  lambda i=i: interrupted(lambda: run('decode', '-m', f('w'), '-idx', stdin='6 7\n6\n'), i),
                  lambda i=i: interrupted(lambda: run('learn', '-l', 'bpe', '-vs', 20, '-mce', 1, '-m', f('n'), stdin='ab ab aab\nab b\n'), i * 8)]
    return calls


def parallel_calls(d):
    """parallel encoding and map-reduce that fail, or are given up, on pools of the model"""
    from mc.pools import model_pools
    from nlcodec.para import mapred as M
    word = C.WordScheme(C.WordScheme.learn(['a b ab', 'ab x']))
    bpe = C.BPEScheme(C.BPEScheme.learn(['abab aab', 'ab ba'], vocab_size=20, min_co_evidence=1))
    lines = ['a b ab', 'ab', 'x', 'zz', 'a'] * 3

    def part_way(it, n=1):
        for _ in range(n):
            next(it)
        getattr(it, 'close', int)()

    def on_model(fn, choose=lambda n: 0):
        def go():
            with model_pools(choose):
                fn()
        return go

    def every(sch, it, **kw):
        return sch.encode_parallel(it, 2, **kw)

    def bad_reducer(a, b):
        raise RuntimeError('reducer')
    calls = []
    for sch in (word, bpe):
        for choose in (lambda n: 0, lambda n: n - 1, lambda n: n // 2):
            calls += [on_model(fn, choose) for fn in (
                lambda sch=sch: list(every(sch, broken_input(lines))), lambda sch=sch: list(every(sch, iter(lines + [None] + lines))),
                lambda sch=sch: part_way(every(sch, iter(lines))), lambda sch=sch: part_way(every(sch, iter(lines)), 4),
                lambda sch=sch: list(sch.parallel_map(int, iter(lines), 2, chunksize=2)),
                lambda sch=sch: list(sch.parallel_map(sch.encode, broken_input(lines), 2, chunksize=1)),
                lambda sch=sch: list(sch.parallel_map(sch.encode, iter(lines), 0)), lambda sch=sch: list(every(sch, None)),
                lambda sch=sch: list(sch.encode_parallel(iter(lines), 'x')), lambda sch=sch: every(sch, iter(lines)))]
    return calls


def converter_calls(*convs):
    """failing calls of the script expanders' objects"""
    calls = []
    for c in convs:
        for f in (c.encode, c.decode):
            calls += [lambda f=f, x=x: f(x) for x in (None, 5, ['क', None, 'ा'], ['कम', 'अ'], b'ab', iter('कम'), Broken('कि'))]
            calls += [lambda f=f, i=i: interrupted(lambda: f('नमस्ते दुनिया अक\ue000 क⋮ख'), i) for i in range(3, 90, 8)]
        if hasattr(c, 'encode_all'):
            calls += [lambda c=c: list(c.encode_all(broken_input(['कि', 'ग']))), lambda c=c: list(c.decode_all(broken_input(['कअ', 'ग']))),
                      lambda c=c: next(c.encode_all(iter(['कि', 'ग']))), lambda c=c: list(c.decode_all(['कअ', None]))]
    return calls


def fail_tools_first(case, rec, made=tool_calls, n_calls=3):
    """before a case: a few of the failing calls, before a replayed case all of them"""
    n = zlib.crc32(json.dumps(case, sort_keys=True, default=repr).encode())
    d = tempfile.mkdtemp(dir=rec.scratch)
    try:
        calls = made(d)
        for k in range(len(calls)) if rec.replaying else [n + j * 31 for j in range(n_calls)]:
            with contextlib.suppress(Exception, SystemExit), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                calls[k % len(calls)]()
            rec.count('failed_before')
    finally:
        shutil.rmtree(d, ignore_errors=True)
