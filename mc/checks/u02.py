"""U02: heap, trie and linked list behave as specified.

Explored: every sequence of up to 6 (7) pushes and pops with equal and negative priorities from several
initial heaps, against a multiset; every sequence of up to 4 (5) creations, lookups with and without creation
and data changes on paths of up to 2 symbols, against a map of paths, sizes and data counts at every node;
for every sequence of up to 5 (6) items all orders of all sets of deletions, with and without unlinking, both
directions from every remaining node; long sequences for all three.
"""
import itertools

from mc.common import *
from mc.failing import fail_tools_first
from mc.core import short
from nlcodec.dstruct import LnNode, MaxHeap, TrNode

LEVEL = 'model_checking'
CASE_TIMEOUT = 300
ASSUMPTIONS = ['items of equal priority can be compared', 'a node is deleted at most once unless it was unlinked']


def BOUNDS(tier):
    q = tier == 'quick'
    return {'heap': f'sequences of {6 if q else 7} operations over 6 items, 7 initial heaps', 'trie': f'sequences of up to '
            f'{4 if q else 5} operations over 7 paths', 'list': f'sequences of up to {5 if q else 6} items, all orders of all '
            'sets of deletions', 'long': '1000 to 20000 operations'}


INITS = [{}, {1: 0}, {1: 2, 2: 2}, {2: -1, 1: 0, 3: -1}, {3: 5, 2: 2, 1: 0}, {1: 0, 2: 2, 3: 5, 4: 2}, {(1, 2): 3, (0, 5): 3}]
PUSH = [(1, 2), (1, 0), (2, 2), (2, -1), (3, 0), (3, 5)]


def cases(tier):
    q = tier == 'quick'
    for i in range(len(INITS)):
        for a in range(8):
            yield {'heap': i, 'first': a, 'depth': 6 if q else 7}
    for i in range(4):
        yield {'heap_long': i}
    for a in range(len(TRIE_OPS)):
        yield {'trie': a, 'depth': 4 if q else 5}
    for n in (100, 3000):
        yield {'trie_long': n}
    for n in range((5 if q else 6) + 1):
        for k in range(4 if n > 3 else 1):
            yield {'list': n, 'shard': k if n > 3 else None}
    for n in (50, 2000):
        yield {'list_long': n}


def before(case, rec):
    fail_tools_first(case, rec)


def check(case, rec):
    for name in ('heap', 'trie', 'list', 'heap_long', 'trie_long', 'list_long'):
        if name in case:
            globals()[f'check_{name}'](rec, case)


# ------------------------------------------------------------------ heap
def heap_run(rec, init, ops, what, drain=True):
    held = list(init.items())
    h = MaxHeap(dict(init))

    def take(op):
        got = tuple(op())
        if got not in held:
            rec.fail(f'{what}: {got} is given, held are {held}')
        if got[1] != max(v for _, v in held):
            rec.fail(f'{what}: {got} is given, but held are {held}')
        return got
    for op in ops:
        if op is None:
            if held:
                held.remove(take(h.pop))
        elif op == 'peek':
            if held:
                take(h.peek)
        else:
            h.push(*op)
            held.append(op)
        if len(h) != len(held):
            rec.fail(f'{what}: size {len(h)}, held are {held}')
    while drain and held:
        held.remove(take(h.pop))
        if len(h) != len(held):
            rec.fail(f'{what}: size {len(h)}, held are {held}')
    rec.trace()
    rec.step(len(ops))


def check_heap(rec, case):
    init = INITS[case['heap']]
    ops = PUSH + [None, 'peek']
    if case['heap'] == 6:
        ops = [((1, 2), 3), ((1, 1), 3), ((0, 5), 4), ((7,), -2), ((1, 2), 0), ((2, 2), 3), None, 'peek']
    first = ops[case['first']]
    for n in range(case['depth']):
        for rest in itertools.product(ops, repeat=n):
            if n > 3 and 'peek' in rest:
                continue
            seq = (first,) + rest
            heap_run(rec, init, seq, f'heap {init}, operations {seq}')
        rec.state((case['heap'], case['first'], n))
    for op in seq:
        rec.state((case['heap'], seq[:1], op))
    rec.count('heap_sequences', 1)
    rec.sample({'initial': repr(init), 'operations': repr(seq)}, 1)


def check_heap_long(rec, case):
    r = Lcg(case['heap_long'])
    init = {i: r(50) - 10 for i in range(r(2000))}
    ops = []
    for i in range(3000):
        ops.append(None if r(5) < 2 else (r(40), r(60) - 20))
    h, held, n = MaxHeap(dict(init)), {}, len(init)
    for k, v in init.items():
        held.setdefault(v, []).append(k)
    for op in ops + [None] * 6000:
        if op is None:
            if not n:
                break
            node, v = h.pop()
            if v != max(held) or node not in held[v]:
                rec.fail(f'long heap {case}: {(node, v)} is popped, highest is {max(held)}')
            held[v].remove(node)
            if not held[v]:
                del held[v]
            n -= 1
        else:
            h.push(*op)
            held.setdefault(op[1], []).append(op[0])
            n += 1
        if len(h) != n:
            rec.fail(f'long heap {case}: size {len(h)}, expected {n}')
        rec.step()
    rec.trace()
    rec.state(('long heap', case['heap_long']))


# ------------------------------------------------------------------ trie
PATHS = ['', 'a', 'b', 'aa', 'ab', 'ba', 'bb']
TRIE_OPS = [('get', p, True) for p in PATHS] + [('get', p, False) for p in PATHS[1:]] + \
    [('data', p, v) for p in ('', 'a', 'ab', 'ba') for v in (0, 'x', None)]


def trie_check(rec, root, model, what):
    """model: path -> data of every node"""
    for p in model:
        node = root
        for ch in p:
            node = node.kids[ch]
        below = [q for q in model if q[:len(p)] == p]
        want = (len(below), sum(model[q] is not None for q in below), sum(len(q) == len(p) + 1 for q in below),
                model[p] is not None)
        got = (node.size, node.data_node_count, node.n_kids, node.has_data)
        if got != want:
            rec.fail(f'{what}: size, data nodes, kids, data at {p!r} are {got}, expected {want}')
        found = root.get_node(p, create_missing=False)
        if found is not node or node.data != model[p] or type(node.data) is not type(model[p]):
            rec.fail(f'{what}: node at {p!r} holds {node.data!r}, expected {model[p]!r}')
        if p and (node.idx != p[-1] or node.parent is not root.get_node(p[:-1], create_missing=False)):
            rec.fail(f'{what}: node at {p!r} is {node.idx!r} below {node.parent}')


def lookup(rec, root, p, there, what):
    try:
        got = root.get_node(p, create_missing=False)
    except Exception:
        if there:
            raise
        return
    if not there and got is not None:
        rec.fail(f'{what}: looking up {p!r}, which is missing, gives a node')


def check_trie(rec, case):
    first = TRIE_OPS[case['trie']]
    for n in range(case['depth']):
        for rest in itertools.product(TRIE_OPS, repeat=n):
            if n >= 3 and (any(o[0] == 'get' and not o[2] for o in rest[:-2]) or any(o[2] in (0,) and o[2] is not False
                                                                           for o in rest if o[0] == 'data')):
                continue
            seq = (first,) + rest
            root, model, kept = TrNode(idx=None), {'': None}, {}
            what = f'trie operations {seq}'
            for op, p, arg in seq:
                if op == 'get' and not arg:
                    lookup(rec, root, p, p in model, what)
                    continue
                node = root.get_node(list(p) if n % 2 else p, create_missing=True) if n % 3 else root.get_node(p)
                for k in range(len(p) + 1):
                    model.setdefault(p[:k], None)
                if kept.setdefault(p, node) is not node:
                    rec.fail(f'{what}: the node at {p!r} is another one')
                if op == 'data':
                    node.data = model[p] = arg
                if n == 2 or len(model) == 3:   # asked between changes, too
                    got = root.size, root.data_node_count, root.n_kids
                    if got != (len(model), sum(v is not None for v in model.values()), sum(len(x) == 1 for x in model)):
                        rec.fail(f'{what}: size, data nodes, kids are {got} with nodes {model}')
            trie_check(rec, root, model, what)
            rec.trace()
            rec.step(len(seq))
        rec.state((case['trie'], n))
    for p in model:
        rec.state((case['trie'], p))
    rec.sample({'operations': repr(seq)}, 1)


def check_trie_long(rec, case):
    n = case['trie_long']
    root, model = TrNode(idx=-1), {(): None}
    r = Lcg(n)
    for i in range(n):
        p = tuple(r(4) for _ in range(r(9)))
        root.get_node(p).data = i
        for k in range(len(p)):
            model.setdefault(p[:k], None)
        model[p] = i
        q = tuple(r(4) for _ in range(r(9)))
        lookup(rec, root, q, q in model, 'long trie')
        rec.step()
    rec.eq(root.size, len(model), 'size of a long trie')
    rec.eq(root.data_node_count, sum(v is not None for v in model.values()), 'data nodes of a long trie')
    for p, v in model.items():
        rec.eq(root.get_node(p, create_missing=False).data, v, f'data at {p}')
    deep = TrNode(idx=None)
    deep.get_node('a' * n * 3).data = 'end'
    rec.eq((deep.size, deep.data_node_count), (3 * n + 1, 1), 'size and data nodes of a deep trie')
    given = {1: TrNode(idx=1, data=5)}
    rec.eq(TrNode(idx=0, kids=given).size, 2, 'size of a trie made with kids')
    a, b = TrNode(idx=0), TrNode(idx=0)
    a.get_node('x')
    rec.eq((a.size, b.size), (2, 1), 'sizes of two tries')
    rec.trace()
    rec.state(('long', n))


# ------------------------------------------------------------------ linked list
def list_check(rec, nodes, left, freq, data, seq, what):
    """left: positions still in the list"""
    for i, p in enumerate(left):
        n = nodes[p]
        want_l = nodes[left[i - 1]] if i else None
        want_r = nodes[left[i + 1]] if i + 1 < len(left) else None
        if n.left is not want_l or n.right is not want_r:
            rec.fail(f'{what}: neighbours of {p} are {n.left and n.left.val} and {n.right and n.right.val}')
        if n.val is not seq[p] or n.freq != freq or n.data is not data:
            rec.fail(f'{what}: node {p} is {n.val}, {n.freq}, {n.data}')
        if n.is_unlinked != (len(left) == 1):
            rec.fail(f'{what}: node {p} is_unlinked {n.is_unlinked}')


def check_list(rec, case):
    n, shard = case['list'], case['shard']
    for k, seq in enumerate(('abcdef'[:n], [0, 0, 0, 0, 0, 0][:n], [5, None, 'x', (1,), 7, -1][:n])):
        for freq, data in ((1, None), (3, 0), (0, 'd')):
            for m in range(n + 1):
                for order in itertools.permutations(range(n), m):
                    if order and shard is not None and order[0] % 4 != shard:
                        continue
                    for unlink in itertools.product((True, False), repeat=m) if m <= 3 else ((True,) * m, (False,) * m):
                        if k and (freq, data) != (3, 0):
                            continue
                        nodes = LnNode.from_seq(seq, freq=freq, data=data)
                        what = f'list {seq!r}, deletions {order}, unlinking {unlink}'
                        if len(nodes) != n:
                            rec.fail(f'{what}: {len(nodes)} nodes')
                        left = [*range(n)]
                        list_check(rec, nodes, left, freq, data, seq, what)
                        for p, u in zip(order, unlink):
                            if u and p % 2:
                                nodes[p].delete()
                            else:
                                nodes[p].delete(unlink=u)
                            left.remove(p)
                            list_check(rec, nodes, left, freq, data, seq, what)
                            if u and not nodes[p].is_unlinked:
                                rec.fail(f'{what}: {p} is not unlinked')
                            if u:      # a deleted node can not disturb the list again
                                nodes[p].delete()
                                list_check(rec, nodes, left, freq, data, seq, what)
                        rec.trace()
                        rec.step(m)
                        rec.state((k, freq, order, unlink, n))
    rec.sample({'list': repr(seq), 'deletions': order}, 1)


def check_list_long(rec, case):
    n = case['list_long']
    seq = [i % 7 for i in range(n)]
    nodes = LnNode.from_seq(seq, freq=4, data=seq)
    left = [*range(n)]
    r = Lcg(n)
    while left:
        for _ in range(min(len(left), 1 + n // 20)):
            nodes[left.pop(r(len(left)))].delete(unlink=bool(r(2)))
        list_check(rec, nodes, left, 4, seq, seq, f'long list of {n}')
        rec.step()
    rec.trace()
    rec.state(('long list', n))
