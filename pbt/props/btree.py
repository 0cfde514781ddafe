"""BTree against a sorted dictionary."""
import bisect
import copy
import math

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, check, expect_eq, expect_raises, Violation
from durus.btree import (BTree, BNode, BNode4, BNode8, BNode16, BNode32,
                         BNode64, BNode128, BNode256, BNode512)
from durus.connection import Connection
from durus.persistent_dict import PersistentDict
from durus.storage import MemoryStorage

NODES = [BNode, BNode4, BNode8, BNode16, BNode32, BNode64, BNode128, BNode256,
         BNode512]
SPAN = 60


def make_key(kind, n):
    if kind == 0:
        return n
    if kind == 1:
        return 'k%03d' % n
    if kind == 2:
        return (n // 7, 'x%d' % (n % 7))
    return n / 4.0 - 3


def check_range(tree, keys, model, a, b, ca, cb):
    got = list(tree.items_range(a, b, closed_start=ca, closed_end=cb))
    if a <= b:
        want = [(k, model[k]) for k in keys
                if (a < k or (ca and k == a)) and (k < b or (cb and k == b))]
    else:
        want = [(k, model[k]) for k in reversed(keys)
                if (k < a or (ca and k == a)) and (k > b or (cb and k == b))]
    expect_eq(got, want, 'items_range(%r, %r, %r, %r)' % (a, b, ca, cb))


def check_shape(tree, model, degree, legacy):
    """B-tree balance seen through the public statistics."""
    n = len(model)
    depth = tree.get_depth()
    limit = 1 if n == 0 else 1 + int(
        math.log((n + 1) / 2.0) / math.log(degree) + 1e-9)
    check(depth <= max(1, limit), 'depth %s with %s items (degree %s)',
          depth, n, degree)
    nodes = tree.get_node_count()
    # every node but the root has at least degree-1 items
    check((nodes - 1) * (degree - 1) + (1 if nodes > 1 else 0) <= n,
          '%s nodes hold only %s items (degree %s)', nodes, n, degree)
    check(nodes * (2 * degree - 1) >= n, 'too few nodes')
    check_node(tree.root, degree, legacy, True)


def check_node(node, degree, legacy, root=False):
    """Every subtree: its number of items (also by len), and its depth."""
    size = len(node.items)
    check(size <= 2 * degree - 1 and (root or size >= degree - 1),
          'a node with %s items (degree %s)', size, degree)
    total, depth = size, 1
    if node.nodes:
        expect_eq(len(node.nodes), size + 1, 'children')
        found = [check_node(child, degree, legacy) for child in node.nodes]
        total += sum(f[0] for f in found)
        check(len(set(f[1] for f in found)) == 1, 'leaves at several depths')
        depth += found[0][1]
    if not legacy:
        expect_eq(len(node), total, 'len of a node')
    return total, depth


def check_all(tree, model, legacy, degree):
    keys = sorted(model)
    expect_eq(list(tree.iteritems()), [(k, model[k]) for k in keys],
              'iteritems')
    expect_eq(len(tree), len(keys), 'len')
    expect_eq(bool(tree), bool(keys), 'bool')
    expect_eq(list(tree), keys, 'iter')
    expect_eq(list(reversed(tree)), keys[::-1], 'reversed')
    expect_eq(list(tree.items_backward()),
              [(k, model[k]) for k in reversed(keys)], 'items_backward')
    if keys:
        expect_eq(tree.get_min_item(), (keys[0], model[keys[0]]), 'min')
        expect_eq(tree.get_max_item(), (keys[-1], model[keys[-1]]), 'max')
    check_shape(tree, model, degree, legacy)


def strip_counts(node):
    """Make this node (and descendants) as stored by releases without
    the _count attribute."""
    state = node.__getstate__()
    if '_count' in state:
        node._p_note_change()
        del node.__dict__['_count']
    for child in node.nodes or []:
        strip_counts(child)


def strip_path(node, n):
    """Make only a node and those above it as stored by old releases."""
    node._p_note_change()
    node.__dict__.pop('_count', None)
    if node.nodes and n:
        strip_path(node.nodes[n % len(node.nodes)], n // len(node.nodes))


def run(case, ctx):
    kind = case['kind']
    legacy = any(op[0] == 'legacy' for op in case['ops'])
    degree_index = case['degree']
    node_class = NODES[degree_index]
    storage = MemoryStorage()
    connection = Connection(storage, cache_size=case['cache'])
    tree = BTree(node_class)
    connection.root['t'] = tree
    model = {}
    committed = {}
    commit_degree = degree_index
    connection.commit()
    key = lambda n: make_key(kind, n)
    deletes = depth = 0
    value = 0
    for op in case['ops']:
        name, args = op[0], op[1:]
        degree = NODES[degree_index].minimum_degree
        value += 1
        keys = None
        if name == 'set':
            k = key(args[0])
            tree[k] = value
            model[k] = value
        elif name == 'add':
            k = key(args[0])
            if args[1]:
                tree.add(k)
                model[k] = True
            else:
                tree.add(k, value)
                model[k] = value
        elif name == 'fill':
            for j in range(args[1]):
                k = key((args[0] + j * args[2]) % (SPAN * 4))
                tree[k] = value
                model[k] = value
        elif name == 'drain':
            keys = sorted(model)
            if keys:
                at = args[0] % len(keys)
                doomed = keys[at::args[2]][:args[1]]
                if args[3]:
                    doomed.reverse()
                for k in doomed:
                    del tree[k]
                    del model[k]
                    deletes += 1
        elif name == 'del':
            k = key(args[0])
            if k in model:
                del tree[k]
                del model[k]
                deletes += 1
            else:
                expect_raises(KeyError, lambda: tree.__delitem__(k),
                              'delete of missing key')
        elif name == 'delnth':
            keys = sorted(model)
            if keys:
                k = keys[args[0] % len(keys)]
                del tree[k]
                del model[k]
                deletes += 1
        elif name == 'pop':
            k = key(args[0])
            if k in model:
                expect_eq(tree.pop(k), model.pop(k), 'pop')
                deletes += 1
            else:
                expect_eq(tree.pop(k, 'none'), 'none', 'pop default')
        elif name == 'popitem':
            if model:
                k, v = tree.popitem()
                check(k in model and model.pop(k) == v, 'popitem')
            else:
                expect_raises(KeyError, tree.popitem, 'popitem of empty')
        elif name == 'setdefault':
            k = key(args[0])
            expect_eq(tree.setdefault(k, value), model.setdefault(k, value),
                      'setdefault')
        elif name == 'update':
            new = dict((key(n), value) for n in args[1])
            if args[0] == 0:
                tree.update(new)
            elif args[0] == 1:
                tree.update(sorted(new.items()))
            elif args[0] == 2:
                other = BTree(NODES[0])
                other.update(new)
                tree.update(other)
            else:
                tree.update(PersistentDict(new))
            model.update(new)
        elif name == 'clear':
            tree.clear()
            model.clear()
        elif name == 'get':
            k = key(args[0])
            expect_eq(tree.get(k, 'no'), model.get(k, 'no'), 'get')
            expect_eq(k in tree, k in model, 'in')
            expect_eq(tree.has_key(k), k in model, 'has_key')
            if k in model:
                expect_eq(tree[k], model[k], 'getitem')
            else:
                expect_raises(KeyError, lambda: tree[k], 'getitem')
        elif name == 'range':
            keys = sorted(model)
            check_range(tree, keys, model, key(args[0]), key(args[1]),
                        bool(args[2]), bool(args[3]))
        elif name == 'from':
            k = key(args[0])
            keys = sorted(model)
            lo, hi = bisect.bisect_left(keys, k), bisect.bisect_right(keys, k)
            pairs = [(x, model[x]) for x in keys]
            if args[1] == 0:
                expect_eq(list(tree.items_from(k)), pairs[lo:], 'items_from')
            elif args[1] == 1:
                expect_eq(list(tree.items_from(k, closed=False)), pairs[hi:],
                          'items_from open')
            elif args[1] == 2:
                expect_eq(list(tree.items_backward_from(k)),
                          pairs[:lo][::-1], 'items_backward_from')
            else:
                expect_eq(list(tree.items_backward_from(k, closed=True)),
                          pairs[:hi][::-1], 'items_backward_from closed')
        elif name == 'degree':
            target = NODES[args[0] % len(NODES)].minimum_degree
            if BNode not in (NODES[args[0] % len(NODES)],
                             NODES[degree_index]) or \
                    target == degree:
                changed = tree.set_bnode_minimum_degree(target)
                expect_eq(bool(changed), target != degree,
                          'set_bnode_minimum_degree result')
                degree_index = args[0] % len(NODES)
                ctx.label('degree-change')
        elif name == 'legacy':
            if args and args[0]:
                strip_path(tree.root, args[0])
            else:
                strip_counts(tree.root)
            ctx.label('legacy')
        elif name == 'mutable':
            # a non-persistent value, changed in place and then noted
            k = key(args[0])
            tree[k] = [value]
            model[k] = [value]
            connection.commit()
            tree[k].append(7)
            tree.note_change_of_bnode_containing_key(k)
            model[k] = [value, 7]
            committed, commit_degree = None, degree_index
            connection.commit()
            committed = copy.deepcopy(model)
        elif name == 'commit':
            connection.commit()
            committed, commit_degree = copy.deepcopy(model), degree_index
            ctx.label('commit')
        elif name == 'abort':
            connection.abort()
            model, degree_index = copy.deepcopy(committed), commit_degree
            ctx.label('abort')
        elif name == 'verify':
            # another connection sees what was committed, and only that
            other = Connection(storage)
            check_all(other.root['t'], committed, legacy,
                      NODES[commit_degree].minimum_degree)
        expect_eq(len(tree), len(model), 'len after %s' % name)
        depth = max(depth, tree.get_depth())
    degree = NODES[degree_index].minimum_degree
    check_all(tree, model, legacy, degree)
    connection.commit()
    other = Connection(storage)
    check_all(other.root['t'], model, legacy, degree)
    if depth >= 2:
        ctx.label('depth>=2')
    if depth >= 3:
        ctx.label('depth>=3')
    ctx.mark(depth >= 2 and deletes > 0)


def strategy():
    n = gen.small(SPAN)
    wide = gen.small(SPAN * 4 - 1)
    choices = [
        (4, gen.op('set', n)), (1, gen.op('add', n, gen.small(1))),
        (4, gen.op('fill', wide, st.integers(1, 45), st.sampled_from(
            [1, 1, 3, 7, 239]))),
        (4, gen.op('drain', wide, st.integers(1, 30), st.integers(1, 3),
                   gen.small(1))),
        (3, gen.op('del', n)), (5, gen.op('delnth', wide)),
        (1, gen.op('pop', n)), (1, gen.op('popitem')),
        (1, gen.op('setdefault', n)),
        (1, gen.op('update', gen.small(3), st.lists(n, max_size=12))),
        (1, gen.op('get', n)),
        (2, gen.op('range', n, n, gen.small(1), gen.small(1))),
        (2, gen.op('from', n, gen.small(3))),
        (1, gen.op('mutable', n)), (1, gen.op('clear')),
        (1, gen.op('degree', gen.small(8))), (1, gen.op('legacy', wide)),
        (3, gen.op('commit')), (2, gen.op('abort')), (2, gen.op('verify'))]
    return gen.record(
        kind=gen.small(3),
        degree=st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3, 4]),
        cache=st.sampled_from([1, 3, 1000]),
        ops=gen.sized(gen.ops(*choices, max_size=15),
                      gen.ops(*choices, min_size=12, max_size=40)))


FACETS = [Facet(
    'model', strategy, run, quick=8000, thorough=250000,
    rule='a generated history of mapping, range, commit/abort and verify '
    'operations on a BTree of degree 2..16, against a dict; non-trivial when '
    'the tree had at least two levels and at least one deletion')]
