"""C01: committed graphs are rebuilt identically."""
import struct

from hypothesis import strategies as st

from .. import gen, graph
from ..core import Facet, check, expect_eq
from ..storages import open_storage, Server, FILES
import durus.serialize
from durus.connection import Connection


def check_records(storage, world, oid_of, live):
    """Every stored record: its own oid, class, and the exact references."""
    index = dict((oid, i) for i, oid in oid_of.items())
    seen = set()
    for oid, record in storage.gen_oid_record(
            start_oid=b'\0' * 8):
        i = index.get(oid)
        if i is None:
            continue # internal nodes of a BTree
        seen.add(i)
        check(bytes(record[:8]) == oid, 'record of %r carries oid %r', oid,
              record[:8])
        n = struct.unpack('>L', record[8:12])[0]
        refs = record[12 + n:]
        check(len(refs) % 8 == 0, 'ragged reference list')
        got = [bytes(refs[j:j + 8]) for j in range(0, len(refs), 8)]
        expect_eq(len(got), len(set(got)), 'duplicate references')
        if world.kinds[i] != 10: # BTree items are in its nodes
            want = set(oid_of[j] for j in world.direct_refs(i) if j != i)
            expect_eq(set(got), want, 'references recorded for object %d' % i)
    expect_eq(seen, live, 'objects in the traversal')


def run(case, ctx):
    kind = case['storage']
    path = ctx.path('db')
    server = None
    if case['compress'] is False:
        durus.serialize.WRITE_COMPRESSED_STATE_PICKLES = False
    try:
        if case['served']:
            server = Server(lambda: open_storage(kind, path),
                            ctx.path('sock'))
            ctx.on_exit(server.stop)
            client = server.client()
        else:
            client = storage = open_storage(kind, path)
        connection = Connection(client, cache_size=case['cache'])
        world = graph.World(connection.root, case['kinds'])
        n = len(world)
        stored = set()
        reopened = False
        for stage in case['stages']:
            for i, items in stage:
                world.replace(i % n, items)
            connection.commit()
            live = world.reachable()
            stored |= live
            if case['served']:
                server.check()
        oid_of = dict((i, world.real[i]._p_oid) for i in live)
        check(len(set(oid_of.values())) == len(oid_of), 'oids not distinct')
        # a second connection, while the first is still open
        if case['served']:
            graph.compare_graph(
                Connection(server.client()).root, 7, world.kinds,
                world.states, oid_of, 'second client')
        else:
            graph.compare_graph(
                Connection(client).root, 7, world.kinds, world.states, oid_of,
                'second connection')
        # the first connection, from an emptied cache
        for obj in connection.cache:
            if obj is not None and obj._p_is_saved():
                obj._p_set_status_ghost()
        found = graph.compare_graph(connection.root, 7, world.kinds,
                                    world.states, oid_of, 'same connection')
        for i in live:
            check(found[i] is world.real[i], 'object %d was replaced', i)
        check_records(client, world, oid_of, live)
        if kind != 'memory':
            if case['pack']:
                connection.pack()
                if not case['served']:
                    check_records(client, world, oid_of, live)
            if server is not None:
                client.close()
                server.stop()
            else:
                storage.close()
            storage = open_storage(kind, path)
            ctx.on_exit(storage.close)
            check_records(storage, world, oid_of, live)
            again = Connection(storage, cache_size=case['cache'])
            graph.compare_graph(again.root, 7, world.kinds, world.states,
                                oid_of, 'after reopening')
            ctx.label('reopened')
    finally:
        durus.serialize.WRITE_COMPRESSED_STATE_PICKLES = True
    edges = sum(len(world.direct_refs(i)) for i in live)
    ctx.label('storage-' + kind + ('-served' if case['served'] else ''))
    if edges >= len(live):
        ctx.label('sharing-or-cycles')
    ctx.mark(len(live) >= 3 and edges >= len(live))


def strategy(served):
    def make():
        items = st.lists(st.tuples(gen.small(9),
                                   graph.value_specs(12, big=True)).map(list),
                         max_size=5)
        refs = st.lists(st.tuples(gen.small(7), st.builds(
            lambda i: ['ref', i], gen.small(11))).map(list), min_size=1,
            max_size=5)
        change = st.one_of(
            st.tuples(gen.small(11), items).map(list),
            st.tuples(gen.small(11), refs).map(list),
            st.tuples(st.just(0), refs).map(list))
        first = st.tuples(st.just(0), refs).map(list)
        return gen.record(
            storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
            served=st.just(served), kinds=graph.kinds_strategy(11),
            cache=st.sampled_from([1, 4, 1000]),
            compress=st.sampled_from([True, True, True, False]),
            pack=st.booleans(),
            stages=st.builds(
                lambda a, b, c: [[a] + b] + c, first,
                st.lists(change, min_size=2, max_size=12),
                st.lists(st.lists(change, min_size=1, max_size=12),
                         max_size=3)))
    return make


def big_strategy():
    """Many objects with large states in one commit."""
    big = st.lists(st.tuples(gen.small(9), st.one_of(
        st.builds(lambda n, s: ['big', n, s],
                  st.sampled_from([3000, 9000, 20500, 70000]), gen.small(50)),
        st.builds(lambda i: ['ref', i], gen.small(59)))).map(list),
        min_size=2, max_size=4)
    root = st.lists(st.tuples(gen.small(7), st.builds(
        lambda i: ['ref', i], gen.small(59))).map(list), min_size=5,
        max_size=12)
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        served=st.booleans(),
        kinds=st.lists(st.sampled_from([0, 1, 5, 6, 7, 8, 12]), min_size=20,
                       max_size=60),
        cache=st.sampled_from([2, 1000]), compress=st.booleans(),
        pack=st.booleans(),
        stages=st.lists(st.builds(
            lambda r, l: [[0, r]] + l, root, st.lists(
                st.tuples(gen.small(59), big).map(list), min_size=20,
                max_size=60)), min_size=1, max_size=2))


RULE = ('a generated graph of 1..60 persistent objects of 13 class shapes, '
        'replaced piecewise in 1..4 commits, compared after every way of '
        'reloading; non-trivial when at least 3 objects are reachable with '
        'at least as many edges as objects')
FACETS = [
    Facet('direct', strategy(False), run, quick=4000, thorough=120000,
          rule=RULE),
    Facet('served', strategy(True), run, quick=800, thorough=20000, rule=RULE),
    Facet('large', big_strategy, run, quick=160, thorough=5000, rule=RULE),
]
