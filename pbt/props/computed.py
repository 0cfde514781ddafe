"""C20: computed attributes are never stale after synchronisation.

Cells hold numbers; a computed attribute depends on cells and perhaps on
another computed attribute.  Whoever changes a cell invalidates, in the same
transaction, whatever depends on it.
"""
import gc
import pickle
import zlib

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Violation, check, expect_eq
from ..storages import Server, open_storage
from durus.client_storage import ClientStorage
from durus.connection import Connection
from durus.error import ConflictError
from durus.persistent import ComputedAttribute, Persistent
from durus.serialize import unpack_record


from ..classes import Node as Cell, Derived


class Counting(ClientStorage):
    """Knows when it was synchronised."""
    syncs = 0
    client = None

    def sync(self):
        result = ClientStorage.sync(self)
        self.synced_at = self.world.k
        self.syncs += 1
        if self.client is not None:
            self.world.learn(self.client)
        return result


class Client(object):

    def __init__(self, world, name):
        self.w, self.name = world, name
        self.storage = Counting(address=world.server.path)
        world.ctx.on_exit(self.storage.s.close)
        self.storage.s.settimeout(30)
        self.storage.world = world
        self.connection = Connection(self.storage, world.case['cache'])
        self.values = {}    # computed -> {number of a computation: event}
        self.barrier = {}   # computed -> event
        self.handles = {}
        self.busy = False
        self.known = world.k      # invalidations it has been told of
        self.begin()
        self.storage.client = self

    def begin(self):
        self.connection_syncs = self.storage.syncs
        self.start = self.w.k     # the commits before are known
        self.local = {}           # cell -> number
        self.invalidated = set()
        self.failed = False
        self.fresh = set()

    def __repr__(self):
        return 'client %d' % self.name


class World(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.k = 0
        self.event = 0
        self.cells = case['cells']
        # deps[c]: cells, and perhaps an earlier computed attribute
        self.deps = []
        for cells, inner in case['computed']:
            c = len(self.deps)
            self.deps.append((sorted(set(i % self.cells for i in cells)),
                              None if inner is None or not c else inner % c))
        self.history = [[0] * self.cells] # numbers in the cells, by commit
        self.invalidations = []           # (commit, client, computed)
        self.server = Server(
            lambda: open_storage(case['storage'], ctx.path('db')),
            ctx.path('sock'))
        ctx.on_exit(self.server.stop)
        self.stamp = 0
        self.computations = 0
        first = Client(self, 0)
        root = first.connection.root
        for i in range(self.cells):
            cell = Cell()
            cell.number = 0
            root['d%d' % i] = cell
        for c in range(len(self.deps)):
            root['c%d' % c] = self.make(c)
        first.connection.commit()
        first.begin()
        self.clients = [first] + [Client(self, n)
                                  for n in range(1, case['clients'])]

    def make(self, c):
        return (Derived if c % 2 else ComputedAttribute)()

    def all_cells(self, c):
        cells, inner = self.deps[c]
        result = set(cells)
        if inner is not None:
            result |= self.all_cells(inner)
        return result

    def object(self, client, name):
        obj = client.handles.get(name)
        if obj is None:
            obj = client.connection.root[name]
            if client.w.case['hold']:
                client.handles[name] = obj
        return obj

    def attempt(self, client, func, *args):
        """Conflict errors end the use of this transaction."""
        if client.failed or client.busy:
            return None
        try:
            return func(client, *args)
        except ConflictError:
            client.failed = True
            check(self.k > client.start, '%s gets a conflict, but nobody has '
                  'committed anything since', client)
            self.ctx.label('conflict')
            return None

    # -- operations

    def compute(self, client, c, inner_ops):
        """-> (number of this computation, {cell: number})"""
        self.computations += 1
        tick = self.computations
        result = {}
        cells, inner = self.deps[c]
        order = list(cells)
        if inner is not None:
            order.insert(self.case['position'] % (len(cells) + 1), None)
        for n, i in enumerate(order):
            if i is None:
                result.update(self.get(client, inner, [])[1])
            else:
                result[i] = self.object(client, 'd%d' % i).number
            if n < len(inner_ops):
                client.busy = True
                try:
                    for op in inner_ops[n]:
                        self.run(op)
                finally:
                    client.busy = False
        self.event += 1
        client.values.setdefault(c, {})[tick] = self.event
        return (tick, result)

    def get(self, client, c, inner_ops):
        obj = self.object(client, 'c%d' % c)
        calls = self.computations
        value = obj.get(lambda: self.compute(client, c, inner_ops))
        tick, numbers = value
        known = client.values.get(c, {})
        check(tick in known, '%s gets a value of attribute %d that it has '
              'not computed', client, c)
        check(known[tick] >= client.barrier.get(c, 0), '%s gets a value of '
              'attribute %d that was computed before it learned of an '
              'invalidation', client, c)
        # It is what the cells were at some time after synchronising.
        for k in range(client.start, self.k + 1):
            state = dict(enumerate(self.history[k]))
            state.update(client.local)
            if all(state[i] == numbers[i] for i in numbers):
                break
        else:
            raise Violation(
                '%s gets %r for attribute %d; the cells were %s since it '
                'synchronised (its own: %s)' % (
                    client, numbers, c, self.history[client.start:],
                    client.local))
        if calls == self.computations:
            self.ctx.label('cached')
        else:
            self.ctx.label('computed')
        return value

    def do_get(self, client, c, inner_ops):
        self.attempt(client, lambda client: self.get(
            client, c % len(self.deps), inner_ops))

    def invalidate(self, client, c):
        self.object(client, 'c%d' % c).invalidate()
        self.event += 1
        client.barrier[c] = self.event
        client.invalidated.add(c)
        # Now everything that uses it:
        for d, (cells, inner) in enumerate(self.deps):
            if inner == c and d not in client.invalidated:
                self.invalidate(client, d)
            elif inner == c:
                self.invalidate(client, d)

    def do_invalidate(self, client, c):
        self.attempt(client, self.invalidate, c % len(self.deps))

    def change(self, client, i):
        # All objects first, since a conflict may come up.
        cell = self.object(client, 'd%d' % i)
        self.stamp += 1
        cell.number = self.stamp
        client.local[i] = self.stamp
        for c in range(len(self.deps)):
            if i in self.deps[c][0]:
                self.invalidate(client, c)

    def do_change(self, client, i):
        self.attempt(client, self.change, i % self.cells)

    def do_read(self, client, i):
        self.attempt(client, lambda client: self.object(
            client, 'd%d' % (i % self.cells)).number)

    def stale(self, client):
        """Attributes invalidated here and, meanwhile, elsewhere."""
        return set(c for k, other, c in self.invalidations
                   if other is not client and k > client.start and
                   c in client.invalidated)

    def learn(self, client):
        """It has synchronised."""
        for k, other, c in self.invalidations:
            if other is not client and k > client.known:
                self.event += 1
                client.barrier[c] = self.event
        client.known = self.k

    def do_commit(self, client):
        if client.busy or client.failed:
            return
        stale = self.stale(client)
        try:
            client.connection.commit()
        except ConflictError:
            client.failed = True
            check(self.k > client.start, '%s gets a conflict, but nobody has '
                  'committed anything since', client)
            self.ctx.label('conflict')
            return
        if client.storage.syncs == client.connection_syncs or \
                not client.invalidated:
            check(not stale, '%s commits an invalidation of attributes %s, '
                  'which were invalidated elsewhere meanwhile', client,
                  sorted(stale))
        if client.local or client.invalidated:
            self.k += 1
            numbers = list(self.history[-1])
            for i, n in client.local.items():
                numbers[i] = n
            self.history.append(numbers)
            for c in client.invalidated:
                self.invalidations.append((self.k, client, c))
            self.ctx.label('committed')
        self.learn(client)
        client.begin()

    def do_abort(self, client):
        if client.busy:
            return
        self.event += 1
        for c in client.invalidated:
            client.barrier[c] = self.event
        client.connection.abort()
        self.learn(client)
        client.begin()

    def do_shrink(self, client, n):
        if not client.busy:
            client.connection.set_cache_size(n + 1)
            client.connection.shrink_cache()

    def do_ghost(self, client):
        if client.busy:
            return
        for obj in client.connection.cache:
            if obj is not None and obj._p_is_saved():
                obj._p_set_status_ghost()

    def do_drop(self, client):
        if not client.busy:
            client.handles.clear()
            gc.collect()

    def do_record(self, client, c):
        """What is stored for an attribute."""
        c %= len(self.deps)
        if client.busy or client.failed:
            return
        oid = self.attempt(client, lambda client: self.object(
            client, 'c%d' % c)._p_oid)
        if oid is None:
            return
        storage = self.server.client()
        try:
            record = storage.load(oid)
        finally:
            storage.close()
        oid, data, refs = unpack_record(record)
        expect_eq(refs, b'', 'references of a computed attribute')
        head = pickle.dumps(type(self.make(c)), 2)
        cls = pickle.loads(data)
        check(cls is type(self.make(c)), 'class of a computed attribute')
        # The state follows the class.
        end = data.index(b'.', data.index(b'\n', data.index(b'\n') + 1)) + 1
        state = data[end:]
        try:
            state = zlib.decompress(state)
        except zlib.error:
            pass
        expect_eq(pickle.loads(state), None, 'state of a computed attribute')

    def do_replace(self, client, c):
        """A new object for an attribute."""
        self.attempt(client, self.replace, c % len(self.deps))

    def replace(self, client, c):
        name = 'c%d' % c
        old = self.object(client, name)
        self.invalidate(client, c) # for those who still have the old one
        client.connection.root[name] = self.make(c)
        client.handles.pop(name, None)

    def run(self, op):
        getattr(self, 'do_' + op[0])(
            self.clients[op[1] % len(self.clients)], *op[2:])


def run(case, ctx):
    world = World(case, ctx)
    for op in case['ops']:
        world.run(op)
    for client in world.clients:
        world.do_abort(client)
        for c in range(len(world.deps)):
            world.do_get(client, c, [])
            check(not client.failed, 'a conflict without reason')
            world.do_record(client, c)
    ctx.label('storage-' + case['storage'])
    ctx.mark(ctx.labels['committed'] and ctx.labels['cached'] and
             len(world.clients) > 1)


def strategy():
    cl = gen.small(2)
    n = gen.small(5)

    def basic(inner):
        return [
            (6, gen.op('get', cl, n, inner)), (2, gen.op('invalidate', cl, n)),
            (4, gen.op('change', cl, n)), (1, gen.op('read', cl, n)),
            (6, gen.op('commit', cl)), (3, gen.op('abort', cl)),
            (1, gen.op('shrink', cl, gen.small(4))), (1, gen.op('ghost', cl)),
            (1, gen.op('drop', cl)), (1, gen.op('record', cl, n))]

    flat = gen.ops(*basic(st.just([])), max_size=4)
    other = st.one_of(flat, st.builds(
        lambda c, i: [['change', c, j] for j in i] + [['commit', c]], cl,
        st.lists(n, min_size=1, max_size=3)))
    choices = basic(st.one_of(
        st.just([]), st.just([]), st.lists(other, max_size=3)))
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        clients=st.sampled_from([1, 2, 2, 2, 3]),
        cells=st.integers(1, 4),
        computed=st.lists(st.tuples(
            st.lists(gen.small(3), max_size=3),
            st.one_of(st.none(), gen.small(3))).map(list), min_size=1,
            max_size=4),
        position=gen.small(2),
        hold=st.booleans(), cache=st.sampled_from([1, 4, 1000]),
        ops=gen.sized(gen.ops(*choices, max_size=10),
                      gen.ops(*choices, min_size=8, max_size=25),
                      gen.ops(*choices, min_size=15, max_size=40)))


# -- what is kept

class Broken(Exception):
    pass


def make_value(spec):
    kind, n = spec
    return [lambda: None, lambda: 0, lambda: '', lambda: [], lambda: False,
            lambda: NotImplemented, lambda: {'n': n}, lambda: [n] * n,
            lambda: 'x' * n, Cell, lambda: Derived()][kind]()


def run_kept(case, ctx):
    storage = open_storage(case['storage'], ctx.path('db'))
    ctx.on_exit(storage.close)
    connection = Connection(storage)
    root = connection.root
    objects = []
    kept = []       # the value in a list, or None
    changed = set()
    for n in range(3):
        obj = (Derived if n % 2 else ComputedAttribute)()
        objects.append(obj)
        kept.append(None)
        if n < case['saved']:
            root[n] = obj
    connection.commit()
    gets = 0
    for op in case['ops']:
        if op[0] == 'commit':
            connection.commit()
            changed = set()
        elif op[0] == 'abort':
            connection.abort()
            for c in changed:
                kept[c] = None
            changed = set()
        elif op[0] == 'add':
            # It may have been used before it is stored.
            for n, obj in enumerate(objects):
                if n not in root:
                    root[n] = obj
            connection.commit()
            changed = set()
        else:
            c = op[1] % len(objects)
            obj = objects[c]
            calls = []
            if op[0] == 'get':
                value = make_value(op[2])

                def compute():
                    calls.append(1)
                    if op[3]:
                        raise Broken()
                    return value
                try:
                    got = obj.get(compute)
                except Broken:
                    check(op[3] and kept[c] is None, 'a failing computation, '
                          'but there is a value')
                    expect_eq(len(calls), 1, 'calls of a computation')
                    continue
                if kept[c] is None:
                    check(not op[3], 'an exception of a computation is lost')
                    expect_eq(len(calls), 1, 'calls of a computation')
                    check(got is value, 'computed %r, got %r', value, got)
                    kept[c] = [value]
                else:
                    expect_eq(calls, [], 'computations although %.50r is '
                              'kept' % (kept[c][0],))
                    check(got is kept[c][0], 'got %.50r, kept is %.50r', got,
                          kept[c][0])
                    gets += 1
                check(obj._p_oid is None or
                      obj._p_is_unsaved() == (c in changed),
                      'a get changes whether the attribute is to be saved')
            elif op[0] == 'invalidate':
                obj.invalidate()
                kept[c] = None
                if obj._p_oid is not None:
                    changed.add(c)
            elif op[0] == 'touch':
                obj._p_note_change()
                if obj._p_oid is not None:
                    changed.add(c)
            elif op[0] == 'ghost':
                if obj._p_oid is not None and obj._p_is_saved():
                    obj._p_set_status_ghost()
                    kept[c] = None
    ctx.label('storage-' + case['storage'])
    ctx.mark(gets > 1)


def kept_strategy():
    n = gen.small(2)
    value = st.tuples(gen.small(10), gen.small(20)).map(list)
    choices = [
        (8, gen.op('get', n, value, st.sampled_from([False] * 4 + [True]))),
        (2, gen.op('invalidate', n)), (1, gen.op('touch', n)),
        (2, gen.op('commit')), (2, gen.op('abort')), (1, gen.op('ghost', n)),
        (1, gen.op('add'))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        saved=gen.small(3), ops=gen.ops(*choices, min_size=2, max_size=20))


FACETS = [
    Facet('computed', strategy, run, quick=5000, thorough=150000,
          rule='schedules of changes, invalidations, commits and aborts by up '
          'to three clients, also during computations; non-trivial with '
          'several clients, a commit and a cached value'),
    Facet('kept', kept_strategy, run_kept, quick=2000, thorough=50000,
          rule='gets of values of any kind and failing computations, '
          'invalidations, commits and aborts in one connection, against a '
          'model of which values are kept; non-trivial when kept values are '
          'found again'),
]
