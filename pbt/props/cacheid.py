"""C24: one live instance per object, and a bounded cache."""
import gc
import weakref

from hypothesis import strategies as st

from .. import classes as C
from .. import gen
from ..core import Facet, Violation, check, expect_eq
from ..storages import Server, open_storage
from durus.connection import Connection, gen_every_instance
from durus.error import ConflictError
from durus.utils import int8_to_str, str_to_int8


class Refusing(object):
    """Mixin: a commit fails on demand."""
    refuse = False

    def end(self, handle_invalidations=None):
        if self.refuse:
            self.refuse = False
            raise OSError(28, 'injected')
        super().end(handle_invalidations)


class World(object):
    """Nodes with a number and children.  What the program holds on to is in
    self.held; nothing else in here keeps a node alive."""

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = case['storage']
        self.served = case['served'] and self.kind != 'memory'
        self.path = ctx.path('db')

        def factory():
            return open_storage(self.kind, self.path, (Refusing,))
        if self.served:
            self.server = Server(factory, ctx.path('sock'))
            ctx.on_exit(self.server.stop)
            storage = self.server.client()
            self.peer = Connection(self.server.client(), root_class=C.Node)
            ctx.on_exit(self.peer.storage.s.close)
            ctx.on_exit(storage.s.close)
            self.refuser = self.server.storage
        else:
            self.peer = None
            storage = self.refuser = factory()
            ctx.on_exit(storage.close)
        self.size = case['cache']
        self.connection = Connection(
            storage, cache_size=self.size, root_class=C.Node)
        self.numbers = {}     # slot -> number
        self.kids = {}        # slot -> [slot]
        self.committed = None # numbers, kids
        self.held = {}        # slot -> instance
        self.known = {}       # slot -> weak reference to the last instance
        self.used = {}        # slot -> serial of the last use
        self.oids = {0: int8_to_str(0)} # slot -> oid
        self.loaded = set()   # used, and not shrunk since
        self.changed = set()
        self.fresh = []       # new nodes, not committed
        self.stale = set()    # changed by the peer
        self.count = 0
        root = self.connection.get_root()
        # A graph to start with.
        root.n = 0
        root.kids = []
        self.numbers[0] = 0
        self.kids[0] = []
        self.changed.add(0)
        self.meet(0, root)
        self.held[0] = root
        for parent in case['graph']:
            self.op_new(parent)
        del root
        self.op_commit()
        if not case['hold']:
            self.op_dropall()

    # -- what the program sees

    def meet(self, slot, obj):
        """Every way to a node leads here."""
        old = self.known.get(slot)
        old = old and old()
        if old is not None:
            check(obj is old, 'another instance of node %s', slot)
        else:
            self.known[slot] = weakref.ref(obj)
            self.used.pop(slot, None)
        if slot in self.oids:
            expect_eq(obj._p_oid, self.oids[slot], 'oid of node %s' % slot)
        check(type(obj) is C.Node, 'class of node %s', slot)
        return obj

    def look(self, slot, obj):
        """Use the node."""
        self.used[slot] = self.connection.get_transaction_serial()
        if slot in self.oids:
            self.loaded.add(slot)
        if slot in self.stale:
            # What it shows depends on when this connection learns of it.
            obj.n
        else:
            expect_eq(obj.n, self.numbers[slot], 'number of node %s' % slot)
        expect_eq(len(obj.kids), len(self.kids[slot]),
                  'children of node %s' % slot)
        return obj

    def step(self, slot, obj, n):
        kids = self.kids[slot]
        self.look(slot, obj)
        i = n % len(kids)
        return kids[i], self.meet(kids[i], obj.kids[i])

    def slot_of(self, oid):
        for slot, value in self.oids.items():
            if value == oid:
                return slot
        raise Violation('an unknown oid %r' % oid)

    def reachable(self):
        seen = set([0])
        todo = [0]
        for slot in todo:
            for kid in self.kids[slot]:
                if kid not in seen:
                    seen.add(kid)
                    todo.append(kid)
        return seen

    def live(self):
        """Nodes that the cache has, and their status, without using them."""
        result = {}
        for slot, oid in self.oids.items():
            obj = self.connection.get_cache().get(oid)
            if obj is not None:
                self.meet(slot, obj)
                result[slot] = obj._p_is_ghost() and 'ghost' or (
                    obj._p_is_saved() and 'saved' or 'unsaved')
        return result

    def stored_slot(self, x):
        slots = sorted(self.oids)
        return slots[x % len(slots)]

    def held_slot(self, x, stored=False):
        slots = sorted(slot for slot in self.held
                       if not stored or slot in self.oids)
        return slots[x % len(slots)] if slots else None

    # -- operations

    def op_hold(self, how, x, path):
        slot = self.stored_slot(x)
        oid = self.oids[slot]
        connection = self.connection
        try:
            if how == 'get':
                obj = self.meet(slot, connection.get(oid))
            elif how == 'int':
                obj = self.meet(slot, connection[str_to_int8(oid)])
            elif how == 'instance':
                obj = self.meet(slot, connection.get_cache().get_instance(
                    oid, C.Node, connection))
            elif how == 'path':
                slot, obj = 0, self.meet(0, connection.get_root())
                for n in path:
                    if not self.kids[slot]:
                        break
                    slot, obj = self.step(slot, obj, n)
            elif how == 'cache':
                for obj in connection.get_cache():
                    if obj._p_oid == oid:
                        self.meet(slot, obj)
                        break
                else:
                    check(connection.get_cache().get(oid) is None,
                          'node %s is missing', slot)
                    return
            else:
                every = {}
                nodes = (connection.get_crawler(batch_size=1 + x % 7)
                         if how == 'crawl' else
                         gen_every_instance(connection, C.Node))
                for obj in nodes:
                    other = self.slot_of(obj._p_oid)
                    check(other not in every, 'node %s appears twice', other)
                    every[other] = self.meet(other, obj)
                    if how == 'crawl' and len(every) > len(path) * 3:
                        break
                slot = sorted(every)[x % len(every)]
                obj = every[slot]
                self.ctx.label(how)
        except ConflictError:
            self.conflict()
            return
        self.held[slot] = obj

    def op_tour(self, order, hold):
        """Use many nodes, one transaction each or all at once."""
        for x in order:
            slot = self.stored_slot(x)
            try:
                obj = self.meet(slot, self.connection.get(self.oids[slot]))
                self.look(slot, obj)
            except ConflictError:
                self.conflict()
                continue
            if hold:
                self.held[slot] = obj
            obj = None
            if x % 2 == 0 and not self.changed and not self.fresh:
                self.op_abort()

    def op_squeeze(self, clear, order, hold, end, size):
        """Use many nodes with a large cache, and make it small."""
        if clear:
            self.op_leave([])
        self.op_size(1000)
        self.op_tour(order, hold)
        if end:
            self.op_abort()
        self.op_size(size)
        self.op_shrink()

    def conflict(self):
        check(self.stale, 'a conflict without a reason')
        self.op_abort()

    def op_drop(self, x):
        slot = self.held_slot(x)
        if slot is not None:
            del self.held[slot]

    def op_dropall(self):
        self.held.clear()

    def op_collect(self):
        gc.collect()

    def op_read(self, x):
        slot = self.held_slot(x)
        if slot is not None:
            try:
                self.look(slot, self.held[slot])
            except ConflictError:
                self.conflict()

    def op_write(self, x):
        slot = self.held_slot(x)
        if slot is not None:
            try:
                self.look(slot, self.held[slot])
                if slot in self.stale:
                    return
                self.held[slot].n += 1
            except ConflictError:
                self.conflict()
                return
            self.numbers[slot] += 1
            if slot in self.oids:
                self.changed.add(slot)

    def op_new(self, x):
        """A new child of a node that is held."""
        slot = self.held_slot(x)
        if slot is None or len(self.numbers) > 60:
            return
        parent = self.held[slot]
        try:
            kids = self.look(slot, parent).kids
        except ConflictError:
            self.conflict()
            return
        if slot in self.stale:
            return
        self.count += 1
        new = self.count
        obj = C.Node()
        obj.n = new * 100
        obj.kids = []
        parent.kids = kids + [obj]
        self.numbers[new] = new * 100
        self.kids[new] = []
        self.kids[slot] = self.kids[slot] + [new]
        if slot in self.oids:
            self.changed.add(slot)
        self.fresh.append(new)
        self.known[new] = weakref.ref(obj)
        self.held[new] = obj

    def op_link(self, x, y):
        a = self.held_slot(x)
        b = self.held_slot(y)
        if a is None or a in self.stale:
            return
        try:
            kids = self.look(a, self.held[a]).kids
        except ConflictError:
            self.conflict()
            return
        self.held[a].kids = kids + [self.held[b]]
        self.kids[a] = self.kids[a] + [b]
        if a in self.oids:
            self.changed.add(a)

    def maybe_shrunk(self, count):
        """Something was shrunk, if there were more than there should be."""
        if count > self.size:
            live = self.live()
            self.loaded = set(slot for slot in self.loaded
                              if live.get(slot) == 'saved')

    def op_abort(self):
        count = self.connection.get_cache_count()
        self.loaded -= self.changed | self.stale
        self.connection.abort()
        self.maybe_shrunk(count)
        self.rollback()

    def rollback(self):
        self.numbers, self.kids = (dict(self.committed[0]),
                                   dict(self.committed[1]))
        for slot in self.fresh:
            self.held.pop(slot, None)
            self.known.pop(slot, None)
        self.fresh = []
        self.changed.clear()
        self.stale.clear()

    def op_commit(self, fail=False):
        fail = bool(fail and self.changed)
        stored = []
        count = self.connection.get_cache_count()
        reached = self.reachable()
        if fail:
            self.refuser.refuse = True
        try:
            self.connection.commit()
        except ConflictError:
            self.refuser.refuse = False
            check(self.changed, 'a conflict without a change')
            self.conflict()
            return
        except Exception as e:
            self.refuser.refuse = False
            check(fail, 'commit fails: %r', e)
            self.ctx.label('refused')
            if self.served: # The server has dropped this client.
                raise Lost
            self.statuses()
            return
        check(not fail, 'a refused commit succeeds')
        self.refuser.refuse = False
        if self.changed:
            # New nodes that nothing leads to stay with the program.
            stored = [slot for slot in self.fresh if slot in reached or
                      self.leads(slot)]
            for slot in stored:
                obj = self.known[slot]()
                if obj is None: # has been dropped, and stored on the way
                    obj = self.lookup(slot)
                check(obj._p_oid is not None, 'node %s has no oid', slot)
                self.oids[slot] = obj._p_oid
                self.known[slot] = weakref.ref(obj)
                self.used.pop(slot, None)
        self.fresh = [s for s in self.fresh if s not in self.oids]
        check(len(set(self.oids.values())) == len(self.oids), 'an oid is '
              'used twice')
        for slot in self.fresh:
            self.held.pop(slot, None)
            del self.numbers[slot], self.kids[slot]
            self.known.pop(slot, None)
        self.fresh = []
        self.changed.clear()
        self.committed = (dict(self.numbers), dict(self.kids))
        self.loaded -= self.stale
        self.stale.clear()
        self.maybe_shrunk(count + len(stored))

    def leads(self, slot):
        """Is this new node stored because of a changed one?"""
        seen = set(self.changed)
        todo = list(self.changed)
        for other in todo:
            for kid in self.kids[other]:
                if kid not in seen and kid not in self.oids:
                    seen.add(kid)
                    todo.append(kid)
        return slot in seen

    def lookup(self, slot):
        """An instance of a node that was just stored, by its parent."""
        for other, kids in self.kids.items():
            if slot in kids and (other in self.oids or other in self.fresh):
                obj = self.known[other]() if other in self.known else None
                if obj is None and other in self.oids:
                    obj = self.connection.get(self.oids[other])
                if obj is None:
                    continue
                return obj.kids[kids.index(slot)]
        raise Violation('node %s is lost' % slot)

    def op_size(self, size):
        self.connection.set_cache_size(size)
        self.size = size
        expect_eq(self.connection.get_cache_size(), size, 'cache size')

    def op_none(self):
        """Empty the cache."""
        self.op_leave([])

    def op_peer(self, x):
        """Another client changes a node."""
        if self.peer is None:
            return
        self.peer.abort()
        slot = self.stored_slot(x)
        if slot in self.changed:
            return
        obj = self.peer.get(self.oids[slot])
        obj.n += 1
        number = obj.n
        self.peer.commit()
        self.stale.add(slot)
        self.committed[0][slot] = number
        self.numbers[slot] = number
        self.ctx.label('peer')

    def statuses(self):
        """What was changed is still changed, and the new ones are new."""
        for slot in self.changed:
            obj = self.known[slot]()
            check(obj is not None, 'changed node %s is lost', slot)
            check(obj._p_is_unsaved(), 'changed node %s is not changed', slot)

    # -- shrinking

    def op_shrink(self):
        before = self.live()
        connection = self.connection
        count = connection.get_cache_count()
        expect_eq(count, len(before), 'number of cached objects')
        serial = connection.get_transaction_serial()
        eligible = set(slot for slot, status in before.items()
                       if status == 'saved' and self.used.get(slot) != serial)
        connection.shrink_cache()
        after = self.live()
        self.maybe_shrunk(count)
        done = set(slot for slot in eligible if after.get(slot) != 'saved')
        for slot, status in before.items():
            if slot in eligible:
                check(after.get(slot) in ('saved', 'ghost', None),
                      'node %s becomes %s', slot, after.get(slot))
            elif status == 'unsaved' or (status == 'saved'):
                expect_eq(after.get(slot), status, 'status of node %s, which '
                          'is %s' % (slot, 'changed' if status == 'unsaved'
                                     else 'in use'))
            else:
                check(after.get(slot) in ('ghost', None), 'ghost %s is '
                      'loaded', slot)
                if after.get(slot) is None:
                    check(slot not in self.held, 'node %s is lost', slot)
        check(set(after) <= set(before), 'nodes appear')
        if count <= self.size:
            expect_eq(after, before, 'the cache below its size')
            return
        if eligible:
            self.ctx.label('shrunk')
        if done:
            self.ctx.label('ghosted')
        # Those unused for longer come first, when all are considered.
        if count >= 2 * self.size:
            self.ctx.label('all-considered')
            left = [self.used[slot] for slot in eligible - done
                    if slot in self.used]
            for slot in done:
                if slot in self.used and left:
                    check(self.used[slot] <= min(left), 'node %s is a ghost '
                          'now, and one that was used before it is not', slot)
                    self.ctx.label('oldest-first')
        # No more than needed: the last one takes its descendants with it
        # (and the one looked at last may go, too).
        if done:
            most = max(self.weight(slot, before) for slot in done)
            if self.size - most - 1 > 0:
                self.ctx.label('not-too-many')
            check(len(after) >= min(count, self.size - most - 1), 'too many '
                  'nodes leave: %d, size %d', len(after), self.size)

    def weight(self, slot, live):
        seen = set([slot])
        todo = [slot]
        for other in todo:
            if live.get(other) != 'ghost':
                for kid in self.kids[other]:
                    if kid in live and kid not in seen:
                        seen.add(kid)
                        todo.append(kid)
        return len(seen)

    def op_settle(self, complete=False):
        """Repeated shrinking reaches the target, or as far as possible."""
        connection = self.connection
        serial = connection.get_transaction_serial()
        live = self.live()
        for i in range(3 * len(live) + 10):
            if len(live) <= self.size:
                break
            connection.shrink_cache()
            live = self.live()
            self.maybe_shrunk(self.size + 1)
            left = [slot for slot, status in live.items() if
                    status == 'saved' and self.used.get(slot) != serial]
            if not left and not complete:
                break
        else:
            if not left:
                return live
            raise Violation('shrinking leaves %d objects with size %d, and '
                            'does not ghost %s' % (
                                len(live), self.size, left))
        return live

    def op_leave(self, keep):
        """Dropped objects leave the cache."""
        self.op_abort()
        for slot in list(self.held):
            if slot not in keep:
                del self.held[slot]
        size = self.size
        self.op_size(1)
        self.op_settle(complete=True)
        self.op_size(size)
        gc.collect()
        live = self.live()
        expect_eq(self.connection.get_cache_count(), len(live),
                  'number of cached objects')
        if len(live) > 1:
            expect_eq(sorted(live), sorted(set(self.held) | set([0])),
                      'what is cached')
            check(set(live.values()) == set(['ghost']), 'states are kept')
        else:
            expect_eq(sorted(live), [0], 'what is cached')
        self.ctx.label('left')
        # The cache gave up its references.
        for slot, ref in self.known.items():
            if slot not in live:
                check(ref() is None, 'node %s is not in the cache, but '
                      'alive', slot)

    # -- invariants

    def verify(self):
        for slot, obj in self.held.items():
            if slot in self.oids:
                oid = self.oids[slot]
                check(obj._p_oid == oid, 'oid of node %s', slot)
                check(obj._p_connection is self.connection,
                      'connection of node %s', slot)
                check(self.connection.get_cache().get(oid) is obj,
                      'node %s is not in the cache', slot)
                check(self.connection.get(oid) is obj,
                      'get(node %s) is another instance', slot)
            else:
                check(obj._p_oid is None, 'node %s has an oid', slot)
        self.statuses()
        live = self.live()
        expect_eq(self.connection.get_cache_count(), len(live),
                  'number of cached objects')
        for slot in self.loaded - self.stale:
            check(live.get(slot) in ('saved', 'unsaved'), 'node %s was used, '
                  'and is %s without shrinking', slot, live.get(slot))
        serial = self.connection.get_transaction_serial()
        for slot, when in self.used.items():
            if when == serial and slot in self.oids and \
                    slot not in self.stale:
                check(live.get(slot) in ('saved', 'unsaved'),
                      'node %s, in use, is %s', slot, live.get(slot))


class Lost(Exception):
    """The server has dropped the client."""


def run_identity(case, ctx):
    world = World(case, ctx)
    world.verify()
    try:
        for op in case['ops']:
            getattr(world, 'op_' + op[0])(*op[1:])
            world.verify()
        world.op_leave(case['keep'])
        world.verify()
        for slot in sorted(world.oids):
            world.op_hold('get', sorted(world.oids).index(slot), [])
            if slot in world.held:
                world.look(slot, world.held[slot])
    except Lost:
        return
    ctx.label('served' if world.served else 'storage-' + world.kind)
    ctx.mark('shrunk' in ctx.labels or 'peer' in ctx.labels)


def identity_strategy():
    n = gen.small(40)
    hold = gen.op('hold', st.sampled_from(
        ['get', 'get', 'int', 'instance', 'path', 'path', 'path', 'cache',
         'crawl', 'every']), n, st.lists(gen.small(6), max_size=8))
    tour = gen.op('tour', gen.sized(
        st.lists(n, max_size=4), st.lists(n, min_size=5, max_size=30)),
        st.booleans())
    squeeze = gen.op(
        'squeeze', st.booleans(), st.lists(n, min_size=5, max_size=30),
        st.sampled_from([False, False, True]), st.booleans(),
        st.sampled_from([1, 2, 3, 5, 7, 10]))
    choices = [(6, hold), (4, tour), (4, squeeze), (3, gen.op('drop', n)), (1, gen.op('dropall')),
               (1, gen.op('collect')), (4, gen.op('read', n)),
               (3, gen.op('write', n)), (2, gen.op('new', n)),
               (1, gen.op('link', n, n)), (2, gen.op('abort')),
               (2, gen.op('commit', st.sampled_from([0, 0, 0, 0, 1]))),
               (4, gen.op('shrink')), (1, gen.op('settle')),
               (1, gen.op('size', st.sampled_from([1, 2, 3, 5, 10, 1000]))),
               (2, gen.op('peer', n)), (1, gen.op('none')),
               (1, gen.op('leave', st.lists(
                   gen.small(20), max_size=4)))]
    return gen.record(
        storage=st.sampled_from(['memory', 'file', 'file2', 'sqlite']),
        served=st.sampled_from([False, True]),
        cache=st.sampled_from([1, 2, 3, 5, 5, 8, 12, 20, 1000]),
        graph=gen.sized(st.lists(gen.small(30), max_size=6),
                        st.lists(gen.small(30), min_size=6, max_size=25),
                        st.lists(st.just(0), min_size=6, max_size=25)),
        hold=st.booleans(), keep=st.lists(gen.small(20), max_size=5),
        ops=gen.sized(gen.ops(*choices, max_size=8),
                      gen.ops(*choices, min_size=8, max_size=40)))


# -- a long run over many objects

def run_bounded(case, ctx):
    storage = open_storage(case['storage'], ctx.path('db'))
    ctx.on_exit(storage.close)
    size = case['cache']
    n = case['count']
    connection = Connection(storage, root_class=C.Node)
    root = connection.get_root()
    shape = case['shape']
    if shape == 'chain':
        for i in range(n):
            obj = C.Node()
            obj.n, obj.kids = i, []
            if i:
                obj.kids = [last]
            last = obj
        root.kids = [last]
        last = obj = None
    else: # a list of lists
        root.kids = []
        for i in range(0, n, 10):
            group = C.Node()
            group.kids = []
            for j in range(i, min(i + 10, n)):
                obj = C.Node()
                obj.n, obj.kids = j, []
                group.kids.append(obj)
            root.kids.append(group)
        group = obj = None
    root = None
    connection.commit()
    connection.set_cache_size(size)
    every = case['every']
    used = worst = 0
    total = 0

    def pause():
        if case['how'] == 'abort':
            connection.abort()
        else:
            connection.commit()
        return connection.get_cache_count()
    top = 0

    def nodes():
        root = connection.get_root()
        if shape == 'chain':
            if root.kids:
                obj = root.kids[0]
                while True:
                    yield obj
                    if not obj.kids:
                        break
                    obj = obj.kids[0]
        else:
            for i in range(len(root.kids)):
                group = root.kids[i]
                for j in range(len(group.kids)):
                    yield group.kids[j]
    for turn in range(2):
        seen = 0
        for obj in nodes():
            seen += 1
            if case['write'] and seen % case['write'] == 0:
                obj.n = obj.n
            else:
                obj.n
            total += 1
            obj = None
            if total % every == 0:
                top = max(top, pause())
        expect_eq(seen, n, 'number of objects')
    # Those used in one transaction, their children, and the old ones.
    groups = n // 10 + 1 if shape == 'groups' else 1
    limit = 3 * (size + every * 2 + 12) + groups
    check(top <= limit, '%d of %d objects are cached, with size %d and %d '
          'used in each transaction', top, n, size, every)
    for i in range(n + 3):
        count = pause()
        if count <= size:
            break
    gc.collect()
    check(connection.get_cache_count() <= size, 'the cache holds %d objects, '
          'with size %d, after all', connection.get_cache_count(), size)
    ctx.label(shape)
    ctx.mark(n > 3 * size)


def bounded_strategy():
    return gen.record(
        storage=st.sampled_from(['memory', 'file', 'file2', 'sqlite']),
        shape=st.sampled_from(['chain', 'groups']),
        cache=st.sampled_from([1, 2, 5, 10, 30, 100]),
        count=st.sampled_from([20, 50, 150, 300]),
        every=st.sampled_from([1, 2, 3, 7, 10, 20]),
        write=st.sampled_from([0, 0, 1, 2, 5]),
        how=st.sampled_from(['abort', 'commit']))


FACETS = [
    Facet('identity', identity_strategy, run_identity, quick=4000,
          thorough=150000,
          rule='histories of finding nodes in every way, dropping them, '
          'collections, writes, commits, aborts, shrinking, other cache '
          'sizes and changes by another client; non-trivial when the cache '
          'was shrunk with something to shrink or another client wrote'),
    Facet('bounded', bounded_strategy, run_bounded, quick=300, thorough=3000,
          rule='walks over many objects with a small cache; non-trivial when '
          'there are three times as many objects as the cache is meant to '
          'hold'),
]
