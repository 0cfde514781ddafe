"""Several clients of one server, driven by one generated schedule.

Every write carries a fresh stamp, so a value that is read identifies the
commit that made it.  The model is the list of committed versions of every
object; each transaction knows the interval of commits that all of its reads
are consistent with.
"""
import gc

from hypothesis import strategies as st

from . import classes as C
from . import gen, graph
from .core import HarnessError, Violation, check, expect_eq
from .graph import KINDS, Ref, reachable
from .storages import open_storage, Gated, Server
from durus.client_storage import ClientStorage
from durus.connection import Connection, ROOT_OID
from durus.error import ConflictError, ReadConflictError, WriteConflictError

# kinds used here, and the field of the stamp
STAMPS = {0: 'stamp', 7: 'stamp', 1: 'f3', 12: 'stamp'}
CHOICE = [0, 7, 1, 12]
CONFLICTS = (ConflictError, AssertionError)
FOREVER = 10 ** 9


class Hooked(ClientStorage):
    """Calls back between the requests that one operation consists of."""

    hook = None # (point, function)
    syncs = 0

    def _point(self, name):
        if self.hook is not None and self.hook[0] == name:
            function = self.hook[1]
            self.hook = None
            function()

    def load(self, oid):
        self._point('before_load')
        return ClientStorage.load(self, oid)

    def sync(self):
        self._point('before_sync')
        result = ClientStorage.sync(self)
        self.synced_at = self.world.k
        self.syncs += 1
        self._point('after_sync')
        return result

    def store(self, oid, record):
        self._point('before_store')
        ClientStorage.store(self, oid, record)

    def new_oid(self):
        self._point('before_new_oid')
        return ClientStorage.new_oid(self)

    def end(self, handle_invalidations=None):
        self._point('before_end')
        ClientStorage.end(self, handle_invalidations)


class Backend(ClientStorage):
    """The storage of a second server, which others change, too.  It refuses
    a commit when there are changes that this server has not heard of."""

    world = None

    def new_oid(self):
        oid = ClientStorage.new_oid(self)
        del self.transaction_new_oids[:] # They belong to the clients.
        return oid

    def end(self, handle_invalidations=None):
        self.world.between()

        def handle(oids):
            handle_invalidations(oids)
            self.world.refused = True
            raise WriteConflictError(oids)
        ClientStorage.end(self, handle)


POINTS = ['before_load', 'before_sync', 'after_sync', 'before_store',
          'before_new_oid', 'before_end']


class Client(object):

    def __init__(self, world, name, cache):
        self.w = world
        self.name = name
        self.outside = world.middle is not None and name not in (1, 2)
        server = world.server
        if world.middle is not None and not self.outside:
            server = world.middle
        self.storage = Hooked(address=server.path)
        world.ctx.on_exit(self.storage.s.close)
        if server is world.middle:
            # which may not have heard of changes of the root
            self.storage.world = world
            self.storage.sync()
        self.storage.oid_pool_size = world.case.get('pool', 32)
        self.storage.world = world
        self.storage.synced_at = world.k
        self.connection = Connection(self.storage, cache_size=cache)
        self.handles = {}   # i -> instance
        self.fresh = {}     # i -> instance of an unsaved object
        self.state = {}     # i -> state of an unsaved object
        self.crawler = None
        self.busy = False
        self.begin()

    def begin(self):
        """A transaction starts, just after synchronising."""
        self.lo, self.hi = self.storage.synced_at, FOREVER
        self.accessed = {}  # i -> stamp seen
        self.local = {}     # i -> state written
        self.log = []
        self.failed = False

    def __repr__(self):
        return 'client %s' % self.name


class World(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.kind_name = case['storage']
        self.path = ctx.path('db')
        self.k = 0              # number of commits
        self.kinds = [7]
        self.versions = [[(0, {})]] # of each object: [(commit, state)]
        self.oid = {}
        self.by_oid = {}
        self.removed = set()
        self.stamp = 0
        self.stamp_of = {}      # stamp -> (i, commit)
        self.pack = None
        self.injecting = 0
        self.server = Server(
            lambda: open_storage(self.kind_name, self.path, (Gated,)),
            ctx.path('sock'))
        ctx.on_exit(self.server.stop)
        self.middle = None
        self.window = None      # what happens while the middle one commits
        self.refused = False
        self.trouble = None
        self.clients = []
        self.cache = case.get('cache', 100)
        first = Client(self, 0, self.cache)
        self.clients.append(first)
        self.bind(0, first.connection.root._p_oid)
        # the first objects
        used = set()
        for number, k in enumerate(case['kinds']):
            i = self.make(first, k)
            parents = case.get('parents') or [0]
            p = parents[number % len(parents)] % (number + 1)
            field = KINDS[self.kinds[p]].field(number % 3)
            if p == 0 or (p, field) in used:
                p, field = 0, 'k%d' % (number % 8)
            used.add((p, field))
            self.write(first, p, field, i)
        self.commit(first)
        if case.get('middle'):
            self.middle = Server(self.open_middle, ctx.path('sock2'))
            ctx.on_exit(self.middle.stop)
        for number in range(1, case['clients']):
            self.clients.append(Client(self, number, self.cache))

    def open_middle(self):
        storage = Backend(address=self.server.path)
        storage.world = self
        return storage

    def between(self):
        """In the thread of the second server, which is about to commit."""
        self.refused = False
        window, self.window = self.window, None
        if window is None:
            return
        try:
            for op in window:
                if len(op) > 1 and op[0] not in ('step', 'finish') and \
                        self.clients[op[1] % len(self.clients)].outside:
                    self.op(op)
                    self.ctx.label('in-window')
        except Exception as e:
            self.trouble = e

    # -- model

    def bind(self, i, oid):
        check(oid is not None, 'object %d has no oid', i)
        if i in self.oid:
            expect_eq(oid, self.oid[i], 'oid of object %d' % i)
            return
        other = self.by_oid.get(oid)
        check(other is None or other in self.removed, 'the oid %r of the new object %d belongs to '
              'object %r', oid, i, other)
        self.oid[i] = oid
        self.by_oid[oid] = i

    def latest(self, i):
        return self.versions[i][-1]

    def current(self, i):
        return self.versions[i][-1][1]

    def live(self, start=(0,)):
        return reachable(start, lambda i: self.kinds[i], self.current)

    def validity(self, i, stamp):
        """The interval of commits at which object i had this stamp."""
        for number, (k, state) in enumerate(self.versions[i]):
            if state.get(STAMPS[self.kinds[i]]) == stamp:
                if number + 1 < len(self.versions[i]):
                    return k, self.versions[i][number + 1][0] - 1, state
                return k, FOREVER, state
        raise Violation('object %d has a value that was never committed: '
                        'stamp %r' % (i, stamp))

    def token(self):
        self.stamp += 1
        return self.stamp

    def make(self, client, k):
        k = CHOICE[k % len(CHOICE)]
        i = len(self.kinds)
        self.kinds.append(k)
        self.versions.append([])
        obj = KINDS[k].make()
        client.fresh[i] = obj
        client.state[i] = {}
        self.stamp += 1
        KINDS[k].set(obj, STAMPS[k], self.stamp)
        client.state[i][STAMPS[k]] = self.stamp
        return i

    def known(self, client, i):
        """Can this client use object i?"""
        i %= len(self.kinds)
        if i in client.fresh:
            return i
        if i in self.oid and (i not in self.removed or
                              i in client.handles):
            return i
        return 0

    def name_of(self, client):
        def name(value):
            if not isinstance(value, C.PersistentObject):
                return None
            for i, obj in client.fresh.items():
                if obj is value:
                    return i
            for i, obj in client.handles.items():
                if obj is value:
                    return i
            i = self.by_oid.get(value._p_oid)
            if i is None:
                return -1
            return i
        return name

    # -- access

    def handle(self, client, i):
        """May raise a conflict."""
        if i in client.fresh:
            return client.fresh[i]
        obj = client.handles.get(i)
        if obj is None:
            try:
                obj = client.connection.get(self.oid[i])
            except CONFLICTS as e:
                self.conflict(client, e, i)
                raise
            if obj is None:
                self.probe()
                check(i in self.removed, 'object %d is not found', i)
                raise ReadConflictError([self.oid[i]])
            check(type(obj) is KINDS[self.kinds[i]].cls, 'object %d has '
                  'class %r', i, type(obj))
            client.handles[i] = obj
        return obj

    def conflict(self, client, e, loading=None):
        """Is this conflict error justified?"""
        if client.failed:
            return
        client.failed = True
        check(isinstance(e, ConflictError), 'unexpected %r', e)
        self.probe()
        stale = self.stale(client)
        if loading is not None and (
                loading in self.removed or
                # changed again, just after the connection synchronised
                client.storage.syncs > client.syncs and
                self.latest(loading)[0] > client.storage.synced_at):
            stale.append(loading)
        if loading is None and self.refused and not client.outside:
            self.ctx.label('refused')
            return
        check(stale, '%s gets %s, but nothing that it accessed was changed '
              'or removed since', client, type(e).__name__)
        self.named(e, stale, loading)
        self.ctx.label('read-conflict' if loading is not None
                       else 'write-conflict')

    def named(self, e, stale, loading):
        """The error tells which objects it is about."""
        text = str(e)
        oids = getattr(e, 'oids', None)
        if oids is None:
            return
        check(len(oids) > 0, 'a conflict that names no object')
        first = int.from_bytes(oids[0], 'big')
        check(str(first) in text, 'the error text %r does not name object %d',
              text, first)
        if loading is None:
            suspects = set(self.oid[i] for i in stale)
            check(set(oids) & suspects, 'a conflict that names none of the '
                  'objects that were accessed and changed: %r', oids)

    def stale(self, client):
        result = []
        for i, stamp in client.accessed.items():
            if i in self.removed:
                result.append(i)
            elif self.current(i).get(STAMPS[self.kinds[i]]) != stamp:
                result.append(i)
        return result

    def observe(self, client, i):
        """Touch and read object i; returns its state, in model terms.
        Raises a conflict when the read does."""
        kind = KINDS[self.kinds[i]]
        obj = self.handle(client, i)
        if i in client.fresh:
            expect_eq(graph.canon_state(self.kinds[i], kind.read(obj),
                                        self.name_of(client)),
                      graph.canon_state(self.kinds[i], client.state[i],
                                        graph.model_name),
                      'new object %d of %s' % (i, client))
            return client.state[i]
        try:
            real = kind.read(obj)
        except CONFLICTS as e:
            self.conflict(client, e, i)
            raise
        real = dict(real)
        if i in client.local:
            state = client.local[i]
        else:
            stamp = real.get(STAMPS[self.kinds[i]])
            lo, hi, state = self.validity(i, stamp)
            if i in client.accessed:
                check(client.accessed[i] == stamp or client.failed, 'object %d changes from '
                      'stamp %s to %s within a transaction of %s', i,
                      client.accessed[i], stamp, client)
            client.accessed[i] = stamp
            client.lo = max(client.lo, lo)
            client.hi = min(client.hi, hi)
            check(client.failed or client.lo <= client.hi, '%s mixes committed states: what '
                  'it read was never current at the same time (object %d, '
                  'valid at commits %s..%s; needed %s..%s)', client, i, lo,
                  hi, client.lo, client.hi)
        got = graph.canon_state(self.kinds[i], real, self.name_of(client))
        want = graph.canon_state(self.kinds[i], state, graph.model_name)
        if got != want and client.failed and self.removed & set(
                graph.state_refs(self.kinds[i], state)):
            # It was told of the removal, and the id may denote another
            # object by now.
            return state
        check(got == want, 'object %d read by %s: got %s, expected %s', i,
              client, got, want)
        return state

    def write(self, client, i, field, j=None):
        """Set a field (to a reference) and the stamp."""
        if j is not None and j not in client.fresh:
            self.observe(client, j)
        state = self.observe(client, i)
        kind = KINDS[self.kinds[i]]
        obj = self.handle(client, i)
        if i in client.fresh:
            mine = client.state[i]
        else:
            mine = client.local.setdefault(i, dict(state))
        token = self.token()
        target = token if j is None else self.handle(client, j)
        stamp = STAMPS[self.kinds[i]]
        kind.set(obj, field, target)
        mine[field] = token if j is None else Ref(j)
        kind.set(obj, stamp, token)
        mine[stamp] = token
        client.log.append((i, field, j))

    def blind(self, client, i, field):
        """Write an attribute without having read anything."""
        if self.kinds[i] == 7 or i in client.fresh or i in client.local:
            return
        kind = KINDS[self.kinds[i]]
        stamp = STAMPS[self.kinds[i]]
        obj = self.handle(client, i)
        token = self.token()
        try:
            kind.set(obj, field, token)
        except CONFLICTS as e:
            self.conflict(client, e, i)
            raise
        # Look at what it was based on, behind the back of the connection.
        base = object.__getattribute__(obj, stamp)
        lo, hi, state = self.validity(i, base)
        if i in client.accessed:
            check(client.failed or base == client.accessed[i],
                  'base of a write to object %d changed', i)
        client.accessed[i] = base
        client.lo, client.hi = max(client.lo, lo), min(client.hi, hi)
        check(client.failed or client.lo <= client.hi,
              '%s mixes committed states by writing '
              'to object %d', client, i)
        client.local[i] = dict(state)
        client.local[i][field] = token
        kind.set(obj, stamp, token)
        client.local[i][stamp] = token
        client.log.append((i, field, None))

    # -- ends of transactions

    def to_store(self, client):
        result = set(client.local)
        todo = [(i, client.local[i]) for i in client.local]
        while todo:
            i, state = todo.pop()
            for j in graph.state_refs(self.kinds[i], state):
                if j in client.fresh and j not in result:
                    result.add(j)
                    todo.append((j, client.state[j]))
        return result

    def synced(self, client):
        """The client has just synchronised: objects that were removed are
        not usable any more."""
        for i in list(client.handles):
            if i in self.removed:
                del client.handles[i]
        # new objects that lead to removed ones
        more = True
        while more:
            more = False
            for i in list(client.fresh):
                for j in graph.state_refs(self.kinds[i], client.state[i]):
                    if j in self.removed or (
                            j not in self.oid and j not in client.fresh):
                        del client.fresh[i], client.state[i]
                        more = True
                        break
        client.begin()

    def commit(self, client):
        """Returns True when the commit succeeded."""
        failed = client.failed
        try:
            client.connection.commit()
        except CONFLICTS as e:
            stale = self.stale(client)
            if not failed:
                self.conflict(client, e)
            client.failed = True
            for i, obj in client.fresh.items():
                check(obj._p_oid is None and obj._p_is_unsaved() and
                      obj._p_connection is None, 'new object %d of %s is not '
                      'unsaved after a conflict', i, client)
            return False
        if not client.local:
            # A transaction that only read.
            self.synced(client)
            return True
        stale = self.stale(client)
        check(not stale, '%s commits although objects %s, which it accessed, '
              'were changed or removed since', client, stale)
        check(client.lo <= self.k <= client.hi, '%s commits, but what it '
              'read is not current', client)
        stored = self.to_store(client)
        self.k += 1
        for i in stored:
            if i in client.fresh:
                obj = client.fresh.pop(i)
                state = client.state.pop(i)
                self.bind(i, obj._p_oid)
                client.handles[i] = obj
            else:
                state = client.local[i]
            self.versions[i].append((self.k, dict(state)))
            if self.pack is not None:
                self.pack['stored'].add(i)
        client.storage.synced_at = self.k
        if self.pack is not None:
            # It may have seen these, even if they are unlinked later.
            self.pack['reachable'] |= self.live(self.pack['stored'])
            self.ctx.label('commit-during-pack')
        self.synced(client)
        return True

    def abort(self, client):
        client.connection.abort()
        self.synced(client)

    def redo(self, client):
        """Abort, do the same work again: nobody interferes now."""
        log = list(client.log)
        self.probe()
        self.abort(client)
        for i, field, j in log:
            if self.usable(client, i) and (j is None or
                                           self.usable(client, j)):
                self.write(client, i, field, j)
        if not self.injecting:
            check(self.commit(client), 'the same work fails again for %s, '
                  'although nobody interferes', client)
            self.ctx.label('redone')

    def usable(self, client, i):
        return i in client.fresh or (i in self.oid and
                                     i not in self.removed)

    # -- packing

    def start_pack(self, client):
        """Request a pack; the gate decides when it advances."""
        client.storage.pack()
        if self.pack is None:
            gate = getattr(self.server.storage, 'gate', None)
            if gate is not None and gate.active:
                self.pack = dict(reachable=self.live(), stored=set())
                self.ctx.label('pack-started')

    def step_pack(self, n):
        if self.pack is None:
            return
        gate = self.server.storage.gate
        if not gate.grant(n, self.server.alive):
            self.pack_ended()

    def finish_pack(self):
        if self.pack is not None:
            self.server.storage.gate.finish(self.server.alive)
            self.pack_ended()

    def pack_ended(self):
        self.server.check()
        pack = self.pack
        self.probe()
        self.pack = None
        maybe = self.live() | pack['reachable'] | self.live(pack['stored'])
        kept = set(self.oid) - self.removed - maybe
        check(not kept, 'the pack kept objects %s, which were unreachable '
              'throughout', sorted(kept))
        self.ctx.label('pack-ended')

    def probe(self):
        """Which objects has the pack removed by now?"""
        if self.pack is None:
            return
        # A new client is told of no invalidations.
        storage = self.server.client()
        live = self.live()
        for i in sorted(self.oid):
            if i not in self.removed:
                try:
                    record = storage.load(self.oid[i])
                except KeyError:
                    check(i not in live, 'the pack removed object %d, which '
                          'is reachable', i)
                    self.removed.add(i)
                    self.ctx.label('pack-removed')
        storage.close()

    # -- operations of the schedule

    def op(self, op):
        name = op[0]
        if name == 'step':
            self.step_pack(op[1])
            return
        if name == 'finish':
            self.finish_pack()
            return
        client = self.clients[op[1] % len(self.clients)]
        if client.busy:
            return
        client.busy = True
        client.syncs = client.storage.syncs
        try:
            getattr(self, 'do_' + name)(client, *op[2:])
        except CONFLICTS as e:
            if isinstance(e, AssertionError) and not client.failed:
                raise
            if self.case.get('abort_at_once'):
                self.abort(client)
        finally:
            client.busy = False

    def do_read(self, client, i):
        self.observe(client, self.known(client, i))

    def do_glance(self, client, i):
        """Read something without keeping it."""
        i = self.known(client, i)
        self.observe(client, i)
        client.handles.pop(i, None)

    def do_write(self, client, i, n, j):
        i = self.known(client, i)
        j = self.known(client, j) if j is not None else None
        self.write(client, i, KINDS[self.kinds[i]].field(n % 3), j)

    def do_blind(self, client, i, n):
        i = self.known(client, i)
        self.blind(client, i, KINDS[self.kinds[i]].field(n % 3))

    def do_unlink(self, client, i, n):
        i = self.known(client, i)
        self.write(client, i, KINDS[self.kinds[i]].field(n % 3), None)

    def do_new(self, client, k, i, n):
        """A new object, referred to by object i."""
        j = self.make(client, k)
        i = self.known(client, i)
        self.write(client, i, KINDS[self.kinds[i]].field(n % 3), j)

    def do_commit(self, client):
        if not self.commit(client) and self.case.get('abort_at_once'):
            self.abort(client)

    def do_abort(self, client):
        self.abort(client)

    def do_redo(self, client):
        self.redo(client)

    def do_ghostall(self, client):
        for obj in list(client.connection.cache):
            if obj is not None and obj._p_is_saved():
                obj._p_set_status_ghost()

    def do_drop(self, client):
        client.handles.clear()

    def do_shrink(self, client):
        client.connection.shrink_cache()

    def do_gc(self, client):
        gc.collect()

    def do_pack(self, client):
        self.start_pack(client)

    def do_reconnect(self, client):
        """The client vanishes; another takes its place."""
        number = self.clients.index(client)
        client.storage.s.close()
        self.clients[number] = Client(self, client.name, self.cache)

    def do_crawl(self, client, n):
        """Advance a crawl over the whole graph."""
        if client.crawler is None:
            client.crawler = client.connection.get_crawler(
                batch_size=1 + n % 4)
        for x in range(n):
            try:
                next(client.crawler)
            except StopIteration:
                client.crawler = None
                break
            except CONFLICTS:
                client.crawler = None
                client.failed = True
                break
            except KeyError:
                # An object that it had seen a reference to is gone.
                self.probe()
                check(self.removed, 'a crawl does not find an object')
                client.crawler = None
                break

    def do_inject(self, client, point, other, inner):
        """Run an operation of another client in the middle of this one's."""
        def run():
            self.ctx.label('injected-' + point)
            for op in other:
                self.op(op)
        client.storage.hook = (point, run)
        self.injecting += 1
        try:
            getattr(self, 'do_' + inner[0])(client, *inner[2:])
        finally:
            self.injecting -= 1
            client.storage.hook = None

    def do_window(self, client, other):
        """Commit, and let clients of the first server do something while
        the second one is committing."""
        if client.outside or self.injecting:
            return
        self.window = other
        self.injecting += 1
        try:
            self.do_commit(client)
        finally:
            self.injecting -= 1
            self.window = None
            if self.trouble is not None:
                raise self.trouble

    def run(self, ops):
        for op in ops:
            self.op(op)
            self.server.check()
            if self.middle is not None:
                self.middle.check()

    def final(self):
        self.finish_pack()
        # what a new client finds
        storage = self.server.client()
        connection = Connection(storage)
        live = self.live()
        found = graph.compare_graph(
            connection.root, 7, self.kinds,
            dict((i, self.current(i)) for i in live), self.oid,
            'at the end')
        expect_eq(set(found), live, 'reachable objects')
        # everybody agrees after an abort
        for client in self.clients:
            self.abort(client)
            for i in sorted(live):
                self.observe(client, i)
            check(client.lo <= self.k <= client.hi, '%s is not current after '
                  'abort', client)
        storage.close()
        if self.middle is not None:
            self.middle.stop()
        self.server.stop()
        storage = open_storage(self.kind_name, self.path)
        self.ctx.on_exit(storage.close)
        connection = Connection(storage)
        graph.compare_graph(
            connection.root, 7, self.kinds,
            dict((i, self.current(i)) for i in live), self.oid,
            'after reopening')


N = gen.small(9)
CL = gen.small(3)


def basic_ops(cl=CL):
    return [
        (4, gen.op('read', cl, N)), (2, gen.op('glance', cl, N)),
        (5, gen.op('write', cl, N, gen.small(2), st.one_of(st.none(), N))),
        (2, gen.op('blind', cl, N, gen.small(2))),
        (2, gen.op('unlink', cl, st.one_of(st.just(0), N), gen.small(2))),
        (2, gen.op('new', cl, gen.small(3), st.one_of(st.just(0), N),
                   gen.small(2))),
        (6, gen.op('commit', cl)), (2, gen.op('abort', cl)),
        (1, gen.op('redo', cl)), (1, gen.op('ghostall', cl)),
        (1, gen.op('drop', cl)), (1, gen.op('shrink', cl)),
        (1, gen.op('crawl', cl, gen.small(6))),
    ]


def pack_ops():
    return [(1, gen.op('pack', CL)), (3, gen.op('step', gen.small(6))),
            (1, gen.op('finish'))]


def inject(ops):
    flat = [s for w, s in ops for x in range(w)]
    one = st.integers(0, len(flat) - 1).flatmap(lambda i: flat[i])
    return gen.op('inject', CL, st.sampled_from(POINTS),
                  st.lists(one, min_size=1, max_size=4),
                  one.filter(lambda op: op[0] not in ('step', 'finish')))


def window(ops):
    flat = [s for w, s in ops for x in range(w)]
    one = st.integers(0, len(flat) - 1).flatmap(lambda i: flat[i])
    return gen.op('window', CL, st.lists(one, min_size=1, max_size=8))


def strategy(storages=('file', 'file2', 'sqlite'), pack=False, extra=(),
             sizes=(10, 30, 70), middle=False):
    def make():
        ops = basic_ops() + list(extra)
        ops += [(1, gen.op('reconnect', CL))]
        if pack:
            ops += pack_ops()
        ops += [(6, inject(ops))]
        if middle:
            ops += [(4, window(basic_ops()))]
        return gen.record(
            middle=st.just(middle),
            storage=st.sampled_from(list(storages)),
            clients=st.integers(2, 4), cache=st.sampled_from([1, 3, 100]),
            pool=st.sampled_from([1, 1, 2, 32]),
            abort_at_once=st.booleans(),
            kinds=st.lists(gen.small(3), min_size=2, max_size=6),
            parents=st.one_of(st.just([0]), st.just([0, 1, 1, 1, 1, 1]),
                              st.lists(gen.small(5), min_size=6, max_size=6)),
            ops=gen.sized(*[gen.ops(*ops, min_size=n // 3, max_size=n)
                            for n in sizes]))
    return make
