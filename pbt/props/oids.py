"""C09: an object id never denotes two objects."""
import pickle

from hypothesis import strategies as st

from .. import clients, gen, graph
from ..core import Facet, Violation, check, expect_eq
from ..storages import open_storage, Gated, Server
from durus.connection import Connection, ROOT_OID
from durus.error import ConflictError
from durus.serialize import pack_record
from durus.utils import str_to_int8


def record(oid, token, refs):
    return pack_record(oid, pickle.dumps(token, 2), b''.join(refs))


class User(object):
    """Somebody who allocates ids: a client, or the owner of a storage."""

    def __init__(self, storage):
        self.storage = storage
        self.reserved = set()   # handed out, not stored, not given back
        self.since = []         # since begin()
        self.untold = set()     # removed by packs, not reported yet


class Ids(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.path = ctx.path('db')
        self.served = case['served']
        self.records = {}       # oid -> (token, refs): what is stored
        self.pack = None
        self.token = 0
        self.ever_removed = set()
        self.start()

    def start(self):
        kind = self.case['storage']
        if self.served:
            self.server = Server(
                lambda: open_storage(kind, self.path, (Gated,)),
                self.ctx.path('sock'))
            self.ctx.on_exit(self.server.stop)
            self.users = [self.connect() for n in range(self.case['users'])]
        else:
            self.storage = open_storage(kind, self.path)
            self.ctx.on_exit(self.storage.close)
            self.users = [User(self.storage)]
        if not self.records:
            user = self.users[0]
            oid = user.storage.new_oid()
            expect_eq(oid, ROOT_OID, 'first id')
            self.commit(user, [(oid, [])])
            user.reserved.clear()

    def connect(self):
        storage = self.server.client()
        storage.oid_pool_size = self.case['pool']
        self.ctx.on_exit(storage.s.close)
        return User(storage)

    def live(self, start=(ROOT_OID,)):
        seen, todo = set(), list(start)
        while todo:
            oid = todo.pop()
            if oid not in seen:
                seen.add(oid)
                todo.extend(self.records[oid][1])
        return seen

    def alloc(self, user):
        oid = user.storage.new_oid()
        n = str_to_int8(oid)
        check(oid not in self.records, 'the id %d of a stored object is '
              'handed out again', n)
        for other in self.users:
            check(oid not in other.reserved, 'the id %d is handed out twice',
                  n)
            check(oid not in other.untold, 'the id %d of a removed object is '
                  'handed out before everybody was told of the removal', n)
        user.reserved.add(oid)
        user.since.append(oid)
        if oid in self.ever_removed:
            self.ctx.label('id-reused-after-pack')
        return oid

    def begin(self, user):
        user.storage.begin()
        user.since = []

    def told(self, user):
        user.untold.clear()

    def commit(self, user, items):
        """items: [(oid, refs)], new or existing."""
        for oid, refs in items:
            self.token += 1
            user.storage.store(oid, record(oid, self.token, refs))
        user.storage.end(lambda oids: None)
        if self.served:
            self.told(user)
        n = self.token - len(items)
        for oid, refs in items:
            n += 1
            self.records[oid] = (n, refs)
            user.reserved.discard(oid)
            if self.pack is not None:
                self.pack['stored'].add(oid)

    # -- operations

    def op_alloc(self, u, n):
        user = self.users[u % len(self.users)]
        for x in range(n):
            self.alloc(user)

    def op_commit(self, u, new, target, unlink, old):
        """Store some new objects, linked from an existing one; maybe
        unlink others; maybe use ids reserved before."""
        user = self.users[u % len(self.users)]
        self.begin(user)
        oids = sorted(user.reserved)[:old] if old else []
        oids += [self.alloc(user) for x in range(new)]
        live = sorted(self.live())
        target = live[target % len(live)]
        refs = list(self.records[target][1])
        if unlink and refs:
            del refs[:unlink]
        for oid in oids:
            refs.append(oid)
        items = [(oid, [live[0]]) for oid in oids] + [(target, refs)]
        self.commit(user, items)

    def op_conflict(self, u, new):
        """A commit that ends in a conflict."""
        user = self.users[u % len(self.users)]
        if not self.served or not new:
            return
        self.begin(user)
        oids = [self.alloc(user) for x in range(new)]
        for oid in oids:
            user.storage.store(oid, record(oid, 0, []))
        # Make sure that there is something to conflict with.
        other = self.users[(u + 1) % len(self.users)]
        if other is user:
            return
        token, refs = self.records[ROOT_OID]
        self.begin(other)
        self.commit(other, [(ROOT_OID, refs)])

        def conflict(oids):
            raise ConflictError(oids)
        try:
            user.storage.end(conflict)
        except ConflictError:
            user.reserved.difference_update(user.since)
            user.since = []
            self.told(user)
            self.ctx.label('conflict')
        else:
            raise Violation('no invalidation was reported')

    def op_sync(self, u):
        user = self.users[u % len(self.users)]
        user.storage.sync()
        self.told(user)

    def op_pack(self, u):
        user = self.users[u % len(self.users)]
        self.begin(user) # nothing pending
        if self.pack is not None:
            return
        self.pack = dict(live=self.live(), stored=set())
        if self.served:
            user.storage.pack()
            if not self.server.storage.gate.active:
                self.pack = None
        else:
            self.pack['packer'] = self.storage.get_packer()
        self.ctx.label('pack')

    def op_step(self, n):
        if self.pack is None:
            return
        if self.served:
            if not self.server.storage.gate.grant(n, self.server.alive):
                self.ended()
            else:
                self.probe()
        else:
            for x in range(n):
                try:
                    next(self.pack['packer'])
                except StopIteration:
                    self.ended()
                    break
            else:
                self.probe()

    def op_finish(self):
        while self.pack is not None:
            self.op_step(50)

    def probe(self):
        storage = self.server.client() if self.served else self.storage
        live = self.live()
        for oid in sorted(self.records):
            try:
                got = storage.load(oid)
            except KeyError:
                check(oid not in live, 'a pack removed the reachable object '
                      '%d', str_to_int8(oid))
                del self.records[oid]
                self.ever_removed.add(oid)
                for user in self.users:
                    user.untold.add(oid)
                self.ctx.label('removed')
            else:
                token, refs = self.records[oid]
                check(got == record(oid, token, refs), 'the record of object '
                      '%d is not the one that was stored', str_to_int8(oid))
        if self.served:
            storage.close()

    def ended(self):
        self.probe()
        self.pack = None

    def op_reconnect(self, u):
        if self.served:
            u %= len(self.users)
            self.users[u].storage.s.close()
            # Its reservations end when the server notices.
            self.users[u] = self.connect()

    def op_reopen(self):
        if self.served:
            for user in self.users:
                user.storage.s.close()
            self.server.stop()
        else:
            if self.pack is not None:
                self.pack['packer'].close()
            self.storage.close()
        self.pack = None
        self.ctx.label('reopened')
        self.start()

    def run(self, ops):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])
            if self.served:
                self.server.check()
        self.op_finish()
        self.probe_all()

    def probe_all(self):
        self.pack = None
        storage = self.server.client() if self.served else self.storage
        for oid, (token, refs) in sorted(self.records.items()):
            check(storage.load(oid) == record(oid, token, refs), 'the record '
                  'of object %d is not the one that was stored',
                  str_to_int8(oid))


def run_ids(case, ctx):
    ids = Ids(case, ctx)
    ids.run(case['ops'])
    ctx.mark(len(ids.records) > 1 and (
        ctx.labels['removed'] or ctx.labels['conflict'] or
        ctx.labels['reopened'] or len(ids.users) > 1))


def ids_strategy(served):
    def make():
        U = gen.small(3)
        ops = gen.ops(
            (2, gen.op('alloc', U, st.sampled_from([1, 1, 2, 5, 40]))),
            (6, gen.op('commit', U, gen.small(4), gen.small(9), gen.small(3),
                       st.sampled_from([0, 0, 1, 9]))),
            (2, gen.op('conflict', U, gen.small(3))),
            (2, gen.op('sync', U)), (3, gen.op('pack', U)),
            (3, gen.op('step', gen.small(6))), (2, gen.op('finish')),
            (1, gen.op('reconnect', U)), (1, gen.op('reopen')),
            min_size=4, max_size=40)
        return gen.record(
            served=st.just(served), users=st.integers(1, 4),
            storage=st.sampled_from(['file', 'file2', 'sqlite']),
            pool=st.sampled_from([1, 2, 3, 32]), ops=ops)
    return make


def run_graphs(case, ctx):
    """The same through connections: new objects never replace others."""
    world = clients.World(case, ctx)
    world.run(case['ops'])
    world.final()
    ctx.mark(ctx.labels['pack-removed'] > 0 and world.k > 2)


RULE = ('a history of allocations, commits, conflicts, syncs, packs in steps, '
        'disconnections and reopenings by 1..4 users; non-trivial when '
        'objects beyond the root are stored and something was removed, '
        'conflicted or reopened, or there are several users')
FACETS = [
    Facet('ids-direct', ids_strategy(False), run_ids, quick=4000,
          thorough=200000, rule=RULE),
    Facet('ids-served', ids_strategy(True), run_ids, quick=2400,
          thorough=80000, rule=RULE),
    Facet('graphs', clients.strategy(pack=True), run_graphs, quick=2000,
          thorough=80000, rule='schedules of connections with packs; '
          'non-trivial when a pack removed objects and there were commits'),
]
