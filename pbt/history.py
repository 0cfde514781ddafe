"""One connection, driven by an arbitrary history, next to a plain model.

The model has, for every object, the state the program sees (states), the
last committed state (committed), and whether it was ever stored.
"""
import gc
import os

from hypothesis import strategies as st

from . import classes as C
from . import gen, graph
from .core import HarnessError, Violation, check, expect_eq
from .graph import KINDS, NKINDS, Ref, MARK, MARKABLE
from .storages import open_storage, Recording, Server, FILES, TEMPORARY
from durus.connection import Connection
from durus.utils import int8_to_str

FAILING = NKINDS # index of the kind whose __getstate__ may raise
if len(KINDS) == NKINDS:
    KINDS.append(graph.AttrKind(C.FailingState, ['f0', 'bad']))


class Poison(object):
    """Model value of something that cannot be committed."""
    def __init__(self, how):
        self.how = how

    def __repr__(self):
        return 'Poison(%r)' % self.how


def has_poison(value, seen=None):
    if isinstance(value, Poison):
        return True
    if isinstance(value, (list, tuple, dict)):
        seen = set() if seen is None else seen
        if id(value) in seen:
            return False
        seen.add(id(value))
        if isinstance(value, dict):
            value = value.values()
        return any(has_poison(v, seen) for v in value)
    return False


class History(object):

    def __init__(self, case, ctx, mixins=()):
        self.case, self.ctx = case, ctx
        self.storage_kind = case['storage']
        self.path = ctx.path('db')
        self.mixins = mixins
        self.served = case.get('served', False)
        self.server = None
        self.kinds = [7] + list(case['kinds'])
        n = len(self.kinds)
        self.real = [None] * n
        self.states = [KINDS[k].empty() for k in self.kinds]
        self.oid = {}           # i -> oid of stored objects
        self.index = {}         # the reverse
        self.committed = {}     # i -> state
        self.changed = set()
        self.attempted = set()  # maybe marked changed by a failed mutation
        self.dead = set()
        self.foreign = None
        self.start()
        for i in range(n):
            if i:
                self.real[i] = KINDS[self.kinds[i]].make()
            if self.kinds[i] in MARKABLE:
                setattr(self.real[i], MARK, i)
                self.states[i][MARK] = i
        self.stored(0, self.connection.root._p_oid)
        self.committed[0] = graph.snapshot(self.states[0])

    # -- storage life cycle

    def open(self):
        return open_storage(self.storage_kind, self.path, self.mixins)

    def start(self):
        if self.served:
            self.server = Server(self.open, self.ctx.path('sock'))
            self.ctx.on_exit(self.server.stop)
            self.storage = self.server.client()
        else:
            self.storage = self.open()
            self.ctx.on_exit(self.storage.close)
        self.connection = Connection(
            self.storage, cache_size=self.case.get('cache', 1000))
        self.real[0] = self.connection.root

    def stop(self):
        self.storage.close()
        if self.server is not None:
            self.server.stop()
            self.server = None

    def reopen(self):
        if self.storage_kind not in FILES:
            return
        self.connection.abort()
        self.stop()
        self.rollback()
        for i in range(len(self.kinds)):
            if i not in self.oid:
                self.dead.add(i)
            self.real[i] = None
        self.start()
        self.ctx.label('reopened')

    # -- model

    def stored(self, i, oid):
        check(oid is not None, 'object %d has no oid after commit', i)
        if i in self.oid:
            expect_eq(oid, self.oid[i], 'oid of object %d' % i)
        else:
            check(oid not in self.index, 'oid %r of object %d belongs to '
                  'object %r', oid, i, self.index.get(oid))
            self.oid[i] = oid
            self.index[oid] = i

    def rollback(self):
        for i in self.oid:
            self.states[i] = graph.snapshot(self.committed[i])
        self.changed.clear()
        self.attempted.clear()

    def to_store(self):
        """The changed objects, and the new ones they lead to."""
        result = set(self.changed)
        todo = list(self.changed)
        while todo:
            i = todo.pop()
            for j in graph.state_refs(self.kinds[i], self.states[i]):
                if j not in self.oid and j not in result:
                    result.add(j)
                    todo.append(j)
        return result

    def poisoned(self, which):
        for i in which:
            for v in KINDS[self.kinds[i]].values(self.states[i]):
                if has_poison(v):
                    return True
            if self.kinds[i] == FAILING and (
                    type(self.states[i].get('bad', 0)) is not int):
                return True
        return False

    def live(self, states=None):
        states = self.committed if states is None else states
        return graph.reachable([0], lambda i: self.kinds[i],
                               lambda i: states[i])

    # -- real objects

    def pick(self, i):
        i %= len(self.kinds)
        return 0 if i in self.dead else i

    def obj(self, i):
        if self.real[i] is None:
            got = self.connection.get(self.oid[i])
            check(got is not None, 'object %d is not found by its oid', i)
            self.real[i] = got
        return self.real[i]

    def ref(self, i):
        return self.obj(self.pick(i))

    def mref(self, i):
        return Ref(self.pick(i))

    def name_of(self, value):
        if not isinstance(value, C.PersistentObject):
            return None
        oid = value._p_oid
        if oid is not None and oid in self.index:
            i = self.index[oid]
            if self.real[i] is not None:
                check(self.real[i] is value, 'a second instance of object %d',
                      i)
            return i
        for i, r in enumerate(self.real):
            if r is value:
                return i
        return None

    def poison(self, how):
        if how == 'lambda':
            return lambda: None
        if how == 'reduce':
            return C.FailingReduce(ValueError)
        if how == 'stop':
            return C.FailingReduce(C.Stop)
        if how == 'foreign':
            if self.foreign is None:
                from durus.storage import MemoryStorage
                self.foreign = Connection(MemoryStorage())
            return self.foreign.root
        raise HarnessError(how)

    def build(self, spec):
        if isinstance(spec, list) and spec and spec[0] == 'poison':
            return self.poison(spec[1]), Poison(spec[1])
        if isinstance(spec, list) and spec[0] == 'nested':
            real, model = self.build(spec[1])
            return [1, real], [1, model]
        return graph.build(spec, self.ref), graph.build(spec, self.mref)

    # -- operations

    def touched(self, i):
        if i in self.oid:
            self.changed.add(i)

    def op_set(self, i, n, spec):
        i = self.pick(i)
        kind = KINDS[self.kinds[i]]
        field = kind.field(n)
        if isinstance(kind, graph.SetKind):
            if isinstance(spec, list) and spec[0] in ('poison', 'nested'):
                spec = field
            if isinstance(spec, list) and spec[0] == 'ref':
                spec = ['ref', self.pick(spec[1])]
        spec = graph.fit(self.kinds, self.kinds[i], field, spec)
        real, model = self.build(spec)
        kind.set(self.obj(i), field, real)
        kind.mset(self.states[i], field, model)
        self.touched(i)

    def op_del(self, i, n):
        i = self.pick(i)
        kind = KINDS[self.kinds[i]]
        field = kind.field(n)
        if kind.mdelete(self.states[i], field):
            kind.delete(self.obj(i), field)
            self.touched(i)
        else:
            try:
                kind.delete(self.obj(i), field)
            except kind.missing_error:
                pass
            else:
                raise Violation('deleting missing %r of object %d succeeds' % (
                    field, i))
            self.attempted.add(i)

    def op_get(self, i, n):
        i = self.pick(i)
        kind = KINDS[self.kinds[i]]
        field = kind.field(n)
        got = kind.get(self.obj(i), field)
        want = kind.mget(self.states[i], field)
        if want is graph._missing or got is graph._missing:
            check(got is want, 'field %r of object %d: got %.200r, expected '
                  '%.200r', field, i, got, want)
            return
        if has_poison(want):
            return
        expect_eq(graph.canon_value(got, self.name_of),
                  graph.canon_value(want, graph.model_name),
                  'field %r of object %d' % (field, i))

    def op_read(self, i):
        i = self.pick(i)
        if self.poisoned([i]):
            return
        k = self.kinds[i]
        expect_eq(graph.canon_state(k, KINDS[k].read(self.obj(i)),
                                    self.name_of),
                  graph.canon_state(k, self.states[i], graph.model_name),
                  'state of object %d (%s)' % (i, KINDS[k].cls.__name__))

    def op_ghost(self, i):
        obj = self.real[self.pick(i)]
        if obj is not None and obj._p_is_saved():
            obj._p_set_status_ghost()

    def op_ghostall(self):
        for obj in list(self.connection.cache):
            if obj is not None and obj._p_is_saved():
                obj._p_set_status_ghost()

    def op_drop(self, i):
        i = self.pick(i)
        if i in self.oid:
            self.real[i] = None

    def op_dropall(self):
        for i in self.oid:
            self.real[i] = None
        self.foreign = None

    def op_shrink(self):
        self.connection.shrink_cache()

    def op_size(self, n):
        self.connection.set_cache_size(n + 1)

    def op_gc(self):
        gc.collect()

    def op_crawl(self, i, size, stop):
        """The crawler loads objects without touching what is changed."""
        i = self.pick(i)
        if i not in self.oid:
            i = 0
        found = []
        crawler = self.connection.get_crawler(self.oid[i],
                                              batch_size=size + 1)
        for obj in crawler:
            check(not obj._p_is_ghost(), 'the crawler gives a ghost')
            expect_eq(obj._p_connection is self.connection, True,
                      'the crawled object is of this connection')
            found.append(obj._p_oid)
            j = self.name_of(obj)
            if j is not None:
                self.real[j] = obj
            if len(found) > stop * 3 and stop < 3:
                crawler.close()
                self.ctx.label('crawl-partly')
                break
        else:
            expect_eq(len(found), len(set(found)), 'crawled twice')
            want = graph.reachable([i], lambda j: self.kinds[j],
                                   lambda j: self.committed[j])
            expect_eq(set(self.index[oid] for oid in found
                          if oid in self.index), set(want),
                      'objects crawled from object %d' % i)
        if self.changed:
            self.ctx.label('crawl-changed')

    def op_reopen(self):
        self.reopen()

    def op_abort(self):
        self.connection.abort()
        self.rollback()

    def op_pack(self):
        self.connection.pack()
        if self.served:
            self.server.wait_packed()
        self.rollback()
        if self.storage_kind not in FILES:
            return
        gone = set(self.oid) - self.live()
        for i in gone:
            del self.index[self.oid.pop(i)]
            del self.committed[i]
            self.real[i] = None
        self.dead |= gone
        more = True
        while more: # new objects that lead to something that is gone
            more = False
            for i in range(len(self.kinds)):
                if i not in self.oid and i not in self.dead and (
                        graph.state_refs(self.kinds[i], self.states[i]) &
                        self.dead):
                    self.dead.add(i)
                    more = True
        if gone:
            self.ctx.label('pack-removed')

    def op_verify(self):
        self.verify()

    def op_commit(self):
        batch = self.to_store()
        if self.poisoned(batch):
            self.failed_commit()
            return
        self.connection.commit()
        self.after_commit(batch)

    def after_commit(self, batch):
        # The items of a BTree are in its nodes.
        expected = [i for i in batch if self.kinds[i] != 10 or
                    i not in self.oid]
        for i in batch:
            self.stored(i, self.obj(i)._p_oid)
            self.committed[i] = graph.snapshot(self.states[i])
        if batch:
            last = getattr(self.storage, 'last', None)
            if last is not None and not self.served:
                got = [oid for oid, record in last]
                expect_eq(len(got), len(set(got)), 'records stored twice')
                got = set(got) & set(self.index)
                want = set(self.oid[i] for i in expected)
                check(want <= got, 'not stored: objects %s',
                      sorted(self.index[x] for x in want - got))
                extra = sorted(self.index[x] for x in got - want
                               if self.index[x] not in self.attempted and
                               self.index[x] not in batch)
                check(not extra, 'stored without having been changed: '
                      'objects %s', extra)
        self.changed.clear()
        self.attempted.clear()

    def failed_commit(self, allowed=None):
        """Commit must fail, and then nothing may have changed."""
        try:
            self.connection.commit()
        except (Exception, C.Stop) as e:
            pass
        else:
            raise Violation('commit of something that cannot be stored '
                            'succeeds')
        self.ctx.label('failed-commit')
        for i, r in enumerate(self.real):
            if r is not None and i not in self.oid and i not in self.dead:
                check(r._p_oid is None and r._p_is_unsaved() and
                      r._p_connection is None, 'new object %d is not unsaved '
                      'after a failed commit', i)
        self.verify()

    def verify(self, what='second connection'):
        """What another connection to the storage sees."""
        if self.served:
            self.server.check()
            storage = self.server.client()
        else:
            storage = self.storage
        found = graph.compare_graph(
            Connection(storage).root, 7, self.kinds, self.committed, self.oid,
            what)
        if self.served:
            storage.close()
        return found

    def final(self):
        self.op_abort()
        for i in range(len(self.kinds)):
            if i not in self.dead:
                self.op_read(i)
        self.verify('at the end')
        if self.storage_kind in TEMPORARY:
            self.stop()
            expect_eq(os.listdir(self.ctx.dir), [],
                      'what a temporary storage leaves')
        elif self.storage_kind != 'memory':
            self.stop()
            storage = open_storage(self.storage_kind, self.path)
            self.ctx.on_exit(storage.close)
            graph.compare_graph(
                Connection(storage).root, 7, self.kinds, self.committed,
                self.oid, 'after reopening')

    def run(self, ops, after=None):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])
            if after is not None:
                after(op)


I = gen.small(11)
F = gen.small(11)


def refspec():
    return st.builds(lambda i: ['ref', i], I)


def values(poison=0):
    base = st.one_of(refspec(), refspec(), graph.value_specs(12))
    if poison:
        bad = st.builds(lambda how: ['poison', how], st.sampled_from(
            ['lambda', 'reduce', 'stop', 'foreign']))
        bad = st.one_of(bad, st.builds(lambda b: ['nested', b], bad))
        return st.one_of(*([base] * poison + [bad]))
    return base


def mutations(poison=0):
    return [(5, gen.op('set', I, F, values(poison))),
            (2, gen.op('set', st.just(0), F, refspec())),
            (2, gen.op('del', I, F))]


READS = [(2, gen.op('get', I, F)), (2, gen.op('read', I)),
         (1, gen.op('crawl', st.one_of(st.just(0), I), gen.small(4),
                    gen.small(7)))]
EVICTIONS = [(1, gen.op('ghost', I)), (1, gen.op('ghostall')),
             (2, gen.op('drop', I)), (1, gen.op('dropall')),
             (2, gen.op('shrink')), (1, gen.op('size', gen.small(6))),
             (1, gen.op('gc'))]
ENDS = [(5, gen.op('commit')), (2, gen.op('abort'))]


def intro():
    """Most histories begin with a few objects that are committed."""
    first = st.lists(gen.op('set', st.just(0), F, refspec()), min_size=2,
                     max_size=6)
    links = st.lists(gen.op('set', I, F, refspec()), max_size=6)
    return st.one_of(
        st.just([]), *[st.builds(lambda a, b: a + b + [['commit']], first,
                                 links)] * 4)
