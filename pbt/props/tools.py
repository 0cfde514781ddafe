"""C18: traversal and inspection tools report the stored graph exactly."""
import gc
import zlib
from itertools import islice

from hypothesis import strategies as st

from .. import classes as C
from .. import gen, graph
from ..core import Facet, Violation, check, expect_eq
from ..storages import FILES, Server, open_storage
from durus.connection import Connection, gen_every_instance
from durus.connection import touch_every_reference
from durus.serialize import pack_record, split_oids, unpack_record
from durus.storage import (gen_oid_class, gen_referring_oid_record,
                           get_census, get_reference_index)
from durus.utils import int8_to_str, str_to_int8

ROOT = int8_to_str(0)


def follow(refs, start):
    seen, todo = set(), [start]
    while todo:
        oid = todo.pop()
        if oid not in seen:
            seen.add(oid)
            todo.extend(refs[oid])
    return seen


def pairs(items, what):
    """A dictionary of (oid, x) pairs, each once."""
    result = {}
    for oid, x in items:
        check(oid not in result, '%s: %r appears twice', what, oid)
        result[oid] = x
    return result


class Stored(object):
    """Records in a storage, next to a dictionary of them."""

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = case['storage']
        self.path = ctx.path('db')
        self.server = None
        if case['served']:
            self.server = Server(lambda: open_storage(self.kind, self.path),
                                 ctx.path('sock'))
            ctx.on_exit(self.server.stop)
            self.storage = self.server.client()
            ctx.on_exit(self.storage.s.close)
        else:
            self.storage = open_storage(self.kind, self.path)
        self.oids = []
        self.state = {}  # oid -> record, for all that may be stored
        self.refs = {}
        self.names = {}
        self.stamp = 0
        self.packer = None
        self.maybe = {} # what a pack in progress may have removed

    def write(self, items):
        """items: [number, class name, refs]; object 0 is the root."""
        self.storage.begin()
        batch = {}
        top = max([n for n, name, refs in items] + [
            r for n, name, refs in items for r in refs])
        first = len(self.oids)
        while len(self.oids) <= top:
            self.oids.append(self.storage.new_oid())
        items = list(items)
        for n in range(first, len(self.oids)):
            if not any(i[0] == n for i in items):
                items.append([n, 'Plain', []])
        items = [i for i in items if i[0] >= first or
                 self.oids[i[0]] in self.state] # Others were removed.
        for n, name, refs in items:
            oid = self.oids[n]
            if n == 0:
                name = 'Root'
            self.stamp += 1
            data = b'\x80\x02cmodule\n%s\nq\x01.%d' % (
                name.encode(), self.stamp)
            # Serialized references are sorted and have no repetitions.
            targets = sorted(set(self.oids[r] for r in refs) - set(
                [] if len(refs) % 3 == 0 else [oid]))
            # A removed object can't be referred to.
            if any(r not in self.state and r != oid and
                   r not in [self.oids[i[0]] for i in items]
                   for r in targets):
                targets = []
            batch[oid] = (pack_record(oid, data, b''.join(targets)),
                          targets, name)
        for oid, (record, targets, name) in batch.items():
            self.storage.store(oid, record)
        self.storage.end(lambda oids: None)
        for oid, (record, targets, name) in batch.items():
            self.state[oid] = record
            self.refs[oid] = targets
            self.names[oid] = name
        for oid in self.state:
            for ref in self.refs[oid]:
                if ref not in self.state:
                    raise AssertionError('dangling reference')

    # Removed objects stay in self.refs and self.names.

    def verify(self, numbers, batches):
        storage = self.storage
        every = pairs(storage.gen_oid_record(), 'all records')
        live = follow(self.refs, ROOT)
        for oid in every:
            expect_eq(every[oid], self.record(oid), 'record of %r' % oid)
        check(live <= set(every), 'records are missing: %s', [
            str_to_int8(o) for o in sorted(live - set(every))])
        if len(live) < len(self.state):
            self.ctx.label('garbage')
        for n in numbers:
            start = self.oids[n % len(self.oids)]
            if start not in self.state:
                continue
            for size in batches:
                got = pairs(storage.gen_oid_record(
                    start_oid=start, batch_size=size), 'from %r' % start)
                want = dict((oid, self.state[oid])
                            for oid in follow(self.refs, start))
                expect_eq(got, want, 'records from object %d, %d at a time' % (
                    str_to_int8(start), size))
        # Everything else is about these records.
        index = get_reference_index(storage)
        want = {}
        for oid in every:
            for ref in self.refs[oid]:
                want.setdefault(ref, set()).add(oid)
        for ref in index:
            expect_eq(len(index[ref]), len(set(index[ref])),
                      'referring objects are repeated')
        expect_eq(dict((ref, set(index[ref])) for ref in index), want,
                  'the reference index')
        asked = [self.oids[n % len(self.oids)] for n in numbers]
        packed = [b''.join(refs) for refs in self.refs.values()
                  if len(refs) > 1]
        for n in numbers:
            # Ids that only appear across the border of two others.
            if packed:
                refs = packed[n % len(packed)]
                k = n % (len(refs) - 8)
                asked.append(refs[k:k + 8])
        for oid in asked:
            got = pairs(gen_referring_oid_record(storage, oid), 'referring')
            expect_eq(got, dict((o, every[o]) for o in want.get(oid, ())),
                      'objects that refer to %r' % oid)
        want = {}
        for oid in every:
            name = self.names[oid].encode()
            want[name] = want.get(name, 0) + 1
        expect_eq(get_census(storage), want, 'the census')
        names = sorted(want) + [b'Missing']
        for n in numbers:
            some = [names[n % len(names)]]
            if n % 2:
                some.append(names[n * 3 % len(names)])
            got = pairs(gen_oid_class(storage, *some), 'classes')
            expect_eq(got, dict(
                (oid, self.names[oid].encode()) for oid in every
                if self.names[oid].encode() in some), 'objects of %s' % some)
        expect_eq(pairs(gen_oid_class(storage), 'classes'), dict(
            (oid, self.names[oid].encode()) for oid in every), 'all classes')

    def interleaved(self, numbers, batches):
        """Two traversals at once, with other requests between them."""
        storage = self.storage
        starts = [self.oids[n % len(self.oids)] for n in numbers[:2]]
        starts = [s for s in starts if s in self.state] + [None]
        running = [(storage.gen_oid_record(start_oid=s, batch_size=b), [], s)
                   for s, b in zip(starts, batches * 3)]
        todo = list(running)
        while todo:
            for item in list(todo):
                got = list(islice(item[0], 1))
                item[1].extend(got)
                if not got:
                    todo.remove(item)
                oid = self.oids[len(item[1]) % len(self.oids)]
                if oid in self.state:
                    expect_eq(storage.load(oid), self.state[oid], 'load')
        for generator, items, start in running:
            got = pairs(items, 'traversal')
            for oid in got:
                expect_eq(got[oid], self.record(oid), 'record')
            if start is None:
                check(set(got) >= follow(self.refs, ROOT), 'incomplete')
            else:
                expect_eq(set(got), follow(self.refs, start),
                          'records from object %d' % str_to_int8(start))

    def during(self, kind, every, writes):
        """A traversal of everything, with commits in between."""
        self.quiet()
        storage = self.storage
        before = dict(self.state)
        stay = dict((oid, set(refs)) for oid, refs in self.refs.items())
        past = dict((oid, [record]) for oid, record in self.state.items())
        writes = list(writes)

        def commit(number):
            if writes and number % every == 0:
                self.write(writes.pop(0))
                for oid, record in self.state.items():
                    past.setdefault(oid, []).append(record)
                    stay.setdefault(oid, set(self.refs[oid]))
                    stay[oid] &= set(self.refs[oid])
                self.ctx.label('commit-during-traversal')
        found = {}
        if kind == 'classes':
            items = ((oid, None) for oid, name in gen_oid_class(storage))
        else:
            items = storage.gen_oid_record()
        for number, (oid, record) in enumerate(items):
            check(oid not in found, 'traversal with commits: %r appears '
                  'twice', oid)
            check(oid in past or oid in self.maybe,
                  'traversal with commits: unknown object %r', oid)
            check(record is None or record in past.get(oid, ()) or
                  record == self.maybe.get(oid), 'traversal with commits: '
                  'record of %r that was not current meanwhile', oid)
            found[oid] = record
            commit(number)
        if self.server is not None or self.kind == 'memory':
            # These follow references, but some may go away meanwhile.
            want = follow(stay, ROOT)
        else:
            want = set(before)
        check(want <= set(found), 'traversal with commits leaves out %s',
              sorted(want - set(found)))

    def quiet(self):
        """Before a commit: what unreachable objects a pack in progress keeps
        depends on the schedule."""
        if self.server is not None:
            self.server.wait_packed()
        elif self.packer is not None and self.kind == 'sqlite':
            self.reopen()

    def pack(self, steps):
        if self.kind == 'memory':
            return
        if self.server is not None:
            self.storage.pack() # in progress while the server is idle
            return
        if steps == 0:
            self.storage.pack()
        else:
            if self.packer is None:
                self.packer = self.storage.get_packer()
            if self.packer is None:
                self.storage.pack()
            else:
                for i in range(steps):
                    try:
                        next(self.packer)
                    except StopIteration:
                        self.packer = None
                        break
        self.forget()

    def forget(self):
        live = follow(self.refs, ROOT)
        for oid in set(self.state) - live:
            self.maybe[oid] = self.state.pop(oid)
        self.storage.sync()

    def record(self, oid):
        return self.state.get(oid) or self.maybe.get(oid)

    def reopen(self):
        if self.server is None and self.kind in FILES:
            if self.packer is not None:
                self.packer.close()
                self.packer = None
            self.storage.close()
            self.storage = open_storage(self.kind, self.path)


def run_stored(case, ctx):
    stored = Stored(case, ctx)
    stored.write([[0, 'Root', []]])
    for op in case['ops']:
        if op[0] == 'write':
            stored.quiet()
            stored.write(op[1])
        elif op[0] == 'pack':
            if stored.server is not None:
                # Its end is not known, so nothing may be unreachable.
                live = follow(stored.refs, ROOT)
                if live != set(stored.state):
                    continue
            stored.pack(op[1])
        elif op[0] == 'reopen':
            stored.reopen()
        elif op[0] == 'verify':
            stored.verify(op[1], op[2])
        else:
            getattr(stored, op[0])(*op[1:])
    stored.verify([0, 1, 2, 3, 5], [1, 3])
    if stored.server is None:
        stored.storage.close()
    edges = sum(len(r) for r in stored.refs.values())
    ctx.label('storage-' + stored.kind + ('-served' if stored.server else ''))
    ctx.mark(len(stored.state) > 2 and edges > 2)


def stored_strategy():
    n = gen.small(11)
    write = st.lists(st.tuples(
        n, st.sampled_from(['Plain', 'Other', 'Oth', 'Root', 'A']),
        st.lists(n, max_size=5)).map(list), min_size=1, max_size=6)
    some = st.lists(gen.small(11), min_size=1, max_size=3)
    batches = st.lists(st.sampled_from([1, 2, 3, 100]), min_size=1, max_size=2)
    choices = [
        (4, gen.op('write', write)), (1, gen.op('pack', gen.small(4))),
        (1, gen.op('reopen')), (2, gen.op('verify', some, batches)),
        (1, gen.op('interleaved', some, batches)),
        (1, gen.op('during', st.sampled_from(['classes', 'records', 'records']),
                   st.integers(1, 3), st.lists(write, min_size=1,
                                               max_size=3)))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        served=st.sampled_from([False, False, False, True]),
        ops=gen.sized(gen.ops(*choices, max_size=6),
                      gen.ops(*choices, min_size=5, max_size=14)))


# -- tools of connections

class Live(object):
    """A graph of objects in a connection with an arbitrary cache."""

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = kind = case['storage']
        self.served = case['served']
        path = ctx.path('db')
        if case['served']:
            server = Server(lambda: open_storage(kind, path),
                            ctx.path('sock'))
            ctx.on_exit(server.stop)
            storage = server.client()
            ctx.on_exit(storage.s.close)
        else:
            storage = open_storage(kind, path)
            ctx.on_exit(storage.close)
        first = Connection(storage)
        world = graph.World(first.root, case['kinds'])
        for stage in case['stages']:
            for i, items in stage:
                world.replace(i % len(world), items)
            first.commit()
        self.kinds = world.kinds
        self.states = world.states
        self.live = world.reachable()
        self.oid = dict((i, world.real[i]._p_oid) for i in range(len(world))
                        if world.real[i]._p_oid is not None)
        # Objects that were stored but are no longer reachable may have a
        # different, unsaved state by now.
        self.number = dict((oid, i) for i, oid in self.oid.items())
        del first
        self.storage = storage
        self.connection = Connection(storage, cache_size=case['cache'])
        self.held = {}
        self.changed = {}
        self.fill(case['prepare'])

    def fetch(self, i):
        obj = self.connection.get(self.oid[i])
        check(obj is not None, 'object %d is missing', i)
        check(self.held.setdefault(i, obj) is obj,
              'there are two instances of object %d', i)
        return obj

    def fill(self, prepare):
        """Load, change and ghost some objects."""
        order = sorted(self.live)
        for what, k, keep in prepare:
            i = order[k % len(order)]
            obj = self.fetch(i)
            if what == 'load':
                if obj._p_is_ghost():
                    obj._p_load_state()
            elif what == 'change':
                obj._p_note_change()
                self.changed[i] = obj
            elif what == 'ghost':
                if obj._p_is_saved():
                    obj._p_set_status_ghost()
            elif what == 'set' and self.kinds[i] in graph.MARKABLE:
                obj.number = -5
                self.changed[i] = obj
            del obj
            if not keep:
                self.held.pop(i, None)
        if prepare and prepare[0][2]:
            gc.collect()

    def check_object(self, i, obj, what):
        check(obj is not None, '%s: no instance of object %d', what, i)
        check(type(obj) is graph.KINDS[self.kinds[i]].cls,
              '%s: object %d has class %r', what, i, type(obj))
        expect_eq(obj._p_oid, self.oid[i], what)
        check(obj._p_connection is self.connection, '%s: connection', what)
        if i in self.held:
            check(obj is self.held[i], '%s: two instances of object %d', what,
                  i)
        elif i in self.changed:
            check(obj is self.changed[i], '%s: two instances of object %d',
                  what, i)
        else:
            check(self.connection.cache.get(self.oid[i]) is obj,
                  '%s: object %d is not in the cache', what, i)

    def check_state(self, i, obj, what):
        kind = graph.KINDS[self.kinds[i]]
        want = self.states[i]
        real = kind.read(obj)
        if i in self.changed and self.kinds[i] in graph.MARKABLE and \
                self.changed[i].number == -5:
            want = dict(want)
            want['number'] = -5

        def name_of(value):
            if isinstance(value, C.PersistentObject):
                return self.number.get(value._p_oid, 'unknown')
        got = graph.canon_state(self.kinds[i], real, name_of)
        expect = graph.canon_state(self.kinds[i], want, graph.model_name)
        expect_eq(got, expect, '%s: state of object %d' % (what, i))

    def reach(self, i):
        return graph.reachable([i], lambda j: self.kinds[j],
                               lambda j: self.states[j])

    def op_crawl(self, k, size, disturb):
        order = sorted(self.live)
        start = order[k % len(order)]
        seen = set()
        kept = []
        crawler = self.connection.get_crawler(
            **(dict(start_oid=self.oid[start], batch_size=size)
               if start or size != 100 else {}))
        for n, obj in enumerate(crawler):
            i = self.number.get(obj._p_oid)
            check(i is not None, 'crawler: unknown object %r', obj)
            check(i not in seen, 'crawler: object %d appears twice', i)
            seen.add(i)
            check(not obj._p_is_ghost(), 'crawler: object %d is a ghost', i)
            self.check_object(i, obj, 'crawler')
            if i in self.changed:
                check(obj._p_is_unsaved(), 'crawler: object %d is not '
                      'changed any more', i)
            else:
                check(obj._p_is_saved(), 'crawler: object %d is not saved', i)
            if disturb == 1:
                self.check_state(i, obj, 'crawler')
            elif disturb == 2:
                obj = None
                if n % 3 == 1:
                    self.connection.shrink_cache()
                elif n % 3 == 2:
                    gc.collect(0)
            elif disturb == 3:
                kept.append((i, obj))
            elif disturb == 4 and n % 2:
                # Somebody else looks at it meanwhile.
                self.fetch(order[n * 7 % len(order)])
        expect_eq(seen, self.reach(start), 'objects that a crawler finds')
        for i, obj in kept:
            self.check_state(i, obj, 'crawler')
            self.check_object(i, obj, 'crawler')

    def stored(self):
        """Numbers of the objects that the storage knows of."""
        found = set(self.number[oid] for oid, record in
                    self.storage.gen_oid_record())
        check(found >= self.live, 'objects are missing')
        return found

    def op_instances(self, picks):
        classes = tuple(sorted(set(graph.KINDS[p % graph.NKINDS].cls
                                   for p in picks), key=lambda c: c.__name__))
        if picks and picks[0] == graph.NKINDS:
            classes += (C.Persistent,)
        want = set(i for i in self.stored() if issubclass(
            graph.KINDS[self.kinds[i]].cls, classes))
        seen = set()
        for obj in gen_every_instance(self.connection, *classes):
            check(isinstance(obj, classes), 'instances: %r is not an '
                  'instance of %s', obj, classes)
            i = self.number[obj._p_oid]
            check(i not in seen, 'instances: object %d appears twice', i)
            seen.add(i)
            self.check_object(i, obj, 'instances')
            if i in self.live:
                self.check_state(i, obj, 'instances')
        expect_eq(seen, want, 'instances of %s' % (classes,))
        if seen and len(seen) < len(self.live):
            self.ctx.label('instances')

    def new_during(self, i, every, count):
        """New objects are committed while instances are looked for."""
        cls = graph.KINDS[i % graph.NKINDS].cls
        if self.changed:
            self.op_abort()
        want = set(j for j in self.stored() if issubclass(
            graph.KINDS[self.kinds[j]].cls, cls))
        if self.served or self.kind == 'memory':
            want &= self.live # Others are not found.
        seen = set()
        root = self.connection.get_root()
        for n, obj in enumerate(gen_every_instance(self.connection, cls)):
            check(isinstance(obj, cls), 'instances: %r is not an instance of '
                  '%s', obj, cls)
            j = self.number.get(obj._p_oid)
            if j is not None:
                check(j not in seen, 'instances: object %d appears twice', j)
                seen.add(j)
                self.check_object(j, obj, 'instances with commits')
            if count and n % every == 0:
                count -= 1
                root['added'] = C.PersistentObject()
                self.connection.commit()
                self.ctx.label('commit-during-instances')
        check(want <= seen, 'instances with commits: missing %s', want - seen)

    def op_touch(self, words):
        before = set(self.connection.changed)
        want = set(before)
        for oid, record in self.storage.gen_oid_record():
            data = unpack_record(record)[1]
            # The class is a pickle of its own, the state another, which may
            # be compressed.
            end = data.index(b'.', data.index(b'\n', data.index(b'\n') + 1))
            head, rest = data[:end + 1], data[end + 1:]
            try:
                state = zlib.decompress(rest)
            except zlib.error:
                state = rest
            if any(w.encode() in text for w in words
                   for text in (data, head, state)):
                want.add(oid)
        touch_every_reference(self.connection, *words)
        for oid in want - before:
            i = self.number[oid]
            obj = self.connection.changed.get(oid)
            check(obj is not None, 'touching %s: object %d is not marked',
                  words, i)
            self.check_object(i, obj, 'touching')
            check(obj._p_is_unsaved(), 'touching: object %d is not marked', i)
            if i in self.live:
                self.check_state(i, obj, 'touching')
            self.changed.setdefault(i, obj)
        expect_eq(set(self.connection.changed), want,
                  'objects touched for %s' % words)
        if len(want - before) and len(want) < len(self.number):
            self.ctx.label('touched')

    def op_get(self, k, how):
        order = sorted(self.live)
        i = order[k % len(order)]
        oid = self.oid[i]
        obj = [self.connection.get, self.connection.__getitem__][how % 2](
            str_to_int8(oid) if how > 1 else oid)
        self.check_object(i, obj, 'get')
        self.check_state(i, obj, 'get')
        expect_eq(self.connection.get(10 ** 9 + k), None, 'a missing object')

    def op_fill(self, prepare):
        self.fill(prepare)

    def op_abort(self):
        self.connection.abort()
        self.changed = {}

    def op_shrink(self, size):
        self.connection.set_cache_size(size + 1)
        self.connection.shrink_cache()


def run_live(case, ctx):
    live = Live(case, ctx)
    for op in case['ops']:
        getattr(live, 'op_' + op[0])(*op[1:])
    touched = [i for i in live.changed if i in live.live and not (
        live.kinds[i] in graph.MARKABLE and live.changed[i].number == -5)]
    live.op_crawl(0, 100, 1)
    # Marking objects as changed and committing them changes nothing.
    for i in list(live.changed):
        if i not in touched and live.kinds[i] in graph.MARKABLE:
            live.changed[i].number = i
    live.connection.commit()
    live.held.clear()
    live.changed.clear()
    graph.compare_graph(Connection(live.storage).root, 7, live.kinds,
                        live.states, live.oid, 'after touching')
    if case['new']:
        live.new_during(*case['new'])
    ctx.label('storage-' + case['storage'])
    ctx.mark(len(live.live) > 2)


def live_strategy():
    items = st.lists(st.tuples(gen.small(9),
                               graph.value_specs(12)).map(list), max_size=4)
    refs = st.lists(st.tuples(gen.small(7), st.builds(
        lambda i: ['ref', i], gen.small(11))).map(list), min_size=1,
        max_size=6)
    change = st.one_of(
        st.tuples(st.integers(1, 11), items).map(list),
        st.tuples(st.integers(1, 11), refs).map(list),
        st.tuples(st.integers(0, 11), refs).map(list))
    first = st.tuples(st.just(0), st.lists(st.tuples(
        gen.small(7), st.builds(lambda i: ['ref', i + 1], gen.small(7))).map(
            list), min_size=3, max_size=8)).map(list)
    prepare = st.lists(st.tuples(
        st.sampled_from(['load', 'change', 'ghost', 'set', 'get']),
        gen.small(11), st.booleans()).map(list), max_size=6)
    kinds = st.lists(st.one_of(
        st.sampled_from([0, 0, 1, 7]), gen.small(graph.NKINDS - 1)).map(
            lambda k: 8 if k == 10 else k), min_size=3, max_size=11)
    choices = [
        (3, gen.op('crawl', gen.small(11), st.sampled_from([1, 2, 100]),
                   gen.small(4))),
        (2, gen.op('instances', st.lists(gen.small(graph.NKINDS), max_size=3))),
        (2, gen.op('touch', st.lists(st.sampled_from(
            ['Node', 'NodeB', 'Slotted', 'PersistentDict', 'pbt.classes',
             'number', 'f0', 'k1', 'missing', 'persistent_list', 'd0']),
            min_size=1, max_size=2))),
        (1, gen.op('get', gen.small(11), gen.small(3))),
        (1, gen.op('fill', prepare)), (1, gen.op('abort')),
        (1, gen.op('shrink', gen.small(5)))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        served=st.sampled_from([False, False, False, True]), kinds=kinds,
        cache=st.sampled_from([1, 4, 1000]), prepare=prepare,
        new=st.one_of(st.none(), st.tuples(
            gen.small(graph.NKINDS - 1), st.integers(1, 2),
            st.integers(1, 3)).map(list)),
        stages=st.builds(
            lambda a, b, c: [[a] + b] + c, first,
            st.lists(change, min_size=2, max_size=8),
            st.lists(st.lists(change, min_size=1, max_size=5), max_size=1)),
        ops=gen.ops(*choices, max_size=8))


FACETS = [
    Facet('records', stored_strategy, run_stored, quick=4000, thorough=100000,
          rule='records with references, written in several commits and '
          'packs, against a dictionary of them; non-trivial with more than '
          'two objects and references'),
    Facet('objects', live_strategy, run_live, quick=4000, thorough=100000,
          rule='a graph of objects with an arbitrary cache; crawls, '
          'instances, touches and lookups against the model of the graph; '
          'non-trivial with more than two reachable objects'),
]
