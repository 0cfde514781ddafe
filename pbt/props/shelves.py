"""C10: a shelf is a durable mapping with an exact offset index."""
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Violation, check, expect_eq, outcome
from durus.file import File
from durus.shelf import OffsetMap, Shelf
from durus.utils import int8_to_str


class Failure(Exception):
    pass


def value(size, fill):
    return (bytes([fill % 256]) * size)


class Model(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.path = ctx.path('shelf')
        self.data = {}
        items = []
        for n, size, fill in case['items']:
            name = int8_to_str(n)
            if name not in self.data:
                self.data[name] = value(size, fill)
                items.append((name, self.data[name]))
        self.initial = set(self.data)
        self.offered = set()
        self.positions = {} # position -> (name, value), for ever
        if case['temporary']:
            self.shelf = Shelf(items=iter(items) if case['lazy'] else items)
            self.temporary = True
        else:
            self.shelf = Shelf(self.path, items=items)
            self.temporary = False
        ctx.on_exit(lambda: self.shelf.close())
        if not items:
            ctx.label('empty-start')
        self.check_map()

    def check_map(self):
        """The offset map, exactly."""
        offset_map = self.shelf.get_offset_map()
        numbers = set(range(offset_map.get_array_size()))
        assigned = set(n for n in numbers if int8_to_str(n) in self.initial)
        check(len(assigned) == len(self.initial), 'the offset map has no '
              'slots for some names')
        expect_eq(sorted(offset_map), sorted(assigned), 'entries of the map')
        items = list(offset_map.items())
        expect_eq([n for n, p in items], sorted(assigned), 'items of the map')
        for n, p in items:
            expect_eq(offset_map[n], p, 'entry %d' % n)
            expect_eq(offset_map.get(n), p, 'entry %d' % n)
            expect_eq(self.shelf.get_item_at_position(p)[0], int8_to_str(n),
                      'name at the position of entry %d' % n)
        holes = list(offset_map.gen_holes())
        check(len(set(holes)) == len(holes), 'a hole is reported twice: %s',
              holes)
        expect_eq(sorted(holes), sorted(numbers - assigned), 'holes')
        for n in list(numbers - assigned)[:5]:
            expect_eq(offset_map.get(n, 'none'), 'none', 'a hole')
        expect_eq(offset_map.get(len(numbers), 'none'), 'none', 'out of range')

    def check_all(self):
        shelf = self.shelf
        expect_eq(dict(shelf.items()), self.data, 'items')
        expect_eq(len(list(shelf.items())), len(self.data), 'items')
        expect_eq(sorted(shelf), sorted(self.data), 'names')
        # Lookups while an iteration is under way.
        seen = {}
        for name, found in shelf.items():
            seen[name] = found
            expect_eq(shelf.get_value(name), self.data[name], 'value')
            for other in list(self.data)[:2]:
                expect_eq(shelf.get_value(other), self.data[other], 'value')
        expect_eq(seen, self.data, 'items, with lookups in between')
        for name, position in shelf.iterindex():
            expect_eq(shelf.get_position(name), position, 'position')
            expect_eq(shelf.get_item_at_position(position),
                      (name, self.data[name]), 'item at position')
        for position, item in self.positions.items():
            expect_eq(shelf.get_item_at_position(position), item,
                      'what was stored at position %d' % position)

    def op_get(self, n):
        name = int8_to_str(n)
        expect_eq(self.shelf.get_value(name), self.data.get(name), 'value')
        expect_eq(name in self.shelf, name in self.data, 'membership')
        if name not in self.data:
            expect_eq(self.shelf.get_position(name), None, 'position')
            self.ctx.label('missing')

    def op_bad(self, size):
        name = b'x' * size
        result = outcome(self.shelf.get_value, name)
        expect_eq(result, ('exc', 'ValueError'), 'a name of %d bytes' % size)

    def op_store(self, items, fail, use_offered):
        batch = []
        for n, size, fill in items:
            batch.append((int8_to_str(n), value(size, fill)))
        if use_offered and self.offered:
            batch.append((sorted(self.offered)[-1], b'offered'))
        if fail is not None and fail <= len(batch):
            def failing():
                for number, item in enumerate(batch):
                    if number == fail:
                        raise Failure()
                    yield item
                raise Failure()
            try:
                self.shelf.store(failing())
            except Failure:
                pass
            else:
                raise Violation('the failure is not reported')
            self.ctx.label('failed-store')
            self.check_all()
            return
        old = dict((name, self.shelf.get_position(name)) for name, v in batch)
        result = self.shelf.store(batch)
        new = dict(batch)
        expect_eq([r[0] for r in result], [name for name, v in batch],
                  'names stored')
        for (name, before, after), (n, v) in zip(result, batch):
            expect_eq(before, old[name], 'old position')
            expect_eq(self.shelf.get_item_at_position(after), (name, v),
                      'item at the new position')
            self.positions[after] = (name, v)
        self.data.update(new)
        if len(new) != len(batch):
            self.ctx.label('same-name-twice')

    def op_during(self, kind, every, items):
        """Stores while an iteration is under way."""
        start = dict(self.data)
        current = dict((name, [v]) for name, v in start.items())
        seen = []
        todo = list(items)
        iterator = iter({'iter': self.shelf, 'items': self.shelf.items(),
                         'index': self.shelf.iterindex()}[kind])
        for number, found in enumerate(iterator):
            name = found if kind == 'iter' else found[0]
            seen.append(name)
            check(name in current, 'iteration yields %r, which is not in the '
                  'shelf', name)
            if kind == 'index':
                expect_eq(self.shelf.get_item_at_position(found[1])[0], name,
                          'name at the position')
            elif kind == 'items':
                check(found[1] in current[name], 'the value %.50r of %r was '
                      'never stored', found[1], name)
            if todo and number % every == 0:
                n, size, fill = todo.pop(0)
                self.op_store([[n, size, fill]], None, False)
                current.setdefault(int8_to_str(n), []).append(
                    value(size, fill))
                self.ctx.label('stored-during-iteration')
        missing = set(start) - set(seen)
        check(not missing, 'iteration with stores in between leaves out %s',
              sorted(missing)[:5])
        for name in seen:
            check(seen.count(name) == 1, 'iteration yields %r twice', name)

    def op_next(self, n):
        for x in range(n):
            name = self.shelf.next_name()
            check(name not in self.data, 'the name %r is in use', name)
            check(name not in self.offered, 'the name %r was offered before',
                  name)
            self.offered.add(name)
        self.ctx.label('next-name')

    def op_reopen(self, readonly):
        if self.temporary:
            return
        self.shelf.close()
        self.shelf = Shelf(self.path, readonly=readonly)
        self.check_all()
        self.check_map()
        if readonly:
            name = self.shelf.next_name()
            check(name not in self.data, 'the name %r is in use', name)
            self.shelf.close()
            self.shelf = Shelf(self.path)
        self.offered = set() # one sequence for each instance
        self.ctx.label('reopened')

    def op_rebuild(self):
        """A new shelf with the content of this one."""
        if any(name > int8_to_str(1000 if len(self.data) < 5 else 300) for name in self.data):
            return # The map has a slot for each of them.
        path = self.path + '2'
        file = File(path)
        file.obtain_lock()
        file.seek(0)
        file.truncate()
        for step in Shelf.generate_shelf(file, self.shelf.items()):
            pass
        other = Shelf(file)
        expect_eq(dict(other.items()), self.data, 'items of a copy')
        try:
            for n in range(3):
                name = other.next_name()
                check(name not in self.data, 'a copy offers the name %r, '
                      'which is in use', name)
        finally:
            other.close()
        self.ctx.label('rebuilt')


def run(case, ctx):
    model = Model(case, ctx)
    for op in case['ops']:
        getattr(model, 'op_' + op[0])(*op[1:])
    model.check_all()
    model.check_map()
    model.op_reopen(True)
    ctx.mark(len(model.data) > 2 and ctx.labels['next-name'] > 0)


def run_map(case, ctx):
    """The offset map on its own."""
    path = ctx.path('map')
    with open(path, 'wb') as f:
        f.write(b'p' * case['start'])
    size = case['size']
    file = File(path)
    ctx.on_exit(lambda: file.close())
    file.seek_end()
    for step in OffsetMap.generate(file, size - 2, case['start'] - 1):
        pass
    expect_eq(file.tell(), case['start'], 'position')
    offset_map = OffsetMap(file)
    want = {}
    for n, position in case['entries']:
        if size < 2:
            break
        n %= size - 1 # The last slot is never used: it begins the chain.
        position %= case['start']
        if n in want:
            result = outcome(offset_map.__setitem__, n, position)
            check(result[0] == 'exc', 'an entry can be replaced')
        else:
            offset_map[n] = position
            want[n] = position
    if size and size not in want:
        check(outcome(offset_map.__setitem__, size, 0)[0] == 'exc',
              'an entry out of range is accepted')
    for step in offset_map.gen_stitch():
        pass
    for again in (False, True):
        expect_eq(dict(offset_map.items()), want, 'entries')
        expect_eq(list(offset_map), sorted(want), 'entries')
        expect_eq(offset_map.get_array_size(), size, 'size')
        expect_eq(offset_map.get_start(), case['start'], 'start')
        holes = set(range(size)) - set(want)
        if holes:
            found = list(offset_map.gen_holes())
            expect_eq(len(found), len(holes), 'number of holes')
            expect_eq(set(found), holes, 'holes')
        for n in range(size):
            expect_eq(offset_map.get(n), want.get(n), 'entry %d' % n)
        if not again:
            file.close()
            file = File(path, readonly=True)
            file.seek(case['start'])
            offset_map = OffsetMap(file)
    ctx.label('holes', len(holes))
    ctx.mark(len(want) > 1 and len(holes) > 1)


NAME = st.one_of(gen.small(12), gen.small(300), gen.small(20000),
                 st.integers(0, 2 ** 64 - 1),
                 st.sampled_from([2 ** 64 - 1, 2 ** 63, 2 ** 32, 255, 256,
                                  65535, 65536, 65534, 253, 254]))
INITIAL = st.one_of(gen.small(12), gen.small(300),
                    st.sampled_from([253, 254, 255, 256]))
WIDE = st.sampled_from([0, 1, 700, 3000, 65533, 65534, 65535, 65536])
SIZE = st.one_of(gen.small(20), st.sampled_from([0, 255, 256, 5000, 70000]))


def item(name):
    return st.tuples(name, SIZE, gen.small(255)).map(list)


def strategy(wide=False):
    return gen.record(
        items=st.lists(item(WIDE), max_size=4) if wide else st.one_of(
            st.lists(item(INITIAL), max_size=12),
            # dense
            gen.small(40).map(lambda n: [[i, i % 5, i] for i in range(n)]),
            st.lists(item(gen.small(30)), min_size=10, max_size=30)),
        temporary=st.sampled_from([False, False, False, True]),
        lazy=st.booleans(),
        ops=gen.ops(
            (4, gen.op('store', st.lists(item(NAME), max_size=5),
                       st.one_of(st.none(), st.none(), gen.small(5)),
                       st.booleans())),
            (3, gen.op('get', NAME)), (1, gen.op('bad', st.sampled_from(
                [0, 1, 7, 9, 16]))),
            (1, gen.op('during', st.sampled_from(['iter', 'items', 'index']),
                       st.integers(1, 3), st.lists(item(NAME), min_size=1,
                                                   max_size=4))),
            (3, gen.op('next', st.sampled_from([1, 2, 10, 50]))),
            (2, gen.op('reopen', st.booleans())), (1, gen.op('rebuild'))
            , max_size=3 if wide else 15))


def map_strategy():
    return gen.record(
        start=st.one_of(st.integers(1, 20), st.sampled_from(
            [250, 254, 255, 256, 65000, 65535, 65536])),
        size=st.one_of(gen.small(20), st.sampled_from(
            [1, 2, 100, 254, 255, 256, 257, 600])),
        entries=st.lists(st.tuples(gen.small(600), gen.small(100000)).map(
            list), max_size=40)).filter(
                lambda c: c['size'] > 0 or not c['entries'])


FACETS = [
    Facet('shelf', strategy, run, quick=4000, thorough=150000,
          rule='initial items, then a history of stores (some failing), '
          'lookups, iterations with stores in between, offers of unused names '
          'and reopenings; non-trivial when '
          'it ends with more than two items and names were offered'),
    Facet('wide', lambda: strategy(True), run, quick=24, thorough=1000,
          rule='the same with large initial names'),
    Facet('offset-map', map_strategy, run_map, quick=2400, thorough=80000,
          rule='a map of generated size and position with generated entries; '
          'non-trivial with more than one entry and more than one hole'),
]
