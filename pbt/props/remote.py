"""C17: storage calls through a server equal calls on the storage."""
import gc

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Violation, check, expect_eq
from ..storages import Gated, Server, open_storage
from durus.client_storage import ClientStorage
from durus.error import ConflictError, ReadConflictError
from durus.serialize import pack_record, split_oids, unpack_record
from durus.utils import int8_to_str, str_to_int8

ROOT = int8_to_str(0)


class Split(object):
    """A socket that sends and receives in pieces."""

    def __init__(self, s, sizes):
        self.s, self.sizes = s, sizes
        self.calls = 0

    def size(self, n):
        self.calls += 1
        size = self.sizes[self.calls % len(self.sizes)]
        if n > 4000:
            size = max(size, n // 7)
        return max(1, min(size, n))

    def send(self, data):
        return self.s.send(data[:self.size(len(data))])

    def recv(self, n):
        return self.s.recv(self.size(n))

    def close(self):
        self.s.close()


class Refused(ConflictError):
    pass


class Other(Exception):
    pass


def outcome(func, *args):
    """The value, or the kind of error."""
    try:
        return ('ok', func(*args))
    except ReadConflictError:
        return ('invalid',)
    except KeyError:
        return ('missing',)
    except Refused:
        return ('refused',)
    except Other:
        return ('other',)


def follow(state, start):
    """What is reachable, or None if something is missing."""
    seen, todo = set(), [start]
    while todo:
        oid = todo.pop()
        if oid not in seen:
            if oid not in state:
                return None
            seen.add(oid)
            todo.extend(split_oids(unpack_record(state[oid])[2]))
    return seen


class Base(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.kind = case['storage']
        self.server = Server(
            lambda: open_storage(self.kind, ctx.path('db'), (Gated,)),
            ctx.path('sock'))
        ctx.on_exit(self.server.stop)
        self.stamp = 0

    def connect(self, pool):
        client = ClientStorage(address=self.server.path)
        self.ctx.on_exit(client.s.close)
        client.s.settimeout(30)
        client.oid_pool_size = pool
        client.s = Split(client.s, self.case['pieces'])
        return client

    def record(self, oid, size, refs, again=False):
        self.stamp += not again
        data = b'%d:' % self.stamp
        if self.stamp % 3 == 0:
            data += b'\nNode\n' # Looks like the name of a class.
        if size:
            data += (b'\0\xffab' * (size // 4 + 1))[:size]
        return pack_record(oid, data, b''.join(refs))

    def pack(self, client):
        client.pack()
        gate = self.server.storage.__dict__.get('gate')
        if gate is not None:
            gate.finish(self.server.alive)
            # The server notices the end in its next round.
            client.load(ROOT)


class Same(Base):
    """One client, next to a storage of the same kind."""

    def __init__(self, case, ctx):
        Base.__init__(self, case, ctx)
        self.direct = open_storage(self.kind, ctx.path('direct'))
        ctx.on_exit(self.direct.close)
        self.client = self.connect(case['pool'])
        self.oids = []  # pairs of ids
        self.stored = set()
        self.allocated = []
        self.lazy = {}
        self.rename = {}
        self.told = ([], []) # of removals, at commits
        self.missing = [b'\xff' * 8, int8_to_str(2 ** 63),
                        int8_to_str(2 ** 63 - 1), int8_to_str(10 ** 6)]
        self.batch = {}
        root = self.new_oid()
        expect_eq(root, (ROOT, ROOT), 'first id')
        self.op_store(0, 0, [])
        self.op_end(0)

    def new_oid(self):
        pair = (self.direct.new_oid(), self.client.new_oid())
        for i, old in enumerate(self.oids):
            if old[0] == pair[0] or old[1] == pair[1]:
                # Removed objects' ids may be used again.
                check(i in self.stored and self.gone(i) and outcome(
                    self.client.load, old[1])[0] != 'ok',
                    'the id %r is given again', pair[1])
                self.stored.discard(i)
                self.oids[i] = (int8_to_str(2 ** 62 + i),) * 2
        self.oids.append(pair)
        self.rename[pair[1]] = pair[0]
        return pair

    def both(self, direct, client, what):
        """Do the same on both sides."""
        a = outcome(direct)
        b = outcome(client)
        expect_eq(b, a, '%s through a server' % what)
        return a

    def pick(self, i):
        i %= len(self.oids) + len(self.missing)
        if i < len(self.oids):
            return self.oids[i]
        oid = self.missing[i - len(self.oids)]
        return (oid, oid)

    def canon(self, record):
        """A record in terms of the ids on the direct side."""
        oid, data, refs = unpack_record(record)
        return (self.rename.get(oid, oid), data,
                [self.rename.get(r, r) for r in split_oids(refs)])

    def plain(self, record):
        oid, data, refs = unpack_record(record)
        return (oid, data, split_oids(refs))

    def op_new(self):
        self.new_oid()

    def op_store(self, i, size, refs):
        i %= len(self.oids)
        if i in self.batch or str_to_int8(self.oids[i][0]) >= 2 ** 62:
            return
        records = []
        for side in (0, 1):
            targets = [self.oids[r % len(self.oids)][side] for r in refs
                       if r % len(self.oids) in self.batch or
                       r % len(self.oids) in self.stored and
                       not self.gone(r % len(self.oids))]
            records.append(self.record(self.oids[i][side], size, targets,
                                       again=side))
        if not self.batch:
            self.direct.begin()
            self.client.begin()
        self.batch[i] = records

    def op_end(self, how):
        removed = set(i for i in self.batch if i in self.stored and
                      self.gone(i))
        for i in removed:
            del self.batch[i] # It can't be written any more.
        for side, storage in ((0, self.direct), (1, self.client)):
            storage.begin()
            for i, records in self.batch.items():
                storage.store(self.oids[i][side], records[side])
        self.both(lambda: self.direct.end(self.told[0].extend),
                  lambda: self.client.end(self.told[1].extend), 'a commit')
        self.stored.update(self.batch)
        self.batch = {}

    def gone(self, i):
        return outcome(self.direct.load, self.oids[i][0])[0] != 'ok'

    def op_load(self, i):
        a, b = self.pick(i)
        self.both(lambda: self.plain(self.direct.load(a)),
                  lambda: self.canon(self.client.load(b)), 'loading %r' % b)

    def op_bulk(self, numbers, repeat):
        pairs = [self.pick(i) for i in numbers] * repeat
        self.both(
            lambda: [self.plain(r) for r in self.direct.bulk_load(
                [p[0] for p in pairs])],
            lambda: [self.canon(r) for r in self.client.bulk_load(
                [p[1] for p in pairs])], 'loading in bulk')

    def op_sync(self):
        # Some were perhaps reported at a commit.
        told, self.told = self.told, ([], [])
        self.both(lambda: sorted(self.direct.sync() + told[0]),
                  lambda: sorted(self.rename.get(o, o)
                                 for o in self.client.sync() + told[1]),
                  'synchronising')

    def op_pack(self):
        if self.kind == 'memory':
            return
        self.batch = {}
        self.direct.begin()
        self.direct.pack()
        self.pack(self.client)

    def op_traverse(self, i, size):
        a, b = self.pick(i)
        r = self.both(
            lambda: sorted((oid, self.plain(record)) for oid, record in
                           self.direct.gen_oid_record(start_oid=a,
                                                      batch_size=size)),
            lambda: sorted((self.rename.get(oid, oid), self.canon(record))
                           for oid, record in self.client.gen_oid_record(
                               start_oid=b, batch_size=size)),
            'traversing from %r' % b)
        if r[0] == 'ok':
            self.ctx.label('traversed')

    def op_all(self):
        everything = dict((oid, self.plain(record)) for oid, record in
                          self.direct.gen_oid_record())
        found = dict((self.rename.get(oid, oid), self.canon(record))
                     for oid, record in self.client.gen_oid_record())
        for oid in found:
            expect_eq(found[oid], everything.get(oid), 'record')
        todo, seen = [ROOT], set()
        while todo:
            oid = todo.pop()
            if oid not in seen:
                seen.add(oid)
                todo.extend(everything[oid][2])
        expect_eq(set(found) >= seen, True, 'all of them')


def run_same(case, ctx):
    same = Same(case, ctx)
    for op in case['ops']:
        getattr(same, 'op_' + op[0])(*op[1:])
    same.op_end(0)
    for i in range(len(same.oids) + len(same.missing)):
        same.op_load(i)
    names = [op[0] for op in case['ops']]
    ctx.mark('store' in names and ('load' in names or 'bulk' in names or
                                   'traverse' in names))


class Several(Base):
    """Several clients; the model knows what each has been told."""

    def __init__(self, case, ctx):
        Base.__init__(self, case, ctx)
        self.state = {}
        self.removed = set()
        self.pending = set() # Removed, and the server has not asked.
        self.clients = {}
        self.invalid = {}
        self.fresh = {}
        self.held = {}
        self.back = {}
        self.lazy = []
        for number in range(case['clients']):
            self.add(number)
        self.op_end(0, [], 0, 0, 1)
        expect_eq(list(self.state), [ROOT], 'first id')

    def add(self, number):
        pool = self.case['pools'][number % len(self.case['pools'])]
        self.clients[number] = self.connect(pool)
        self.invalid[number] = set()
        self.fresh[number] = []     # ids to use
        self.held[number] = set()   # ids given and not stored
        self.back[number] = set()   # ids given back to the pool
        # Perhaps told of removals that happened before it came.
        self.unsure = dict(getattr(self, 'unsure', {}))
        self.unsure[number] = set(self.removed)

    def absorb(self):
        """The server asks its storage what was removed."""
        for d in self.clients:
            self.invalid[d] |= self.pending
        self.pending = set()

    def number(self, c):
        return sorted(self.clients)[c % len(self.clients)]

    def op_new(self, c, pick=True):
        c = self.number(c) if pick else c
        oid = self.clients[c].new_oid()
        check(oid not in self.state, 'the new id %r is in use', oid)
        for d in self.clients:
            check(oid not in self.held[d] or c == d and
                  oid in self.back[c],
                  'the new id %r was given to a client', oid)
            check(oid not in self.invalid[d] | self.pending, 'the new id %r was removed '
                  'and a client was not told', oid)
        self.held[c].add(oid)
        self.back[c].discard(oid)
        self.fresh[c].append(oid)

    def pick(self, i):
        known = sorted(self.state) + sorted(self.removed)
        extra = [b'\xff' * 8, int8_to_str(2 ** 63), int8_to_str(10 ** 6)]
        i %= len(known) + len(extra)
        return (known + extra)[i]

    def expected(self, c, oid):
        """-> acceptable outcomes"""
        if oid in self.invalid[c]:
            return [('invalid',)]
        if oid in self.state:
            return [('ok', self.state[oid])]
        if oid in self.unsure[c] or oid in self.pending:
            return [('invalid',), ('missing',)]
        return [('missing',)]

    def verify(self, c, got, oid, what):
        want = self.expected(c, oid)
        if got not in want:
            raise Violation('%s %r: client %d gets %.80r, expected %s' % (
                what, oid, c, got, ' or '.join('%.80r' % (w,) for w in want)))

    def op_load(self, c, i):
        c = self.number(c)
        oid = self.pick(i)
        self.verify(c, outcome(self.clients[c].load, oid), oid, 'loading')

    def bulk_expected(self, c, oids):
        records = []
        for oid in oids:
            want = self.expected(c, oid)
            if want[0][0] != 'ok':
                return want
            records.append(want[0][1])
        return [('ok', records)]

    def op_bulk(self, c, numbers, repeat):
        c = self.number(c)
        oids = [self.pick(i) for i in numbers] * repeat
        got = outcome(lambda: list(self.clients[c].bulk_load(oids)))
        want = self.bulk_expected(c, oids)
        if got not in want:
            raise Violation('loading %d ids in bulk: client %d gets %.200r, '
                            'expected %.200r' % (len(oids), c, got, want))
        if got[0] != 'ok':
            self.ctx.label('bulk-error')

    def op_lazy(self, c, numbers, taken):
        """A generator that is not exhausted."""
        c = self.number(c)
        oids = [self.pick(i) for i in numbers]
        want = self.bulk_expected(c, oids)
        generator = self.clients[c].bulk_load(oids)
        got = outcome(lambda: [r for k, r in zip(range(taken), generator)])
        if taken and oids:
            if want[0][0] != 'ok':
                check(got in want, 'loading in bulk: got %.100r, expected '
                      '%.100r', got, want)
            else:
                expect_eq(got, ('ok', want[0][1][:taken]), 'first records')
                self.lazy.append((generator, want[0][1][taken:]))

    def op_drain(self):
        """Go on with these generators."""
        for generator, rest in self.lazy:
            expect_eq(list(generator), rest, 'the rest of the records')
        self.lazy = []

    def op_traverse(self, c, i, size):
        c = self.number(c)
        start = self.pick(i)
        got = outcome(lambda: sorted(
            self.clients[c].gen_oid_record(start_oid=start, batch_size=size)))
        seen = follow(self.state, start)
        if seen is None:
            check(got[0] in ('missing', 'invalid'), 'traversing a graph with '
                  'missing objects: %.100r', got)
        elif seen & self.invalid[c]:
            expect_eq(got[0], 'invalid', 'traversing')
        else:
            expect_eq(got, ('ok', sorted((oid, self.state[oid])
                                         for oid in seen)), 'traversing')
            self.ctx.label('traversed')

    def op_partial(self, c, size, taken):
        """A traversal that is given up."""
        c = self.number(c)
        try:
            for k, (oid, record) in zip(range(taken), self.clients[
                    c].gen_oid_record(batch_size=size)):
                check(self.state.get(oid) == record, 'record of %r', oid)
        except (KeyError, ConflictError):
            pass

    def told(self, c, oids, what):
        want = self.invalid[c]
        got = set(oids)
        check(len(got) == len(oids), '%s: told twice', what)
        if got != want and (got - want) - self.unsure[c] or want - got:
            raise Violation('%s: client %d is told of %s, expected %s' % (
                what, c, sorted(map(str_to_int8, got)),
                sorted(map(str_to_int8, want))))
        self.invalid[c] = set()
        self.unsure[c] = set()

    def op_sync(self, c):
        c = self.number(c)
        self.absorb()
        self.told(c, self.clients[c].sync(), 'synchronising')

    def op_end(self, c, items, link, how, new):
        """A commit, which the handler of invalidations may refuse."""
        c = self.number(c)
        client = self.clients[c]
        batch = {}
        live = sorted(follow(self.state, ROOT)) if self.state else []
        client.begin()
        before = list(self.fresh[c])
        for i in range(new):
            self.op_new(c, False)
        fresh = list(self.fresh[c])
        refs = list(fresh)
        if ROOT in self.state:
            refs += [r for r in split_oids(unpack_record(
                self.state[ROOT])[2]) if r not in refs and r in live]
        for oid in fresh:
            batch[oid] = self.record(oid, 5, [])
        for i, size, targets in items:
            oid = (live + fresh)[i % len(live + fresh)]
            known = live + fresh
            batch[oid] = self.record(
                oid, size, [known[t % len(known)] for t in targets])
        if link or ROOT in batch:
            if link % 3 == 2 and len(refs) > 1:
                del refs[link % len(refs)]
            if ROOT in refs:
                refs.remove(ROOT)
            batch[ROOT] = self.record(ROOT, 2, refs)
        for oid, record in batch.items():
            client.store(oid, record)
        called = []
        self.absorb()

        def handler(oids):
            called.append(list(oids))
            if how == 1:
                raise Refused(oids)
            if how == 2:
                raise Other()
        got = outcome(client.end, handler)
        if called:
            self.told(c, called[0], 'committing')
            check(len(called) == 1, 'invalidations handled twice')
        else:
            check(not self.invalid[c], 'committing: client %d is not told '
                  'of %s', c, sorted(map(str_to_int8, self.invalid[c])))
            self.unsure[c] = set()
        if called and how:
            expect_eq(got, (['ok', 'refused', 'other'][how],),
                      'outcome of a commit')
            self.back[c].update(oid for oid in fresh if oid not in before)
            self.fresh[c] = before
            self.ctx.label('refused')
            return
        expect_eq(got, ('ok', None), 'outcome of a commit')
        self.state.update(batch)
        self.removed -= set(batch)
        self.held[c] -= set(batch)
        self.fresh[c] = []
        for d in self.clients:
            self.unsure[d] -= set(batch)
            if d != c:
                self.invalid[d].update(batch)

    def op_pack(self, c):
        c = self.number(c)
        if self.kind == 'memory' or ROOT in self.invalid[c]:
            return
        self.pack(self.clients[c])
        gone = set(self.state) - follow(self.state, ROOT)
        for oid in gone:
            del self.state[oid]
        self.removed |= gone
        self.pending |= gone
        if gone:
            self.ctx.label('pack-removed')

    def op_join(self):
        if len(self.clients) < 5:
            self.add(max(self.clients) + 1)

    def op_leave(self, c):
        c = self.number(c)
        if len(self.clients) > 1:
            self.clients.pop(c).close()
            del self.invalid[c]


def run_several(case, ctx):
    several = Several(case, ctx)
    for op in case['ops']:
        getattr(several, 'op_' + op[0])(*op[1:])
        if op[0] == 'lazy' and op[3] % 2:
            del several.lazy[:]
    for c in sorted(several.clients):
        for i in range(len(several.state) + len(several.removed) + 3):
            several.op_load(c, i)
    names = [op[0] for op in case['ops']]
    ctx.mark(names.count('end') > 1 and ('load' in names or 'bulk' in names))


def pieces():
    return st.one_of(
        st.just([10 ** 7]), st.just([10 ** 7]), st.just([1]),
        st.lists(st.integers(1, 20), min_size=1, max_size=4))


def sizes():
    return st.one_of(st.just(0), st.sampled_from([0, 1, 8, 300, 70000]),
                     st.sampled_from([0, 5, 40, 999999, 1200000]))


def same():
    i = gen.small(9)
    choices = [
        (2, gen.op('new')),
        (4, gen.op('store', i, sizes(), st.lists(i, max_size=3))),
        (3, gen.op('end', gen.small(1))), (3, gen.op('load', i)),
        (3, gen.op('bulk', st.lists(i, max_size=5),
                   st.sampled_from([1, 1, 1, 60]))),
        (1, gen.op('sync')), (1, gen.op('pack')),
        (2, gen.op('traverse', i, st.sampled_from([1, 2, 100]))),
        (1, gen.op('all'))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        pool=st.sampled_from([1, 2, 32, 127, 128, 255]), pieces=pieces(),
        ops=gen.sized(gen.ops(*choices, max_size=10),
                      gen.ops(*choices, min_size=6, max_size=30)))


def several():
    i = gen.small(12)
    c = gen.small(3)
    item = st.tuples(i, st.sampled_from([0, 3, 300, 70000]),
                     st.lists(i, max_size=3)).map(list)
    choices = [
        (1, gen.op('new', c)),
        (6, gen.op('end', c, st.lists(item, max_size=3), gen.small(5),
                   st.sampled_from([0, 0, 0, 1, 2]),
                   st.sampled_from([0, 0, 1, 1, 2, 3, 150]))),
        (3, gen.op('load', c, i)),
        (2, gen.op('bulk', c, st.lists(i, max_size=5),
                   st.sampled_from([1, 1, 1, 40]))),
        (1, gen.op('lazy', c, st.lists(i, max_size=5), gen.small(3))),
        (1, gen.op('drain')), (3, gen.op('sync', c)), (1, gen.op('pack', c)),
        (1, gen.op('traverse', c, i, st.sampled_from([1, 2, 100]))),
        (1, gen.op('partial', c, st.sampled_from([1, 2, 100]),
                   gen.small(3))),
        (1, gen.op('join')), (1, gen.op('leave', c))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'memory']),
        clients=st.integers(1, 3), pieces=pieces(),
        pools=st.lists(st.sampled_from([1, 2, 3, 32, 255]), min_size=1,
                       max_size=3),
        ops=gen.sized(gen.ops(*choices, max_size=10),
                      gen.ops(*choices, min_size=8, max_size=30),
                      gen.ops(*choices, min_size=20, max_size=50)))


FACETS = [
    Facet('same', same, run_same, quick=2400, thorough=60000,
          rule='one sequence of storage calls on a storage and through a '
          'client and a server of another one of that kind; non-trivial '
          'when something was stored and loaded'),
    Facet('several', several, run_several, quick=4000, thorough=100000,
          rule='storage calls of up to five clients against a model of the '
          'records and of what every client was told; non-trivial with '
          'several commits and loads'),
]
