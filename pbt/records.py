"""Histories of commits and packs on one storage, at the level of records,
with everything that the storage does to its files recorded."""
import os
import shutil

from hypothesis import strategies as st

from . import disk, gen
from .core import Violation, check, expect_eq
from .storages import open_storage, SHELVES
from durus.serialize import pack_record
from durus.utils import int8_to_str, str_to_int8

ROOT = int8_to_str(0)
PATTERNS = [b'\0', b'\xff', b'\0\0\0\x01', b'SHELF-1\n', b'abcdefg', b'DFS20\0',
            b'\nNode\n']


def make_record(oid, stamp, size, pattern, refs):
    body = PATTERNS[pattern % len(PATTERNS)]
    data = b'%d:' % stamp + (body * (size // len(body) + 1))[:size]
    return pack_record(oid, data, b''.join(refs))


def reachable(state, start=(ROOT,)):
    seen, todo = set(), list(start)
    while todo:
        oid = todo.pop()
        if oid not in seen:
            seen.add(oid)
            todo.extend(state[oid][1])
    return seen


class Store(object):
    """states[k]: {oid: (record, refs)} after k commits."""

    record = True

    def __init__(self, case, ctx, storage=None):
        self.case, self.ctx = case, ctx
        self.kind = case['storage']
        self.folder = ctx.path('live')
        os.mkdir(self.folder)
        self.path = os.path.join(self.folder, 'db')
        self.stamp = 0
        self.packing = None
        self.packed = False # Has any pack begun?
        self.pack_oids = set()
        self.removed = set()
        self.states = [{}]
        self.state = {} # the last one, without what packs removed
        self.universe = set()
        self.number = 0
        self.storage = storage or self.open()
        self.setup()

    def open(self, **kw):
        storage = open_storage(self.kind, self.path, **kw)
        self.ctx.on_exit(lambda: storage.close())
        return storage

    def setup(self):
        oid = self.storage.new_oid()
        expect_eq(oid, ROOT, 'first oid')
        self.store_all([(ROOT, self.make(ROOT, 0, 0, []))])
        self.base = disk.Disk(self.folder)
        disk.shim().ioshim_start()
        self.ctx.on_exit(disk.shim().ioshim_stop)
        self.mark(2 * len(self.states) - 1)

    def mark(self, n):
        disk.shim().ioshim_mark(n)

    def make(self, oid, size, pattern, refs):
        self.stamp += 1
        self.universe.add(oid)
        return make_record(oid, self.stamp, size, pattern, refs), tuple(refs)

    # -- operations

    def op_commit(self, items, link, unlink):
        """items: [which, size, pattern, refs]"""
        self.storage.begin()
        state = self.state
        live = sorted(reachable(state))
        oids = []
        new = []
        for which, size, pattern, refs in items:
            if which >= 6:
                oid = self.storage.new_oid()
                check(oid not in state, 'the id %d is in use',
                      str_to_int8(oid))
                new.append(oid)
            else:
                oid = live[which % len(live)]
            if oid not in oids:
                oids.append(oid)
            else:
                oids.append(None)
        known = live + new
        batch = []
        for oid, (which, size, pattern, refs) in zip(oids, items):
            if oid is not None and oid != ROOT:
                targets = [known[r % len(known)] for r in refs]
                batch.append((oid, self.make(oid, size, pattern, targets)))
        refs = [r for r in state[ROOT][1]]
        if unlink and refs:
            del refs[unlink % len(refs)]
        if link:
            refs += new
        elif new:
            refs += new[:1]
        root = (ROOT, self.make(ROOT, link % 3, link, refs))
        batch.insert(link % (len(batch) + 1), root)
        self.store_all(batch)

    def op_big(self, n, size):
        """A commit of many new records."""
        self.storage.begin()
        batch = []
        new = []
        for x in range(n):
            oid = self.storage.new_oid()
            new.append(oid)
            batch.append((oid, self.make(oid, size, x, [])))
        refs = list(self.state[ROOT][1]) + new
        batch.append((ROOT, self.make(ROOT, 0, 0, refs)))
        self.store_all(batch)

    def op_empty(self):
        """A commit of nothing."""
        self.store_all([])

    def store_all(self, batch):
        k = len(self.states)
        new = dict(self.state)
        for oid, item in batch:
            new[oid] = item
        self.mark(2 * k)
        try:
            for oid, (record, refs) in batch:
                self.storage.store(oid, record)
            self.states.append(new) # may be found from now on
            self.storage.end(lambda oids: None)
            self.state = new
        except:
            if len(self.states) > k:
                self.states.pop()
            raise
        self.mark(2 * k + 1)
        if self.packing is not None:
            self.ctx.label('commit-during-pack')

    def op_reopen(self):
        self.packing = None
        self.storage.close()
        self.storage = self.open()
        self.ctx.label('reopened')

    def op_packstart(self):
        if self.packing is None:
            self.storage.begin()
            self.packed = True
            self.mark(1000000)
            self.packing = self.storage.get_packer()
            self.ctx.label('pack')

    def op_step(self, n):
        if self.packing is not None:
            for x in range(n):
                try:
                    next(self.packing)
                except StopIteration:
                    self.packing = None
                    self.pack_ended()
                    break

    def op_packend(self):
        while self.packing is not None:
            self.op_step(100)

    def pack_ended(self):
        """Objects that are gone are not part of the state any more."""
        self.ctx.label('pack-ended')
        self.forget()

    def forget(self):
        live = reachable(self.state)
        found = self.found(self.storage)
        state = self.state
        for oid in state:
            if oid not in found:
                check(oid not in live, 'the reachable object %d is gone',
                      str_to_int8(oid))
        # They may be used again for others from now on.
        gone = set(state) - set(found)
        if gone:
            self.state = dict((oid, state[oid]) for oid in state
                              if oid not in gone)
            self.removed |= gone
            self.ctx.label('pack-removed')

    def run(self, ops):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])

    # -- verification

    def found(self, storage):
        result = {}
        for oid in self.universe:
            try:
                result[oid] = storage.load(oid)
            except KeyError:
                pass
        listed = dict(storage.gen_oid_record())
        check(listed == result, 'the records that are listed (%s) are not '
              'those that can be loaded (%s)', sorted(map(str_to_int8, listed)),
              sorted(map(str_to_int8, result)))
        return result

    def matches(self, found, state, loose):
        """loose: unreachable objects may have been removed."""
        if not loose:
            return found == dict((oid, state[oid][0]) for oid in state)
        live = reachable(state)
        if any(oid not in found for oid in live):
            return False
        for oid in found:
            if oid in state:
                if found[oid] != state[oid][0]:
                    return False
            elif oid not in self.removed:
                return False
        return True

    def which(self, found, lo, hi, loose=False):
        for k in range(hi, lo - 1, -1):
            if self.matches(found, self.states[k], loose):
                return k
        return None

    def describe(self, found):
        return dict((str_to_int8(oid), (len(r), r[12:40]))
                    for oid, r in sorted(found.items()))


def open_at(store, folder, **kw):
    """('ok', storage) or ('exc', e)"""
    try:
        return 'ok', open_storage(store.kind, os.path.join(folder, 'db'), **kw)
    except Exception as e:
        return 'exc', e


def contents(folder):
    result = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), 'rb') as f:
            result[name] = f.read()
    return result


def examine(store, crashed, lo, hi, loose, where, follow=None):
    """Does this disk recover to one of the states lo..hi?"""
    ctx = store.ctx
    store.number += 1
    plain = ctx.path('plain%d' % store.number)
    crashed.write(plain)
    before = contents(plain)
    how, storage = open_at(store, plain)
    if how == 'ok':
        try:
            found = store.found(storage)
        finally:
            storage.close()
        k = store.which(found, lo, hi, loose)
        check(k is not None, '%s: without repair the storage opens with a '
              'state that is none of those after commits %d..%d: %s', where,
              lo, hi, store.describe(found))
        ctx.label('opens-without-repair')
        shutil.rmtree(plain, ignore_errors=True)
    else:
        if store.kind in SHELVES:
            check(contents(plain) == before, '%s: files were changed although '
                  'the storage could not be opened (%r)', where, storage)
        check(store.kind != 'sqlite', '%s: the database cannot be opened: %r',
              where, storage)
        ctx.label('needs-repair')
        del storage # and what its traceback keeps open
        shutil.rmtree(plain, ignore_errors=True)
    repaired = ctx.path('repaired%d' % store.number)
    crashed.write(repaired)
    how, storage = open_at(store, repaired, repair=True)
    check(how == 'ok', '%s: the storage cannot be opened with repair: %r',
          where, storage)
    try:
        found = store.found(storage)
        k = store.which(found, lo, hi, loose)
        check(k is not None, '%s: after repair the storage has a state that '
              'is none of those after commits %d..%d: %s', where, lo, hi,
              store.describe(found))
        # Life goes on.
        if follow == 'pack':
            storage.pack()
            again = store.found(storage)
            check(store.matches(again, store.states[k], True), '%s: a pack '
                  'after recovery loses objects', where)
            found = again
        oid = storage.new_oid()
        check(oid not in found, '%s: the id %d is in use', where,
              str_to_int8(oid))
        more = make_record(oid, 0, 10, 1, [])
        storage.begin()
        storage.store(oid, more)
        storage.end()
        want = dict(found)
        want[oid] = more
        store.universe.add(oid)
        expect_eq(store.found(storage), want, where + ': after one more '
                  'commit')
        storage.close()
        how, storage = open_at(store, repaired)
        check(how == 'ok', '%s: after repair and a commit the storage cannot '
              'be opened: %r', where, storage)
        expect_eq(store.found(storage), want, where + ': after one more '
                  'commit and reopening')
        return k
    finally:
        if how == 'ok':
            storage.close()
        shutil.rmtree(repaired, ignore_errors=True)


def crash_points(store, events, limit):
    """[(number of events, cut or None)], spread over the whole log."""
    case = store.case
    cuts = case['cuts'] or [0]
    points = []
    n = 0
    for j, e in enumerate(events):
        if e.type == 'M':
            continue
        points.append((j + 1, None))
        if e.type == 'W' and len(e.data) > 1:
            cut = cuts[n % len(cuts)] % len(e.data)
            n += 1
            if cut:
                points.append((j + 1, cut))
    if len(points) > limit:
        stride = len(points) / float(limit)
        start = case['offset'] % int(stride + 1)
        points = [points[min(int(start + x * stride), len(points) - 1)]
                  for x in range(limit)]
    return points


def explore_crashes(store, events, limit=40):
    case = store.case
    lose = case['lose'] or [0]
    for number, (j, cut) in enumerate(crash_points(store, events, limit)):
        before = events[:j]
        lo, hi, loose = 0, 0, False
        for e in before:
            if e.type == 'M':
                if e.a >= 1000000:
                    loose = True
                elif e.a % 2:
                    lo = hi = max(hi, e.a // 2)
                else:
                    hi = e.a // 2
        hi = min(hi, len(store.states) - 1)
        lo = min(lo, hi)
        amount = lose[number % len(lose)]

        def loss(ino, n):
            return amount % (n + 1)
        crashed = disk.crash(store.base, before, cut, loss if amount else None)
        where = 'crash after call %d of %d (%r%s%s)' % (
            j, len(events), before[-1],
            ', cut at %d' % cut if cut is not None else '',
            ', unsynced writes lost' if amount else '')
        follow = 'pack' if (case['follow'] + number) % 4 == 0 else None
        examine(store, crashed, lo, hi, loose, where, follow)
        store.ctx.label('crash-points')
        if amount:
            store.ctx.label('loss-of-unsynced')
        if cut is not None:
            store.ctx.label('torn-write')


SIZES = st.sampled_from([0, 0, 1, 3, 7, 8, 9, 100, 255, 256, 257, 5000, 70000])
ITEM = st.tuples(gen.small(11), SIZES, gen.small(5),
                 st.lists(gen.small(9), max_size=3)).map(list)
COMMIT = gen.op('commit', st.lists(ITEM, max_size=5), gen.small(3),
                gen.small(3))
COMMITS = [(8, COMMIT), (1, gen.op('empty')), (1, gen.op('reopen')),
           (1, gen.op('big', st.sampled_from([20, 60, 130]),
                      st.sampled_from([0, 10, 300])))]
PACKS = [(2, gen.op('packstart')), (4, gen.op('step', gen.small(8))),
         (2, gen.op('packend'))]


def fields(storages, ops, max_size):
    return dict(
        storage=st.sampled_from(list(storages)),
        ops=gen.ops(*ops, min_size=1, max_size=max_size),
        cuts=st.lists(st.one_of(gen.small(20), gen.small(100000)),
                      min_size=1, max_size=5),
        lose=st.lists(st.sampled_from([0, 0, 1, 2, 3, 100]), min_size=1,
                      max_size=5),
        follow=gen.small(3), offset=gen.small(1000))
