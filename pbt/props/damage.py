"""C07: damaged or copied files recover; files only grow."""
import os
import shutil

from hypothesis import strategies as st

from .. import disk, gen, records
from ..core import Facet, check, expect_eq, outcome
from ..records import contents, make_record
from ..storages import SHELVES, open_storage
from durus.utils import str_to_int8


class Grown(records.Store):
    """Knows the size of the file after every commit since the last pack."""

    def setup(self):
        self.sizes = []
        self.first = 1
        records.Store.setup(self)
        self.fresh_file()

    def content(self):
        with open(self.path, 'rb') as f:
            return f.read()

    def fresh_file(self):
        """The file was made anew."""
        self.states[-1] = dict(self.state) # without what a pack removed
        self.ino = os.stat(self.path).st_ino
        self.sizes = [(len(self.content()), len(self.states) - 1)]

    def store_all(self, batch):
        before = self.content()
        records.Store.store_all(self, batch)
        if self.sizes:
            after = self.content()
            check(after.startswith(before), 'a commit changes what the file '
                  'held before')
            self.sizes.append((len(after), len(self.states) - 1))

    def op_step(self, n):
        for x in range(n):
            records.Store.op_step(self, 1)
            if os.stat(self.path).st_ino != self.ino:
                self.forget()
                self.fresh_file()
                self.ctx.label('after-pack')

    def pack_ended(self):
        pass


def last_complete(store, n):
    """The number of commits that a file of n bytes holds."""
    return max(k for size, k in store.sizes if size <= n)


def check_file(store, content, k, where, stranger=False):
    """content: a committed state, k, plus an incomplete transaction."""
    ctx = store.ctx
    want = dict((oid, item[0]) for oid, item in store.states[k].items())
    folder = ctx.path('damaged')
    path = os.path.join(folder, 'db')

    def fresh():
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
        with open(path, 'wb') as f:
            f.write(content)

    def untouched(what):
        expect_eq(sorted(os.listdir(folder)), ['db'], '%s, %s: files' % (
            where, what))
        with open(path, 'rb') as f:
            check(f.read() == content, '%s, %s: the file was changed', where,
                  what)
    fresh()
    for readonly in (False, True):
        what = 'read-only' if readonly else 'without repair'
        try:
            storage = open_storage(store.kind, path, readonly=readonly)
        except Exception:
            ctx.label('refused')
        else:
            found = store.found(storage)
            check(found == want, '%s, %s: state %s is not the one after '
                  'commit %d', where, what, store.describe(found), k)
            if readonly:
                refuses(storage, where)
                untouched(what)
            storage.close()
            ctx.label('read')
        untouched(what)
    # Nothing is repaired when writing is not allowed.
    try:
        storage = open_storage(store.kind, path, readonly=True, repair=True)
    except Exception:
        pass
    else:
        check(store.found(storage) == want, '%s, read-only with repair: '
              'state', where)
        storage.close()
    untouched('read-only with repair')
    storage = open_storage(store.kind, path, repair=True)
    try:
        found = store.found(storage)
        check(found == want, '%s: repaired to %s, which is not the state '
              'after commit %d, the last complete one', where,
              store.describe(found), k)
        oid = storage.new_oid()
        check(oid not in found, '%s: id %d in use after repair', where,
              str_to_int8(oid))
        record = make_record(oid, 0, 3, 0, [])
        storage.begin()
        storage.store(oid, record)
        storage.end()
    finally:
        storage.close()
    found[oid] = record
    store.universe.add(oid)
    storage = open_storage(store.kind, path)
    expect_eq(store.found(storage), found, where + ': after repair, a commit '
              'and reopening')
    storage.close()


def refuses(storage, where):
    """A read-only storage does not write."""
    def commit():
        storage.begin()
        oid = storage.new_oid()
        storage.store(oid, make_record(oid, 0, 5, 1, []))
        storage.end()
    check(outcome(commit)[0] == 'exc', '%s: a read-only storage accepts a '
          'commit', where)
    storage.begin()
    outcome(storage.pack)


def run(case, ctx):
    store = Grown(case, ctx)
    store.run(case['ops'])
    store.op_packend()
    store.storage.close()
    content = store.content()
    start = store.sizes[0][0]
    expect_eq(len(content), store.sizes[-1][0], 'size of the file')
    sizes = [size for size, k in store.sizes]
    done = set()
    for how, x, y, z in case['damage']:
        if how == 0: # anywhere
            n = start + x % (len(content) - start + 1)
        elif how == 1: # around a boundary
            n = sizes[x % len(sizes)] + [-9, -8, -7, -4, -1, 0, 1, 3, 4, 7, 8,
                                         9, 16, 17][y % 14]
            n = min(max(n, start), len(content))
        else: # a part of a different transaction
            base = x % len(sizes)
            other = y % len(sizes)
            if other == 0:
                continue
            piece = content[sizes[other - 1]:sizes[other]]
            if len(piece) < 2:
                continue
            m = 1 + z % (len(piece) - 1)
            if (base, other, m) in done:
                continue
            done.add((base, other, m))
            check_file(store, content[:sizes[base]] + piece[:m],
                       store.sizes[base][1],
                       'the first %d bytes and %d bytes of another '
                       'transaction' % (sizes[base], m))
            ctx.label('partial-transaction')
            continue
        if n in done:
            continue
        done.add(n)
        if n not in sizes:
            ctx.label('truncated')
        check_file(store, content[:n], last_complete(store, n),
                   'the first %d of %d bytes' % (n, len(content)))
    ctx.mark(len(sizes) > 1 and ctx.labels['refused'] > 0)


def run_copy(case, ctx):
    """A copy, block by block, of a file that commits are appended to."""
    store = Grown(case, ctx)
    store.run(case['ops'])
    store.op_packend()
    events = disk.events()
    disk.shim().ioshim_stop()
    store.storage.close()
    # Start after the last pack.
    now = store.base.copy()
    ino = os.stat(store.path).st_ino
    first = 0
    for n, e in enumerate(events):
        if e.type == 'R' and e.data.endswith(b'/db'):
            first = n + 1
    for e in events[:first]:
        now.apply(e)
    tail = [e for e in events[first:]]
    copy = b''
    position = 0
    base = len(now.files[ino])
    schedule = case['copy']
    blocks = 0
    x = 0
    while True:
        wait, block = schedule[x % len(schedule)]
        x += 1
        if blocks > 1000:
            block = 65536 # come to an end
        for n in range(wait):
            if position < len(tail):
                e = tail[position]
                if (e.type == 'W' and e.a == ino and case['torn'] and
                        len(e.data) > 1):
                    # half of it
                    cut = 1 + case['torn'] % (len(e.data) - 1)
                    now.apply(e, cut)
                    piece = bytes(now.files[ino][len(copy):len(copy) + block])
                    copy += piece
                now.apply(e)
                position += 1
        piece = bytes(now.files[ino][len(copy):len(copy) + block])
        if not piece and len(copy) >= base:
            break
        copy += piece
        blocks += 1
    check_file(store, copy, last_complete(store, len(copy)),
               'a copy of %d bytes, made during commits' % len(copy))
    ctx.label('blocks', blocks)
    ctx.mark(blocks > 1 and base < len(copy))


def strategy(**more):
    def make():
        fields = records.fields(SHELVES, records.COMMITS + [
            (2, gen.op('packstart')), (2, gen.op('step', gen.small(6))),
            (2, gen.op('packend'))], 10)
        fields.update(more)
        return gen.record(**fields)
    return make


BIG = gen.small(1000000)
FACETS = [
    Facet('prefixes', strategy(damage=st.lists(
        st.tuples(gen.small(2), BIG, BIG, BIG).map(list),
        min_size=3, max_size=12)), run, quick=4000, thorough=100000,
        rule='a history of commits and packs; the resulting file is cut at '
        'generated lengths, or followed by a part of a transaction; opened '
        'without repair, read-only, read-only with repair, and with repair; '
        'non-trivial when there is a commit after the initial part and one '
        'of the files was refused without repair'),
    Facet('copies', strategy(copy=st.lists(st.tuples(
        gen.small(3), st.sampled_from([1, 7, 8, 16, 50, 512, 4096])).map(list),
        min_size=1, max_size=6), torn=st.sampled_from([0, 0, 1, 9, 500])),
        run_copy, quick=4000, thorough=100000,
        rule='a copy of the file made in blocks at generated moments of the '
        'recorded writes; non-trivial when it took several blocks and caught '
        'a part of a commit'),
]
