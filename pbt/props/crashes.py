"""C06: commits are atomic and durable across crashes at any point."""
from hypothesis import strategies as st

from .. import disk, gen, records
from ..core import Facet, check
from ..storages import FILES, Server, open_storage
from durus.client_storage import ClientStorage


def run(case, ctx):
    store = records.Store(case, ctx)
    store.run(case['ops'])
    events = disk.events()
    disk.shim().ioshim_stop()
    store.storage.close()
    records.explore_crashes(store, events, case.get('limit', 40))
    ctx.mark(len(store.states) > 2 and ctx.labels['torn-write'] > 0)


class Served(records.Store):
    """The commits come from clients of a server."""

    def __init__(self, case, ctx):
        self.clients = []
        records.Store.__init__(self, case, ctx)

    def open(self, **kw):
        self.server = Server(lambda: open_storage(self.kind, self.path),
                             self.ctx.path('sock%d' % len(self.clients)))
        self.ctx.on_exit(self.server.stop)
        storage = self.server.client()
        storage.oid_pool_size = 1 + self.case['follow']
        self.ctx.on_exit(storage.s.close)
        self.clients.append(storage)
        return storage

    def found(self, storage):
        if not isinstance(storage, ClientStorage):
            return records.Store.found(self, storage)
        result = {}
        for oid in self.universe:
            try:
                result[oid] = storage.load(oid)
            except KeyError:
                pass
        return result

    def op_reopen(self):
        self.storage.s.close()
        self.server.stop()
        self.storage = self.open()


def run_served(case, ctx):
    store = Served(case, ctx)
    store.run(case['ops'])
    events = disk.events()
    disk.shim().ioshim_stop()
    store.server.stop()
    records.explore_crashes(store, events, 25)
    ctx.mark(len(store.states) > 2 and ctx.labels['torn-write'] > 0)


def strategy(max_size, storages=FILES):
    return lambda: gen.record(**records.fields(
        storages, records.COMMITS, max_size))


RULE = ('a history of commits of generated records; the crash points are '
        'all boundaries of the calls that changed files, plus cuts inside '
        'the writes, with and without loss of what was not synced (at most '
        '40 per history, spread evenly); non-trivial when more than one '
        'commit was made and a write was torn')
FACETS = [
    Facet('direct', strategy(8), run, quick=1600, thorough=40000, rule=RULE),
    Facet('served', strategy(6), run_served, quick=400, thorough=10000,
          rule=RULE + '; through a server'),
]
