"""C05: conflicts are precise, and abort always recovers."""
from hypothesis import strategies as st

from .. import clients, gen
from ..core import Facet, check


def run(case, ctx):
    world = clients.World(case, ctx)
    world.run(case['ops'])
    # Everybody does its work again, one after the other.
    for client in world.clients:
        world.redo(client)
    world.final()
    conflicts = ctx.labels['read-conflict'] + ctx.labels['write-conflict']
    ctx.mark(world.k >= 2 and conflicts > 0 and ctx.labels['redone'] > 0)


class Disjoint(clients.World):
    """Every client only touches objects of its own."""

    def __init__(self, case, ctx):
        self.owner = {}
        clients.World.__init__(self, case, ctx)
        n = len(self.clients)
        for i in range(1, len(self.kinds)):
            self.owner[i] = (i - 1) % n
        self.check_all = True

    check_all = False

    def known(self, client, i):
        mine = [j for j in self.owner if self.owner[j] == client.name and
                (j in self.oid or j in client.fresh)]
        return mine[i % len(mine)]

    def make(self, client, k):
        i = clients.World.make(self, client, k)
        self.owner[i] = client.name
        return i

    def conflict(self, client, e, loading=None):
        check(not self.check_all, '%s gets %s although nobody else touches '
              'its objects', client, type(e).__name__)
        clients.World.conflict(self, client, e, loading)

    def commit(self, client):
        stored = bool(client.local)
        done = clients.World.commit(self, client)
        if self.check_all:
            check(done, 'a transaction on objects of its own fails for %s',
                  client)
            if stored:
                self.ctx.label('disjoint-commit')
        return done

    def do_unlink(self, client, i, n):
        self.do_write(client, i, n, None)

    def do_crawl(self, client, n):
        pass


def run_disjoint(case, ctx):
    if len(case['kinds']) < case['clients']:
        case['kinds'] = case['kinds'] + [1] * case['clients']
    world = Disjoint(case, ctx)
    world.run(case['ops'])
    for client in world.clients:
        check(world.commit(client), 'the last commit of %s fails', client)
    world.check_all = False
    world.final()
    ctx.mark(ctx.labels['disjoint-commit'] >= 2)


C = clients.CL
EXTRA = [(4, gen.op('redo', C)), (3, gen.op('blind', C, clients.N,
                                            gen.small(2))),
         (3, gen.op('new', C, gen.small(3), clients.N, gen.small(2)))]
RULE = ('a schedule of transactions of 2..4 clients of one server, with '
        'blind writes, new objects, repeated redoing after conflicts and '
        'operations injected between requests; ')
FACETS = [
    Facet('schedules', clients.strategy(extra=EXTRA), run, quick=5000,
          thorough=100000, rule=RULE + 'non-trivial when there was a '
          'conflict, a redone transaction and at least two commits'),
    Facet('packing', clients.strategy(pack=True, extra=EXTRA), run,
          quick=2400, thorough=40000, rule='the same with packs'),
    Facet('disjoint', clients.strategy(extra=EXTRA), run_disjoint,
          quick=2400, thorough=40000, rule=RULE + 'every client uses objects '
          'of its own; non-trivial when at least two transactions stored '
          'changes'),
    Facet('outside', clients.strategy(pack=True, extra=EXTRA, middle=True), run,
          quick=1600, thorough=30000, rule='the same, where some clients use a '
          'second server whose storage is a client of the first'),
]
