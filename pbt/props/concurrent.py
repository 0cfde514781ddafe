"""C04: serialisable transactions.  C05: precise conflicts and recovery."""
from .. import clients, gen
from ..core import Facet
from hypothesis import strategies as st


def run(case, ctx):
    world = clients.World(case, ctx)
    world.run(case['ops'])
    world.final()
    conflicts = ctx.labels['read-conflict'] + ctx.labels['write-conflict']
    ctx.mark(world.k >= 2 and conflicts > 0)


RULE = ('a schedule of reads, writes, blind writes, new objects, commits, '
        'aborts, evictions, crawls and reconnections of 2..4 clients of one '
        'server, with operations of other clients also injected between the '
        'requests of one operation; non-trivial when a conflict happened and '
        'at least two commits succeeded')
FACETS = [
    Facet('schedules', clients.strategy(), run, quick=6000, thorough=100000,
          rule=RULE),
    Facet('packing', clients.strategy(pack=True), run, quick=4000,
          thorough=50000, rule=RULE + '; with incremental packs in between'),
    Facet('outside', clients.strategy(pack=True, middle=True), run,
          quick=2400, thorough=30000, rule='the same, where some clients use a '
          'second server whose storage is a client of the first'),
]
