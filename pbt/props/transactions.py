"""C02: commit, abort and eviction follow transaction semantics."""
from hypothesis import strategies as st

from .. import gen, graph, history
from ..core import Facet
from ..history import History
from ..storages import Recording


def run(case, ctx):
    h = History(case, ctx, () if case['storage'] == 'none' else (Recording,))
    h.run(case['ops'])
    h.final()
    names = [op[0] for op in case['ops']]
    evicted = any(n in ('ghost', 'ghostall', 'shrink', 'dropall', 'abort')
                  for n in names)
    if evicted and len(h.oid) > 1:
        ctx.label('evicting')
    ctx.mark('commit' in names and evicted and len(h.oid) > 1)


def strategy(served):
    def make():
        choices = history.mutations() + history.READS + history.EVICTIONS + \
            history.ENDS + [(1, gen.op('verify')), (1, gen.op('reopen')),
                            (1, gen.op('pack'))]
        return gen.record(
            storage=st.sampled_from(['file', 'file2', 'sqlite', 'file',
                                     'file2', 'sqlite', 'memory', 'temp',
                                     'temp2']),
            served=st.just(served),
            cache=st.sampled_from([1, 1, 2, 4, 1000]),
            kinds=graph.kinds_strategy(9),
            ops=st.builds(lambda a, b: a + b, history.intro(), gen.sized(gen.ops(*choices, max_size=15),
                gen.ops(*choices, min_size=15, max_size=40),
                gen.ops(*choices, min_size=30, max_size=80))))
    return make


RULE = ('a history of reads, writes, deletions, attachments, commits, aborts, '
        'ghosting, cache shrinking, dropped references, packs and reopenings '
        'of up to 10 objects; non-trivial when objects beyond the root were '
        'committed and something was evicted or aborted')
FACETS = [
    Facet('direct', strategy(False), run, quick=3200, thorough=150000,
          rule=RULE),
    Facet('served', strategy(True), run, quick=600, thorough=20000,
          rule=RULE),
]
