"""C08: packing keeps every reachable object and drops the rest."""
from hypothesis import strategies as st

from .. import clients, disk, gen, records
from ..core import Facet, check
from ..records import ROOT, reachable
from ..storages import FILES
from durus.utils import str_to_int8


class PackStore(records.Store):

    maybe = None

    def op_packstart(self):
        new = self.packing is None
        records.Store.op_packstart(self)
        if new:
            self.maybe = reachable(self.state)
            self.begun = set(self.state)

    def store_all(self, batch):
        records.Store.store_all(self, batch)
        if self.maybe is not None:
            self.maybe |= reachable(self.state, [oid for oid, item in batch])
            self.maybe |= reachable(self.state)

    def op_step(self, n):
        records.Store.op_step(self, n)
        self.forget()

    def pack_ended(self):
        self.forget()
        kept = (self.begun & set(self.found(self.storage))) - self.maybe
        check(not kept, 'the pack kept objects %s, which were unreachable '
              'throughout', sorted(map(str_to_int8, kept)))
        self.maybe = None
        self.ctx.label('pack-ended')

    def op_reopen(self):
        self.maybe = None
        records.Store.op_reopen(self)
        self.forget()

    def op_relink(self, n):
        """An object that is not reachable any more becomes so again."""
        state = self.state
        loose = sorted(set(state) - reachable(state))
        if not loose:
            return
        self.storage.begin()
        oid = loose[n % len(loose)]
        if any(ref not in state for ref in state[oid][1]):
            return # to something removed
        for other in reachable(state, [oid]):
            if any(ref not in state for ref in state[other][1]):
                return
        refs = list(state[ROOT][1]) + [oid]
        self.ctx.label('relinked')
        self.store_all([(ROOT, self.make(ROOT, 0, 0, refs))])

    def op_move(self, n, m):
        """An object moves below another one."""
        state = self.state
        refs = list(state[ROOT][1])
        if len(refs) < 2:
            return
        self.storage.begin()
        oid = refs.pop(n % len(refs))
        target = refs[m % len(refs)]
        batch = [(ROOT, self.make(ROOT, 0, 0, refs))]
        if target != ROOT and target != oid:
            batch.append((target, self.make(
                target, 5, 1, list(state[target][1]) + [oid])))
        self.store_all(batch)



def run_direct(case, ctx):
    store = PackStore(case, ctx)
    store.run(case['ops'])
    store.op_packend()
    store.op_packstart()
    store.op_packend()
    store.op_reopen()
    check(store.matches(store.found(store.storage), store.state, False),
          'the state after reopening is not the one before')
    ctx.mark(ctx.labels['commit-during-pack'] > 0 and
             ctx.labels['pack-removed'] > 0)


def run_crash(case, ctx):
    store = PackStore(case, ctx)
    store.run(case['ops'])
    store.op_packend()
    events = disk.events()
    disk.shim().ioshim_stop()
    store.storage.close()
    records.explore_crashes(store, events, 30)
    ctx.mark(ctx.labels['pack-ended'] > 0 and len(store.states) > 2)


def run_schedule(case, ctx):
    world = clients.World(case, ctx)
    world.run(case['ops'])
    world.final()
    ctx.mark(ctx.labels['pack-removed'] > 0 and (
        ctx.labels['commit-during-pack'] > 0))


RELINK = gen.op('relink', gen.small(9))
MOVE = gen.op('move', gen.small(9), gen.small(9))
STEP = gen.op('step', gen.small(5))
BIG = gen.op('big', st.sampled_from([20, 45, 110]), st.sampled_from([0, 30]))


def flat(parts):
    return [op for part in parts for op in part]


def one_round():
    """Some commits, then a pack with others in between."""
    return st.tuples(
        gen.ops((6, records.COMMIT), (2, MOVE), (1, BIG), (1, RELINK),
                min_size=1, max_size=6),
        st.just([['packstart']]),
        gen.ops((6, STEP), (3, records.COMMIT), (2, RELINK), (2, MOVE),
                min_size=1, max_size=14),
        st.sampled_from([[['packend']], [['packend']], [['reopen']], []])
    ).map(flat)


def strategy(rounds):
    def make():
        fields = records.fields(FILES, [RELINK], 1)
        fields['ops'] = st.lists(one_round(), min_size=1,
                                 max_size=rounds).map(flat)
        return gen.record(**fields)
    return make


C, N = clients.CL, clients.N
EXTRA = [(4, gen.op('unlink', C, st.one_of(st.just(0), N), gen.small(2))),
         (3, gen.op('new', C, gen.small(3), st.one_of(st.just(0), N),
                    gen.small(2))),
         (2, gen.op('pack', C)), (3, gen.op('step', gen.small(4))),
         (1, gen.op('finish'))]
RULE = ('a history of commits, moves and relinks with a pack that advances '
        'in steps in between; ')
FACETS = [
    Facet('direct', strategy(4), run_direct, quick=4000, thorough=150000,
          rule=RULE + 'non-trivial when commits happened during a pack and '
          'a pack removed objects'),
    Facet('crashes', strategy(2), run_crash, quick=800, thorough=30000,
          rule=RULE + 'with crashes at up to 30 points spread over all calls '
          'and inside writes; non-trivial when a pack ended and there were '
          'commits'),
    Facet('clients', clients.strategy(pack=True, extra=EXTRA), run_schedule,
          quick=2400, thorough=60000, rule='schedules of 2..4 clients of a '
          'server that packs; non-trivial when objects were removed and '
          'commits happened during a pack'),
]
