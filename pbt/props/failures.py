"""C03: a commit that raises changes nothing, and can be recovered from."""
from hypothesis import strategies as st

from .. import classes as C
from .. import gen, graph, history
from ..core import Facet, Violation, check
from ..history import History, FAILING
from ..storages import Recording
from durus.error import WriteConflictError


class Refusal(Exception):
    pass


class Failing(object):
    """Mixin: a storage whose calls fail on demand."""

    plan = None # [method, number of calls to let through, exception]

    def _fail(self, method):
        if self.plan is not None and self.plan[0] == method:
            self.plan[1] -= 1
            if self.plan[1] < 0:
                exc = self.plan[2]
                self.plan = None
                self.fired = True
                raise exc

    def begin(self):
        self._fail('begin')
        super().begin()

    def store(self, oid, record):
        self._fail('store')
        super().store(oid, record)

    def new_oid(self):
        self._fail('new_oid')
        return super().new_oid()

    def end(self, handle_invalidations=None):
        self._fail('end')
        super().end(handle_invalidations)


class FailHistory(History):

    def op_fail(self, method, n, how):
        """The storage refuses the next commit at some point."""
        batch = self.to_store()
        if self.poisoned(batch) or not self.changed | self.attempted:
            return
        exc = {'error': Refusal('refused'), 'os': OSError(28, 'full'),
               'conflict': WriteConflictError([]), 'stop': C.Stop()}[how]
        self.storage.fired = False
        self.storage.plan = [method, 0 if method == 'begin' else n, exc]
        try:
            try:
                self.connection.commit()
            finally:
                self.storage.plan = None
        except (Refusal, OSError, WriteConflictError, C.Stop) as e:
            check(e is exc, 'unexpected %r', e)
            self.ctx.label('storage-failed-in-' + method)
            self.check_new()
            self.verify()
        else:
            check(not self.storage.fired, 'failure in %s was swallowed',
                  method)
            self.after_commit(batch)

    def check_new(self):
        for i, r in enumerate(self.real):
            if r is not None and i not in self.oid and i not in self.dead:
                check(r._p_oid is None and r._p_is_unsaved() and
                      r._p_connection is None, 'new object %d is not unsaved '
                      'after a failed commit', i)

    def op_cure(self):
        """Remove whatever cannot be stored, then commit again."""
        batch = self.to_store()
        if not self.poisoned(batch):
            return
        for round in range(20):
            sick = [i for i in sorted(self.to_store()) if self.poisoned([i])]
            if not sick:
                break
            for i in sick:
                self.cure(i)
        self.ctx.label('cured')
        self.op_commit()

    def cure(self, i):
        kind = graph.KINDS[self.kinds[i]]
        state = self.states[i]
        if isinstance(kind, graph.ListKind):
            fields = [n for n, v in enumerate(state)
                      if history.has_poison(v)]
        else:
            fields = [f for f, v in state.items() if history.has_poison(v)]
        if self.kinds[i] == FAILING:
            fields.append('bad')
        for f in fields:
            kind.set(self.obj(i), f, 0)
            kind.mset(state, f, 0)
        self.touched(i)


def run(case, ctx):
    h = FailHistory(case, ctx, () if case['served'] else (Failing, Recording))
    h.run(case['ops'])
    h.final()
    failed = [n for n in ctx.labels if n.startswith('storage-failed') or
              n == 'failed-commit']
    ctx.mark(bool(failed) and len(h.oid) > 1)


def strategy(served):
    def make():
        choices = history.mutations(4) + history.READS + [
            (1, gen.op('ghostall')), (1, gen.op('dropall')),
            (1, gen.op('shrink')), (1, gen.op('gc')),
            (7, gen.op('commit')), (2, gen.op('abort')), (4, gen.op('cure')),
            (1, gen.op('reopen')), (1, gen.op('pack'))]
        if not served:
            choices.append((5, gen.op('fail', st.sampled_from(
                ['begin', 'store', 'store', 'end', 'new_oid']), gen.small(4),
                st.sampled_from(['error', 'os', 'conflict', 'stop']))))
        bad = st.sampled_from([['poison', 'lambda'], ['poison', 'reduce'],
                               ['poison', 'stop'], ['poison', 'foreign'],
                               ['nested', ['poison', 'lambda']]])
        some = gen.ops(*(history.mutations()), max_size=4)
        poison = st.builds(
            lambda a, i, n, p, b: a + [['set', 0, n, ['ref', i]],
                                       ['set', i, n, p], ['commit']] + b,
            some, history.I, history.F, bad, st.one_of(
                gen.ops(*choices, max_size=4),
                st.just([['cure'], ['abort']]), st.just([['abort']])))
        episodes = [poison]
        if not served:
            episodes.append(st.builds(
                lambda a, f, b: a + [f] + b, some, choices[-1][1],
                st.one_of(gen.ops(*choices, max_size=4),
                          st.just([['commit'], ['abort']]),
                          st.just([['abort'], ['commit']]))))
        body = st.one_of(
            gen.ops(*choices, min_size=3, max_size=25),
            *[st.lists(st.one_of(*episodes), min_size=1, max_size=5).map(
                lambda l: sum(l, []))] * 2)
        kinds = st.lists(st.one_of(
            st.sampled_from([0, 1, 7, FAILING]), gen.small(FAILING)),
            min_size=2, max_size=9)
        return gen.record(
            storage=st.sampled_from(['file', 'file2', 'sqlite', 'file',
                                     'file2', 'sqlite', 'memory', 'temp',
                                     'temp2']),
            served=st.just(served),
            cache=st.sampled_from([1, 3, 1000]), kinds=kinds,
            ops=st.builds(lambda a, b: a + b, history.intro(), body))
    return make


RULE = ('a history in which commits fail (values that cannot be pickled, '
        'objects of other connections, failing __getstate__, refusal by the '
        'storage at any call), followed by aborts, cures, retries, packs and '
        'reopenings; non-trivial when a commit failed and objects beyond the '
        'root were committed')
FACETS = [
    Facet('direct', strategy(False), run, quick=3200, thorough=150000,
          rule=RULE),
    Facet('served', strategy(True), run, quick=600, thorough=20000,
          rule=RULE),
]
