"""C25: failing writes never corrupt committed data."""
import errno

from hypothesis import strategies as st

from .. import disk, gen, records
from ..core import Facet, Violation, check, expect_eq, in_code_under_test
from ..props.crashes import Served
from ..storages import FILES

ERRORS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]


class Faulty(object):
    """Mixin for a Store: operations during which one call fails."""

    def op_fault(self, n, error, partial, mode, op):
        lib = disk.shim()
        state = len(self.states)
        packing = self.packing
        lib.ioshim_fail(n, ERRORS[error % len(ERRORS)], partial, mode)
        failure = None
        try:
            getattr(self, 'op_' + op[0])(*op[1:])
        except Violation:
            raise
        except Exception as e:
            if not lib.ioshim_fired():
                raise
            failure = repr(e) # not what its traceback keeps open
        finally:
            lib.ioshim_heal()
        fired = lib.ioshim_fired()
        if not fired:
            return
        self.ctx.label('fault-%s-%s' % (chr(fired), op[0]))
        where = 'after %s during %s (call %d, %s%s)' % (
            chr(fired), op[0], n, errno.errorcode[ERRORS[error % len(ERRORS)]],
            ', partial' if partial > 0 else '')
        if failure is None:
            # Then it must have been dealt with.
            self.ctx.label('fault-survived')
        else:
            expect_eq(len(self.states), state, where + ': commits')
        self.after_fault(where, failure, op)
        lo = len(self.states) - 1
        loose = self.packed
        found = self.at_once(where)
        check(self.matches(found, self.state, loose),
              '%s: the state is %s at once', where, self.describe(found))
        events = disk.events()
        records.examine(
            self, disk.crash(self.base, events), lo, lo, loose,
            where + ', reopened', 'pack' if self.case['follow'] == 0 else None)
        if failure is None:
            # What has been promised does not depend on the weather.
            records.examine(
                self, disk.crash(self.base, events, None,
                                 lambda ino, n: n), lo, lo, loose,
                where + ', crashed')

    def at_once(self, where):
        return self.found(self.storage)

    def after_fault(self, where, failure, op):
        if failure is not None:
            if self.packing is not None:
                self.packing = None # It was its end.
            self.storage.begin() # as Connection.abort() and commit() do
            if self.case['reopen'] % 3 == 0:
                self.op_reopen()

    def finish(self):
        self.op_packend()
        # Everything works again.
        self.op_commit([[9, 5, 1, [0]]], 1, 0)
        self.storage.begin()
        self.storage.pack()
        self.forget()
        found = self.found(self.storage)
        check(self.matches(found, self.state, True), 'the state is wrong '
              'after the last pack: %s', self.describe(found))
        self.op_reopen()
        found = self.found(self.storage)
        check(self.matches(found, self.state, True), 'the state is wrong '
              'after reopening: %s', self.describe(found))


class FaultyStore(Faulty, records.Store):
    pass


def run(case, ctx):
    store = FaultyStore(case, ctx)
    store.run(case['ops'])
    store.finish()
    ctx.mark(any(name.startswith('fault-') for name in ctx.labels))


class FaultyServed(Faulty, Served):
    """Commits of clients of a server that cannot write."""

    def after_fault(self, where, failure, op):
        self.server.check()
        if failure is not None:
            self.replace()

    def replace(self):
        self.storage.s.close()
        self.storage = self.server.client()
        self.ctx.on_exit(self.storage.s.close)

    def at_once(self, where):
        storage = self.server.client()
        try:
            return self.found(storage)
        finally:
            storage.s.close()

    def op_packserved(self):
        self.packed = True
        disk.shim().ioshim_mark(1000000)
        self.storage.pack()
        # A commit and a sync, while it goes on.
        for n in range(4000):
            if self.server.packing <= 0:
                break
            self.storage.sync()
        self.storage.sync()
        self.ctx.label('pack')
        self.forget()

    def finish(self):
        self.op_commit([[9, 5, 1, [0]]], 1, 0)
        found = self.at_once('at the end')
        check(self.matches(found, self.state, self.packed), 'the state at '
              'the end is %s', self.describe(found))


def run_served(case, ctx):
    store = FaultyServed(case, ctx)
    store.run(case['ops'])
    store.finish()
    ctx.mark(any(name.startswith('fault-') for name in ctx.labels))


def fault(op):
    return gen.op('fault', st.sampled_from([0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10,
                                            15, 30]),
                  gen.small(3), st.one_of(st.just(-1), gen.small(9),
                                          gen.small(3000)),
                  st.sampled_from([0, 0, 1]), op)


def strategy(served):
    def make():
        pack = (3, fault(gen.op('packserved'))) if served else \
            (3, fault(gen.op('packend')))
        ops = ([(4, fault(records.COMMIT)), pack,
                (1, fault(gen.op('big', st.sampled_from([20, 130]),
                                 st.sampled_from([10, 300]))))] +
               records.COMMITS)
        if not served:
            ops += records.PACKS + [(2, fault(gen.op('step', gen.small(8))))]
        else:
            ops += [(1, gen.op('packserved'))]
        fields = records.fields(FILES, ops, 9)
        fields['reopen'] = gen.small(2)
        return gen.record(**fields)
    return make


RULE = ('a history of commits and packs in which generated calls (write, '
        'sync, truncate, rename, link, unlink, creating open) fail, once or '
        'from then on, after none or a part of the data; non-trivial when at '
        'least one fault happened')
FACETS = [
    Facet('direct', strategy(False), run, quick=8000, thorough=120000,
          rule=RULE),
    Facet('served', strategy(True), run_served, quick=1500, thorough=20000,
          rule=RULE + '; behind a server'),
]
