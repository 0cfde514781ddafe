"""C19: a file has at most one writer, and read-only means read-only."""
import fcntl
import hashlib
import json
import os
import signal
import traceback

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, HarnessError, Violation, check, expect_eq
from ..storages import open_storage
from durus.serialize import pack_record, unpack_record
from durus.utils import int8_to_str

ROOT = int8_to_str(0)


class Agent(object):
    """Opens and uses storages, in this process."""

    def __init__(self):
        self.storages = {}
        self.packers = {}

    def do(self, name, *args):
        """-> ['ok', value] or ['failed', description]"""
        try:
            return ['ok', getattr(self, name)(*args)]
        except Exception as e:
            text = ''.join(traceback.format_exception_only(type(e), e))
            e.__traceback__ = None
            return ['failed', text]

    def open(self, slot, kind, path, options):
        self.storages[slot] = open_storage(kind, path, **options)

    def commit(self, slot, value, objects, empty=False):
        storage = self.storages[slot]
        storage.begin()
        oids = []
        if not empty:
            try:
                storage.load(ROOT)
            except KeyError:
                assert storage.new_oid() == ROOT
            for i in range(objects):
                oid = storage.new_oid()
                oids.append(oid)
                storage.store(oid, pack_record(oid, b'object', b''))
            storage.store(ROOT, pack_record(ROOT, b'%d' % value,
                                            b''.join(oids)))
        storage.end()

    def step(self, slot, n):
        """Packs a little (or all of it)."""
        storage = self.storages[slot]
        if slot not in self.packers:
            self.packers[slot] = storage.get_packer()
        for i in range(n):
            try:
                next(self.packers[slot])
            except StopIteration:
                del self.packers[slot]
                return 'done'
        return 'going'

    def drop(self, slot):
        """Give up packing."""
        self.packers.pop(slot).close()

    def pack(self, slot):
        self.storages[slot].pack()

    def create(self, slot):
        self.storages[slot].create_from_records([])

    def value(self, slot):
        """The number in the root, or -1."""
        try:
            record = self.storages[slot].load(ROOT)
        except KeyError:
            return -1
        oid, data, refs = unpack_record(record)
        for i in range(0, len(refs), 8):
            self.storages[slot].load(refs[i:i + 8])
        return int(data)

    def close(self, slot):
        if slot in self.packers:
            self.packers.pop(slot).close()
        self.storages.pop(slot).close()

    def stop(self):
        for slot in list(self.storages):
            try:
                self.close(slot)
            except Exception:
                pass


class Process(object):
    """An agent in a process of its own."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                os.close(b)
                os.close(c)
                agent = Agent()
                with os.fdopen(a) as r, os.fdopen(d, 'w') as w:
                    for line in r:
                        w.write(json.dumps(agent.do(*json.loads(line))) + '\n')
                        w.flush()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.r = os.fdopen(c)
        self.w = os.fdopen(b, 'w')

    def do(self, *args):
        self.w.write(json.dumps(args) + '\n')
        self.w.flush()
        line = self.r.readline()
        if not line:
            raise HarnessError('the other process is gone')
        return json.loads(line)

    def kill(self):
        if self.pid:
            self.w.close()
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.r.close()
            self.pid = 0

    stop = kill


class Model(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = case['storage']
        self.dir = ctx.path('files')
        os.mkdir(self.dir)
        self.path = os.path.join(self.dir, 'db')
        # Processes first, so that they inherit no open files.
        self.agents = []
        for where in case['agents']:
            agent = Agent() if where == 'here' else Process()
            self.agents.append(agent)
            ctx.on_exit(agent.stop)
        self.current = None     # the number stored, or None without a file
        self.damaged = False
        self.writer = None      # (agent, slot)
        self.readers = {}       # (agent, slot) -> the number it reads
        self.packing = False
        self.slots = 0
        self.count = 0
        self.race = None
        self.watching = False

    def agent(self, a):
        a %= len(self.agents)
        return a, self.agents[a]

    def snapshot(self):
        result = {}
        for name in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, name), 'rb') as f:
                result[name] = hashlib.sha1(f.read()).hexdigest()
        return result

    def unchanged(self, before, what):
        after = self.snapshot()
        if after != before:
            raise Violation('%s changed files: %s' % (what, ', '.join(
                n for n in sorted(set(before) | set(after))
                if before.get(n) != after.get(n))))

    def op_open(self, a, repair, race):
        """Open for writing."""
        a, agent = self.agent(a)
        if race and not isinstance(agent, Agent):
            race = []
        slot = self.slots = self.slots + 1
        had_writer = self.writer
        before = self.snapshot()
        options = dict(repair=True) if repair else {}
        if race:
            self.race = list(race)
            self.raced = self.writer is not None
        try:
            got = agent.do('open', str(slot), self.kind, self.path, options)
        finally:
            ran = race and self.race is None
            self.race = None
        if ran:
            self.ctx.label('race')
            if got[0] == 'ok':
                check(self.writer is None, 'there are two writers')
                if self.damaged and not repair:
                    raise Violation('a damaged file was opened')
                self.damaged = False
                self.writer = (a, slot)
            else:
                check(self.raced or self.damaged, 'the file could not be '
                      'opened for writing: %s', got)
                return
        elif had_writer:
            if got[0] == 'ok':
                raise Violation('the file was opened for writing while '
                                'another storage has it open%s' % (
                                    ', packing' if self.packing else ''))
            self.unchanged(before, 'a refused open')
            self.ctx.label('refused' + ('-packing' if self.packing else ''))
            return
        elif self.damaged and not repair:
            # FileStorage2 ignores some kinds of damage.
            if got[0] != 'ok':
                self.unchanged(before, 'a refused open')
                return
            self.damaged = False
            self.writer = (a, slot)
        else:
            if got[0] != 'ok':
                raise Violation('the file could not be opened for writing, '
                                'though nobody has it open: %s' % got[1])
            self.writer = (a, slot)
            self.damaged = False
        if self.current is None:
            self.current = -1
        self.check_value(self.writer, self.current, 'after opening')

    def check_value(self, who, want, what):
        a, slot = who
        got = self.agents[a].do('value', str(slot))
        if got != ['ok', want]:
            raise Violation('%s: a storage reads %s, expected %s' % (
                what, got, want))

    def op_read(self, a, repair):
        a, agent = self.agent(a)
        slot = self.slots = self.slots + 1
        before = self.snapshot()
        options = dict(readonly=True)
        if repair:
            options['repair'] = True
        got = agent.do('open', str(slot), self.kind, self.path, options)
        self.unchanged(before, 'opening for reading')
        if self.current is None:
            check(got[0] == 'failed', 'a missing file was opened')
        elif self.damaged:
            if got[0] == 'ok':
                self.readers[a, slot] = self.current
        else:
            if got[0] != 'ok':
                raise Violation('the file could not be opened for reading: %s'
                                % got[1])
            self.readers[a, slot] = self.current
            self.check_value((a, slot), self.current, 'reading')

    def reader(self, k):
        return sorted(self.readers)[k % len(self.readers)]

    def op_refuse(self, k, how, n):
        """Try to change something through a read-only storage."""
        if not self.readers:
            return
        who = a, slot = self.reader(k)
        before = self.snapshot()
        agent = self.agents[a]
        if how == 'commit':
            got = agent.do('commit', str(slot), -9, n)
            check(got[0] == 'failed', 'a read-only storage committed')
        elif how == 'empty':
            agent.do('commit', str(slot), -9, 0, True)
        elif how == 'step':
            agent.do('step', str(slot), n)
        elif how == 'create':
            agent.do('create', str(slot))
            # Perhaps there is no such method.
        else:
            agent.do('pack', str(slot))
        self.unchanged(before, 'a read-only storage (%s)' % how)
        if how != 'create':
            self.check_value(who, self.readers[who], 'reading')
        self.ctx.label('refused-' + how)

    def op_value(self, k):
        if self.readers:
            who = self.reader(k)
            self.check_value(who, self.readers[who], 'reading')
        if self.writer:
            self.check_value(self.writer, self.current, 'reading')

    def use(self, name, *args):
        a, slot = self.writer
        got = self.agents[a].do(name, str(slot), *args)
        if got[0] != 'ok':
            raise Violation('the writer failed (%s): %s' % (name, got[1]))
        return got[1]

    def op_commit(self, objects, empty):
        if self.writer:
            self.count += 1
            self.use('commit', self.count, objects, empty)
            if not empty:
                self.current = self.count

    def op_step(self, n):
        if self.writer and self.current >= 0:
            self.watching = True
            try:
                self.packing = self.use('step', n) == 'going'
            finally:
                self.watching = False
            self.ctx.label('pack-steps')

    def op_pack(self):
        if self.writer and self.current >= 0 and not self.packing:
            self.use('pack')
            self.ctx.label('packed')

    def op_drop(self):
        if self.writer and self.packing:
            self.use('drop')
            self.packing = False

    def op_close(self, k):
        """Close the writer or a reader."""
        if k == 0 or not self.readers:
            if self.writer:
                self.use('close')
                self.writer = None
                self.packing = False
        else:
            a, slot = self.reader(k)
            del self.readers[a, slot]
            got = self.agents[a].do('close', str(slot))
            check(got[0] == 'ok', 'closing: %s', got)

    def op_die(self, a):
        """The process ends without closing anything."""
        a, agent = self.agent(a)
        if isinstance(agent, Process):
            agent.kill()
            self.agents[a] = Process() if not any(
                isinstance(other, Agent) and other.storages
                for other in self.agents) else Agent()
            self.ctx.on_exit(self.agents[a].stop)
            for who in list(self.readers):
                if who[0] == a:
                    del self.readers[who]
            if self.writer and self.writer[0] == a:
                self.writer = None
                self.packing = False
            self.ctx.label('died')

    def op_damage(self, n):
        """A torn transaction at the end."""
        if self.writer or self.current is None:
            return
        with open(self.path, 'ab') as f:
            f.write(b'\0\0\0\0\0\0\x01\0\0\0\0\0'[:n + 1])
        self.damaged = True

    def flock(self, real):
        def flock(f, how):
            if self.race is not None and not how & fcntl.LOCK_UN:
                ops, self.race = self.race, None
                for op in ops:
                    self.raced = self.raced or self.writer is not None
                    self.run(op)
                    self.raced = self.raced or self.writer is not None
            return real(f, how)
        return flock

    def watch(self, real):
        """Look at the file while a pack puts a new one in its place."""
        def call(*args, **kw):
            if self.watching and str(args[0]).startswith(self.dir):
                self.look()
                try:
                    return real(*args, **kw)
                finally:
                    self.look()
            return real(*args, **kw)
        return call

    def look(self):
        self.watching = False
        agent = Agent()
        got = agent.do('open', 'w', self.kind, self.path, {})
        agent.stop()
        check(got[0] == 'failed', 'the file was opened for writing while a '
              'pack puts a new one in its place')
        got = agent.do('open', 'r', self.kind, self.path, dict(readonly=True))
        if got[0] != 'ok':
            raise Violation('the file could not be opened for reading while '
                            'a pack puts a new one in its place: %s' % got)
        got = agent.do('value', 'r')
        agent.stop()
        expect_eq(got, ['ok', self.current], 'reading')
        self.watching = True
        self.ctx.label('watched')

    def run(self, op):
        getattr(self, 'op_' + op[0])(*op[1:])


def run(case, ctx):
    model = Model(case, ctx)
    names = ['link', 'rename', 'unlink', 'replace']
    real = [fcntl.flock] + [getattr(os, name) for name in names]
    fcntl.flock = model.flock(real[0])
    for name in names:
        setattr(os, name, model.watch(getattr(os, name)))
    try:
        for op in case['ops']:
            model.run(op)
    finally:
        fcntl.flock = real[0]
        for name, func in zip(names, real[1:]):
            setattr(os, name, func)
    # In the end, everything is as committed and can be used again.
    if model.writer:
        model.op_close(0)
    model.op_open(0, True, [])
    model.op_commit(1, False)
    model.op_close(0)
    model.op_read(1, False)
    ctx.label('storage-' + model.kind)
    names = [op[0] for op in case['ops']]
    ctx.mark(names.count('open') > 1 and (
        'step' in names or 'pack' in names or 'refuse' in names))


def strategy():
    a = gen.small(2)
    inner = st.one_of(
        gen.op('commit', gen.small(2), st.just(False)),
        gen.op('step', st.sampled_from([1, 3, 100])), gen.op('pack'),
        gen.op('close', st.just(0)), gen.op('open', a, st.booleans(),
                                            st.just([])))
    race = st.sampled_from([0, 0, 1]).flatmap(
        lambda k: st.lists(inner, min_size=1, max_size=4) if k
        else st.just([]))
    choices = [
        (5, gen.op('open', a, st.sampled_from([False, False, True]), race)),
        (3, gen.op('read', a, st.sampled_from([False, False, True]))),
        (3, gen.op('refuse', gen.small(3), st.sampled_from(
            ['commit', 'empty', 'step', 'pack', 'create']), gen.small(5))),
        (2, gen.op('value', gen.small(3))),
        (4, gen.op('commit', gen.small(6), st.sampled_from(
            [False, False, False, True]))),
        (3, gen.op('step', st.sampled_from([1, 2, 3, 100]))),
        (2, gen.op('pack')), (1, gen.op('drop')),
        (3, gen.op('close', gen.small(3))), (1, gen.op('die', a)),
        (1, gen.op('damage', gen.small(11)))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2']),
        agents=st.lists(st.sampled_from(['here', 'here', 'there']),
                        min_size=1, max_size=3),
        ops=gen.sized(gen.ops(*choices, max_size=10),
                      gen.ops(*choices, min_size=8, max_size=30)))


FACETS = [
    Facet('locks', strategy, run, quick=6000, thorough=200000,
          rule='opens, closes, commits and packs by storages in up to three '
          'processes, also while an open is waiting for its lock; '
          'non-trivial with at least two opens for writing and a pack or an '
          'attempt to write through a read-only storage'),
]
