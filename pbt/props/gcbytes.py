"""C23: automatic packing starts exactly when due and never gets stuck."""
import os
import select
import signal
import socket
import sys
import time

from hypothesis import strategies as st

import durus.__main__ as tool
from .. import core, gen
from ..core import Facet, HarnessError, Violation, check, expect_eq
from ..storages import Gated, Server, open_storage, storage_class
from durus.client_storage import ClientStorage
from durus.error import WriteConflictError
from durus.serialize import pack_record
from durus.utils import int8_to_str

ROOT = int8_to_str(0)


class Events(object):
    """Mixin: a timeline of commits and packs, made in the server's thread.
    Steps of a pack fail on demand, and so do commits."""

    def watch(self, timeline):
        self.timeline = timeline
        self.refuse = None
        self.broken = False
        self.sizes = []

    def begin(self):
        self.sizes = []
        super().begin()

    def store(self, oid, record):
        self.sizes.append(len(record))
        super().store(oid, record)

    def end(self, handle_invalidations=None):
        sizes = self.sizes
        if self.refuse is not None:
            error, self.refuse = self.refuse, None
            super().begin() # forgets what was stored
            raise error
        super().end(handle_invalidations)
        self.timeline.append(('commit', sum(sizes),
                              sum(sizes) + 12 * len(sizes) + 8))

    def get_packer(self):
        packer = super().get_packer()
        if packer is not None:
            self.timeline.append(('start',))
            packer = Steps(self, packer)
        return packer


class Steps(object):

    def __init__(self, storage, packer):
        self.storage, self.packer = storage, packer

    def __iter__(self):
        return self

    def __next__(self):
        try:
            step = next(self.packer)
            if self.storage.broken and step is not None:
                self.storage.broken = False
                self.packer.close()
                raise OSError(28, 'injected')
            return step
        except StopIteration:
            self.storage.timeline.append(('end',))
            raise
        except Exception:
            self.storage.timeline.append(('failed',))
            raise

    def close(self):
        self.packer.close()


class World(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = case['storage']
        self.path = ctx.path('db')
        self.gcbytes = case['gcbytes']
        self.timeline = []
        mixins = (Events, Gated)

        def factory():
            if self.kind == 'temporary':
                storage = storage_class('file', mixins)()
            else:
                storage = open_storage(self.kind, self.path, mixins)
            storage.watch(self.timeline)
            self.real = storage
            return storage
        self.server = Server(factory, ctx.path('sock'), gcbytes=self.gcbytes)
        ctx.on_exit(self.server.stop)
        self.clients = []
        self.seen = 0      # events that have been looked at
        self.lo = self.hi = 0
        self.packing = False
        self.asked = False
        self.perhaps = False
        self.starts = 0
        self.linked = {}   # slot -> (oid, record)
        self.unlinked = set()  # before the pack in progress
        self.gone = set()
        self.later = set()
        self.serial = 0
        self.op_connect()
        check(self.clients[0].new_oid() == ROOT, 'root')
        self.op_commit(0, [], 0, [], 0)
        self.settle()

    # -- the oracle

    def look(self):
        """Follow the timeline."""
        while self.seen < len(self.timeline):
            event = self.timeline[self.seen]
            self.seen += 1
            if event[0] == 'commit':
                self.lo += event[1]
                self.hi += event[2]
            elif event[0] == 'start':
                check(not self.packing, 'a second pack starts')
                if self.asked or self.perhaps:
                    self.ctx.label('requested')
                else:
                    check(self.gcbytes > 0, 'a pack starts by itself, with '
                          'threshold %s', self.gcbytes)
                    check(self.hi >= self.gcbytes, 'a pack starts by itself '
                          'after %d bytes, threshold %s', self.hi,
                          self.gcbytes)
                    self.ctx.label('automatic')
                    self.starts += 1
                self.asked = False
                self.packing = True
                self.unlinked |= self.later
                self.later = set()
            else:
                check(self.packing, 'a pack ends that never started')
                self.packing = False
                self.lo = self.hi = 0
                if event[0] == 'end':
                    if self.kind != 'temporary':
                        self.gone |= self.unlinked
                else:
                    self.later |= self.unlinked
                    self.ctx.label('failed')
                self.unlinked = set()

    def settle(self):
        """What is due has happened after a request and its response."""
        def settled():
            self.server.check()
            if self.clients:
                self.clients[0].sync()
            self.look()
            return self.packing or not (self.asked or
                                        0 < self.gcbytes <= self.lo)
        if not core.wait_until(settled):
            if self.asked:
                raise Violation('a requested pack does not start')
            raise Violation('no pack starts after %d bytes, threshold %s' % (
                self.lo, self.gcbytes))

    def client(self, c):
        if not self.clients:
            self.op_connect()
        return self.clients[c % len(self.clients)]

    # -- operations

    def op_connect(self):
        if len(self.clients) < 3:
            self.clients.append(self.server.client())
            self.ctx.on_exit(self.clients[-1].s.close)

    def op_disconnect(self, c):
        if self.clients:
            client = self.clients.pop(c % len(self.clients))
            client.s.close()
            if not self.clients:
                self.ctx.label('no-clients')
                if self.packing:
                    self.ctx.label('no-clients-packing')

    def op_commit(self, c, slots, size, drop, fail):
        client = self.client(c)
        client.begin()
        batch = {}
        linked = dict(self.linked)
        dropped = set()
        for slot in drop:
            if slot in linked and slot not in slots:
                dropped.add(linked.pop(slot)[0])
        self.serial += 1
        for slot in sorted(set(slots)):
            oid = linked[slot][0] if slot in linked else client.new_oid()
            record = pack_record(oid, b'%d.' % self.serial + b'x' * size, b'')
            linked[slot] = (oid, record)
            client.store(oid, record)
        record = pack_record(ROOT, b'root %d' % self.serial, b''.join(
            sorted(oid for oid, r in linked.values())))
        client.store(ROOT, record)
        if fail:
            self.real.refuse = [None, WriteConflictError(),
                                OSError(28, 'injected')][fail]
        try:
            client.end(lambda oids: None)
        except Exception as e:
            check(fail, 'a commit fails: %r', e)
            self.real.refuse = None
            if fail == 2: # The server drops the client.
                client.s.close()
                self.clients.remove(client)
            self.ctx.label('refused')
            if not self.clients:
                self.op_connect()
            return
        check(not fail, 'a refused commit succeeds')
        self.look() # which pack started before this?
        self.linked = linked
        self.root = record
        self.later |= dropped

    def op_ask(self, c):
        self.settle()
        if not self.packing:
            self.asked = True
        else:
            # Unless it ends before the request arrives.
            self.perhaps = True
            self.ctx.label('asked-twice')
        self.client(c).pack()
        self.look()
        self.perhaps = False

    def op_step(self, n):
        if self.packing:
            self.real.gate.grant(n, self.server.alive)

    def op_finish(self):
        if self.packing:
            self.real.gate.finish(self.server.alive)
            def ended():
                self.server.check()
                self.look()
                return not self.packing
            if not core.wait_until(ended):
                raise Violation('a pack does not end')

    def op_fail(self):
        if self.packing:
            self.real.broken = True

    def op_idle(self):
        time.sleep(0.0005)

    def op_load(self, c, slot):
        client = self.client(c)
        client.sync()
        if slot in self.linked:
            oid, record = self.linked[slot]
            expect_eq(client.load(oid), record, 'record in slot %d' % slot)

    def finish(self):
        self.op_finish()
        self.settle()
        self.op_finish()
        # One more, which runs to its end.
        self.real.broken = False
        self.op_ask(0)
        self.settle()
        self.op_finish()
        client = self.client(0)
        client.sync()
        for slot in self.linked:
            oid, record = self.linked[slot]
            expect_eq(client.load(oid), record, 'record in slot %d' % slot)
        for client in self.clients:
            client.s.close()
        self.server.stop()
        if self.kind != 'temporary':
            storage = open_storage(self.kind, self.path)
            stored = dict(storage.gen_oid_record())
            storage.close()
            want = dict(self.linked.values())
            want[ROOT] = self.root
            expect_eq(stored, want, 'what is stored after a pack')


def run_due(case, ctx):
    world = World(case, ctx)
    for op in case['ops']:
        getattr(world, 'op_' + op[0])(*op[1:])
        world.settle()
    world.finish()
    ctx.label('storage-' + world.kind)
    ctx.mark(world.starts > 0 or len(case['ops']) > 5)


def due_strategy():
    c = gen.small(2)
    slots = st.lists(gen.small(6), max_size=4)
    commit = gen.op('commit', c, slots, st.sampled_from(
        [0, 10, 100, 1000, 1000, 5000]), st.lists(gen.small(6), max_size=3),
        st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1, 2]))
    choices = [(8, commit), (1, gen.op('ask', c)),
               (2, gen.op('step', st.integers(1, 3))), (2, gen.op('finish')),
               (1, gen.op('fail')), (1, gen.op('load', c, gen.small(6))),
               (1, gen.op('connect')), (1, gen.op('disconnect', c)),
               (1, gen.op('idle'))]
    return gen.record(
        storage=st.sampled_from(['file', 'file2', 'sqlite', 'temporary']),
        gcbytes=st.sampled_from([0, 0, -5, 1, 300, 1000.5, 2500, 5000, 5000,
                                 20000, 20000, 10 ** 9, float(10 ** 4)]),
        ops=gen.sized(gen.ops(*choices, max_size=8),
                      gen.ops(*choices, min_size=8, max_size=30)))


# -- the whole server, from its command line

def run_command(case, ctx):
    path = ctx.path('db')
    address = ctx.path('sock')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            sys.argv[:] = ['durus', '-s', '--file', path, '--address',
                           address]
            if case['kind'] != 'default':
                sys.argv += ['--storage-class', dict(
                    file='durus.file_storage.FileStorage',
                    file2='durus.file_storage2.FileStorage2')[case['kind']]]
            if case['gcbytes'] is not None:
                sys.argv += ['--gcbytes', str(case['gcbytes'])]
            tool.main()
        except BaseException as e:
            os.write(w, repr(e).encode())
        finally:
            os._exit(0)
    os.close(w)
    ctx.on_exit(lambda: os.close(r))

    def end():
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    ctx.on_exit(end)
    for i in range(5000):
        s = socket.socket(socket.AF_UNIX)
        try:
            s.connect(address)
            break
        except OSError:
            if select.select([r], [], [], 0.002)[0]:
                raise Violation('the server ends: %s' % os.read(r, 1000))
        finally:
            s.close()
    else:
        raise HarnessError('the server does not start')
    clients = [ClientStorage(address=address) for i in range(2)]
    for client in clients:
        ctx.on_exit(client.s.close)
    gcbytes = case['gcbytes'] or 0
    lo = hi = 0
    inode = os.stat(path).st_ino
    packs = 0
    expect_eq(clients[0].new_oid(), ROOT, 'root')
    for n, (c, size, ask) in enumerate(case['commits']):
        client = clients[c % 2]
        client.begin()
        record = pack_record(ROOT, b'%d ' % n + b'x' * size, b'')
        if n and ask == 2:
            clients[c % 2].pack()
            lo, hi, inode = wait_for_pack(path, inode, 'a requested pack',
                                          client)
            continue
        if n == 0: # which has the id of the root
            client = clients[0]
        client.store(ROOT, record)
        client.end(lambda oids: None)
        lo += len(record)
        hi += len(record) + 20
        if 0 < gcbytes <= lo:
            lo, hi, inode = wait_for_pack(path, inode, 'after %d bytes, '
                                          'threshold %s' % (lo, gcbytes),
                                          client)
            packs += 1
        elif 0 < gcbytes <= hi:
            return # either is fine
        else:
            client.sync()
            if ask:
                time.sleep(0.002)
                client.sync()
            check(os.stat(path).st_ino == inode, 'a pack starts after %d '
                  'bytes, threshold %s', hi, gcbytes)
        expect_eq(clients[1].load(ROOT) if clients[1].sync() is not None
                  else 0, record, 'the record')
    ctx.label('command-%s' % case['kind'])
    ctx.label('automatic', packs)
    ctx.mark(packs > 0)


def wait_for_pack(path, inode, what, client):
    """A packed file is a new file."""
    def replaced():
        try:
            return os.stat(path).st_ino != inode
        except OSError:
            return False
    if not core.wait_until(replaced):
        raise Violation('%s: the server does not pack' % what)
    # The count starts again when the pack has ended, one step later.
    for i in range(3):
        client.sync()
        time.sleep(0.002)
    return 0, 0, os.stat(path).st_ino


def command_strategy():
    return gen.record(
        kind=st.sampled_from(['file', 'file2', 'default']),
        gcbytes=st.sampled_from([None, 0, 1, 500, 2000, 2000, 5000, 10 ** 6]),
        commits=st.lists(st.tuples(
            gen.small(1), st.sampled_from([0, 100, 450, 1000, 1950, 3000]),
            gen.small(2)).map(list), min_size=2, max_size=12))


FACETS = [
    Facet('due', due_strategy, run_due, quick=8000, thorough=150000,
          rule='histories of commits, requested packs, steps and failures of '
          'packs and refused commits on a live server with a threshold; '
          'non-trivial when a pack started by itself, or with more than five '
          'operations'),
    Facet('command', command_strategy, run_command, quick=800,
          thorough=10000,
          rule='a server started from its command line with --gcbytes, and '
          'commits through two clients; non-trivial when it packed by '
          'itself'),
]
