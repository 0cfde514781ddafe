"""C22: server addresses bind, connect and clean up correctly."""
import fcntl
import grp
import hashlib
import json
import os
import pwd
import select
import signal
import socket
import stat
import sys
import time

from hypothesis import strategies as st

import durus.__main__ as tool
from .. import gen
from ..core import Facet, HarnessError, Violation, check, expect_eq
from ..storages import free_port, open_storage
from durus.client_storage import ClientStorage
from durus.serialize import pack_record, unpack_record
from durus.storage_server import SocketAddress, StorageServer, wait_for_server
from durus.utils import int8_to_str

ROOT = int8_to_str(0)
tool.sleep = lambda seconds: time.sleep(0.001) # stop_durus() is patient


def has_ipv6():
    try:
        s = socket.socket(socket.AF_INET6)
        try:
            s.bind(('::1', 0))
        finally:
            s.close()
        return True
    except OSError:
        return False


IPV6 = has_ipv6()
USERS = sorted(pwd.getpwall(), key=lambda u: u.pw_uid)[:4]
GROUPS = sorted(grp.getgrall(), key=lambda g: g.gr_gid)[:4]


class Slot(object):
    """An address, with what is there."""

    def __init__(self, number, kind, ctx, slots):
        self.number = number
        self.kind = kind
        self.ctx = ctx
        self.live = None  # the server that should be reached
        self.listening = None # a socket to be inherited
        self.path = None
        if kind == 'path':
            self.address = self.path = ctx.path('sock%d' % number)
        elif kind == 'abstract':
            self.address = '@durus@%s-%d' % (hashlib.sha1(
                ctx.dir.encode()).hexdigest()[:12], number)
        else:
            host = dict(ipv4='127.0.0.1', other='127.0.%d.%d' % (
                1 + number, 3 + os.getpid() % 200), name='localhost', ipv6='::1',
                        full='0:0:0:0:0:0:0:1')[kind]
            # The same port of another host is another address.
            ports = [s.address[1] for s in slots
                     if isinstance(s.address, tuple)
                     and s.kind != kind and kind == 'other']
            self.address = (host, ports[0] if ports else free_port(
                '127.0.0.1' if host == 'localhost' else host))

        shown = {'ipv4': '%s:%s', 'other': '%s:%s', 'name': '%s:%s',
                 'ipv6': '[%s]:%s', 'full': '[%s]:%s'}.get(kind, '%s')
        expect_eq(str(SocketAddress.new(self.address)), shown % self.address,
                  'the address as a text')

    def options(self):
        if isinstance(self.address, tuple):
            return ['--host', self.address[0], '--port', str(self.address[1])]
        return ['--address', self.address]

    def snapshot(self):
        """What must not change: everything about the path."""
        if self.path is None:
            return None
        try:
            info = os.lstat(self.path)
        except OSError:
            return None
        data = None
        if stat.S_ISREG(info.st_mode):
            with open(self.path, 'rb') as f:
                data = f.read()
        elif stat.S_ISLNK(info.st_mode):
            data = os.readlink(self.path)
            if os.path.isfile(self.path):
                with open(self.path, 'rb') as f:
                    data = [data, f.read()]
        return (info.st_ino, info.st_mode, info.st_uid, info.st_gid,
                info.st_mtime_ns, data)

    def state(self):
        """What is at the path: 'free', 'taken' or 'live'."""
        if self.live is not None:
            return 'live'
        if self.path is None:
            return 'free'
        try:
            info = os.lstat(self.path)
        except OSError:
            return 'free'
        if stat.S_ISLNK(info.st_mode):
            return 'taken'
        if stat.S_ISSOCK(info.st_mode):
            return 'free' # nobody is there any more
        if stat.S_ISREG(info.st_mode) and info.st_size == 0:
            return 'empty'
        return 'taken'


class Running(object):
    """A server in a process of its own."""

    def __init__(self, number, slot, spec, ctx, world):
        self.number = number
        self.slot = slot
        self.result = None
        self.file = ctx.path('data%d' % number)
        storage = open_storage('file', self.file)
        storage.begin()
        oid = storage.new_oid()
        storage.store(oid, pack_record(oid, b'%d' % number, b''))
        storage.end()
        storage.close()
        self.spec = spec
        self.mask = [0o22, 0o77, 0o2, 0][spec['mask'] % 4]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                w2 = fcntl.fcntl(w, fcntl.F_DUPFD, 100)
                self.child(w2, world)
            finally:
                os._exit(0)
        os.close(w)
        self.pid = pid
        self.r = r
        ctx.on_exit(self.kill)
        self.clients = []

    def child(self, w, world):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(120)
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        sys.stdout = os.fdopen(1, 'w', closefd=False)
        sys.stderr = os.fdopen(2, 'w', closefd=False)
        spec = self.spec
        inherited = self.slot.listening
        for server in world.servers:
            for client in server.clients:
                client.s.close()
        for slot in world.slots:
            if slot.listening is not None and slot is not self.slot:
                slot.listening.close()
        if inherited is not None:
            fd = fcntl.fcntl(inherited.fileno(), fcntl.F_DUPFD, 100)
            try:
                adopt(fd, inherited, spec)
            except BaseException as e:
                os.write(w, json.dumps(['failed: inheriting: %r' % e,
                                        None]).encode())
                return
            os.dup2(fd, 3)
            os.close(fd)
            if inherited.fileno() == 3:
                inherited.detach()
            os.environ['LISTEN_PID'] = str(os.getpid())
            os.environ['LISTEN_FDS'] = '1'
        elif spec['env']: # meant for somebody else
            os.environ['LISTEN_PID'] = str(os.getppid())
            os.environ['LISTEN_FDS'] = '1'
        os.umask(self.mask)
        try:
            if spec['cli']:
                argv = ['durus', '-s', '--file', self.file]
                extra = spec.get('extra', 0)
                if extra & 1:
                    argv += ['--logfile', self.file + '.log']
                if extra & 2:
                    argv += ['--logginglevel', str(extra)]
                if extra & 4:
                    argv += ['--gcbytes', '10000000']
                if extra & 8:
                    argv += ['--storage-class',
                             'durus.file_storage.FileStorage']
                if extra & 16:
                    argv += ['--readonly']
                elif extra & 32:
                    argv += ['--repair']
                if inherited is None:
                    argv += self.slot.options()
                if self.slot.path is not None and inherited is None:
                    if spec['umask'] is not None:
                        argv += ['--umask', ['%d', '0%o', '0x%x'][
                            spec['cli'] % 3] % spec['umask']]
                    if spec['owner'] is not None:
                        argv += ['--owner', str(spec['owner'])]
                    if spec['group'] is not None:
                        argv += ['--group', str(spec['group'])]
                sys.argv[:] = argv
                tool.main()
            else:
                address = self.slot.address
                if inherited is not None:
                    address = None
                elif self.slot.path is not None:
                    address = SocketAddress.new(
                        address, owner=spec['owner'], group=spec['group'],
                        umask=spec['umask'])
                StorageServer(open_storage('file', self.file),
                              address=address).serve()
            result = 'returned'
        except SystemExit:
            result = 'stopped'
        except KeyboardInterrupt:
            result = 'interrupted'
        except BaseException as e:
            result = 'failed: %s: %s' % (type(e).__name__, e)
        os.write(w, json.dumps([result, os.umask(0)]).encode())

    def poll(self, timeout):
        """What the process reports at its end, or None."""
        if self.result is None:
            if select.select([self.r], [], [], timeout)[0]:
                text = os.read(self.r, 10000)
                os.waitpid(self.pid, 0)
                os.close(self.r)
                self.pid = 0
                self.result = json.loads(text) if text else ['killed', None]
        return self.result

    def running_mask(self):
        with open('/proc/%d/status' % self.pid) as f:
            for line in f:
                if line.startswith('Umask:'):
                    return int(line.split()[1], 8)
        return self.mask

    def kill(self):
        for c in self.clients:
            c.s.close()
        self.clients = []
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            self.poll(30)

    def ended(self, what):
        for i in range(200):
            if self.poll(0.1) is not None:
                break
        else:
            raise Violation('%s: the server does not end' % what)
        return self.result


def adopt(fd, inherited, spec):
    """What a process makes of the sockets it inherits."""
    from durus.systemd_socket import get_systemd_socket
    for pid, fds, want in ((os.getpid(), '1', 'socket'),
                           (os.getppid(), '1', None), (None, '1', None),
                           ('x', '1', None), (os.getpid(), '0', None),
                           (os.getpid(), '2', OSError),
                           (os.getpid(), 'x', OSError),
                           (os.getpid(), None, OSError)):
        os.dup2(fd, 3)
        os.dup2(fd, 4)
        for name, value in (('LISTEN_PID', pid), ('LISTEN_FDS', fds)):
            os.environ.pop(name, None)
            if value is not None:
                os.environ[name] = str(value)
        try:
            got = get_systemd_socket()
        except OSError:
            expect_eq(OSError, want, 'LISTEN_PID %s, LISTEN_FDS %s' % (
                pid, fds))
        else:
            if want != 'socket':
                expect_eq(got, want, 'LISTEN_PID %s, LISTEN_FDS %s' % (
                    pid, fds))
                continue
            expect_eq((got.family, got.type, got.getsockname()),
                      (inherited.family, inherited.type,
                       inherited.getsockname()), 'inherited socket')
            check(not got.get_inheritable(), 'further children inherit it')
            got.close()
    os.close(4)


def number_at(slot):
    """Number of the server that is reached."""
    client = connect(slot)
    try:
        return int(unpack_record(client.load(ROOT))[1])
    finally:
        client.s.close()


def connect(slot):
    if isinstance(slot.address, tuple) and slot.number % 2:
        return ClientStorage(host=slot.address[0], port=slot.address[1])
    return ClientStorage(address=slot.address)


class World(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.count = 0
        self.servers = []
        kinds = [k if k not in ('ipv6', 'full') or IPV6 else 'ipv4'
                 for k in case['slots']]
        self.slots = []
        for n, k in enumerate(kinds):
            self.slots.append(Slot(n, k, ctx, self.slots))
        self.mask = os.umask(0o22)
        os.umask(self.mask)

    def slot(self, n):
        return self.slots[n % len(self.slots)]

    def verify(self, what):
        for slot in self.slots:
            if slot.live is not None:
                got = number_at(slot)
                check(got == slot.live.number, '%s: clients of %s reach '
                      'server %d instead of %d', what, slot.address, got,
                      slot.live.number)
            elif slot.listening is None:
                s = SocketAddress.new(slot.address).get_connected_socket()
                if s is not None:
                    s.close()
                    raise Violation('%s: somebody answers at %s' % (
                        what, slot.address))
        for server in self.servers:
            if server.poll(0) is None:
                check(server.running_mask() == server.mask,
                      '%s: the umask of the server is %o, was %o', what,
                      server.running_mask(), server.mask)
            else:
                raise Violation('%s: server %d ended: %s' % (
                    what, server.number, server.result))
        mask = os.umask(self.mask)
        check(mask == self.mask, '%s: umask %o', what, mask)

    def op_start(self, n, spec):
        slot = self.slot(n)
        self.count += 1
        before = slot.snapshot()
        state = slot.state()
        if slot.listening is not None:
            state = 'live' if slot.live is not None else 'free'
        what = 'starting at %s (%s)' % (slot.address, state)
        spec = dict(spec)
        if slot.path is None:
            spec['owner'] = spec['group'] = spec['umask'] = None
        bad = slot.path is not None and slot.listening is None and (
            spec['owner'] == 'no such user' or
            spec['group'] == 'no such group')
        if os.geteuid() != 0:
            spec['owner'] = spec['group'] = None
            bad = False
        if spec['cli'] and slot.listening is None:
            # By name only.
            for key, names in (('owner', USERS), ('group', GROUPS)):
                if isinstance(spec[key], int):
                    spec[key] = names[spec[key] % len(names)][0]
        if slot.listening is not None and slot.live is not None:
            return # several servers would share it
        server = Running(self.count, slot, spec, self.ctx, self)
        if state in ('live', 'taken'):
            result = server.ended(what)
            check(result[0].startswith('failed'), '%s: %s', what, result[0])
            check(result[1] == server.mask, '%s: umask %r after a failure',
                  what, result[1])
            expect_eq(slot.snapshot(), before, '%s: the path' % what)
            self.ctx.label('refused-' + state)
            return
        if bad:
            result = server.ended(what)
            check(result[0].startswith('failed'), '%s: %s', what, result[0])
            check(result[1] == server.mask, '%s: umask %r after a failure',
                  what, result[1])
            self.ctx.label('bad-owner')
            return
        for i in range(4000):
            result = server.poll(0.001 if i < 1000 else 0.005)
            if result is not None:
                if state == 'empty':
                    # Refusing to replace an empty file is fine, too.
                    expect_eq(slot.snapshot(), before, what)
                    return
                raise Violation('%s: the server ends: %s' % (what, result))
            s = SocketAddress.new(slot.address).get_connected_socket()
            if s is not None:
                s.close()
                break
        else:
            raise Violation('%s: clients cannot connect' % what)
        slot.live = server
        self.servers.append(server)
        wait_for_server(address=slot.address, maxtries=1, sleeptime=0)
        self.ctx.label('started-' + slot.kind + (
            '-inherited' if slot.listening else ''))
        if slot.path is not None and slot.listening is None:
            info = os.lstat(slot.path)
            check(stat.S_ISSOCK(info.st_mode), '%s: no socket', what)
            mask = server.mask if spec['umask'] is None else spec['umask']
            expect_eq('%o' % stat.S_IMODE(info.st_mode), '%o' % (
                0o777 & ~mask), '%s: mode with umask %o' % (what, mask))
            uid, gid = os.geteuid(), os.getegid()
            if spec['owner'] is not None:
                uid = spec['owner'] if isinstance(spec['owner'], int) else \
                    pwd.getpwnam(spec['owner']).pw_uid
            if spec['group'] is not None:
                gid = spec['group'] if isinstance(spec['group'], int) else \
                    grp.getgrnam(spec['group']).gr_gid
            expect_eq((info.st_uid, info.st_gid), (uid, gid),
                      '%s: owner and group' % what)
            info = os.stat(server.file)
            expect_eq((info.st_uid, info.st_gid), (
                os.geteuid(), os.getegid()), 'owner of the storage file')
        self.ctx.mark(len(self.servers) > 1 or state != 'free' or
                      before is not None)

    def op_client(self, n):
        slot = self.slot(n)
        if slot.live is not None and len(slot.live.clients) < 4:
            slot.live.clients.append(connect(slot))

    def gone(self, slot, server, what, orphan):
        self.servers.remove(server)
        for c in server.clients:
            c.s.close()
        server.clients = []
        if not orphan:
            slot.live = None

    def op_stop(self, n, how, which):
        """Stop a server (an orphan is one whose socket file is gone)."""
        if not self.servers:
            return
        server = self.servers[n % len(self.servers)]
        slot = server.slot
        orphan = slot.live is not server
        before = slot.snapshot()
        what = 'stopping (%s) %d at %s' % (how, server.number, slot.address)
        if how in ('quit', 'quit-cli') and not orphan:
            if how == 'quit':
                try:
                    check(tool.stop_durus(slot.address) is True,
                          '%s: not running?', what)
                except ConnectionResetError:
                    pass # polled just while the socket was being closed
            else:
                argv = sys.argv[:]
                sys.argv[:] = ['durus', '-s', '--stop'] + slot.options()
                try:
                    tool.main()
                except ConnectionResetError:
                    pass
                finally:
                    sys.argv[:] = argv
            want = 'stopped'
        elif how == 'client' and server.clients:
            server.clients[which % len(server.clients)].s.sendall(b'Q')
            want = 'stopped'
        elif how == 'kill':
            os.kill(server.pid, signal.SIGKILL)
            want = 'killed'
        else:
            os.kill(server.pid, signal.SIGINT)
            want = 'interrupted'
        result = server.ended(what)
        expect_eq(result[0], want, what)
        self.gone(slot, server, what, orphan)
        if slot.path is not None:
            if orphan or slot.listening is not None:
                expect_eq(slot.snapshot(), before, '%s: the path' % what)
                if orphan:
                    self.ctx.label('orphan-' + want)
            elif want != 'killed':
                check(not os.path.lexists(slot.path),
                      '%s: its socket is left', what)
            else:
                expect_eq(slot.snapshot(), before, '%s: the path' % what)
        if want != 'killed' and not orphan and slot.listening is None:
            check(tool.stop_durus(slot.address) is False,
                  '%s: still running?', what)
        self.ctx.label('end-' + want)

    def op_put(self, n, what):
        """Put something else at a path.  A live server becomes an orphan."""
        slot = self.slot(n)
        if slot.path is None or slot.listening is not None:
            return
        path = slot.path
        if os.path.isdir(path) and not os.path.islink(path):
            os.rmdir(path)
        elif os.path.lexists(path):
            os.unlink(path)
        slot.live = None
        if what == 'data':
            with open(path, 'wb') as f:
                f.write(b'precious')
        elif what == 'empty':
            open(path, 'wb').close()
        elif what == 'directory':
            os.mkdir(path)
        elif what == 'stale':
            s = socket.socket(socket.AF_UNIX)
            s.bind(path)
            s.close()
        elif what == 'link':
            with open(path + '.target', 'wb') as f:
                f.write(b'precious')
            os.symlink(path + '.target', path)
        self.ctx.label('put-' + what)

    def op_inherit(self, n):
        """As systemd does, listen first."""
        slot = self.slot(n)
        if slot.live is not None or slot.listening is not None or \
                slot.state() != 'free':
            return
        if slot.path is not None and os.path.lexists(slot.path):
            os.unlink(slot.path)
        address = SocketAddress.new(slot.address)
        s = socket.socket(address.get_address_family(), socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        name = slot.address
        if slot.kind == 'abstract':
            name = name.replace('@', '\0')
        s.bind(name)
        s.listen(128)
        slot.listening = s
        self.ctx.on_exit(s.close)

    def op_release(self, n):
        slot = self.slot(n)
        if slot.listening is not None and slot.live is None:
            slot.listening.close()
            slot.listening = None


def run_servers(case, ctx):
    world = World(case, ctx)
    for op in case['ops']:
        getattr(world, 'op_' + op[0])(*op[1:])
        world.verify(op[0])
    while world.servers:
        world.op_stop(0, case['last'], 0)
        world.verify('the end')


def servers_strategy():
    uids = st.sampled_from([None, None, None, 0, 1, 2, 3, 'no such user',
                            12345])
    gids = st.sampled_from([None, None, None, 0, 1, 2, 3, 'no such group',
                            12345])
    names = st.sampled_from([None, USERS[-1].pw_name])
    groups = st.sampled_from([None, GROUPS[-1].gr_name])
    spec = gen.record(
        mask=gen.small(3), cli=st.sampled_from([0, 0, 1, 2, 3]),
        umask=st.sampled_from([None, None, 0, 0o77, 0o22, 0o117, 0o777]),
        owner=st.one_of(uids, names), group=st.one_of(gids, groups),
        env=st.booleans(), extra=gen.small(63))
    n = gen.small(2)
    choices = [
        (6, gen.op('start', n, spec)), (1, gen.op('client', n)),
        (4, gen.op('stop', n, st.sampled_from(
            ['quit', 'quit-cli', 'client', 'kill', 'interrupt']), n)),
        (2, gen.op('put', n, st.sampled_from(
            ['nothing', 'data', 'empty', 'directory', 'stale', 'link']))),
        (1, gen.op('inherit', n)), (1, gen.op('release', n))]
    return gen.record(
        slots=st.lists(st.sampled_from(
            ['path', 'path', 'path', 'abstract', 'ipv4', 'other', 'ipv6',
             'full', 'name']), min_size=1, max_size=3),
        ops=gen.sized(gen.ops(*choices, max_size=5),
                      gen.ops(*choices, min_size=4, max_size=10)),
        last=st.sampled_from(['quit', 'quit-cli', 'interrupt', 'kill']))


FACETS = [
    Facet('servers', servers_strategy, run_servers, quick=4000,
          thorough=100000,
          rule='histories of starting, stopping, interrupting and killing '
          'servers on one to three addresses of all kinds with arbitrary '
          'things at the paths; non-trivial when a server starts where '
          'something was before, or next to another server'),
]
