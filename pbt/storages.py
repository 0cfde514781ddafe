"""Opening, reopening and serving every kind of storage."""
import os
import socket
import tempfile
import threading
import time

from . import core
from .core import Violation, HarnessError
from durus.client_storage import ClientStorage
from durus.file_storage import FileStorage, TempFileStorage
from durus.file_storage2 import FileStorage2
from durus.sqlite_storage import SqliteStorage
from durus.storage import MemoryStorage
from durus.storage_server import StorageServer

CLASSES = dict(file=FileStorage, file2=FileStorage2, sqlite=SqliteStorage,
               memory=MemoryStorage, temp=TempFileStorage, temp2=FileStorage2)
TEMPORARY = ('temp', 'temp2')
# Small graphs should take several steps to pack, too.
for cls in CLASSES.values():
    if hasattr(cls, '_PACK_INCREMENT'):
        cls._PACK_INCREMENT = 2
FILES = ('file', 'file2', 'sqlite')
SHELVES = ('file', 'file2')


def storage_class(kind, mixins=()):
    cls = CLASSES[kind]
    if mixins and kind == 'temp':
        cls = FileStorage # TempFileStorage is a function
    if mixins:
        cls = type('_'.join(m.__name__ for m in mixins) + cls.__name__,
                   tuple(mixins) + (cls,), {})
    return cls


def open_storage(kind, path, mixins=(), **kw):
    cls = storage_class(kind, mixins)
    if kind == 'memory':
        return cls()
    if kind in TEMPORARY:
        # next to where it would have been
        tempfile.tempdir = os.path.dirname(path)
        try:
            return cls()
        finally:
            tempfile.tempdir = None
    return cls(path, **kw)


_ports = [0]


def free_port(host='127.0.0.1'):
    """Not one of those that outgoing connections get, and different in
    every worker."""
    while True:
        _ports[0] += 1
        port = 10000 + os.getpid() % 64 * 300 + _ports[0] % 300
        s = socket.socket(socket.AF_INET6 if ':' in host else socket.AF_INET)
        try:
            s.bind((host, port))
        except OSError:
            continue
        else:
            return port
        finally:
            s.close()


class Recording(object):
    """Mixin: notes which records every commit stores."""

    def begin(self):
        self.batch = []
        super().begin()

    def store(self, oid, record):
        self.batch.append((oid, record))
        super().store(oid, record)

    def end(self, handle_invalidations=None):
        batch = self.batch # some storages begin again in end()
        super().end(handle_invalidations)
        self.last = batch
        self.batch = []


class Gated(object):
    """Mixin: the incremental packer advances only when steps are granted, so
    that the harness owns the schedule."""

    def get_packer(self):
        real = super().get_packer()
        gate = self.__dict__.setdefault('gate', Gate())
        if real is None:
            return None
        return gate.run(real)


class Gate(object):

    def __init__(self):
        self.credit = 0
        self.active = 0
        self.error = None
        self.cond = threading.Condition()

    def run(self, real):
        self.active += 1
        return self._run(real)

    def _run(self, real):
        try:
            while True:
                with self.cond:
                    if self.credit <= 0:
                        self.cond.wait(0.0005)
                    go = self.credit > 0
                if not go:
                    yield None
                    continue
                try:
                    step = next(real)
                except StopIteration:
                    return
                with self.cond:
                    self.credit -= 1
                    self.cond.notify_all()
                yield step
        finally:
            with self.cond:
                self.active -= 1
                self.credit = 0
                self.cond.notify_all()

    def grant(self, n, alive=lambda: True):
        """Let the packer make n steps; returns False when it has ended."""
        with self.cond:
            if self.active <= 0:
                return False
            self.credit += n
            self.cond.notify_all()
            limit = time.monotonic() + 40 * core.patience
            while time.monotonic() < limit:
                if self.credit <= 0 or self.active <= 0:
                    return self.active > 0
                if not alive():
                    return False
                self.cond.wait(0.01)
        raise Violation('the packer makes no progress while the server is idle')

    def finish(self, alive=lambda: True):
        while self.grant(50, alive):
            pass


class Watched(object):
    """A packer that a server knows to be in progress."""

    def __init__(self, server, packer):
        self.server, self.packer = server, packer
        server.packing += 1

    def __iter__(self):
        return self

    def __next__(self):
        try:
            return next(self.packer)
        except BaseException:
            self.done()
            raise

    def done(self):
        if self.server is not None:
            self.server.packing -= 1
            self.server = None

    def close(self):
        self.packer.close()
        self.done()

    __del__ = done


class Server(object):
    """A real StorageServer, serving from a background thread."""

    def __init__(self, factory, path, **kw):
        """factory() opens the storage, in the server's thread (sqlite
        connections belong to a thread)."""
        self.factory = factory
        self.path = path
        self.kw = kw
        self.error = None
        self.server = None
        self.packing = 0 # packs in progress
        self.thread = threading.Thread(target=self._serve, daemon=True)
        self.thread.start()
        for i in range(4000):
            if self.error is not None:
                raise self.error
            s = self.socket()
            try:
                s.connect(path)
                break
            except OSError:
                time.sleep(0.0005 if i < 200 else 0.005)
            finally:
                s.close()
        else:
            raise HarnessError('server did not start')

    def _serve(self):
        try:
            self.storage = self.factory()
            self.watch(self.storage)
            self.server = StorageServer(
                self.storage, address=self.path, **self.kw)
            self.server.serve()
        except SystemExit:
            pass
        except BaseException as e:
            core.NOTES.append('server died: ' + core.describe(e))
            self.error = e
        finally:
            # Clients of a dead server should notice.
            for s in getattr(self.server, 'sockets', ()):
                try:
                    s.close()
                except OSError:
                    pass

    def watch(self, storage):
        get_packer = storage.get_packer

        def wrapper():
            packer = get_packer()
            return None if packer is None else Watched(self, packer)
        storage.get_packer = wrapper

    def wait_packed(self):
        """Until the pack that was requested has ended."""
        if not core.wait_until(
                lambda: self.packing <= 0 or not self.alive()):
            raise Violation('the pack does not end while the server is idle')
        self.check()

    def socket(self):
        return socket.socket(socket.AF_INET if isinstance(self.path, tuple)
                             else socket.AF_UNIX, socket.SOCK_STREAM)

    def alive(self):
        return self.thread.is_alive()

    def check(self):
        if self.error is not None:
            error, self.error = self.error, None
            raise Violation('the server died: %s: %s' % (
                type(error).__name__, error)) from error

    def client(self):
        return ClientStorage(address=self.path)

    def stop(self):
        """Graceful quit, which also closes the storage."""
        if self.thread.is_alive():
            s = self.socket()
            try:
                s.settimeout(10)
                s.connect(self.path)
                s.sendall(b'Q')
                self.thread.join(20)
            except OSError:
                self.thread.join(1)
            finally:
                s.close()
            if self.thread.is_alive():
                self.check()
                raise Violation('the server does not stop')
        if self.server is not None:
            self.server.packer = None # As when its process ends.
        self.check()
