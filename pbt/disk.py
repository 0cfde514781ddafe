"""What a disk holds after a crash: replays calls recorded by ioshim.c."""
import ctypes
import os
import struct

from .core import HarnessError

_shim = None


def shim():
    global _shim
    if _shim is None:
        lib = ctypes.CDLL(None)
        try:
            lib.ioshim_start
        except AttributeError:
            raise HarnessError('the I/O shim is not loaded')
        lib.ioshim_data.restype = ctypes.c_void_p
        lib.ioshim_size.restype = ctypes.c_size_t
        lib.ioshim_count.restype = ctypes.c_long
        lib.ioshim_fired.restype = ctypes.c_long
        lib.ioshim_mark.argtypes = [ctypes.c_long]
        lib.ioshim_fail.argtypes = [ctypes.c_long, ctypes.c_int,
                                    ctypes.c_long, ctypes.c_int]
        _shim = lib
    return _shim


HEAD = struct.Struct('<cQQQ')


class Event(object):

    __slots__ = ('type', 'a', 'b', 'data')

    def __init__(self, type, a, b, data):
        self.type, self.a, self.b, self.data = type, a, b, data

    def __repr__(self):
        return '%s(%s, %s, %s)' % (self.type, self.a, self.b,
                                   len(self.data) if self.type == 'W'
                                   else self.data)


def events():
    lib = shim()
    data = ctypes.string_at(lib.ioshim_data(), lib.ioshim_size()) \
        if lib.ioshim_size() else b''
    result = []
    p = 0
    while p < len(data):
        type, a, b, n = HEAD.unpack_from(data, p)
        p += HEAD.size
        result.append(Event(type.decode(), a, b, data[p:p + n]))
        p += n
    return result


class Disk(object):
    """The files of one folder."""

    def __init__(self, folder=None):
        self.names = {}     # name -> inode
        self.files = {}     # inode -> content
        self.folder = folder
        if folder is not None:
            for name in os.listdir(folder):
                path = os.path.join(folder, name)
                if os.path.isfile(path) and not os.path.islink(path):
                    ino = os.stat(path).st_ino
                    self.names[name] = ino
                    with open(path, 'rb') as f:
                        self.files[ino] = bytearray(f.read())

    def copy(self):
        other = Disk()
        other.folder = self.folder
        other.names = dict(self.names)
        other.files = dict((k, bytearray(v)) for k, v in self.files.items())
        return other

    def name(self, path):
        path = os.fsdecode(bytes(path))
        return os.path.relpath(path, self.folder)

    def apply(self, event, limit=None):
        """limit: only so many bytes of a write."""
        t = event.type
        if t == 'W':
            data = event.data if limit is None else event.data[:limit]
            content = self.files.setdefault(event.a, bytearray())
            if event.b > len(content):
                content.extend(b'\0' * (event.b - len(content)))
            content[event.b:event.b + len(data)] = data
        elif t == 'T':
            content = self.files.setdefault(event.a, bytearray())
            if event.b < len(content):
                del content[event.b:]
            else:
                content.extend(b'\0' * (event.b - len(content)))
        elif t == 'O':
            self.names[self.name(event.data)] = event.a
            self.files[event.a] = bytearray()
        elif t == 'U':
            self.names.pop(self.name(event.data), None)
        elif t in 'RL':
            a, b = event.data.split(b'\0')
            a, b = self.name(a), self.name(b)
            if a in self.names:
                self.names[b] = self.names[a]
                if t == 'R' and a != b:
                    del self.names[a]

    def content(self, name):
        ino = self.names.get(name)
        return None if ino is None else bytes(self.files[ino])

    def write(self, folder):
        os.mkdir(folder)
        for name, ino in self.names.items():
            path = os.path.join(folder, name)
            if not os.path.isdir(os.path.dirname(path)):
                continue
            with open(path, 'wb') as f:
                f.write(self.files[ino])


def unsynced(events):
    """inode -> positions (in events) of its writes since its last sync."""
    result = {}
    for n, e in enumerate(events):
        if e.type in 'WT':
            result.setdefault(e.a, []).append(n)
        elif e.type == 'F':
            result.pop(e.a, None)
    return result


def crash(start, events, cut=None, lose=None):
    """The disk after these events.  cut: bytes of the last one, if it is a
    write.  lose: {inode: how many of its unsynced calls never reached the
    disk}."""
    disk = start.copy()
    dropped = set()
    if lose:
        for ino, positions in unsynced(events).items():
            n = lose(ino, len(positions))
            if n:
                dropped.update(positions[len(positions) - n:])
    for n, e in enumerate(events):
        if n in dropped:
            continue
        disk.apply(e, cut if n == len(events) - 1 else None)
    return disk
