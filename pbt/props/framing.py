"""C15: what is written to files and sockets is read back, however it is
split, delayed or cut off; records and lists of ids are packed inversely."""
import io
import os
import pickle
import socket
import struct
import threading

from hypothesis import strategies as st

from .. import classes as C
from .. import gen
from ..core import Facet, Violation, check, expect_eq, expect_raises, outcome
from durus import utils
from durus.file import File
from durus.serialize import (ObjectWriter, extract_class_name, pack_record,
                             split_oids, unpack_record)
from durus.utils import (ShortRead, int4_to_str, int8_to_str, read, read_int4,
                         read_int4_str, read_int8, read_int8_str, str_to_int4,
                         str_to_int8, write, write_all, write_int4,
                         write_int4_str, write_int8, write_int8_str)

SIZES = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 255, 256, 257, 1000, 4095, 4096,
         8196, 65535, 65536, 65537, 131072]
LARGE = [999999, 1000000, 1000001, 1999999, 2000000, 2500003]


class Wire(object):
    """The connected end of a socket, with nothing but send and recv."""

    def __init__(self, splits, zeros=(), data=b''):
        self.splits = splits
        self.zeros = list(zeros)
        self.data = bytearray(data)
        self.position = 0
        self.calls = 0

    def size(self):
        self.calls += 1
        return self.splits[self.calls % len(self.splits)]

    def send(self, data):
        assert len(data) > 0
        if self.zeros:
            self.zeros[0] -= 1
            if self.zeros[0] < 0:
                self.zeros.pop(0)
            else:
                return 0
        n = max(1, min(len(data), self.size()))
        self.data += bytes(data[:n])
        return n

    def recv(self, n):
        assert n > 0
        n = max(1, min(n, self.size()))
        result = bytes(self.data[self.position:self.position + n])
        self.position += len(result)
        return result


class Raw(io.RawIOBase):
    """An unbuffered file that reads and writes less than it is asked to."""

    def __init__(self, raw, splits):
        self.raw = raw
        self.splits = splits
        self.calls = 0
        self.name, self.mode = raw.name, raw.mode

    def size(self, n):
        self.calls += 1
        return max(min(n, 1), min(
            n, self.splits[self.calls % len(self.splits)]))

    def read(self, n=-1):
        if n is None or n < 0:
            return self.raw.read()
        return self.raw.read(self.size(n))

    def write(self, data):
        return self.raw.write(data[:self.size(len(data))])

    def seek(self, n, whence=0):
        return self.raw.seek(n, whence)

    def tell(self):
        return self.raw.tell()

    def fileno(self):
        return self.raw.fileno()

    def truncate(self):
        return self.raw.truncate()

    def flush(self):
        self.raw.flush()

    def close(self):
        self.raw.close()


def content(spec):
    """[size, pattern] -> bytes"""
    size, pattern = spec
    return (pattern * (size // len(pattern) + 1))[:size] if pattern else \
        bytes(size)


def item_bytes(item):
    """What this item is on the wire."""
    kind = item[0]
    if kind == 'int4':
        return struct.pack('>I', item[1])
    if kind == 'int8':
        return struct.pack('>Q', item[1])
    if kind == 'all':
        return b''.join(latin1(x) for x in item[1])
    data = content(item[1]) if isinstance(item[1], list) else latin1(item[1])
    if kind == 'str4':
        return struct.pack('>I', len(data)) + data
    if kind == 'str8':
        return struct.pack('>Q', len(data)) + data
    return data


def latin1(x):
    return x.encode('latin1') if isinstance(x, str) else x


def put(f, item):
    kind = item[0]
    value = content(item[1]) if isinstance(item[1], list) and kind != 'all' \
        else item[1]
    if kind == 'int4':
        write_int4(f, value)
    elif kind == 'int8':
        write_int8(f, value)
    elif kind == 'str4':
        write_int4_str(f, value)
    elif kind == 'str8':
        write_int8_str(f, value)
    elif kind == 'raw':
        write(f, value)
    else:
        write_all(f, *value)


def get(f, item):
    kind = item[0]
    if kind == 'int4':
        return read_int4(f)
    if kind == 'int8':
        return read_int8(f)
    if kind == 'str4':
        return read_int4_str(f)
    if kind == 'str8':
        return read_int8_str(f)
    return read(f, len(item_bytes(item)))


def value_of(item):
    if item[0] in ('int4', 'int8'):
        return item[1]
    data = item_bytes(item)
    return data[dict(str4=4, str8=8).get(item[0], 0):]


def same(got, want, what):
    if got != want:
        if isinstance(got, (bytes, bytearray)):
            n = 0
            while got[n:n + 1] == want[n:n + 1] and n < len(want):
                n += 1
            raise Violation('%s: %d bytes, expected %d; the first difference '
                            'is at %d' % (what, len(got), len(want), n))
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def run_wire(case, ctx):
    """A socket of which the harness decides every send and recv."""
    items = case['items']
    sender = Wire(case['sends'], case['zeros'])
    offsets = [0]
    for item in items:
        put(sender, item)
        offsets.append(offsets[-1] + len(item_bytes(item)))
        check(len(sender.data) == offsets[-1],
              'writing %.50r sent %d bytes, expected %d', item,
              len(sender.data) - offsets[-2], len(item_bytes(item)))
    same(bytes(sender.data), b''.join(item_bytes(i) for i in items), 'sent')
    receiver = Wire(case['recvs'], (), sender.data)
    read_all(receiver, items, offsets, lambda: receiver.position)
    # cut off anywhere
    for cut in cuts(case, offsets):
        receiver = Wire(case['recvs'], (), sender.data[:cut])
        read_cut(receiver, items, offsets, cut)
    ctx.mark(len(items) > 1 and min(case['recvs'] + case['sends']) <
             max(len(item_bytes(i)) for i in items))


def cuts(case, offsets):
    total = offsets[-1]
    return sorted(set(min(total, b + d) for b in offsets[:-1]
                      for d in (0, 1, 4) if total) |
                  set(c % total for c in case['cuts'] if total))[:12]


def read_all(f, items, offsets, tell):
    for number, item in enumerate(items):
        same(get(f, item), value_of(item), 'reading %.50r' % (item,))
        expect_eq(tell(), offsets[number + 1],
                  'position after reading %.50r' % (item,))
    for item in (['int4', 0], ['int8', 0], ['str4', ''], ['str8', ''],
                 ['raw', 'x']):
        expect_raises(ShortRead, lambda: get(f, item),
                      'reading %s at the end' % item[0])
    same(read(f, 0), b'', 'reading nothing at the end')


def read_cut(f, items, offsets, cut):
    for number, item in enumerate(items):
        if offsets[number + 1] > cut:
            expect_raises(ShortRead, lambda: get(f, item),
                          'reading %.50r, cut at %d of %d' % (
                              item, cut - offsets[number],
                              offsets[number + 1] - offsets[number]))
            break
        same(get(f, item), value_of(item), 'reading %.50r' % (item,))


def run_file(case, ctx):
    """BytesIO, durus files, and durus files with partial reads and writes."""
    items = case['items']
    kind = case['file']
    start = case['start']
    path = ctx.path('file')

    def wrapped(file):
        if kind == 'partial':
            file.file = Raw(file.file, case['recvs'])
        return file
    if kind == 'bytes':
        f = io.BytesIO()
    else:
        with open(path, 'wb'):
            pass
        f = wrapped(File(path))
    write(f, bytes(start))
    expect_eq(f.tell(), start, 'position')
    offsets = [0]
    for item in items:
        put(f, item)
        offsets.append(offsets[-1] + len(item_bytes(item)))
        expect_eq(f.tell() - start, offsets[-1], 'position after writing')
    total = offsets[-1]
    if kind == 'bytes':
        data = f.getvalue()
    else:
        f.close()
        with open(path, 'rb') as g:
            data = g.read()
        f = wrapped(File(path, readonly=case['readonly']))
    same(data, bytes(start) + b''.join(item_bytes(i) for i in items),
         'content of the file')
    f.seek(start)
    read_all(f, items, offsets, lambda: f.tell() - start)
    f.close()
    for cut in cuts(case, offsets):
        if kind == 'bytes':
            f = io.BytesIO(data[:start + cut])
        else:
            with open(path, 'wb') as g:
                g.write(data[:start + cut])
            f = wrapped(File(path, readonly=case['readonly']))
        f.seek(start)
        read_cut(f, items, offsets, cut)
        f.close()
    ctx.mark(total > 1 and len(items) > 1)


def run_socket(case, ctx):
    """A real pair of sockets with small buffers and a slow reader."""
    items = case['items']
    a, b = socket.socketpair()
    ctx.on_exit(a.close)
    ctx.on_exit(b.close)
    a.settimeout(30)
    b.settimeout(30)
    a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, case['buffer'])
    error = []

    def send():
        try:
            for item in items:
                put(a, item)
            a.shutdown(socket.SHUT_WR)
        except BaseException as e:
            error.append(repr(e))
            a.close()
    thread = threading.Thread(target=send, daemon=True)
    thread.start()
    try:
        for item in items:
            same(get(b, item), value_of(item), 'reading %.50r' % (item,))
        expect_raises(ShortRead, lambda: read(b, 1), 'reading at the end')
    except socket.timeout:
        raise Violation('nothing arrives; %s' % error)
    finally:
        b.close()
        thread.join(30)
    expect_eq(error, [], 'errors of the writer')
    ctx.mark(sum(len(item_bytes(i)) for i in items) > case['buffer'])


class Dead(object):

    """A socket that stops accepting data."""

    def __init__(self, accept, how):
        self.accept, self.how = accept, how
        self.calls = 0
        self.data = b''

    def send(self, data):
        self.calls += 1
        if self.calls > 1000:
            raise Violation('write() goes on forever')
        n = min(len(data), self.accept - len(self.data))
        if n <= 0:
            if self.how:
                raise socket.error('broken')
            return 0
        self.data += data[:n]
        return n

    recv = None


def run_errors(case, ctx):
    kind, value = case['kind'], case['value']
    if kind == 'int':
        for width, pack, unpack, put_int in (
                (4, int4_to_str, str_to_int4, write_int4),
                (8, int8_to_str, str_to_int8, write_int8)):
            wire = Wire([3])
            if 0 <= value < 256 ** width:
                s = pack(value)
                expect_eq(s, value.to_bytes(width, 'big'), 'packed')
                expect_eq(unpack(s), value, 'unpacked')
                put_int(wire, value)
                expect_eq(bytes(wire.data), s, 'written')
                for wrong in (s[1:], s + b'\0', b''):
                    check(outcome(unpack, wrong)[0] == 'exc',
                          '%r is unpacked', wrong)
            else:
                check(outcome(pack, value)[0] == 'exc',
                      '%r is packed in %d bytes', value, width)
                check(outcome(put_int, wire, value)[0] == 'exc',
                      '%r is written in %d bytes', value, width)
                expect_eq(bytes(wire.data), b'', 'written after an error')
        ctx.mark(value > 255 or value < 0)
    else:
        data = content(value)
        for size, putter in ((0, write), (4, write_int4_str),
                             (8, write_int8_str)):
            dead = Dead(case['accept'], case['how'])
            total = size + len(data)
            r = outcome(putter, dead, data)
            if total <= case['accept']:
                expect_eq(r[0], 'ok', 'writing %d bytes' % total)
            else:
                check(r[0] == 'exc' and r[1] in ('OSError', 'IOError'),
                      'writing %d bytes to a socket that takes %d: %s',
                      total, case['accept'], r)
            want = (b'', struct.pack('>I', len(data)),
                    struct.pack('>Q', len(data)))[size // 4] + data
            same(dead.data, want[:case['accept']], 'sent')
        ctx.mark(len(data) > case['accept'])


def run_records(case, ctx):
    """Packing of records and lists of ids."""
    oid = int8_to_str(case['oid'])
    data = content(case['data']) if isinstance(case['data'], list) \
        else case['data']
    refs = [int8_to_str(r) for r in case['refs']]
    packed = b''.join(refs)
    record = pack_record(oid, data, packed)
    same(record, oid + struct.pack('>I', len(data)) + data + packed, 'record')
    same(list(unpack_record(record)), [oid, data, packed], 'unpacked record')
    same(pack_record(*unpack_record(record)), record, 'packed again')
    same(split_oids(packed), refs, 'split list of ids')
    same(split_oids(unpack_record(record)[2]), refs, 'references')
    same(split_oids(bytearray(packed)), refs, 'split bytearray of ids')
    extra = case['extra']
    if extra % 8:
        wrong = outcome(split_oids, packed + bytes(extra))
        check(wrong[0] == 'exc', 'a list of %d bytes is split into %r',
              len(packed) + extra, wrong)
    name = case['name']
    # as a record of an instance of a class of that name
    klass = type(name, (C.Node,), {'__module__': 'module_' + name})
    import sys
    import types
    module = types.ModuleType('module_' + name)
    setattr(module, name, klass)
    sys.modules['module_' + name] = module
    try:
        obj = klass()
        obj.attribute = data
        writer = ObjectWriter(None)
        try:
            state, references = writer.get_state(obj)
        finally:
            writer.close()
        expect_eq(extract_class_name(pack_record(oid, state, packed)),
                  name.encode('utf-8'), 'class name')
        file = io.BytesIO(state)
        check(pickle.load(file) is klass, 'class')
    finally:
        del sys.modules['module_' + name]
    ctx.mark(len(refs) > 1 and len(data) > 0)


def run_large(case, ctx):
    """Records and values around a power of two, up to some megabytes."""
    data = content([case['size'] + case['delta'], case['pattern']])
    oid = int8_to_str(case['oid'])
    refs = b''.join(int8_to_str(r) for r in case['refs'])
    record = pack_record(oid, data, refs)
    same(record, oid + struct.pack('>I', len(data)) + data + refs, 'record')
    same(list(unpack_record(record)), [oid, data, refs], 'unpacked record')
    wire = Wire([10 ** 6 + case['oid'] % 7, 2 ** 19])
    write_int4_str(wire, record)
    write_int8_str(wire, record)
    same(bytes(wire.data), struct.pack('>I', len(record)) + record
         + struct.pack('>Q', len(record)) + record, 'written')
    same(read_int4_str(wire), record, 'read')
    same(read_int8_str(wire), record, 'read')
    expect_raises(ShortRead, lambda: read(wire, 1), 'reading at the end')
    file = File()
    write_int8_str(file, record)
    file.seek(0)
    same(read_int8_str(file), record, 'read from a file')
    file.close()
    ctx.mark(len(data) >= 2 ** 16)


# -- strategies

def large():
    return gen.record(
        size=st.sampled_from([2 ** 15, 2 ** 16, 2 ** 20, 2 ** 22, 2 ** 23,
                              2 ** 24, 2 ** 24, 2 ** 24]),
        delta=st.integers(-9, 30), pattern=st.sampled_from([b'', b'abc']),
        oid=st.integers(0, 300), refs=st.lists(st.integers(0, 300),
                                               max_size=3))


def text():
    return st.one_of(
        st.binary(max_size=12),
        st.text(st.characters(max_codepoint=255), max_size=12),
        blob())


def blob(sizes=SIZES):
    return st.tuples(
        st.one_of(st.sampled_from(sizes), st.integers(0, 600)),
        st.sampled_from([b'\0', b'ab', b'\xff', b'abcdefg', b'O',
                         bytes(range(251))])).map(list)


def number(bits):
    return st.one_of(
        st.sampled_from([0, 1, 127, 128, 255, 256, 2 ** bits - 1,
                         2 ** (bits - 1), 2 ** (bits - 1) - 1, 2 ** 31,
                         2 ** 24, 2 ** 16]),
        st.integers(0, 2 ** bits - 1))


def item(sizes=SIZES):
    data = st.one_of(text(), blob(sizes))
    return st.one_of(
        gen.op('int4', number(32)), gen.op('int8', number(64)),
        gen.op('str4', data), gen.op('str8', data), gen.op('raw', data),
        gen.op('all', st.lists(st.one_of(
            st.binary(max_size=9),
            st.text(st.characters(max_codepoint=255), max_size=9)),
            max_size=4)))


def splits():
    return st.one_of(
        st.just([1]), st.just([10 ** 9]),
        st.lists(st.one_of(st.integers(1, 12),
                           st.sampled_from([100, 4096, 65536, 10 ** 6,
                                            10 ** 9])),
                 min_size=1, max_size=6))


def limited(case):
    """Tiny pieces only for small data."""
    total = sum(len(item_bytes(i)) for i in case['items'])
    if total > 20000:
        for name in ('sends', 'recvs'):
            case[name] = [n + total // 200 for n in case[name]]
    return case


def wire():
    return gen.record(
        items=st.lists(st.one_of(item(), item(), item(),
                                 item(SIZES + LARGE)),
                       min_size=1, max_size=6),
        sends=splits(), recvs=splits(),
        zeros=st.lists(st.integers(0, 10), max_size=1),
        cuts=st.lists(st.integers(0, 10 ** 7), max_size=4)).map(limited)


def files():
    return gen.record(
        items=st.lists(item(), min_size=1, max_size=5),
        file=st.sampled_from(['bytes', 'file', 'partial']),
        readonly=st.booleans(), start=gen.small(9), recvs=splits(),
        sends=st.just([1]),
        cuts=st.lists(st.integers(0, 10 ** 7), max_size=3)).map(limited)


def sockets():
    return gen.record(
        items=st.lists(item(SIZES + LARGE), min_size=1, max_size=4),
        buffer=st.sampled_from([1, 4096, 65536]))


def errors():
    value = st.one_of(
        st.integers(-3, 300), st.sampled_from(
            [2 ** k + d for k in (8, 16, 24, 31, 32, 33, 63, 64, 65, 128)
             for d in (-1, 0, 1)] + [-2 ** 31, -2 ** 32, -2 ** 63, -2 ** 64]),
        st.integers(-2 ** 70, 2 ** 70))
    return st.one_of(
        gen.record(kind=st.just('int'), value=value),
        gen.record(kind=st.just('dead'), value=blob(SIZES[:14]),
                   accept=st.integers(0, 40), how=st.booleans()))


def records():
    oid = st.one_of(number(64), st.integers(0, 300))
    return gen.record(
        oid=oid, data=st.one_of(st.binary(max_size=30), blob()),
        refs=st.one_of(st.lists(oid, max_size=5),
                       st.integers(0, 400).map(
                           lambda n: list(range(n)))),
        extra=st.integers(0, 17),
        name=st.sampled_from(['A', 'Thing', 'A1', '_x', 'N' * 90,
                              'A' * 300]))


FACETS = [
    Facet('wire', wire, run_wire, quick=6000, thorough=200000,
          rule='up to six values of all kinds written to and read from a '
          'socket that sends and receives any pieces, and cut off at up to '
          'twelve points; non-trivial when some value takes several pieces'),
    Facet('file', files, run_file, quick=3000, thorough=100000,
          rule='up to five values in a BytesIO, a durus file, or one with '
          'partial reads and writes; non-trivial with several values'),
    Facet('socket', sockets, run_socket, quick=1500, thorough=40000,
          rule='up to four values through a pair of sockets; non-trivial '
          'when the data does not fit in the buffer'),
    Facet('errors', errors, run_errors, quick=6000, thorough=200000,
          rule='integers in and out of range, and sockets that stop '
          'accepting data; non-trivial when the integer needs more than a '
          'byte or the data does not fit'),
    Facet('records', records, run_records, quick=5000, thorough=150000,
          rule='packing and unpacking records, lists of ids, class names and '
          'states; non-trivial with references and data'),
    Facet('large', large, run_large, quick=24, thorough=600,
          rule='records of up to 16 megabytes, packed and unpacked, and on '
          'a socket and in a file; non-trivial from 64 kilobytes'),
]
