"""C21: formats are recognised; conversions and tools keep the graph."""
import datetime
import gc
import hashlib
import os
import runpy
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback
import zlib

from hypothesis import strategies as st

from .. import boot, gen, graph
from ..core import Facet, HarnessError, Violation, check, expect_eq
from ..storages import CLASSES, FILES, Server, free_port, open_storage
from durus.__main__ import get_storage, get_storage_class
from durus.connection import Connection
from durus.serialize import pack_record, unpack_record, split_oids
from durus.shelf import Shelf
from durus.utils import int8_to_str, str_to_int8

ROOT = int8_to_str(0)


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def names_in(folder):
    return sorted(os.listdir(folder))


def in_child(func, stdin=None, timeout=60):
    """Run func in a forked process; -> (exit status, output)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            if stdin is not None:
                a, b = os.pipe()
                os.write(b, stdin)
                os.close(b)
                os.dup2(a, 0)
                sys.stdin = os.fdopen(0)
            os.dup2(w, 1)
            os.dup2(w, 2)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            try:
                func()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (
                    0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
                code = 1
            gc.collect()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        output = f.read()
    status = os.waitpid(pid, 0)[1]
    return status, output.decode('utf-8', 'replace')


def run_tool(what, argv, func, stdin=None):
    def go():
        sys.argv[:] = argv
        func()
    status, output = in_child(go, stdin)
    if status != 0:
        raise Violation('%s failed with status %d: %s' % (
            what, status, output[-1500:]))
    return output


def durus_main(*argv):
    from durus.__main__ import main
    run_tool('durus %s' % ' '.join(argv), ['durus'] + list(argv), main)


class Source(object):
    """A storage holding a generated graph, in a file."""

    def __init__(self, case, ctx, kind, path=None):
        self.ctx = ctx
        self.kind = kind
        self.path = path or ctx.path('db')
        storage = open_storage(kind, self.path)
        connection = Connection(storage)
        self.world = graph.World(connection.root, case['kinds'])
        stages = case['stages']
        for n, stage in enumerate(stages):
            for i, items in stage:
                self.world.replace(i % len(self.world), items)
            connection.commit()
            if n == 0 and case['pack']:
                connection.pack()
        self.kinds = self.world.kinds
        self.states = self.world.states
        self.live = self.world.reachable()
        self.oid = dict((i, self.world.real[i]._p_oid) for i in self.live)
        self.world.real = None
        # Some objects (nodes of trees) are not in the model.
        records = dict(storage.gen_oid_record())
        self.stored, todo = set(), [ROOT]
        while todo:
            oid = todo.pop()
            if oid not in self.stored:
                self.stored.add(oid)
                todo.extend(split_oids(unpack_record(records[oid])[2]))
        del connection
        gc.collect()
        storage.close()

    def compare(self, storage, what, same_oids=True, new=True):
        connection = Connection(storage)
        found = graph.compare_graph(
            connection.root, self.kinds[0], self.kinds, self.states,
            self.oid if same_oids else None, what)
        expect_eq(set(found), self.live, '%s: objects' % what)
        return connection

    def usable(self, connection, what):
        """New objects do not disturb anything."""
        storage = connection.get_storage()
        before = set(oid for oid, record in storage.gen_oid_record())
        seen = set()
        old = connection.root.get('extra')
        extra = graph.C.Node()
        extra.f0 = graph.C.Node()
        extra.f0.f1 = 'new'
        connection.root['extra'] = extra
        connection.commit()
        for obj in (extra, extra.f0):
            check(obj._p_oid not in before, '%s: %r is used twice', what,
                  obj._p_oid)
            seen.add(obj._p_oid)
        expect_eq(len(seen), 2, what)
        states = self.states
        self.states = [dict(states[0], extra=graph.Ref(len(states)))] + \
            states[1:] + [dict(f0=graph.Ref(len(states) + 1)),
                          dict(f1='new')]
        self.kinds = self.kinds + [0, 0]
        self.live = self.live | set([len(states), len(states) + 1])
        try:
            del extra, obj
            connection.get_cache().set_size(1)
            self.compare(storage, what + ', after a commit', False)
        finally:
            self.states = states
            self.kinds = self.kinds[:-2]
            self.live = self.live - set([len(states), len(states) + 1])


def refuse(func):
    """Opening should fail; returns whether it did."""
    try:
        opened = func()
    except Exception as e:
        e.__traceback__ = None
        return True
    if not isinstance(opened, type):
        opened.close()
    return False


def run_copy(case, ctx):
    kind = case['storage']
    source = Source(case, ctx, kind)
    what = 'source %s' % kind
    check(get_storage_class(source.path) is CLASSES[kind],
          '%s is recognised as %r', what, get_storage_class(source.path))
    storage = get_storage(source.path)
    check(type(storage) is CLASSES[kind], '%s: opened as %r', what, storage)
    source.compare(storage, what)
    for other in FILES:
        if other != kind:
            before = content(source.path)
            if kind != 'sqlite':
                storage.close() # for its lock
            check(refuse(lambda: open_storage(other, source.path)),
                  '%s opens a file of %s', other, kind)
            check(content(source.path) == before, '%s changes a file of %s',
                  other, kind)
            if kind != 'sqlite':
                storage = get_storage(source.path)
    for n, (target, how) in enumerate(case['copies']):
        path = ctx.path('copy%d' % n)
        what = 'copy %d, from %s to %s' % (n, type(storage).__name__, target)
        records = list(storage.gen_oid_record(
            **({'start_oid': ROOT, 'batch_size': 3} if how % 2 else {})))
        order = how % 3
        if order == 1:
            records.sort(key=lambda item: item[0])
        elif order == 2:
            records.sort(key=lambda item: hashlib.sha1(item[0]).digest())
        if target == 'file':
            # FileStorage has no create_from_records(); a Shelf takes them.
            Shelf(path, items=iter(records)).file.close()
            copy = open_storage('file', path)
        else:
            copy = open_storage(target, path)
            copy.create_from_records(iter(records))
        if how < 6:
            source.compare(copy, what)
        if how % 4 < 2:
            copy.close()
            check(get_storage_class(path) is CLASSES[target],
                  '%s is recognised as %r', what, get_storage_class(path))
            copy = get_storage(path)
        expect_eq(dict(copy.gen_oid_record()), dict(records),
                  '%s: records' % what)
        connection = source.compare(copy, what)
        if n == len(case['copies']) - 1 or how % 5 == 0:
            # A transaction in the copy leaves its source alone.
            source.usable(connection, what)
            if how % 2:
                connection.pack()
            del connection.root['extra']
            connection.commit()
            source.compare(storage, what + ': source')
        del connection
        if storage is not copy:
            storage.close()
        storage = copy
        ctx.label('copy-to-' + target)
    storage.close()
    ctx.mark(len(source.live) > 2)


# -- files of other formats

MAGICS = [b'SHELF-1\n', b'DFS20\0', b'SQLite format 3\0']


def make_content(case, ctx):
    """-> (bytes, kind whose magic it has)"""
    spec = case['content']
    if spec[0] == 'random':
        data = spec[1]
    elif spec[0] == 'near':
        data = bytearray(MAGICS[spec[1] % 3] + spec[4])
        pos = spec[2] % len(MAGICS[spec[1] % 3])
        if spec[3] % 3 == 0:
            data[pos] ^= 1 << (spec[3] % 8)
        elif spec[3] % 3 == 1:
            data = data[:pos]
        else:
            data.insert(pos, spec[3])
        data = bytes(data)
    elif spec[0] == 'own':
        data = MAGICS[spec[1] % 3] + spec[2]
    else:
        path = ctx.path('sample')
        kind = FILES[spec[1] % 3]
        storage = open_storage(kind, path)
        connection = Connection(storage)
        for i in range(spec[2]):
            connection.root[i] = graph.C.Node()
            connection.commit()
        storage.close()
        data = content(path)
        for name in names_in(ctx.dir):
            os.unlink(ctx.path(name))
        if spec[3] % 4 == 0:
            data = data[:spec[3] % 40]
        elif spec[3] % 4 == 1:
            data = data[1 + spec[3] % 20:]
        elif spec[3] % 4 == 2: # intact otherwise
            data = bytearray(data)
            data[spec[3] // 4 % len(MAGICS[spec[1] % 3])] ^= 1 << spec[2]
            data = bytes(data)
    own = None
    for magic, kind in zip(MAGICS, FILES):
        if data.startswith(magic):
            own = kind
    return data, own


def run_unknown(case, ctx):
    data, own = make_content(case, ctx)
    path = ctx.path('data')
    with open(path, 'wb') as f:
        f.write(data)
    os.chmod(path, 0o640)
    for how, options in case['opens']:
        name = FILES[how] if how < 3 else 'any'
        if name == own or not data and name in ('file', 'file2'):
            # A file of its own format (C07 is about damaged ones); empty
            # files are new ones.
            ctx.label('own')
            continue
        if name == 'any' and own is None and data:
            check(refuse(lambda: get_storage_class(path)) or
                  refuse(lambda: get_storage(path, **options)),
                  'a file that starts with %r is opened', data[:20])
        elif name == 'any':
            if not data:
                continue
            # At least its class has to be right.
            klass = get_storage_class(path)
            check(klass is CLASSES[own], 'a file of %s is opened as %s',
                  own, klass)
            continue
        else:
            check(refuse(lambda: open_storage(name, path, **options)),
                  '%s opens a file that starts with %r', name, data[:20])
        check(content(path) == data, '%s changes a file that starts with %r',
              name, data[:20])
        if name != 'sqlite':
            expect_eq(names_in(ctx.dir), ['data'], 'files')
        ctx.label('refused-' + name)
        ctx.mark()


# -- tools

def run_tools(case, ctx):
    kind = case['storage']
    tool = case['tool']
    if tool == 'renumber':
        kind = 'file'
    if tool == 'create':
        kind = case['storage'] if case['storage'] != 'sqlite' else 'file2'
    source = Source(case, ctx, kind)
    ctx.label(tool + '-' + kind)
    ctx.mark(len(source.live) > 2)
    before = content(source.path)
    if tool == 'pack':
        durus_main('-p', '--file', source.path)
        check(get_storage_class(source.path) is CLASSES[kind],
              'after packing, the file is recognised as another format')
        storage = get_storage(source.path)
        expect_eq(set(oid for oid, record in storage.gen_oid_record()),
                  source.stored, 'objects after packing')
        connection = source.compare(storage, 'after packing')
        source.usable(connection, 'after packing')
        storage.close()
        if kind != 'sqlite' and case['pack'] is not None:
            check(content(source.path + '.prepack') == before,
                  'the file before packing has changed')
    elif tool == 'served':
        port = free_port()
        server = Server(lambda: open_storage(kind, source.path),
                        ('127.0.0.1', port))
        ctx.on_exit(server.stop)
        from durus.__main__ import main
        argv = sys.argv[:]
        sys.argv[:] = ['durus', '-p', '--port', str(port)] + (
            ['--host', '127.0.0.1'] if case['host'] else [])
        try:
            main()
        finally:
            sys.argv[:] = argv
        gc.collect()
        server.wait_packed()
        client = server.client()
        source.compare(client, 'while served')
        client.s.close()
        server.stop()
        storage = get_storage(source.path)
        expect_eq(set(oid for oid, record in storage.gen_oid_record()),
                  source.stored, 'objects after packing')
        source.compare(storage, 'after packing')
        storage.close()
    elif tool == 'renumber':
        new = ctx.path('new')
        script = os.path.join(boot.REPO, 'bin', 'db_renumber.py')
        run_tool('renumbering', [script, source.path, new],
                 lambda: runpy.run_path(script, run_name='__main__'))
        check(content(source.path) == before, 'the old file has changed')
        check(get_storage_class(new) is CLASSES['file'], 'format')
        storage = get_storage(new)
        expect_eq(sorted(str_to_int8(oid) for oid, record in
                         storage.gen_oid_record()),
                  list(range(len(source.stored))), 'renumbered objects')
        connection = source.compare(storage, 'renumbered', same_oids=False)
        source.usable(connection, 'renumbered')
        storage.close()
    elif tool == 'client':
        # What is typed in is executed.
        lines = ['root["typed"] = root.__class__()',
                 'root["typed"]["number"] = %d' % case['number'],
                 'connection.commit()']
        from durus.__main__ import main
        extra = []
        if case['host']: # the same in a startup file, then nothing
            startup = ctx.path('start "up" \\n\'%d.py' % (case['number'] % 3))
            with open(startup, 'w') as f:
                f.write('for x in range(3):\n    number = x\n\n' +
                        '\n'.join(lines))
            if case['number'] % 2:
                os.environ['DURUSSTARTUP'] = startup
            else:
                extra = ['--startup', startup]
            lines = ['root["typed"]["number"] += number - 2',
                     'connection.commit()']

        server = None
        where = ['--file', source.path]
        if case['remote']: # the same through a server
            if case['remote'] == 1:
                address = ctx.path('sock')
                where = ['--address', address]
            else:
                address = ('127.0.0.1', free_port())
                where = ['--port', str(address[1])]
                if case['remote'] == 2:
                    where += ['--host', '127.0.0.1']
            server = Server(lambda: open_storage(kind, source.path), address)
            ctx.on_exit(server.stop)
            ctx.label('client-remote')
        elif case['number'] % 3 == 0:
            where += ['--storage-class', '%s.%s' % (
                CLASSES[kind].__module__, CLASSES[kind].__name__)]

        def go():
            sys.argv[:] = ['durus', '-c'] + where + extra
            main()
        status, output = in_child(go, ''.join(
            line + '\n' for line in lines).encode())
        os.environ.pop('DURUSSTARTUP', None)
        if server is not None:
            server.stop()
        if status != 0:
            raise Violation('the client fails: %s' % output[-1000:])
        storage = get_storage(source.path)
        root = Connection(storage).root
        expect_eq(root.get('typed', {}).get('number'), case['number'],
                  'what was typed in')
        del root['typed']
        root._p_connection.commit()
        source.compare(storage, 'after typing')
        storage.close()
        if kind != 'sqlite': # can't be opened read-only
            before = content(source.path)
            files = names_in(ctx.dir)
            def go():
                sys.argv[:] = ['durus', '-c', '--readonly', '--file',
                               source.path]
                main()
            status, output = in_child(go, ''.join(
                line + '\n' for line in lines).encode())
            check(content(source.path) == before,
                  'a read-only client changes the file')
            expect_eq(names_in(ctx.dir), files, 'files')


def graph_fields():
    items = st.lists(st.tuples(
        gen.small(9), graph.value_specs(10, big=True)).map(list), max_size=5)
    refs = st.lists(st.tuples(gen.small(7), st.builds(
        lambda i: ['ref', i], gen.small(9))).map(list), min_size=1,
        max_size=6)
    change = st.one_of(st.tuples(st.integers(1, 9), items).map(list),
                       st.tuples(st.integers(1, 9), refs).map(list),
                       st.tuples(st.integers(0, 9), refs).map(list))
    first = st.tuples(st.just(0), st.lists(st.tuples(
        gen.small(7), st.builds(lambda i: ['ref', i + 1], gen.small(7))).map(
            list), min_size=2, max_size=8)).map(list)
    return dict(
        storage=st.sampled_from(FILES), pack=st.booleans(),
        kinds=st.lists(st.one_of(
            st.sampled_from([0, 0, 1, 7]), gen.small(graph.NKINDS - 1)),
            min_size=3, max_size=9),
        stages=st.builds(
            lambda a, b, c: [[a] + b] + c, first,
            st.lists(change, min_size=1, max_size=8),
            st.lists(st.lists(change, min_size=1, max_size=5), max_size=3)))


def copy_strategy():
    return gen.record(
        copies=st.lists(st.tuples(st.sampled_from(FILES), gen.small(11)).map(
            list), min_size=1, max_size=3), **graph_fields())


def unknown_strategy():
    text = st.binary(max_size=40)
    contents = st.one_of(
        st.tuples(st.just('random'), text).map(list),
        st.tuples(st.just('near'), gen.small(2), gen.small(15),
                  gen.small(255), text).map(list),
        st.tuples(st.just('near'), gen.small(2), gen.small(15),
                  gen.small(255), text).map(list),
        st.tuples(st.just('own'), gen.small(2), text).map(list),
        st.tuples(st.just('sample'), gen.small(2), gen.small(3),
                  gen.small(119)).map(list))
    options = st.sampled_from([{}, {}, dict(repair=True),
                               dict(readonly=True)])
    return gen.record(content=contents, opens=st.lists(
        st.tuples(gen.small(3), options).map(list), min_size=2, max_size=5))


def tools_strategy():
    return gen.record(
        tool=st.sampled_from(['pack', 'pack', 'served', 'renumber',
                              'renumber', 'client']),
        host=st.booleans(), number=gen.small(1000),
        remote=st.sampled_from([0, 0, 0, 1, 2, 3]), **graph_fields())


# -- files written by Python 2

class Py2Pickler(object):
    """Writes what Python 2 would have written for a description of values:
    ['str', bytes], ['uni', text], ['ref', i] and so on."""

    def __init__(self, oids, classes):
        self.out = []
        self.memo = {}
        self.oids = oids
        self.classes = classes
        self.refs = set()

    def put(self):
        n = len(self.memo) + 1
        self.memo[len(self.memo), None] = n
        self.out.append(b'q' + bytes([n]) if n < 256 else
                        b'r' + struct.pack('<I', n))
        return n

    def get(self, key):
        n = self.memo.get(key)
        if n is None:
            return False
        self.out.append(b'h' + bytes([n]) if n < 256 else
                        b'j' + struct.pack('<I', n))
        return True

    def remember(self, key):
        self.memo[key] = self.put()

    def klass(self, name):
        if not self.get(('class', name)):
            module, name2 = name
            self.out.append(b'c%s\n%s\n' % (module.encode(), name2.encode()))
            self.remember(('class', name))

    def string(self, value, intern=False):
        """Attribute names are interned, so they are in the memo."""
        if intern and self.get(('str', value)):
            return
        if len(value) < 256:
            self.out.append(b'U' + bytes([len(value)]) + value)
        else:
            self.out.append(b'T' + struct.pack('<I', len(value)) + value)
        if intern:
            self.remember(('str', value))
        else:
            self.put()

    def attributes(self, pairs):
        self.out.append(b'}')
        self.put()
        self.items(pairs)

    def items(self, pairs):
        if len(pairs) == 1:
            self.pair(*pairs[0])
            self.out.append(b's')
        elif pairs:
            self.out.append(b'(')
            for k, v in pairs:
                self.pair(k, v)
            self.out.append(b'u')

    def pair(self, k, v):
        if isinstance(k, bytes):
            self.string(k, True)
        else:
            self.value(k)
        self.value(v)

    def value(self, spec):
        out = self.out
        if spec is None:
            out.append(b'N')
        elif spec is True or spec is False:
            out.append(b'\x88' if spec else b'\x89')
        elif isinstance(spec, int):
            if 0 <= spec < 256:
                out.append(b'K' + bytes([spec]))
            elif 0 <= spec < 65536:
                out.append(b'M' + struct.pack('<H', spec))
            else:
                out.append(b'J' + struct.pack('<i', spec))
        elif isinstance(spec, float):
            out.append(b'G' + struct.pack('>d', spec))
        elif spec[0] == 'str':
            self.string(spec[1])
        elif spec[0] == 'uni':
            text = spec[1].encode('utf-8')
            out.append(b'X' + struct.pack('<I', len(text)) + text)
            self.put()
        elif spec[0] == 'list':
            out.append(b']')
            self.put()
            if len(spec) == 2:
                self.value(spec[1])
                out.append(b'a')
            elif len(spec) > 2:
                out.append(b'(')
                for x in spec[1:]:
                    self.value(x)
                out.append(b'e')
        elif spec[0] == 'tuple':
            if len(spec) == 1:
                out.append(b')')
                return
            if len(spec) > 4:
                out.append(b'(')
            for x in spec[1:]:
                self.value(x)
            out.append({2: b'\x85', 3: b'\x86', 4: b'\x87'}.get(
                len(spec), b't'))
            self.put()
        elif spec[0] == 'dict':
            out.append(b'}')
            self.put()
            self.items(unique(spec[1:]))
        elif spec[0] == 'set':
            self.klass(('__builtin__', 'set' if spec[1] else 'frozenset'))
            self.value(['list'] + spec[2:])
            out.append(b'\x85')
            self.put()
            out.append(b'R')
            self.put()
        elif spec[0] == 'pset': # the set of a PersistentSet
            self.value(['set', 1] + spec[1:])
        elif spec[0] == 'date':
            self.klass(('datetime', 'date'))
            self.string(struct.pack('>HBB', *spec[1:4]))
            out.append(b'\x85')
            self.put()
            out.append(b'R')
            self.put()
        elif spec[0] == 'datetime':
            self.klass(('datetime', 'datetime'))
            self.string(struct.pack('>HBBBBB', *spec[1:7]) +
                        struct.pack('>I', spec[7])[1:])
            out.append(b'\x85')
            self.put()
            out.append(b'R')
            self.put()
        elif spec[0] == 'ref':
            i = spec[1] % len(self.oids)
            self.refs.add(self.oids[i])
            self.string(self.oids[i])
            self.klass(self.classes[i])
            out.append(b'\x86')
            self.put()
            out.append(b'Q')
        else:
            raise AssertionError(spec)


def unique(pairs):
    result, seen = [], set()
    for k, v in pairs:
        if key_of(k) not in seen:
            seen.add(key_of(k))
            result.append([k, v])
    return result


def key_of(k):
    return expected_value(k, 1)


def text_of(data):
    try:
        return data.decode('ascii')
    except UnicodeDecodeError:
        return data


def expected_value(spec, n):
    """What the value should be in Python 3 (n objects)."""
    if isinstance(spec, bytes):
        return text_of(spec)
    if not isinstance(spec, list):
        return spec
    tag = spec[0]
    if tag == 'str':
        return text_of(spec[1])
    if tag == 'uni':
        return spec[1]
    if tag == 'list':
        return [expected_value(x, n) for x in spec[1:]]
    if tag == 'tuple':
        return tuple(expected_value(x, n) for x in spec[1:])
    if tag == 'dict':
        return dict((expected_value(k, n), expected_value(v, n))
                    for k, v in unique(spec[1:]))
    if tag == 'set':
        return (set if spec[1] else frozenset)(
            expected_value(x, n) for x in spec[2:])
    if tag == 'date':
        return datetime.date(*spec[1:])
    if tag == 'datetime':
        return datetime.datetime(*spec[1:])
    if tag == 'ref':
        return graph.Ref(spec[1] % n)
    raise AssertionError(spec)


# number of the class shape in graph.KINDS -> how its state is written
PY2_KINDS = [0, 1, 7, 8, 9, 12]


def py2_record(oid, kind, state, oids, classes, compressed):
    cls = graph.KINDS[kind].cls
    p = Py2Pickler(oids, classes)
    p.out.append(b'\x80\x02')
    p.klass((cls.__module__, cls.__name__))
    p.out.append(b'.')
    head = b''.join(p.out)
    del p.out[:]
    p.out.append(b'\x80\x02')
    if kind == 7:
        p.attributes([[b'data', ['dict'] + state]])
    elif kind == 8:
        p.attributes([[b'data', ['list'] + state]])
    elif kind == 9:
        p.attributes([[b's', ['set', 1] + state]])
    else:
        p.attributes(state)
    p.out.append(b'.')
    body = b''.join(p.out)
    if compressed:
        body = zlib.compress(body)
    p.refs.discard(oid)
    return pack_record(oid, head + body, b''.join(sorted(p.refs)))


def py2_model(kind, state, n):
    if kind == 7:
        return expected_value(['dict'] + state, n)
    if kind == 8:
        return [expected_value(x, n) for x in state]
    if kind == 9:
        return set(expected_value(x, n) for x in state)
    return dict((text_of(k), expected_value(v, n)) for k, v in state)


def py2_state(kind, pairs):
    """A state for an object of this kind from generated [key, value]s."""
    if kind == 7:
        return unique(pairs)
    if kind == 8:
        return [v for k, v in pairs]
    if kind == 9:
        result = []
        for k, v in pairs:
            for x in (k, v):
                if isinstance(x, list) and x[0] in ('str', 'uni') or \
                        isinstance(x, int) and x not in (0, 1):
                    result.append(x)
        return result
    names = [b'f0', b'f1', b'f2', b'f3']
    if kind in (0, 12):
        names += [b'g', b'data', b'value', b'x' * 30, b'f0_1234']
    result, used = [], set()
    for n, (k, v) in enumerate(pairs):
        size = len(k[1]) if isinstance(k, list) else 3
        name = names[(size * 3 + n) % len(names)]
        if name not in used:
            used.add(name)
            result.append([name, v])
    return result


def write_dfs20(path, transactions, indexed, protocol):
    """A FileStorage2 file as Python 2 wrote it; the first `indexed`
    transactions are in the index."""
    index = {}
    with open(path, 'wb') as f:
        f.write(b'DFS20\0' + bytes(8))

        def write(transaction):
            for oid, record in transaction:
                index[oid] = f.tell()
                f.write(struct.pack('>I', len(record)) + record)
            f.write(bytes(4))
        for t in transactions[:indexed]:
            write(t)
        offset = f.tell()
        if protocol == 0:
            text = b'(dp1\n' + b''.join(
                b"S'%s'\np%d\nI%d\ns" % (b''.join(
                    b'\\x%02x' % c for c in oid), n + 2, index[oid])
                for n, oid in enumerate(sorted(index))) + b'.'
        else:
            text = b'\x80\x02}q\x01(' + b''.join(
                b'U\x08' + oid + b'J' + struct.pack('<i', index[oid])
                for oid in sorted(index)) + b'u.'
        text = zlib.compress(text)
        f.write(struct.pack('>Q', len(text)) + text)
        for t in transactions[indexed:]:
            write(t)
        f.seek(6)
        f.write(struct.pack('>Q', offset))


RUN = '''
import sys
sys.dont_write_bytecode = True
from pbt import boot
boot.load_durus(%r, %r)
import runpy
sys.argv[:] = [%r] + sys.argv[1:]
runpy.run_path(%r, run_name='__main__')
'''


def run_py2(case, ctx):
    kinds = [7] + [PY2_KINDS[k % len(PY2_KINDS)] for k in case['kinds']]
    n = len(kinds)
    gap = min(case['gap'], 9001 if case['shelf'] else 2 ** 30)
    oids = [int8_to_str(i * gap) for i in range(n)]
    classes = [(graph.KINDS[k].cls.__module__, graph.KINDS[k].cls.__name__)
               for k in kinds]
    states = [None] * n
    transactions = []
    for stage in case['stages']:
        batch = {}
        for i, pairs in stage:
            states[i % n] = py2_state(kinds[i % n], pairs)
            batch[i % n] = True
        if not transactions:
            for i in range(n):
                if states[i] is None:
                    states[i] = []
                batch[i] = True
            # Some of it is reachable.
            states[0] = unique([[['str', b'%d' % i], ['ref', i]]
                                for i in case['first']] + list(states[0]))
        transactions.append([(oids[i], py2_record(
            oids[i], kinds[i], states[i], oids, classes, case['compress']))
            for i in sorted(batch)])
    path = ctx.path('old')
    if case['shelf']:
        Shelf(path, items=transactions[0]).file.close()
        shelf = Shelf(path)
        for t in transactions[1:]:
            shelf.store(t)
        shelf.file.close()
        kind = 'file'
    else:
        write_dfs20(path, transactions, case['indexed'], case['protocol'])
        kind = 'file2'
    before = content(path)
    check(get_storage_class(path) is CLASSES[kind], 'format')
    new = ctx.path('new')
    stdin = b''
    if case['exists']:
        with open(new, 'wb') as f:
            f.write(b'old data')
        stdin = [b'y\n', b'n\n'][case['exists'] - 1]
    script = os.path.join(boot.REPO, 'bin', 'db_to_py3k.py')
    done = subprocess.run(
        [sys.executable, '-B', '-c', RUN % (
            ctx.mode, boot.SO, script, script), path, new],
        input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=60)
    check(content(path) == before, 'the old file has changed')
    if case['exists'] == 2:
        check(content(new) == b'old data', 'a file is overwritten')
        ctx.label('declined')
        return
    if done.returncode != 0:
        raise Violation('the converter fails: %s' %
                        done.stdout.decode('utf-8', 'replace')[-2000:])
    models = [py2_model(k, s, n) for k, s in zip(kinds, states)]
    live = graph.reachable([0], lambda i: kinds[i], lambda i: models[i])
    check(get_storage_class(new) is CLASSES[kind], 'format of the new file')
    storage = get_storage(new)
    found = graph.compare_graph(
        Connection(storage).root, 7, kinds, models,
        dict(enumerate(oids)), 'converted')
    expect_eq(set(found), live, 'converted objects')
    expect_eq(set(oid for oid, record in storage.gen_oid_record()),
              set(oids[i] for i in live), 'records')
    storage.close()
    ctx.label('converted-' + kind)
    ctx.mark(len(live) > 2)


def py2_strategy():
    plain = st.binary(max_size=12).filter(
        lambda b: not (len(b) == 8 and b[:4] == bytes(4)))
    ascii_text = st.text('abcdefgh /_%\n\0', max_size=9).map(
        lambda s: s.encode())
    text = st.one_of(ascii_text, ascii_text, plain,
                     st.integers(250, 300).map(lambda n: b'x' * n),
                     st.just(b'caf\xc3\xa9')).filter(
        lambda b: not (len(b) == 8 and b[:4] == bytes(4)))
    string = st.tuples(st.just('str'), text).map(list)
    uni = st.tuples(st.just('uni'), st.text(max_size=5)).map(list)
    ref = st.tuples(st.just('ref'), gen.small(8)).map(list)
    leaf = st.one_of(
        st.none(), st.booleans(), st.integers(-2 ** 31, 2 ** 31 - 1),
        st.floats(allow_nan=False), string, string, uni, ref, ref,
        st.builds(lambda d: ['date', d.year, d.month, d.day], st.dates()),
        st.builds(lambda d: ['datetime', d.year, d.month, d.day, d.hour,
                             d.minute, d.second, d.microsecond],
                  st.datetimes()))
    keys = st.one_of(string, string, uni, st.integers(2, 5))
    value = st.one_of(
        leaf, leaf,
        st.lists(leaf, max_size=5).map(lambda x: ['list'] + x),
        st.lists(leaf, max_size=5).map(lambda x: ['tuple'] + x),
        st.lists(st.tuples(keys, leaf).map(list), max_size=4).map(
            lambda x: ['dict'] + x),
        st.builds(lambda f, x: ['set', f] + x, gen.small(1), st.lists(
            st.one_of(string, st.integers(2, 9)), max_size=3)))
    pairs = st.lists(st.tuples(keys, value).map(list), max_size=5)
    stage = st.lists(st.tuples(gen.small(8), pairs).map(list), min_size=1,
                     max_size=6)
    return gen.record(
        kinds=st.lists(gen.small(len(PY2_KINDS) - 1), min_size=2, max_size=8),
        first=st.lists(gen.small(8), min_size=1, max_size=5),
        stages=st.builds(lambda a, b: [a] + b, st.lists(
            st.tuples(gen.small(8), pairs).map(list), min_size=2, max_size=9),
            st.lists(stage, max_size=2)),
        gap=st.sampled_from([1, 1, 3, 100, 100, 70001, 2 ** 28 + 1]),
        shelf=st.booleans(),
        compress=st.sampled_from([True, True, False]),
        indexed=gen.small(3), protocol=st.sampled_from([0, 2]),
        exists=st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2]))


FACETS = [
    Facet('copy', copy_strategy, run_copy, quick=1600, thorough=40000,
          rule='a generated graph in a storage of each format, recognised, '
          'refused by the other formats and copied from record to record '
          'through up to three formats; non-trivial with more than two '
          'reachable objects'),
    Facet('unknown', unknown_strategy, run_unknown, quick=4000,
          thorough=100000,
          rule='random contents, damaged magic strings and pieces of other '
          'formats, opened by every class; non-trivial when at least one '
          'class had to refuse'),
    Facet('tools', tools_strategy, run_tools, quick=1000, thorough=20000,
          rule='the packing tool (on a file or through a server), the '
          'renumbering script and the interactive client on a generated '
          'graph; non-trivial with more than two reachable objects'),
    Facet('py3k', py2_strategy, run_py2, quick=240, thorough=5000,
          rule='files with records as Python 2 wrote them, converted by '
          'the script; non-trivial with more than two reachable objects'),
]
