"""C13: attribute access, in both implementations and next to plain objects.

Every case runs on three sides at once: durus with the C base classes, durus
with the Python ones (two copies of the package in one process), and plain
objects of classes made from the same source.
"""
import copy
import sys
import types

from hypothesis import strategies as st

from .. import boot, gen
from ..core import Facet, Violation, check, expect_eq

SOURCE = '''
class Node(Persistent):
    default = 'default'
    def method(self):
        self.count = getattr(self, 'count', 0) + 1
        return self.count

class Slotted(PersistentObject):
    __slots__ = ['a', 'b', 'c']
    def method(self):
        return [hasattr(self, 'a'), hasattr(self, 'b')]

class Sub(Slotted):
    __slots__ = ('d', '__private')
    limit = 5
    def method(self):
        self.__private = 'private'
        return self.__private

class Single(PersistentObject):
    __slots__ = 'extra'
    def method(self):
        self.extra = 1

class Both(Slotted):
    def method(self):
        self.a, self.extra = 'a', 'extra'

class WithDict(PersistentObject):
    __slots__ = ['__dict__', 'a', '_b']
    def method(self):
        del self.a

class Deep(Both):
    __slots__ = ['e']
    def method(self):
        return sorted(n for n in self.__dict__ if n[:3] != '_p_')

class Properties(Persistent):
    def getx(self):
        return self._x
    def setx(self, value):
        self._x = value
    def delx(self):
        del self._x
    a = property(getx, setx, delx)
    b = property(lambda self: 'constant')
    def method(self):
        self.a = [self.b]

class Fallback(Persistent):
    def __getattr__(self, name):
        if name.startswith('dynamic') or name == 'a':
            return 'dynamic ' + name
        raise AttributeError(name)
    def method(self):
        return self.dynamic_thing

class Setter(Persistent):
    def __setattr__(self, name, value):
        if name == 'b':
            name = 'a'
        super().__setattr__(name, value)
    def method(self):
        self.b = 'set'

class Custom(PersistentObject):
    __slots__ = ['a', 'b']
    def __getstate__(self):
        return dict((n, getattr(self, n)) for n in ('a', 'b')
                    if hasattr(self, n))
    def method(self):
        self.b = getattr(self, 'a', None)

class Counting(Both):
    __slots__ = ('__', '___x', '_y__', 'f')
    def method(self):
        self.f = 1
        setattr(self, '__', 2)

class Empty(PersistentObject):
    __slots__ = []
    def method(self):
        return len(self.__class__.__name__)

class _Under(Slotted):
    __slots__ = ['__secret', 'd']
    def method(self):
        self.__secret = self.d = 'd'

class __(Slotted):
    __slots__ = ['__unmangled']
    def method(self):
        setattr(self, '__unmangled', 1)
'''
CLASSES = ['Node', 'Slotted', 'Sub', 'Single', 'Both', 'WithDict', 'Deep',
           'Properties', 'Fallback', 'Setter', 'Custom', 'Counting', 'Empty',
           '_Under', '__', 'Node', 'Both']
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', '_b', '_x', 'count', 'extra',
         'default', 'limit', '__private', '_Sub__private', '__', '___x',
         '_y__', '_Under__secret', '__unmangled', 'dynamic_thing', 'method',
         'p_a', '_q', '_p', '_pa', '__x__', '__r', '__repr', '__class',
         '__setstate', '__setstate__x', '__repr__x', '\xe9', '\u4e2d',
         '\ud800', '', ' ', 'a b', 'a\0b', '_p\0', '__repr__\0', '__class__\0x', '__setstate__\0', 'x' * 300, 'None',
         '__doc__', '__module__']
READONLY = NAMES + ['__dict__', '__class__', '__getstate__', '__slots__',
                    '__repr__', '__setstate__', '__hash__']
PRIVATE = ['_p_x', '_p_', '_p_note', '_p_\xe9', '_p_a_longer_one']
SAFE = ('__repr__', '__class__', '__setstate__')


class Side(object):
    """One copy of durus, and the classes that are based on it."""

    def __init__(self, mode):
        saved = {}
        for name in list(sys.modules):
            if name == 'durus' or name.startswith('durus.'):
                saved[name] = sys.modules.pop(name)
        stderr = sys.stderr
        try:
            boot.load_durus(mode, boot.SO)
            import durus.persistent
            import durus.connection
            import durus.storage
            self.persistent = durus.persistent
            self.connection = durus.connection
            self.storage = durus.storage
        finally:
            sys.stderr = stderr
            for name in list(sys.modules):
                if name == 'durus' or name.startswith('durus.'):
                    del sys.modules[name]
            sys.modules.update(saved)
        self.name = 'pbt_attributes_' + mode
        module = types.ModuleType(self.name)
        sys.modules[self.name] = module
        module.Persistent = self.persistent.Persistent
        module.PersistentObject = self.persistent.PersistentObject
        exec(SOURCE, module.__dict__)
        self.module = module
        self.base = self.persistent.PersistentBase


class Plain(object):
    """The same classes without durus."""

    def __init__(self):
        module = types.ModuleType('pbt_attributes_plain')
        sys.modules['pbt_attributes_plain'] = module
        exec('''
class PersistentObject(object):
    __slots__ = ['__weakref__']
class Persistent(PersistentObject):
    pass
''', module.__dict__)
        exec(SOURCE, module.__dict__)
        self.module = module


SIDES = []


def sides():
    if not SIDES:
        SIDES.extend([Side('c'), Side('py'), Plain()])
        check(SIDES[0].base is not SIDES[1].base, 'two implementations')
    return SIDES


def loads(name):
    """Does access to this name need the state?"""
    return name[:3] != '_p_' and name not in SAFE


def plain_state(obj):
    """Everything a plain object holds."""
    result = {}
    for name in getattr(obj, '__dict__', ()):
        result['dict', name] = obj.__dict__[name]
    for klass in type(obj).__mro__:
        for name, member in klass.__dict__.items():
            if isinstance(member, types.MemberDescriptorType):
                try:
                    result['slot', member.__name__] = member.__get__(obj)
                except AttributeError:
                    pass
    return result


def copied(value):
    if isinstance(value, list):
        return [copied(v) for v in value]
    return value


def restore(obj, state):
    if hasattr(obj, '__dict__'):
        obj.__dict__.clear()
    for klass in type(obj).__mro__:
        for name, member in klass.__dict__.items():
            if isinstance(member, types.MemberDescriptorType):
                try:
                    member.__delete__(obj)
                except AttributeError:
                    pass
    for (kind, name), value in state.items():
        if kind == 'dict':
            obj.__dict__[name] = copied(value)
        else:
            object.__setattr__(obj, name, copied(value))


class Trio(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.c, self.py, self.plain = sides()
        self.objects = []       # of each side
        self.connections = []
        for side in (self.c, self.py):
            connection = side.connection.Connection(
                side.storage.MemoryStorage(), root_class=side.module.Node,
                cache_size=100)
            self.connections.append(connection)
            objs = [connection.get_root()]
            for k in case['classes']:
                objs.append(getattr(side.module, CLASSES[k])())
            self.objects.append(objs)
        objs = [self.plain.module.Node()]
        for k in case['classes']:
            objs.append(getattr(self.plain.module, CLASSES[k])())
        self.objects.append(objs)
        # Everything is reachable from the beginning.
        for objs in self.objects:
            objs[0].children = list(objs)
        n = len(objs)
        self.saved = [i == 0 for i in range(n)]
        self.committed = [plain_state(o) for o in objs]
        self.status = ['U'] * n
        self.accessed = [False] * n
        self.changed = set([0])
        self.accessed[0] = True
        self.broken = set()
        if case['stored']:
            self.op_commit()

    # -- comparisons

    def canon(self, side, x):
        objs = self.objects[side]
        for i, o in enumerate(objs):
            if o is x:
                return ('object', i)
        if isinstance(x, dict):
            return ('dict', sorted(
                ((self.canon(side, k), self.canon(side, v))
                 for k, v in x.items() if not str(k).startswith('_p_')),
                key=repr))
        if isinstance(x, (list, tuple)):
            return [self.canon(side, v) for v in x]
        if isinstance(x, type):
            return ('class', x.__name__)
        if callable(x):
            return ('callable', getattr(x, '__name__', ''))
        if isinstance(x, str) and x.startswith('pbt_attributes'):
            return 'module'
        return repr(x)

    def attempt(self, side, func):
        try:
            return ('ok', self.canon(side, func(self.objects[side])))
        except Exception as e:
            return ('exc', type(e).__name__)

    def everywhere(self, func, what, plain=True):
        c = self.attempt(0, func)
        py = self.attempt(1, func)
        expect_eq(c, py, '%s: C and Python base classes differ' % what)
        if plain:
            want = self.attempt(2, func)
            expect_eq(c, want, '%s: unlike a plain object' % what)
        return c

    def flags(self, i, side):
        obj = self.objects[side][i]
        connection = self.connections[side]
        if obj._p_is_unsaved():
            status = 'U'
        elif obj._p_is_saved():
            status = 'S'
        else:
            check(obj._p_is_ghost(), 'no status')
            status = 'G'
        return (status, obj._p_oid is not None,
                obj._p_connection is connection,
                obj._p_serial == connection.transaction_serial,
                obj._p_oid in connection.changed)

    def verify_flags(self, what, loose=()):
        """loose: an object that a failing write may have marked."""
        for i in range(len(self.status)):
            c, py = self.flags(i, 0), self.flags(i, 1)
            expect_eq(c, py, '%s: status of object %d (%s) with C and Python '
                      'base classes' % (what, i, self.name(i)))
            if i in loose:
                self.status[i] = c[0]
                self.accessed[i] = c[3]
                if c[4]:
                    self.changed.add(i)
            want = (self.status[i], self.saved[i], self.saved[i],
                    self.accessed[i] and self.saved[i],
                    i in self.changed and self.saved[i])
            expect_eq(c, want, '%s: status, stored, connected, accessed, '
                      'changed of object %d (%s)' % (what, i, self.name(i)))
        expect_eq(self.connections[0].get_load_count(),
                  self.connections[1].get_load_count(), 'loads')

    def name(self, i):
        return type(self.objects[2][i]).__name__

    # -- model

    def read(self, i):
        if self.status[i] == 'G':
            self.status[i] = 'S'
        self.accessed[i] = self.saved[i]

    def wrote(self, i):
        self.status[i] = 'U'
        if self.saved[i]:
            self.accessed[i] = True
            self.changed.add(i)

    def skip(self, i):
        """Objects whose record is gone."""
        return i in self.broken and self.status[i] == 'G'

    # -- operations

    def op_get(self, i, name):
        i %= len(self.status)
        if self.skip(i):
            if loads(name):
                r = self.everywhere(lambda o: getattr(o[i], name),
                                    'get', False)
                expect_eq(r, ('exc', 'ReadConflictError'),
                          'access to an object that is gone')
            return
        if loads(name):
            self.read(i)
            if name == 'method':
                pass
        self.everywhere(lambda o: getattr(o[i], name),
                        'get %r of a %s' % (name, self.name(i)),
                        name not in ('__getstate__', '__setstate__',
                                     '__repr__', '__hash__'))

    def op_default(self, i, name):
        i %= len(self.status)
        if self.skip(i):
            return
        self.read(i)
        self.everywhere(lambda o: [getattr(o[i], name, 'none'),
                                   hasattr(o[i], name)],
                        'getattr %r of a %s' % (name, self.name(i)))

    def op_set(self, i, name, value):
        i %= len(self.status)
        if self.skip(i):
            r = self.everywhere(lambda o: setattr(o[i], name, 1), 'set',
                                False)
            expect_eq(r, ('exc', 'ReadConflictError'),
                      'writing to an object that is gone')
            return
        r = self.everywhere(
            lambda o: setattr(o[i], name, self.value(o, value)),
            'set %r of a %s' % (name, self.name(i)))
        self.written(i, r)

    def written(self, i, r):
        if r[0] == 'ok':
            self.wrote(i)
        else:
            self.ctx.label('failed write')
            if self.status[i] == 'G':
                self.status[i] = 'S'
            self.loose.add(i)

    def value(self, objs, spec):
        if isinstance(spec, list):
            if spec[0] == 'ref':
                return objs[spec[1] % len(objs)]
            return [self.value(objs, s) for s in spec[1:]]
        return spec

    def op_del(self, i, name):
        i %= len(self.status)
        if self.skip(i):
            return
        r = self.everywhere(lambda o: delattr(o[i], name),
                            'delete %r of a %s' % (name, self.name(i)))
        self.written(i, r)

    def op_setdict(self, i, name, value):
        i %= len(self.status)
        if self.skip(i) or i == 0 or self.name(i) == 'Setter':
            return
        if hasattr(type(self.objects[2][i]), name):
            return # The same name in a slot and in the dict.
        def run(objs):
            objs[i].__dict__ = {name: self.value(objs, value)}
        r = self.everywhere(run, 'set __dict__ of a %s' % self.name(i))
        self.written(i, r)

    def op_method(self, i):
        i %= len(self.status)
        if self.skip(i):
            return
        before = plain_state(self.objects[2][i])
        self.read(i)
        r = self.everywhere(lambda o: o[i].method(),
                            'method of a %s' % self.name(i))
        if r[0] == 'exc' or self.name(i) not in (
                'Slotted', 'Deep', 'Fallback', 'Empty'):
            self.written(i, r)

    def op_private(self, i, name, what):
        """_p_ attributes never load anything or mark anything changed."""
        i %= len(self.status)
        if what == 0:
            self.everywhere(lambda o: getattr(o[i], name), 'get', False)
        elif what == 1:
            self.everywhere(lambda o: setattr(o[i], name, 5), 'set', False)
        else:
            r = self.everywhere(lambda o: hasattr(o[i], name), 'has', False)

    def op_quiet(self, i):
        """What never needs the state."""
        i %= len(self.status)
        def run(o):
            return [o[i].__class__, type(o[i]), isinstance(o[i], type(o[0])),
                    o[i]._p_is_ghost(), o[i] == o[i], o[i] != o[0],
                    hash(o[i]) == hash(o[i]),
                    repr(o[i]).split('@')[0], o[i]._p_format_oid()]
        r = self.everywhere(run, 'class and identity', False)
        oid = self.objects[0][i]._p_oid
        number = None if oid is None else int.from_bytes(oid, 'big')
        result = self.objects[0][i]._p_format_oid()
        expect_eq(result, str(number), 'the number of an id as text')
        text = repr(self.objects[0][i])
        check(type(self.objects[0][i]).__name__ in text and
              (oid is None or str(number) in text), 'repr is %r', text)

    def op_state(self, i):
        i %= len(self.status)
        if self.skip(i):
            return
        self.read(i)
        r = self.everywhere(lambda o: o[i].__getstate__(),
                            '__getstate__ of a %s' % self.name(i), False)
        want = {}
        for (kind, name), value in plain_state(self.objects[2][i]).items():
            want[name] = value
        expect_eq(r, ('ok', self.canon(2, want)),
                  'state of a %s' % self.name(i))

    def op_dict(self, i):
        i %= len(self.status)
        if self.skip(i):
            return
        self.read(i)
        self.everywhere(lambda o: [vars(o[i]), o[i].__dict__],
                        'vars of a %s' % self.name(i))

    def op_dir(self, i):
        i %= len(self.status)
        if self.skip(i):
            return
        self.read(i)
        c, py, plain = [
            set(n for n in dir(self.objects[side][i])
                if n in NAMES) for side in range(3)]
        expect_eq(c, py, 'dir')
        expect_eq(c, plain, 'dir')

    def op_copy(self, i):
        i %= len(self.status)
        if self.skip(i) or i == 0 or self.name(i) == 'Setter':
            return
        self.read(i)
        def run(o):
            new = copy.copy(o[i])
            state = new.__getstate__()
            if hasattr(new, '_p_oid'):
                check(new._p_oid is None and new._p_connection is None and
                      new._p_is_unsaved(), 'a copy is not unsaved')
            check(type(new) is type(o[i]), 'class of a copy')
            return state
        r = self.everywhere(run, 'copy of a %s' % self.name(i), False)
        want = {}
        for (kind, name), value in plain_state(self.objects[2][i]).items():
            want[name] = value
        expect_eq(r, ('ok', self.canon(2, want)),
                  'state of a copy of a %s' % self.name(i))

    def op_note(self, i):
        i %= len(self.status)
        if self.skip(i):
            return
        for side in (0, 1):
            self.objects[side][i]._p_note_change()
        self.wrote(i)

    def op_ghost(self, i):
        i %= len(self.status)
        if self.status[i] == 'S':
            for side in (0, 1):
                self.objects[side][i]._p_set_status_ghost()
            self.status[i] = 'G'
            self.unload(i)

    def op_ghostall(self):
        for i in range(len(self.status)):
            self.op_ghost(i)

    def unload(self, i):
        restore(self.objects[2][i], self.committed[i])

    def op_load(self, i):
        i %= len(self.status)
        if self.status[i] == 'G' and not self.skip(i):
            for side in (0, 1):
                self.objects[side][i]._p_load_state()
            self.status[i] = 'S'

    def op_setstate(self, i, name, value):
        """__setstate__ by itself neither loads nor marks."""
        i %= len(self.status)
        if self.status[i] != 'U' or i == 0:
            return
        if self.name(i) in ('Empty',) or not hasattr(
                self.objects[2][i], '__dict__'):
            state = {}
        else:
            state = {name: 5}
        def run(objs):
            objs[i].__setstate__(dict(state))
        for side in (0, 1):
            run(self.objects[side])
        plain = self.objects[2][i]
        restore(plain, {})
        for k, v in state.items():
            if isinstance(plain, self.plain.module.Persistent):
                plain.__dict__[k] = v
            else:
                object.__setattr__(plain, k, v)

    def op_break(self, i):
        """The record vanishes from the storage (as after a pack)."""
        i %= len(self.status)
        if (i == 0 or not self.saved[i] or self.status[i] != 'G' or
            i in self.broken):
            return
        for side in (0, 1):
            oid = self.objects[side][i]._p_oid
            del self.connections[side].get_storage().records[oid]
        self.broken.add(i)

    def op_commit(self):
        if any(i in self.broken for i in self.changed):
            return
        results = []
        for side in (0, 1):
            try:
                self.connections[side].commit()
                results.append('ok')
            except Exception as e:
                results.append(type(e).__name__)
        expect_eq(results[0], results[1], 'commit with C and Python')
        expect_eq(results[0], 'ok', 'commit')
        self.saved = [True] * len(self.status)
        for i in range(len(self.status)):
            if self.status[i] == 'U':
                self.status[i] = 'S'
                self.committed[i] = plain_state(self.objects[2][i])
                for k, v in self.committed[i].items():
                    self.committed[i][k] = copied(v)
        self.changed.clear()
        self.accessed = [False] * len(self.status)

    def op_abort(self):
        for side in (0, 1):
            self.connections[side].abort()
        for i in self.changed:
            if self.saved[i]:
                self.status[i] = 'G'
                self.unload(i)
        self.changed.clear()
        self.accessed = [False] * len(self.status)

    def run(self, ops):
        self.verify_flags('at the start')
        for op in ops:
            self.loose = set()
            if op[0] == 'abort' and not self.saved[1]:
                continue # Keep everything reachable.
            getattr(self, 'op_' + op[0])(*op[1:])
            self.verify_flags('after %s' % (op[:3],), self.loose)
        for i in range(len(self.status)):
            self.loose = set()
            if not self.skip(i):
                self.op_state(i)


def run(case, ctx):
    trio = Trio(case, ctx)
    trio.run(case['ops'])
    names = [op[0] for op in case['ops']]
    ctx.mark('set' in names and ('get' in names or 'del' in names) and
             ('ghost' in names or 'ghostall' in names or 'commit' in names))


def values():
    leaf = st.one_of(st.integers(-3, 300), st.sampled_from(
        [None, True, 'x', '', 1.5]))
    return st.one_of(leaf, leaf,
                     st.builds(lambda i: ['ref', i], gen.small(4)),
                     st.lists(leaf, max_size=2).map(lambda l: ['list'] + l))


def strategy():
    i = gen.small(4)
    common = st.sampled_from(NAMES[:12])
    name = st.one_of(common, common, st.sampled_from(NAMES),
                     st.text(max_size=3).filter(
                         lambda s: loads(s) and s[:2] != '__'))
    readable = st.one_of(name, name, st.sampled_from(READONLY))
    writable = name.filter(lambda n: n not in ('__class__', '__doc__',
                                               '__module__', 'method'))
    choices = [
        (6, gen.op('get', i, readable)), (1, gen.op('default', i, name)),
        (9, gen.op('set', i, writable, values())),
        (4, gen.op('del', i, writable)),
        (1, gen.op('setdict', i, common, values())),
        (3, gen.op('method', i)), (1, gen.op('quiet', i)),
        (1, gen.op('private', i, st.sampled_from(PRIVATE), gen.small(2))),
        (3, gen.op('state', i)), (1, gen.op('dict', i)),
        (1, gen.op('dir', i)), (1, gen.op('copy', i)), (1, gen.op('note', i)),
        (3, gen.op('ghost', i)), (2, gen.op('ghostall')),
        (1, gen.op('load', i)), (1, gen.op('setstate', i, common, values())),
        (1, gen.op('break', i)), (3, gen.op('commit')), (2, gen.op('abort'))]
    return gen.record(
        classes=st.lists(gen.small(len(CLASSES) - 1), min_size=2, max_size=4),
        stored=st.sampled_from([True, True, True, False]),
        ops=gen.sized(gen.ops(*choices, max_size=12),
                      gen.ops(*choices, min_size=8, max_size=30),
                      gen.ops(*choices, min_size=20, max_size=60)))


FACETS = [
    Facet('attributes', strategy, run, quick=9000, thorough=300000,
          rule='a sequence of attribute reads, writes, deletions, method '
          'calls, state accesses, ghosting, commits and aborts on up to five '
          'objects of 15 class shapes, with ordinary and odd names; '
          'non-trivial when something was set, something else read or '
          'deleted, and something ghosted or committed'),
]
