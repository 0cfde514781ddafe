"""C26: the extension is memory safe and leaks nothing.

The programs run in a worker whose extension is either plain, with Python's
debugging allocator, or instrumented by AddressSanitizer; a crash of the
worker is a violation by itself.
"""
import copy
import gc
import pickle
import sys
import weakref

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Violation, check
from durus.connection import Connection
from durus.error import ReadConflictError
from durus.persistent import (
    ComputedAttribute, ConnectionBase, Persistent, PersistentBase,
    PersistentObject, _delattribute, _getattribute, _hasattribute,
    _setattribute, call_if_persistent)
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
from durus.btree import BNode, BTree
from durus.serialize import pack_record, unpack_record
from durus.storage import MemoryStorage
from durus.utils import int8_to_str


class Slots(PersistentObject):
    __slots__ = ['x', 'y', '__private']


class MoreSlots(Slots):
    __slots__ = ['z']


class TwinSlots(PersistentObject):
    __slots__ = ['x', 'y', '__private']


class Plain(Persistent):
    pass


class OtherPlain(Persistent):
    pass


class Fallback(Persistent):

    def __getattr__(self, name):
        if name == 'missing':
            raise AttributeError(name)
        return name


class Bare(PersistentBase):
    """Without weak references or methods."""


class Descriptors(Persistent):

    @property
    def x(self):
        return self.y

    @property
    def w(self):
        raise ValueError('w')


class Dying(Persistent):
    """Does things at the end."""
    saved = []

    def __del__(self):
        try:
            self.x
            self.y = 1
        except Exception:
            pass
        if getattr(World.current, 'resurrect', False):
            Dying.saved.append(self)


class OddState(PersistentObject):
    __slots__ = ['x', '__dict__']

    def __getstate__(self):
        return World.current.react(self, ('odd', self._p_status))

    def __setstate__(self, state):
        World.current.react(self)


class OddLoad(Persistent):

    def _p_load_state(self):
        World.current.react(self)
        return [1]

    def _p_note_change(self):
        World.current.react(self)
        return [1]


CLASSES = [Slots, MoreSlots, TwinSlots, Plain, Plain, OtherPlain, Fallback,
           Bare, Descriptors, Dying, OddState, OddLoad, PersistentDict,
           PersistentList, PersistentSet, BNode, ComputedAttribute,
           PersistentObject, Persistent, PersistentBase, ConnectionBase]


class Linked(ConnectionBase):
    """A connection that does as it is told."""

    def note_access(self, obj):
        World.current.react(obj)
        if World.current.mark:
            _setattribute(obj, '_p_serial', self.transaction_serial)
        return [1]

    def note_change(self, obj):
        World.current.react(obj)
        return [1]

    def load_state(self, obj):
        World.current.react(obj)
        if World.current.mark:
            obj.__setstate__({'x': 1})
            obj._p_set_status_saved()
        return [1]


class Duck(object):
    """Not a connection, but with its methods."""

    @property
    def transaction_serial(self):
        return [1]

    note_access = Linked.note_access
    note_change = Linked.note_change
    load_state = Linked.load_state


class Partial(object):

    @property
    def transaction_serial(self):
        return World.current.react(self)


class Odd(object):
    """An object that is hard to inspect."""

    @property
    def __class__(self):
        raise ValueError('__class__')


class Name(str):

    def __eq__(self, other):
        World.current.react(other)
        return str.__eq__(self, other)

    def __hash__(self):
        return str.__hash__(self)


NAMES = ['x', 'y', 'z', 'w', 'missing', '', '_', '_p', '_p_', '_p_x', '__',
         '__r', '__repr__', '__c', '__class__', '__setstate__', '__s',
         '__dict__', '__weakref__', '__slots__', '_Slots__private', 'data',
         'items', 'value', '\0', '_p_\0', '__repr__\0', '\ud800', '_\ud800',
         '_p_\ud800', '\xe9', '__\xe9', '_p\xe9', 'a' * 300, '_p_oid',
         '_p_status', '_p_serial', '_p_connection', '__getstate__',
         '__new__', '__init__', '__doc__', '__module__',
         '__getattribute__', 'transaction_serial']
ODD_NAMES = NAMES + [5, None, b'x', 1.5, ()]

MEMBERS = ['_p_oid', '_p_status', '_p_serial', '_p_connection',
           'transaction_serial']

METHODS = ['_p_load_state', '_p_note_change', '_p_set_status_ghost',
           '_p_set_status_saved', '_p_set_status_unsaved', '_p_is_ghost',
           '_p_is_saved', '_p_is_unsaved', '__getstate__', '__repr__',
           '_p_format_oid', '__reduce__', '__dir__', '__sizeof__',
           'keys', 'copy', 'pop', 'clear', 'invalidate', '__len__',
           '__iter__', '_p_gen_data_slots']


class Boom(Exception):
    pass


class World(object):
    current = None

    def __init__(self, case):
        self.case = case
        self.vars = [None] * 6
        self.refs = []
        self.reactions = list(case['reactions'])
        self.turn = 0
        self.depth = 0
        self.resurrect = case['resurrect']
        self.mark = case['mark']

    # -- callbacks

    def react(self, obj, result=None):
        """What a callback does, besides what it is for."""
        if self.depth > 3 or not self.reactions:
            return result
        how = self.reactions[self.turn % len(self.reactions)]
        self.turn += 1
        self.depth += 1
        try:
            if how == 'raise':
                raise Boom()
            elif how == 'raise-type':
                raise TypeError('boom')
            elif how == 'exit':
                raise KeyboardInterrupt
            elif how == 'collect':
                gc.collect(0)
            elif how == 'drop':
                self.vars[:] = [None] * len(self.vars)
            elif how == 'drop-collect':
                self.vars[:] = [None] * len(self.vars)
                gc.collect(0)
            elif how == 'disconnect':
                obj._p_connection = None
            elif how == 'delete-connection':
                del obj._p_connection
            elif how == 'delete-serial':
                del obj._p_serial
            elif how == 'ghost':
                _setattribute(obj, '_p_status', -1)
            elif how == 'saved':
                _setattribute(obj, '_p_status', 0)
            elif how == 'enter':
                obj.x
            elif how == 'write':
                obj.x = 1
            elif how == 'serial':
                obj._p_connection.transaction_serial += 10 ** 10
            elif how == 'class':
                obj.__class__ = OtherPlain
            elif how == 'clear':
                obj.__dict__.clear()
        finally:
            self.depth -= 1
        return result

    # -- values

    def value(self, v):
        kind, n = v
        if kind == 'var':
            return self.vars[n % len(self.vars)]
        if kind == 'int':
            return [0, 1, -1, 5, 2 ** 31, 2 ** 40, 10 ** 30, -2 ** 63][n % 8]
        if kind == 'oid':
            return int8_to_str(n)
        if kind == 'str':
            return NAMES[n % len(NAMES)]
        if kind == 'list':
            return [self.vars[n % len(self.vars)], n]
        if kind == 'dict':
            return {'x': self.vars[n % len(self.vars)], 'y': n + 10 ** 10}
        if kind == 'odd':
            return [Odd(), Odd, object(), lambda x: x, Boom(), 1.5,
                    {'_p_oid': 1, 5: 6}, {'\ud800': 1}, [('x', 1)], b'',
                    ][n % 10]
        if kind == 'class':
            return CLASSES[n % len(CLASSES)]
        return None

    def watch(self, obj):
        try:
            self.refs.append(weakref.ref(obj))
        except TypeError:
            pass
        return obj

    # -- operations

    def op_new(self, v, n):
        self.vars[v % len(self.vars)] = self.watch(
            CLASSES[n % len(CLASSES)]())

    def op_make(self, v, n, args):
        klass = CLASSES[n % len(CLASSES)]
        self.vars[v % len(self.vars)] = self.watch(
            klass.__new__(klass, *[self.value(a) for a in args]))

    def op_class(self, v, n):
        """A class that lives no longer than its instances."""
        base = CLASSES[n % len(CLASSES)]
        klass = type('Local', (base,), {'__slots__': ['a%d' % (n % 3)]}
                     if n % 2 else {})
        self.watch(klass)
        self.vars[v % len(self.vars)] = self.watch(klass())

    def op_link(self, v, w, name):
        setattr(self.vars[v % len(self.vars)], NAMES[name % len(NAMES)],
                self.vars[w % len(self.vars)])

    def op_connect(self, v, n, status, oid):
        """As if it came from a connection."""
        obj = self.vars[v % len(self.vars)]
        if n == 3:
            connection = Connection(MemoryStorage())
            connection.get_root()['x'] = connection.get_root()
        else:
            connection = [Linked, Duck, Partial, 0, Odd][n]()
        self.watch(connection)
        obj._p_connection = connection
        obj._p_oid = int8_to_str(oid)
        obj._p_status = status

    def op_get(self, v, name):
        getattr(self.vars[v % len(self.vars)], NAMES[name % len(NAMES)])

    def op_getodd(self, v, name):
        obj = self.vars[v % len(self.vars)]
        name = ODD_NAMES[name % len(ODD_NAMES)]
        if isinstance(name, str):
            name = Name(name)
        type(obj).__getattribute__(obj, name)

    def op_set(self, v, name, value):
        setattr(self.vars[v % len(self.vars)], NAMES[name % len(NAMES)],
                self.value(value))

    def op_setodd(self, v, name, value):
        obj = self.vars[v % len(self.vars)]
        name = ODD_NAMES[name % len(ODD_NAMES)]
        if isinstance(name, str):
            name = Name(name)
        if value[0] == 'none':
            type(obj).__delattr__(obj, name)
        else:
            type(obj).__setattr__(obj, name, self.value(value))

    def op_del(self, v, name):
        delattr(self.vars[v % len(self.vars)], NAMES[name % len(NAMES)])

    def op_member(self, v, m, value):
        setattr(self.vars[v % len(self.vars)], MEMBERS[m % len(MEMBERS)],
                self.value(value))

    def op_delmember(self, v, m):
        delattr(self.vars[v % len(self.vars)], MEMBERS[m % len(MEMBERS)])

    def op_status(self, v, status):
        self.vars[v % len(self.vars)]._p_status = status

    def op_call(self, v, m):
        result = getattr(self.vars[v % len(self.vars)],
                         METHODS[m % len(METHODS)])()
        if hasattr(result, '__next__'):
            list(result)

    def op_setstate(self, v, value):
        self.vars[v % len(self.vars)].__setstate__(self.value(value))

    def op_setclass(self, v, n):
        self.vars[v % len(self.vars)].__class__ = CLASSES[n % len(CLASSES)]

    def op_function(self, f, args):
        function = [_getattribute, _setattribute, _delattribute,
                    _hasattribute, call_if_persistent][f % 5]
        args = [self.value(a) for a in args]
        if args and isinstance(args[0], type) and f % 5 < 4:
            return # No one sets attributes of types this way.
        function(*args)

    def op_apply(self, v, name, f):
        """The functions as they are meant to be used."""
        obj = self.vars[v % len(self.vars)]
        if not isinstance(obj, PersistentBase):
            return
        name = NAMES[name % len(NAMES)]
        if f % 5 == 0:
            _setattribute(obj, name, obj)
        elif f % 5 == 1:
            _delattribute(obj, name)
        elif f % 5 == 2:
            check(_hasattribute(obj, name) in (True, False), 'a result')
        elif f % 5 == 3:
            _getattribute(obj, name)
        else:
            check(call_if_persistent(lambda x: x, obj) is obj, 'a call')
            check(call_if_persistent(lambda x: x, 5) is None, 'a call')
            call_if_persistent(lambda x: x, Odd())

    def op_loop(self, v, n, m):
        """A cycle through the members only."""
        kinds = [Slots, Linked, PersistentObject, Bare, ConnectionBase]
        objs = [kinds[i % 5]() for i in n]
        last = objs[-1]
        for obj in objs:
            self.watch(obj)
            name = MEMBERS[m % 4]
            if isinstance(obj, ConnectionBase):
                name = 'transaction_serial'
            elif name == '_p_status':
                name = '_p_oid'
            setattr(obj, name, last)
            last = obj
        self.vars[v % len(self.vars)] = last

    def op_inspect(self, v, how):
        obj = self.vars[v % len(self.vars)]
        how = how % 9
        if how == 0:
            gc.get_referents(obj)
            gc.get_referrers(obj)
        elif how == 1:
            sys.getsizeof(obj)
        elif how == 2:
            repr(obj)
            str(obj)
        elif how == 3:
            pickle.loads(pickle.dumps(obj, 2))
        elif how == 4:
            copy.copy(obj)
        elif how == 5:
            copy.deepcopy(obj)
        elif how == 6:
            dir(obj)
            vars(obj)
        elif how == 7:
            hash(obj), obj == obj, obj != 5, bool(obj)
            obj < obj
        else:
            isinstance(obj, PersistentBase)
            issubclass(type(obj), ConnectionBase)

    def op_weak(self, v, how):
        obj = self.vars[v % len(self.vars)]
        vars = self.vars

        def gone(ref):
            if how % 3 == 0:
                vars[:] = [None] * len(vars)
            elif how % 3 == 1:
                gc.collect(0)
            else:
                raise Boom()
        self.refs.append(weakref.ref(obj, gone))

    def op_drop(self, v):
        self.vars[v % len(self.vars)] = None

    def op_collect(self, n):
        gc.collect(n % 2)

    def op_chain(self, v, n, kind):
        """A long chain, which is freed in one go."""
        klass = [Plain, Slots, PersistentList, PersistentDict][kind % 4]
        last = None
        for i in range(n):
            obj = klass()
            if kind % 4 == 2:
                obj.append(last)
            elif kind % 4 == 3:
                obj[0] = last
            else:
                obj.x = last
            last = obj
        self.vars[v % len(self.vars)] = self.watch(last)

    def op_many(self, v, n):
        klass = CLASSES[n % len(CLASSES)]
        for i in range(50):
            obj = klass()
        self.vars[v % len(self.vars)] = self.watch(obj)


# (Python's attribute cache holds on to names that are not always the same.)
METHOD_OF = dict((name[3:], name) for name in dir(World)
                 if name.startswith('op_'))


def program(case):
    """Run it and return weak references to everything it made."""
    world = World.current = World(case)
    try:
        for op in case['ops']:
            try:
                getattr(world, METHOD_OF[op[0]])(*op[1:])
            except SystemError as e:
                raise Violation('SystemError: %s' % e)
            except Violation:
                raise
            except (Exception, KeyboardInterrupt):
                pass
        world.reactions = []
        return world.refs
    finally:
        world.reactions = []
        del world.vars[:]


def clean_up():
    World.current.resurrect = False
    for i in range(4):
        del Dying.saved[:]
        if not gc.collect() and not Dying.saved:
            break
    World.current = None


def blocks(case, times):
    """How much is allocated after some more runs."""
    for i in range(times):
        program(case)
        clean_up()
    return allocated()


class Quiet(object):
    """Exceptions in callbacks and __del__ are not shown."""

    def __enter__(self):
        self.hook = sys.unraisablehook
        sys.unraisablehook = self.note
        self.bad = None

    def note(self, args):
        if isinstance(args.exc_value, SystemError):
            Quiet.last = repr(args.exc_value)

    def __exit__(self, *args):
        sys.unraisablehook = self.hook

    last = None


cases = 0


def settle():
    """The collector need not look at everything else again and again."""
    global cases
    if cases % 50 == 0:
        gc.collect()
        gc.freeze()
    cases += 1


def allocated():
    if hasattr(sys, '_clear_type_cache'):
        sys._clear_type_cache() # which holds names
    return sys.getallocatedblocks()


def run_ops(case, ctx):
    settle()
    Quiet.last = None
    with Quiet():
        refs = program(case)
        clean_up()
        alive = [type(ref()).__name__ for ref in refs if ref() is not None]
        check(not alive, 'still alive: %s', alive[:5])
        if case['repeat']:
            balance(lambda times: blocks(case, times))
            ctx.label('repeated')
    check(Quiet.last is None, '%s', Quiet.last)
    for op in case['ops']:
        ctx.label(op[0])
    ctx.mark(len(case['ops']) > 3)


def balance(blocks):
    """Any number of repetitions leaves as much allocated as one."""
    blocks(3)
    before = blocks(1)
    if blocks(4) - before < 4:
        return
    # Something else may be growing, but not again and again.
    for times in (10, 20, 40):
        blocks(3)
        before = blocks(1)
        grown = blocks(times) - before
        if grown < times:
            return
    raise Violation('%d blocks more after %d repetitions' % (grown, times))


def ops_strategy():
    v = gen.small(5)
    name = gen.small(len(NAMES) - 1)
    few = gen.small(3) # x, y, z, w
    which = st.one_of(few, name)
    odd = gen.small(len(ODD_NAMES) - 1)
    value = st.tuples(st.sampled_from(
        ['var', 'var', 'int', 'oid', 'str', 'list', 'dict', 'odd', 'class',
         'none']), gen.small(10)).map(list)
    klass = gen.small(len(CLASSES) - 1)
    status = st.sampled_from([-1, -1, -1, 0, 0, 1])
    choices = [
        (6, gen.op('new', v, klass)),
        (1, gen.op('make', v, klass, st.lists(value, max_size=2))),
        (2, gen.op('class', v, klass)), (3, gen.op('link', v, v, which)),
        (6, gen.op('connect', v, st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
                   status, gen.small(3))),
        (5, gen.op('get', v, which)), (3, gen.op('getodd', v, odd)),
        (5, gen.op('set', v, which, value)),
        (3, gen.op('setodd', v, odd, value)), (3, gen.op('del', v, which)),
        (3, gen.op('member', v, gen.small(4), value)),
        (2, gen.op('delmember', v, gen.small(4))),
        (3, gen.op('status', v, st.sampled_from(
            [-1, 0, 1, 5, -2 ** 31, 2 ** 40]))),
        (4, gen.op('call', v, gen.small(len(METHODS) - 1))),
        (3, gen.op('setstate', v, value)), (1, gen.op('setclass', v, klass)),
        (3, gen.op('function', gen.small(4), st.lists(value, max_size=4))),
        (2, gen.op('apply', v, which, gen.small(4))),
        (3, gen.op('inspect', v, gen.small(8))),
        (2, gen.op('weak', v, gen.small(2))), (3, gen.op('drop', v)),
        (1, gen.op('collect', gen.small(1))),
        (1, gen.op('chain', v, st.sampled_from([10, 100, 3000]),
                   gen.small(3))),
        (1, gen.op('many', v, klass)),
        (2, gen.op('loop', v, st.lists(
            gen.small(4), min_size=1, max_size=3), gen.small(3)))]
    reaction = st.sampled_from(
        ['nothing', 'nothing', 'raise', 'raise-type', 'exit', 'collect',
         'drop', 'drop-collect', 'disconnect', 'delete-connection',
         'delete-serial', 'ghost', 'saved', 'enter', 'write', 'serial',
         'class', 'clear'])
    return gen.record(
        reactions=st.lists(reaction, max_size=6), resurrect=st.booleans(),
        mark=st.booleans(), repeat=st.sampled_from([False, False, True]),
        ops=gen.sized(gen.ops(*choices, max_size=8),
                      gen.ops(*choices, min_size=8, max_size=40)))


# -- connections

class Unreliable(MemoryStorage):
    """Loads fail in several ways."""
    how = None

    def load(self, oid):
        how = self.how
        if how and oid != int8_to_str(0):
            if how == 'missing':
                raise KeyError(oid)
            if how == 'conflict':
                raise ReadConflictError([oid])
            if how == 'error':
                raise OSError(5, 'injected')
            if how == 'exit':
                raise KeyboardInterrupt
            record = MemoryStorage.load(self, oid)
            if how == 'empty':
                return b''
            if how == 'short':
                return record[:len(record) // 2]
            if how == 'damaged':
                return record[:12] + b'\xff' + record[13:]
            if how == 'other':
                oid, data, refs = unpack_record(record)
                return pack_record(int8_to_str(77), data, refs)
            if how == 'text':
                return record.decode('latin-1')
            return None
        return MemoryStorage.load(self, oid)

    def end(self, handle_invalidations=None):
        if self.how == 'error':
            MemoryStorage.begin(self)
            raise OSError(5, 'injected')
        MemoryStorage.end(self, handle_invalidations)


class Trip(object):

    def __init__(self, case):
        self.refs = []
        self.storage = self.watch(Unreliable())
        self.connection = self.watch(Connection(self.storage))
        self.vars = [self.connection.get_root()]

    watch = World.watch

    def var(self, v):
        return self.vars[v % len(self.vars)]

    def op_add(self, v, kind, key):
        parent = self.var(v)
        new = self.watch([PersistentDict, PersistentList, Plain, Slots,
                          BTree, ComputedAttribute][kind % 6]())
        self.vars.append(new)
        self.put(parent, key, new)

    def put(self, parent, key, value):
        if isinstance(parent, (PersistentDict, BTree)):
            parent[key] = value
        elif isinstance(parent, PersistentList):
            parent.append(value)
        else:
            parent.x = value

    def op_link(self, v, w, key):
        self.put(self.var(v), key, self.var(w))

    def op_use(self, v, key):
        obj = self.var(v)
        if isinstance(obj, (PersistentDict, BTree)):
            obj[key]
        elif isinstance(obj, PersistentList):
            obj[0]
        elif isinstance(obj, ComputedAttribute):
            obj.get(lambda: self.var(key))
        else:
            obj.x

    def op_bad(self, v):
        """Something that can't be stored."""
        self.put(self.var(v), 1, lambda: 0)

    def op_odd(self, v):
        self.put(self.var(v), 2, [Odd()])

    def op_fix(self, v):
        self.put(self.var(v), 1, None)
        self.put(self.var(v), 2, None)

    def op_commit(self):
        self.connection.commit()

    def op_abort(self):
        self.connection.abort()

    def op_fail(self, how):
        self.storage.how = how

    def op_ghost(self, size):
        self.connection.abort()
        self.connection.set_cache_size(size)
        for i in range(20):
            self.connection.shrink_cache()
        self.connection.set_cache_size(1000)

    def op_find(self, n):
        obj = self.connection.get(n)
        if obj is not None:
            self.watch(obj)
            self.vars.append(obj)

    def op_crawl(self, n):
        for i, obj in enumerate(self.connection.get_crawler(batch_size=2)):
            if i >= n:
                break

    def op_pack(self):
        self.connection.pack()

    def op_forget(self, v):
        if len(self.vars) > 1:
            del self.vars[v % len(self.vars)]

    def op_again(self):
        """Another connection, which knows nothing."""
        self.connection = self.watch(Connection(self.storage))
        self.vars.append(self.connection.get_root())

    def op_steal(self, v, w):
        """An object of one connection in another one."""
        self.vars.append(Connection(MemoryStorage()).get_root())
        self.put(self.var(v), 3, self.var(w))

    def op_collect(self):
        gc.collect()


METHOD_OF.update((name[3:], name) for name in dir(Trip)
                 if name.startswith('op_'))


def trip(case):
    world = Trip(case)
    for op in case['ops']:
        try:
            getattr(world, METHOD_OF[op[0]])(*op[1:])
        except SystemError as e:
            raise Violation('SystemError: %s' % e)
        except (Exception, KeyboardInterrupt):
            pass
    return world.refs


def trips(case, times):
    for i in range(times):
        trip(case)
        gc.collect()
    return allocated()


def run_trips(case, ctx):
    settle()
    refs = trip(case)
    gc.collect()
    alive = [type(ref()).__name__ for ref in refs if ref() is not None]
    check(not alive, 'still alive: %s', alive[:5])
    if case['repeat']:
        balance(lambda times: trips(case, times))
        ctx.label('repeated')
    for op in case['ops']:
        ctx.label(op[0])
    ctx.mark(len(case['ops']) > 3)


def trips_strategy():
    v = gen.small(9)
    key = gen.small(5)
    choices = [
        (5, gen.op('add', v, gen.small(5), key)), (2, gen.op('link', v, v, key)),
        (4, gen.op('use', v, key)), (1, gen.op('bad', v)),
        (1, gen.op('odd', v)), (1, gen.op('fix', v)), (4, gen.op('commit')),
        (1, gen.op('abort')), (3, gen.op('fail', st.sampled_from(
            [None, None, 'missing', 'conflict', 'error', 'exit', 'empty',
             'short', 'damaged', 'other', 'text', 'none']))),
        (3, gen.op('ghost', st.sampled_from([1, 2, 5]))),
        (2, gen.op('find', gen.small(10))), (1, gen.op('crawl', gen.small(8))),
        (1, gen.op('pack')), (2, gen.op('forget', v)), (1, gen.op('again')),
        (1, gen.op('steal', v, v)), (1, gen.op('collect'))]
    return gen.record(
        repeat=st.sampled_from([False, False, True]),
        ops=gen.sized(gen.ops(*choices, max_size=8),
                      gen.ops(*choices, min_size=8, max_size=40)))


FACETS = [
    Facet('ops', ops_strategy, run_ops, quick=8000, thorough=200000,
          modes=('c', 'asan'),
          rule='programs of operations on objects of twenty classes with '
          'real and fake connections, arbitrary attribute names and values, '
          'and callbacks that fail or change the object; non-trivial with '
          'more than three operations'),
    Facet('connections', trips_strategy, run_trips, quick=4000,
          thorough=100000, modes=('c', 'asan'),
          rule='histories of a connection whose storage fails in several '
          'ways, with everything dropped at the end; non-trivial with more '
          'than three operations'),
]
