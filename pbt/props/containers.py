"""C12: persistent containers next to the builtin ones."""
import operator

from hypothesis import strategies as st

from .. import classes as C
from .. import gen
from ..core import Facet, Violation, check, expect_eq
from ..storages import open_storage
from durus.connection import Connection

KIND = {'d': C.PersistentDict, 'm': C.DefaultDict, 'l': C.PersistentList,
        's': C.PersistentSet}


class Missing(dict):

    def __missing__(self, key):
        return 'missing'


MODEL = {'d': dict, 'm': Missing, 'l': list, 's': set}
NAMES = 'dmlsdls' # the containers of a case


class Broken(Exception):
    pass


def broken(items):
    for x in items:
        yield x
    raise Broken('the iterable fails')


class Mapping(object):
    """Something with keys(), as dict.update accepts."""

    def __init__(self, items):
        self.d = dict(items)

    __iter__ = None

    def keys(self):
        return iter(self.d)

    def __getitem__(self, key):
        return self.d[key]


def value(spec):
    if isinstance(spec, list):
        tag = spec[0]
        if tag == 't':
            return tuple(value(x) for x in spec[1:])
        if tag == 'u':
            return [value(x) for x in spec[1:]]
        if tag == 'f':
            return frozenset(value(x) for x in spec[1:])
        if tag == 'x':
            return float(spec[1])
    return spec


def canon(x):
    """A comparable form that keeps types apart, but not persistence."""
    if isinstance(x, (C.PersistentDict, dict)):
        d = x.data if isinstance(x, C.PersistentDict) else x
        return ['dict', [[canon(k), canon(v)] for k, v in d.items()]]
    if isinstance(x, (C.PersistentList, list)):
        d = x.data if isinstance(x, C.PersistentList) else x
        return ['list', [canon(v) for v in d]]
    if isinstance(x, (C.PersistentSet, set)):
        d = x.s if isinstance(x, C.PersistentSet) else x
        return ['set', sorted(repr(canon(v)) for v in d)]
    if isinstance(x, frozenset):
        return ['frozenset', sorted(repr(canon(v)) for v in x)]
    if isinstance(x, tuple):
        return ['tuple', [canon(v) for v in x]]
    return [type(x).__name__, repr(x)]


DICT = {
    'setitem': lambda d, a: operator.setitem(d, a[0], a[1]),
    'delitem': lambda d, a: operator.delitem(d, a[0]),
    'getitem': lambda d, a: d[a[0]],
    'get': lambda d, a: d.get(a[0]),
    'get2': lambda d, a: d.get(a[0], a[1]),
    'in': lambda d, a: a[0] in d,
    'len': lambda d, a: len(d),
    'bool': lambda d, a: bool(d),
    'clear': lambda d, a: d.clear(),
    'keys': lambda d, a: list(d.keys()),
    'items': lambda d, a: list(d.items()),
    'values': lambda d, a: list(d.values()),
    'iter': lambda d, a: list(d),
    'setdefault': lambda d, a: d.setdefault(a[0]),
    'setdefault2': lambda d, a: d.setdefault(a[0], a[1]),
    'pop': lambda d, a: d.pop(a[0]),
    'pop2': lambda d, a: d.pop(a[0], a[1]),
    'popitem': lambda d, a: d.popitem(),
}
LIST = {
    'setitem': lambda l, a: operator.setitem(l, a[2], a[0]),
    'getitem': lambda l, a: l[a[2]],
    'delitem': lambda l, a: operator.delitem(l, a[2]),
    'append': lambda l, a: l.append(a[0]),
    'insert': lambda l, a: l.insert(a[2], a[0]),
    'pop': lambda l, a: l.pop(),
    'pop2': lambda l, a: l.pop(a[2]),
    'remove': lambda l, a: l.remove(a[0]),
    'count': lambda l, a: l.count(a[0]),
    'index': lambda l, a: l.index(a[0]),
    'index2': lambda l, a: l.index(a[0], a[2]),
    'index3': lambda l, a: l.index(a[0], a[2], a[3]),
    'reverse': lambda l, a: l.reverse(),
    'sort': lambda l, a: l.sort(),
    'sortkey': lambda l, a: l.sort(key=repr, reverse=bool(a[2] & 1)),
    'sortfail': lambda l, a: l.sort(key=lambda x: 1 / (x or 0)),
    'imul': lambda l, a: imul(l, a[2]),
    'mul': lambda l, a: l * a[2],
    'rmul': lambda l, a: a[2] * l,
    'in': lambda l, a: a[0] in l,
    'len': lambda l, a: len(l),
    'bool': lambda l, a: bool(l),
    'iter': lambda l, a: list(l),
    'reversed': lambda l, a: list(reversed(l)),
    'clear': lambda l, a: l.clear(),
    'getslice': lambda l, a: l[a[4]],
    'delslice': lambda l, a: operator.delitem(l, a[4]),
}
SET = {
    'add': lambda s, a: s.add(a[0]),
    'discard': lambda s, a: s.discard(a[0]),
    'remove': lambda s, a: s.remove(a[0]),
    'clear': lambda s, a: s.clear(),
    'in': lambda s, a: a[0] in s,
    'len': lambda s, a: len(s),
    'bool': lambda s, a: bool(s),
    'iter': lambda s, a: set(x for x in s),
}


def imul(l, n):
    m = l
    m *= n
    return same(m, l)


def same(m, l):
    if m is not l:
        raise Violation('an augmented assignment yields another object')


def augmented(op):
    def run(x, y):
        return same(op(x, y), x)
    return run


def kwupdate(d, y):
    return d.update(y, z=1, y=2)


# Operations with another container or iterable.
DICT2 = {
    'update': lambda d, y: d.update(y),
    'kwupdate': kwupdate,
    'fromkeys': lambda d, y: type(d).fromkeys(y, 7),
    'construct': lambda d, y: construct(d, y),
}
LIST2 = {
    'extend': lambda l, y: l.extend(y),
    'iadd': augmented(operator.iadd),
    'add': operator.add,
    'radd': lambda l, y: y + l,
    'setslice': None,
    'construct': lambda l, y: construct(l, y),
}
LIST2.update((n, getattr(operator, n))
             for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))
SET2 = {
    'difference': lambda s, y: s.difference(y),
    'intersection': lambda s, y: s.intersection(y),
    'union': lambda s, y: s.union(y),
    'symmetric_difference': lambda s, y: s.symmetric_difference(y),
    'difference_update': lambda s, y: s.difference_update(y),
    'intersection_update': lambda s, y: s.intersection_update(y),
    'symmetric_difference_update':
        lambda s, y: s.symmetric_difference_update(y),
    'update': lambda s, y: s.update(y),
    'update2': lambda s, y: s.update(y, [1, 5], s),
    'intersection_update2': lambda s, y: s.intersection_update(y, range(9)),
    'issubset': lambda s, y: s.issubset(y),
    'issuperset': lambda s, y: s.issuperset(y),
    'isdisjoint': lambda s, y: s.isdisjoint(y),
    'construct': lambda s, y: construct(s, y),
}
for n, o in (('and', 'and_'), ('or', 'or_'), ('sub', 'sub'), ('xor', 'xor')):
    SET2[n] = getattr(operator, o)
    SET2['r' + n] = lambda s, y, op=getattr(operator, o): op(y, s)
    SET2['i' + n] = augmented(getattr(operator, 'i' + n))
SET2.update((n, getattr(operator, n))
            for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))


def construct(x, y):
    """A new container from another one is independent of it."""
    new = type(x)(y)
    if isinstance(new, (C.PersistentDict, dict)):
        new['fresh'] = 1
    elif isinstance(new, (C.PersistentList, list)):
        new.append('fresh')
    else:
        new.add('fresh')
    return new


def attempt(func):
    try:
        return ['ok', canon(func())]
    except Violation:
        raise
    except Exception as e:
        return ['exc', type(e).__name__]


class World(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.path = ctx.path('db')
        self.open()
        self.model = []
        for k, items in zip(NAMES, case['start']):
            items = [value(v) for v in items]
            if k in 'dm':
                items = [(v, n - 1 if n else None)
                         for n, v in enumerate(items)]
            self.model.append(MODEL[k](items))
        self.real = [KIND[k](m) for k, m in zip(NAMES, self.model)]
        root = self.connection.get_root()
        for i, x in enumerate(self.real):
            root[i] = x
        self.connection.commit()
        self.committed = [type(m)(m) for m in self.model]
        self.changes = 0

    def open(self):
        self.storage = open_storage(self.case['storage'], self.path)
        self.ctx.on_exit(self.storage.close)
        self.connection = Connection(self.storage, cache_size=3)

    def operand(self, spec, kind):
        """(real, model) for the other argument of an operation."""
        tag = spec[0]
        if tag == 'c':
            i = spec[1] % len(NAMES)
            return self.real[i], self.model[i]
        if tag == 'bad':
            return spec[1], spec[1]
        items = [value(v) for v in spec[1]]
        pairs = [(x, n) for n, x in enumerate(items)]
        if tag == 'broken':
            if kind in 'dm':
                items = pairs
            return broken(items), broken(items)
        if tag == 'gen':
            return iter(items), iter(items)
        if tag == 'pairs':
            return list(pairs), list(pairs)
        if tag == 'mapping':
            return Mapping(pairs), Mapping(pairs)
        make = {'list': list, 'tuple': tuple, 'set': set, 'dict': dict,
                'frozenset': frozenset}[tag]
        if tag == 'dict':
            items = pairs
        return make(items), make(items)

    def op_op(self, i, name, args):
        i %= len(NAMES)
        kind = NAMES[i]
        table = {'d': DICT, 'm': DICT, 'l': LIST, 's': SET}[kind]
        names = sorted(table)
        func = table[names[name % len(names)]]
        args = [value(args[0]), value(args[1]), args[2], args[3],
                slice(*args[4])]
        self.compare(i, names[name % len(names)],
                     lambda: func(self.real[i], args),
                     lambda: func(self.model[i], args))

    def op_op2(self, i, name, spec, where):
        i %= len(NAMES)
        kind = NAMES[i]
        table = {'d': DICT2, 'm': DICT2, 'l': LIST2, 's': SET2}[kind]
        names = sorted(table)
        name = names[name % len(names)]
        if name == 'iadd' and spec[0] == 'broken':
            name = 'extend' # list.__iadd__ keeps part of a failing iterable
        if spec[0] == 'c':
            other = NAMES[spec[1] % len(NAMES)]
        else:
            other = None
        if kind != 's' and other == 's' and name not in ('eq', 'ne'):
            spec, other = ['c', 0], 'd' # Equal sets may differ in order.
        if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and kind == 's':
            if other != 's': # A PersistentSet is compared with its like only.
                spec = ['c', 3]
        if name in ('lt', 'le', 'gt', 'ge') and other in ('d', 'm', 's'):
            if kind == 'l':
                spec = ['c', 2] # reflected comparisons differ
        if kind == 's' and other in ('d', 'm') and name in (
                'and', 'or', 'sub', 'xor', 'rand', 'ror', 'rsub', 'rxor',
                'iand', 'ior', 'isub', 'ixor'):
            spec = ['c', 6]
        if kind == 's' and other == 'l' and name in (
                'rand', 'ror', 'rsub', 'rxor', 'and', 'or', 'sub', 'xor',
                'iand', 'ior', 'isub', 'ixor'):
            spec = ['c', 3]
        if name in ('rsub', 'rand', 'ror', 'rxor') and spec[0] not in (
                'set', 'c', 'bad'): # frozenset & set is a frozenset
            spec = ['set', [v for v in spec[1] if hashable(v)]]
        try:
            ry, my = self.operand(spec, kind)
        except TypeError: # unhashable items
            return
        if spec[0] == 'c' and spec[1] % len(NAMES) == i:
            self.ctx.label('aliased')
        if name == 'setslice':
            s = slice(*where)
            func = lambda x, y: operator.setitem(x, s, y)
        else:
            func = table[name]
        mfunc = func
        if name in ('add', 'radd') and not isinstance(my, list):
            # Unlike a list, it can be added to anything iterable.
            if name == 'add':
                mfunc = lambda l, y: l + list(y)
            else:
                mfunc = lambda l, y: list(y) + l
            self.ctx.label('sum')
        self.compare(i, name, lambda: func(self.real[i], ry),
                     lambda: mfunc(self.model[i], my))

    def compare(self, i, name, real, model):
        before = canon(self.model[i])
        if len(self.model[i]) > 2000:
            self.model[i].clear()
            self.real[i].clear()
            return
        got, want = attempt(real), attempt(model)
        expect_eq(got, want, '%s of a %s' % (name, KIND[NAMES[i]].__name__))
        if want[0] == 'exc':
            self.ctx.label('failed')
        if canon(self.model[i]) != before:
            self.changes += 1
            if want[0] == 'exc':
                self.ctx.label('failed halfway')

    def op_setpop(self, i):
        i = 3 if i & 1 else 6
        before = set(self.model[i])
        got = attempt(lambda: self.real[i].pop())
        if not self.model[i]:
            expect_eq(got, ['exc', 'KeyError'], 'pop of an empty set')
            return
        for x in before:
            if canon(x) == got[1]:
                self.model[i].discard(x)
                break
        else:
            raise Violation('pop of a set returns %r' % (got,))
        self.changes += 1

    def op_twin(self, i, n, label):
        """Replace a value by one that is equal to it."""
        i %= len(NAMES)
        real, model = self.real[i], self.model[i]
        if not model:
            return
        key = n % len(model)
        if NAMES[i] == 'l':
            old = model[key]
        else:
            key = sorted(model, key=lambda k: repr(canon(k)))[key]
            old = key if NAMES[i] == 's' else model[key]
        new = C.Labelled(old, label)
        if isinstance(old, C.Labelled):
            new.n = old.n
        elif isinstance(old, (int, float)) and label % 2:
            new = [bool, int, float][label % 3](old) if old in (
                0, 1) else float(old)
        elif isinstance(old, list):
            new = list(old)
        if NAMES[i] == 's':
            real.add(new) # The old one stays.
            model.add(new)
            return
        # A key may be replaced by an equal one as well: the old one stays.
        if NAMES[i] != 'l':
            key = C.Labelled(key, label) if label % 2 and not isinstance(
                key, C.Labelled) else key
        real[key] = new
        model[key] = new
        check(real[key] is new, 'an equal value was not replaced')
        self.changes += 1
        self.ctx.label('twin')

    def op_copy(self, i):
        i %= len(NAMES)
        if NAMES[i] == 'l':
            return
        got = self.real[i].copy()
        expect_eq(canon(got), canon(self.model[i]), 'copy')
        check(type(got) is type(self.real[i]) and got is not self.real[i],
              'copy is a %s', type(got))
        if NAMES[i] == 's':
            got.add('fresh')
            got.discard(0)
        else:
            got['fresh'] = 1
            got.pop(0, None)
        expect_eq(canon(self.real[i]), canon(self.model[i]),
                  'contents after changing a copy')

    def op_attrs(self, i, n):
        """What only the persistent dictionary has (as in old Pythons)."""
        d, m = self.real[0], self.model[0]
        expect_eq(list(d.iteritems()), list(m.items()), 'iteritems')
        expect_eq(list(d.iterkeys()), list(m), 'iterkeys')
        expect_eq(list(d.itervalues()), list(m.values()), 'itervalues')
        expect_eq(d.has_key(n), n in m, 'has_key')
        other, mother = self.real[4], self.model[4]
        expect_eq(d == other, m == mother, 'equality')
        expect_eq(d != other, m != mother, 'inequality')
        expect_eq(d == C.PersistentDict(m), True, 'equality with its copy')

    def same(self, root, model, what):
        for i, m in enumerate(model):
            got = root[i]
            check(type(got) is KIND[NAMES[i]], '%s: container %d is a %s',
                  what, i, type(got))
            expect_eq(canon(got), canon(m), '%s: %s %d' % (
                what, type(got).__name__, i))

    def op_verify(self):
        self.same(self.connection.get_root(), self.model, 'contents')

    def op_ghost(self, i):
        obj = self.real[i % len(NAMES)]
        if obj._p_is_saved():
            obj._p_set_status_ghost()

    def op_commit(self):
        self.connection.commit()
        self.committed = [type(m)(m) for m in self.model]
        self.same(Connection(self.storage).get_root(), self.committed,
                  'another connection after the commit')

    def op_abort(self):
        self.connection.abort()
        self.model = [type(m)(m) for m in self.committed]

    def op_shrink(self):
        self.connection.shrink_cache()

    def op_reopen(self):
        if self.case['storage'] == 'memory':
            return
        self.storage.close()
        self.model = [type(m)(m) for m in self.committed]
        self.open()
        root = self.connection.get_root()
        self.real = [root[i] for i in range(len(NAMES))]


def hashable(spec):
    try:
        hash(value(spec))
    except TypeError:
        return False
    return True


def run(case, ctx):
    w = World(case, ctx)
    for op in case['ops']:
        if op[0] in ('op', 'op2'):
            getattr(w, 'op_' + op[0])(*op[1:-1])
            if op[-1] == 1:
                w.op_ghost(op[1])
            elif op[-1] == 2:
                w.op_commit()
            elif op[-1] == 3:
                w.op_abort()
        else:
            getattr(w, 'op_' + op[0])(*op[1:])
        if op[0] in ('op', 'op2', 'setpop') and case['eager']:
            w.op_verify()
    w.op_verify()
    w.op_commit()
    w.op_reopen()
    w.op_verify()
    names = [op[0] for op in case['ops']]
    ctx.mark(w.changes > 2 and ('commit' in names or 'abort' in names))


def values():
    leaf = st.one_of(
        st.integers(0, 5), st.integers(0, 9), st.integers(-300, 300),
        st.sampled_from([None, True, False, 'a', 'b', '', b'', b'a']),
        st.sampled_from([['x', '1.0'], ['x', '0.0'], ['x', '-0.5'],
                         ['x', 'inf']]))
    return st.one_of(
        leaf, leaf, leaf, leaf, leaf,
        st.lists(leaf, max_size=2).map(lambda l: ['t'] + l),
        st.lists(leaf, max_size=2).map(lambda l: ['f'] + l),
        st.lists(leaf, max_size=2).map(lambda l: ['u'] + l))


def slices():
    part = st.one_of(st.none(), st.integers(-7, 9))
    return st.tuples(part, part, st.one_of(
        st.none(), st.none(), st.integers(-3, 3))).map(list)


def operands():
    items = st.lists(values(), max_size=6)
    return st.one_of(
        st.builds(lambda i: ['c', i], gen.small(6)),
        st.builds(lambda i: ['c', i], gen.small(6)),
        st.builds(lambda t, l: [t, l], st.sampled_from(
            ['list', 'tuple', 'set', 'frozenset', 'dict', 'gen', 'broken',
             'pairs', 'mapping']), items),
        st.builds(lambda t, l: [t, l], st.sampled_from(
            ['list', 'set', 'pairs']), items),
        st.builds(lambda v: ['bad', v], st.sampled_from(
            [None, 5, 'ab', b'ab'])))


def strategy():
    i = gen.small(6)
    plain = st.one_of(st.integers(0, 5), st.integers(0, 9),
                      st.sampled_from(['a', 'b', None]))
    n = st.integers(-5, 6)
    arg = st.tuples(values(), values(), n, n, slices()).map(list)
    choices = [
        (8, gen.op('op', i, gen.small(60), arg, gen.small(7))),
        (8, gen.op('op2', i, gen.small(60), operands(), slices(),
                   gen.small(7))),
        (1, gen.op('setpop', i)), (1, gen.op('copy', i)),
        (2, gen.op('twin', i, gen.small(7), gen.small(5))),
        (1, gen.op('attrs', i, n)), (3, gen.op('ghost', i)),
        (1, gen.op('shrink')), (2, gen.op('commit')), (1, gen.op('abort')),
        (1, gen.op('reopen')), (1, gen.op('verify'))]
    return gen.record(
        storage=st.sampled_from(['memory', 'memory', 'file', 'file2',
                                 'sqlite']),
        eager=st.booleans(),
        start=st.tuples(*[st.lists(plain, max_size=7)] * 7).map(list),
        ops=gen.sized(gen.ops(*choices, max_size=20),
                      gen.ops(*choices, min_size=8, max_size=30),
                      gen.ops(*choices, min_size=20, max_size=60)))


FACETS = [
    Facet('containers', strategy, run, quick=9000, thorough=200000,
          rule='a sequence of up to 60 operations on seven persistent '
          'containers and the builtin ones; non-trivial when more than two '
          'of them changed something and something was committed or aborted'),
]
