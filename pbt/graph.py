"""Object graphs: real persistent instances next to a plain model.

A model state is an ordered list of [field, value] pairs (or a list / a set,
for lists and sets).  Values are plain; a reference to object i is Ref(i).
"""
from hypothesis import strategies as st

from . import classes as C
from . import gen
from .core import Violation, check, expect_eq


class Ref(object):
    __slots__ = ['i']

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return isinstance(other, Ref) and other.i == self.i

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(('ref', self.i))

    def __repr__(self):
        return 'Ref(%d)' % self.i


_missing = object()


class AttrKind(object):
    container = False

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def make(self):
        return self.cls()

    def field(self, n):
        return self.fields[n % len(self.fields)]

    def empty(self):
        return {}

    def set(self, obj, field, value):
        setattr(obj, field, value)

    def mset(self, state, field, value):
        state[field] = value

    def delete(self, obj, field):
        delattr(obj, field)

    def mdelete(self, state, field):
        if field not in state:
            return False
        del state[field]
        return True

    missing_error = AttributeError

    def get(self, obj, field):
        return getattr(obj, field, _missing)

    def mget(self, state, field):
        return state.get(field, _missing)

    def read(self, obj):
        """The whole state, through ordinary attribute access."""
        result = {}
        for f in self.fields:
            value = getattr(obj, f, _missing)
            if value is not _missing:
                result[f] = value
        d = getattr(obj, '__dict__', {})
        for f in d:
            if f not in result:
                result[f] = d[f]
        return result

    def replace(self, obj, state):
        for f in list(self.read(obj)):
            if f not in state:
                delattr(obj, f)
        for f, v in state.items():
            setattr(obj, f, v)

    def values(self, state):
        return list(state.values())

    def canon(self, state, value):
        return [(f, value(state[f])) for f in sorted(state)]


class DictKind(AttrKind):
    container = True

    def __init__(self, cls):
        self.cls = cls

    def field(self, n):
        return 'k%d' % (n % 8)

    def set(self, obj, field, value):
        obj[field] = value

    def delete(self, obj, field):
        del obj[field]

    missing_error = KeyError

    def get(self, obj, field):
        return obj.get(field, _missing)

    def read(self, obj):
        return dict(obj.items())

    def replace(self, obj, state):
        obj.clear()
        obj.update(state)

    def canon(self, state, value):
        return [(f, value(v)) for f, v in state.items()]


class TreeKind(DictKind):
    def field(self, n):
        return n % 12

    def canon(self, state, value):
        return [(f, value(state[f])) for f in sorted(state)]


class ListKind(AttrKind):
    container = True

    def __init__(self, cls):
        self.cls = cls

    def field(self, n):
        return n % 5

    def empty(self):
        return []

    def set(self, obj, field, value):
        if field < len(obj):
            obj[field] = value
        else:
            obj.append(value)

    mset = set

    def delete(self, obj, field):
        del obj[field]

    def mdelete(self, state, field):
        if field >= len(state):
            return False
        del state[field]
        return True

    missing_error = IndexError

    def get(self, obj, field):
        return obj[field] if field < len(obj) else _missing

    mget = get

    def read(self, obj):
        return list(obj)

    def replace(self, obj, state):
        obj[:] = state

    def values(self, state):
        return list(state)

    def canon(self, state, value):
        return [value(v) for v in state]


class SetKind(AttrKind):
    container = True

    def __init__(self, cls):
        self.cls = cls

    def field(self, n):
        return n % 6

    def empty(self):
        return set()

    def set(self, obj, field, value):
        try:
            hash(value)
        except TypeError:
            value = field
        obj.add(value)

    def mset(self, state, field, value):
        try:
            hash(value)
        except TypeError:
            value = field
        state.add(value)

    def delete(self, obj, field):
        obj.remove(field)

    def mdelete(self, state, field):
        if field not in state:
            return False
        state.remove(field)
        return True

    missing_error = KeyError

    def get(self, obj, field):
        return field in obj

    def mget(self, state, field):
        return field in state

    def read(self, obj):
        return set(obj)

    def replace(self, obj, state):
        obj.clear()
        obj.update(state)

    def values(self, state):
        return list(state)

    def canon(self, state, value):
        return sorted((value(v) for v in state), key=repr)


KINDS = [
    AttrKind(C.Node, ['f0', 'f1', 'f2', 'f3', '_p', '__x', 'na\u00efve',
                      '_private', 'data', 'value']),
    AttrKind(C.Slotted, ['f0', 'f1', 'f2', 'f3']),
    AttrKind(C.SubSlotted, ['f0', 'f1', 'f4', 'f5']),
    AttrKind(C.StringSlot, ['f0']),
    AttrKind(C.PrivateSlot, ['_PrivateSlot__f0', '_PrivateSlot__f1', 'f2']),
    AttrKind(C.SlottedDict, ['f0', 'f1', 'g0', 'g1']),
    AttrKind(C.CustomState, ['f0', 'f1']),
    DictKind(C.PersistentDict),
    ListKind(C.PersistentList),
    SetKind(C.PersistentSet),
    TreeKind(C.Small),
    DictKind(C.DefaultDict),
    AttrKind(C.NodeB, ['f0', 'f1']),
]
NKINDS = len(KINDS)
# kinds whose instances may be members of sets (hash by identity)
HASHABLE = (0, 1, 2, 3, 4, 5, 6, 12)


_big = {}


def big_text(n, seed):
    # A fresh string each time: sharing is not part of these cases.
    if (n, seed) not in _big:
        if len(_big) > 200:
            _big.clear()
        _big[n, seed] = bytes(33 + (seed * 7919 + i * i * 31 + i * 7) % 90
                              for i in range(n))
    return _big[n, seed].decode()


def build(spec, ref, shared=None):
    """A value from its JSON description. ref(i) gives object i."""
    if shared is None:
        shared = []
    if not isinstance(spec, list):
        return spec
    tag = spec[0]
    if tag == 'ref':
        return ref(spec[1])
    if tag == 'shared':
        return shared[spec[1] % len(shared)] if shared else None
    if tag == 'list':
        result = []
        shared.append(result)
        result.extend(build(x, ref, shared) for x in spec[1:])
        return result
    if tag == 'tuple':
        return tuple(build(x, ref, shared) for x in spec[1:])
    if tag == 'dict':
        result = {}
        shared.append(result)
        for n, x in enumerate(spec[1:]):
            result['d%d' % n] = build(x, ref, shared)
        return result
    if tag == 'set':
        return frozenset(x for x in spec[1:] if not isinstance(x, list))
    if tag == 'big':
        # incompressible-ish text of the given size
        return big_text(spec[1], spec[2])
    if tag == 'int':
        return int(spec[1])
    raise AssertionError(spec)


def value_specs(nobj=10 ** 6, big=False):
    ref = st.builds(lambda i: ['ref', i], gen.small(min(nobj, 60) - 1))
    plain = st.one_of(
        st.none(), st.booleans(), st.integers(-3, 300),
        st.builds(lambda n: ['int', str(n)],
                  st.integers(-2 ** 70, 2 ** 70)),
        st.floats(allow_nan=False), st.text(max_size=6),
        st.binary(max_size=9), st.builds(lambda x: ['set'] + x, st.lists(
            st.integers(0, 9), max_size=3)))
    if big:
        plain = st.one_of(plain, st.builds(
            lambda n, s: ['big', n, s], st.sampled_from(
                [50, 300, 5000, 12000, 40000]), gen.small(50)))
    leaf = st.one_of(ref, ref, plain)
    shared = st.builds(lambda i: ['shared', i], gen.small(5))
    nested = st.one_of(
        leaf, leaf, leaf,
        st.builds(lambda x: ['list'] + x,
                  st.lists(st.one_of(leaf, shared), max_size=4)),
        st.builds(lambda x: ['tuple'] + x, st.lists(leaf, max_size=3)),
        st.builds(lambda x: ['dict'] + x,
                  st.lists(st.one_of(leaf, shared), max_size=3)))
    return nested


def simple_value_specs(nobj):
    """Values without in-place mutable parts."""
    return st.one_of(
        st.builds(lambda i: ['ref', i], gen.small(nobj - 1)),
        st.builds(lambda i: ['ref', i], gen.small(nobj - 1)),
        st.integers(0, 50), st.text(max_size=3),
        st.builds(lambda i, n: ['tuple', ['ref', i], n],
                  gen.small(nobj - 1), gen.small(9)))


def canon_value(value, name_of, memo=None):
    """Comparable form of a value; name_of(obj) gives i for a persistent
    object or Ref, or None for anything else.  Sharing of mutable parts within
    one state is part of the form."""
    if memo is None:
        memo = {}
    i = name_of(value)
    if i is not None:
        return ('ref', i)
    if isinstance(value, (list, dict)):
        if id(value) in memo:
            return ('seen', memo[id(value)][0])
        memo[id(value)] = (len(memo), value)
        if isinstance(value, list):
            return ('list', [canon_value(v, name_of, memo) for v in value])
        return ('dict', [(k, canon_value(v, name_of, memo))
                         for k, v in value.items()])
    if isinstance(value, tuple):
        return ('tuple', [canon_value(v, name_of, memo) for v in value])
    if isinstance(value, frozenset):
        return ('fset', sorted(value, key=repr))
    return (type(value).__name__, value)


def canon_state(kind, state, name_of):
    memo = {}
    return KINDS[kind].canon(
        state, lambda v: canon_value(v, name_of, memo))


def refs_of(value, out=None, seen=None):
    """Indices of the objects that a model value refers to."""
    if out is None:
        out, seen = [], set()
    if isinstance(value, Ref):
        out.append(value.i)
    elif isinstance(value, (list, tuple, set, frozenset)):
        if id(value) not in seen:
            seen.add(id(value))
            for v in value:
                refs_of(v, out, seen)
    elif isinstance(value, dict):
        if id(value) not in seen:
            seen.add(id(value))
            for v in value.values():
                refs_of(v, out, seen)
    return out


def state_refs(kind, state):
    out = []
    for v in KINDS[kind].values(state):
        refs_of(v, out, set())
    return set(out)


def model_name(value):
    return value.i if isinstance(value, Ref) else None


def reachable(start, kind_of, state_of):
    seen = set()
    todo = list(start)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(state_refs(kind_of(i), state_of(i)))
    return seen


def compare_graph(root, root_kind, kinds, states, oid_of=None, what='graph'):
    """Walk the real graph from `root` (object 0) and compare every reached
    object with the model.  Returns {i: real object}.

    kinds[i], states[i]: the model; oid_of[i]: expected oid, when known.
    """
    found = {0: root}
    by_id = {id(root): 0}
    by_oid = {root._p_oid: 0}
    todo = [0]
    done = set()
    while todo:
        i = todo.pop()
        if i in done:
            continue
        done.add(i)
        obj = found[i]
        kind = KINDS[kinds[i]]
        check(type(obj) is kind.cls, '%s: object %d has class %r, expected %r',
              what, i, type(obj), kind.cls)
        if oid_of is not None and i in oid_of:
            expect_eq(obj._p_oid, oid_of[i], '%s: oid of object %d' % (
                what, i))
        real = kind.read(obj)
        pairs = []

        def name_of(value):
            if not isinstance(value, C.PersistentObject):
                return None
            if id(value) in by_id:
                return by_id[id(value)]
            return ('new', id(value))
        # Pair up references position by position.
        match(kind, real, states[i], found, by_id, by_oid, todo,
              '%s: object %d (%s)' % (what, i, kind.cls.__name__))
        got = canon_state(kinds[i], real, lambda v: by_id.get(id(v)) if
                          isinstance(v, C.PersistentObject) else None)
        want = canon_state(kinds[i], states[i], model_name)
        if got != want:
            raise Violation('%s: state of object %d (%s): got %.500r, '
                            'expected %.500r' % (
                                what, i, kind.cls.__name__, got, want))
    return found


def match(kind, real, model, found, by_id, by_oid, todo, what):
    """Discover which real object stands for which model object."""
    def visit(r, m, seen):
        if isinstance(m, Ref):
            if not isinstance(r, C.PersistentObject):
                raise Violation('%s: expected a reference to object %d, got '
                                '%.200r' % (what, m.i, r))
            if m.i in found:
                if found[m.i] is not r:
                    raise Violation('%s: two instances for object %d' % (
                        what, m.i))
            else:
                if id(r) in by_id:
                    raise Violation('%s: objects %d and %d are the same '
                                    'instance' % (what, m.i, by_id[id(r)]))
                if r._p_oid is not None:
                    if r._p_oid in by_oid:
                        raise Violation('%s: objects %d and %d share an oid'
                                        % (what, m.i, by_oid[r._p_oid]))
                    by_oid[r._p_oid] = m.i
                found[m.i] = r
                by_id[id(r)] = m.i
                todo.append(m.i)
        elif isinstance(m, (list, tuple)):
            if isinstance(r, type(m)) and len(r) == len(m):
                if id(m) in seen:
                    return
                seen.add(id(m))
                for a, b in zip(r, m):
                    visit(a, b, seen)
        elif isinstance(m, dict):
            if isinstance(r, dict):
                if id(m) in seen:
                    return
                seen.add(id(m))
                for k in m:
                    if k in r:
                        visit(r[k], m[k], seen)
    if isinstance(model, set):
        # members are matched through their marks (see mark())
        rest = [r for r in real if isinstance(r, C.PersistentObject)]
        want = [m.i for m in model if isinstance(m, Ref)]
        names = []
        for r in rest:
            i = by_id.get(id(r))
            if i is None:
                i = getattr(r, MARK, None)
                if i is None or i not in want:
                    raise Violation('%s: unexpected set member %r' % (
                        what, r))
                visit(r, Ref(i), set())
        return
    if isinstance(model, list):
        visit(list(real), list(model), set())
    else:
        visit(dict(real), dict(model), set())


# Members of sets cannot be identified by position, so only objects that carry
# their own number (as an ordinary attribute) are put into sets.
MARK = 'number'
MARKABLE = (0, 5, 6, 12)


def fit(kinds, kind, field, spec):
    """The spec to use for a value put into an object of this kind."""
    if isinstance(KINDS[kind], SetKind):
        if isinstance(spec, list):
            if spec[0] == 'ref' and kinds[spec[1] % len(kinds)] in MARKABLE:
                return ['ref', spec[1] % len(kinds)]
            return field
    return spec


class World(object):
    """Object 0 is the root (a PersistentDict) of a connection; the others
    are made on demand.  states[] is the model of what the connection's user
    sees now."""

    def __init__(self, root, kinds):
        self.kinds = [7] + list(kinds)
        self.real = [root] + [KINDS[k].make() for k in kinds]
        self.states = [KINDS[k].empty() for k in self.kinds]
        for i, k in enumerate(self.kinds):
            if k in MARKABLE:
                setattr(self.real[i], MARK, i)
                self.states[i][MARK] = i

    def __len__(self):
        return len(self.kinds)

    def kind(self, i):
        return KINDS[self.kinds[i]]

    def ref(self, i):
        return self.real[i % len(self.real)]

    def mref(self, i):
        return Ref(i % len(self.real))

    def set(self, i, n, spec):
        kind = self.kind(i)
        field = kind.field(n)
        spec = fit(self.kinds, self.kinds[i], field, spec)
        kind.set(self.real[i], field, build(spec, self.ref))
        kind.mset(self.states[i], field, build(spec, self.mref))

    def replace(self, i, items):
        """Replace the whole state by the given [n, spec] pairs."""
        kind = self.kind(i)
        shared_real, shared_model = [], []
        real, model = kind.empty(), kind.empty()
        if self.kinds[i] in MARKABLE:
            real[MARK] = model[MARK] = i
        for n, spec in items:
            field = kind.field(n)
            spec = fit(self.kinds, self.kinds[i], field, spec)
            kind.mset(real, field, build(spec, self.ref, shared_real))
            kind.mset(model, field, build(spec, self.mref, shared_model))
        kind.replace(self.real[i], real)
        self.states[i] = model

    def reachable(self, start=(0,)):
        return reachable(start, lambda i: self.kinds[i],
                         lambda i: self.states[i])

    def direct_refs(self, i):
        return state_refs(self.kinds[i], self.states[i])


def snapshot(states):
    import copy
    return copy.deepcopy(states)


def kinds_strategy(n):
    return st.lists(st.one_of(st.sampled_from([0, 0, 1, 7]),
                              gen.small(NKINDS - 1)),
                    min_size=1, max_size=n)
