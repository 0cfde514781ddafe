"""Persistent classes that generated graphs are made of.

They live in a module of their own because their names end up in pickles.
"""
from durus.persistent import Persistent, PersistentObject, ComputedAttribute
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
from durus.btree import BTree, BNode, BNode4


class Node(Persistent):
    """State in __dict__."""


class NodeB(Persistent):
    """Another class, so that class pickles differ."""


class Slotted(PersistentObject):
    __slots__ = ['f0', 'f1', 'f2', 'f3']


class SubSlotted(Slotted):
    __slots__ = ('f4', 'f5')


class StringSlot(PersistentObject):
    __slots__ = 'f0'


class PrivateSlot(PersistentObject):
    __slots__ = ['__f0', '__f1', 'f2']


class SlottedDict(Slotted):
    """Inherits slots, and has a __dict__ as well."""


class CustomState(PersistentObject):
    """Its own __getstate__/__setstate__, as documented for subclasses."""

    def __getstate__(self):
        return [[k, v] for k, v in sorted(self.__dict__.items())]

    def __setstate__(self, state):
        d = object.__getattribute__(self, '__dict__')
        d.clear()
        d.update(dict((k, v) for k, v in state or ()))


class DefaultDict(PersistentDict):

    def __missing__(self, key):
        return 'missing'


class Small(BTree):
    """A BTree with many nodes."""

    def __init__(self):
        BTree.__init__(self, BNode)


class Stop(BaseException):
    """Like KeyboardInterrupt."""


class FailingReduce(object):

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc('cannot be pickled')


class FailingState(Persistent):

    def __getstate__(self):
        if type(self.__dict__.get('bad', 0)) is not int:
            raise ValueError('cannot be stored')
        return self.__dict__


class Derived(ComputedAttribute):
    """With an attribute of its own."""
    __slots__ = ['note']


class Labelled(object):
    """Equal to others that differ, as 1 is to True."""

    def __init__(self, n, label):
        self.n, self.label = n, label

    def __eq__(self, other):
        return getattr(other, 'n', other) == self.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Labelled(%r, %r)' % (self.n, self.label)
