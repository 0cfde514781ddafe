"""C14: packed arrays and integer sets match plain models."""
from io import BytesIO

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Violation, check, expect_eq, outcome
from durus.file import File
from durus.utils import (Byte, ByteArray, BitArray, WordArray, IntArray,
                         IntSet, int8_to_str)


class Place(object):
    """A file, in which the array begins somewhere."""

    def __init__(self, case, ctx):
        self.own = case.get('own', False)
        self.prefix = b'' if self.own else b'%' * case['start']
        if self.own:
            self.file = None # The array makes one.
            self.prefix = b''
            return
        if case['real']:
            self.file = File(ctx.path('array'))
            ctx.on_exit(self.file.close)
        else:
            self.file = BytesIO()
        self.file.write(self.prefix)
        self.trailer = b''

    def seek(self):
        self.file.seek(len(self.prefix))

    def content(self):
        self.file.seek(0)
        return self.file.read()

    def end(self):
        if not self.own:
            self.file.seek(0, 2)
            self.trailer = b'trailer'
            self.file.write(self.trailer)

    def check(self):
        if self.own:
            return
        content = self.content()
        check(content.startswith(self.prefix), 'what precedes the array was '
              'changed')
        check(content.endswith(self.trailer), 'what follows the array was '
              'changed')


def same(real, model, what):
    """Both ok with the same value, or both an error (of any kind)."""
    check(real[0] == model[0], '%s: got %.300r, expected %.300r', what, real,
          model)
    if real[0] == 'ok':
        check(real[1] == model[1], '%s: got %.300r, expected %.300r', what,
              real, model)
    return real[0] == 'ok'


def iterate(array, model, probes, what):
    """Iteration with other accesses in between."""
    result = []
    iterator = iter(array)
    for n, x in enumerate(iterator):
        result.append(x)
        check(n < len(model), '%s: iteration is too long', what)
        if probes:
            p = probes[n % len(probes)]
            if len(model):
                j = p % len(model)
                expect_eq(array[j], model[j], '%s: item %d' % (what, j))
                if p % 3 == 0 and j <= n:
                    array[j] = model[j] # no change, but a write
        if n > 3000:
            break
    else:
        expect_eq(result, list(model), what + ': iteration')


class Sequence(object):
    """What the array classes have in common."""

    negative = True

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.place = Place(case, ctx)
        self.create()

    def index(self, j):
        n = len(self.model)
        if -n <= j < n if self.negative else 0 <= j < n:
            return j
        raise IndexError(j)

    def op_get(self, j):
        what = '%s[%d] of %d' % (type(self.array).__name__, j,
                                 len(self.model))
        if not same(outcome(lambda: self.array[j]),
                    outcome(lambda: self.model[self.index(j)]), what):
            self.ctx.label('rejected')

    def op_set(self, j, v):
        v, good = self.value(v)
        what = '%s[%d] = %r' % (type(self.array).__name__, j, v)

        def model():
            k = self.index(j)
            if not good:
                raise ValueError
            self.model[k] = v

        def real():
            self.array[j] = v
        if not same(outcome(real), outcome(model), what):
            self.ctx.label('rejected')
            self.compare()

    def op_iterate(self, probes):
        iterate(self.array, self.model, probes, type(self.array).__name__)

    def op_grow(self, n):
        pass

    def op_reopen(self):
        if self.place.own:
            return
        self.place.seek()
        self.reopen()
        self.ctx.label('reopened')
        self.compare()

    def compare(self):
        name = type(self.array).__name__
        expect_eq(len(self.array), len(self.model), name + ': length')
        expect_eq([self.array[j] for j in range(len(self.model))],
                  list(self.model), name + ': items')
        self.place.check()

    def run(self):
        self.compare()
        for op in self.case['ops']:
            getattr(self, 'op_' + op[0])(*op[1:])
        self.compare()
        self.op_iterate([])
        self.op_reopen()


class Bytes(Sequence):

    negative = False

    def create(self):
        n = self.case['size']
        self.array = ByteArray(n, file=self.place.file)
        self.model = [b'\0'] * n

    def reopen(self):
        self.array = ByteArray(len(self.model), file=self.place.file)

    def value(self, v):
        v = [bytes([v % 256]), bytes([v % 256]), b'', b'xy'][v // 256 % 4]
        return v, len(v) == 1

    def op_slice(self, j, k):
        def model():
            if 0 <= j < k <= len(self.model):
                return b''.join(self.model[j:k])
            raise IndexError
        same(outcome(lambda: self.array[j:k]), outcome(model),
             'ByteArray[%d:%d] of %d' % (j, k, len(self.model)))
        check(outcome(lambda: self.array[j:k:2])[0] == 'exc',
              'a slice of a ByteArray with a step')
        check(outcome(lambda: self.array.__setitem__(
            slice(j, k, -1), b'x' * max(k - j, 0)))[0] == 'exc',
              'a slice of a ByteArray with a step is set')

    def op_setslice(self, j, k, extra, v):
        data = bytes([v % 256]) * max(k - j + extra, 0)

        def model():
            if not 0 <= j < k <= len(self.model) or extra:
                raise IndexError
            self.model[j:k] = [bytes([b]) for b in data]

        def real():
            self.array[j:k] = data
        if not same(outcome(real), outcome(model), 'ByteArray[%d:%d] = %d '
                    'bytes' % (j, k, len(data))):
            self.ctx.label('rejected')
            self.compare()

    def op_grow(self, n):
        before = len(self.model)
        self.array.set_size(before + n, init_byte=b'i')
        self.model += [b'i'] * n
        if before:
            result = outcome(self.array.set_size, before - 1)
            check(result[0] == 'exc', 'a ByteArray shrinks')
        self.compare()
        self.ctx.label('grown')


class Bits(Sequence):

    def create(self):
        n = self.case['size']
        self.array = BitArray(n, file=self.place.file)
        self.model = [0] * n

    def reopen(self):
        self.array = BitArray(len(self.model), file=self.place.file)

    def value(self, v):
        return v % 2, True

    def op_slice(self, j, k):
        expect_eq(str(self.array), ''.join(map(str, self.model)),
                  'str of a BitArray')

    def op_setslice(self, j, k, extra, v):
        pass

    def op_grow(self, n):
        self.array.set_size(len(self.model) + n)
        self.model += [0] * n
        self.compare()
        self.ctx.label('grown')


class Words(Sequence):

    def create(self):
        n = self.case['size']
        self.width = self.case['width']
        self.array = WordArray(file=self.place.file,
                               bytes_per_word=self.width, number_of_words=n)
        self.model = [b'\0' * self.width] * n
        self.place.end()

    def reopen(self):
        self.array = WordArray(file=self.place.file)
        expect_eq(self.array.get_bytes_per_word(), self.width, 'width')

    def value(self, v):
        size = self.width + [0, 0, 0, 1, -1][v // 256 % 5]
        return bytes([v % 256]) * size, size == self.width

    def op_slice(self, j, k):
        pass

    def op_setslice(self, j, k, extra, v):
        pass


class Ints(Sequence):

    def create(self):
        n = self.case['size']
        self.maximum = self.case['maximum']
        self.array = IntArray(file=self.place.file, number_of_ints=n,
                              maximum_int=self.maximum)
        self.blank = self.array.get_blank_value()
        check(self.maximum is None or
              self.maximum < self.blank < 256 * (self.maximum + 2),
              'words for %s have the blank value %s', self.maximum, self.blank)
        self.model = [self.blank] * n
        self.place.end()

    def reopen(self):
        self.array = IntArray(file=self.place.file)
        expect_eq(self.array.get_blank_value(), self.blank, 'blank value')

    def value(self, v):
        if self.maximum is None:
            return v % (2 ** 64 - 1), True
        kind = v % 7
        if kind == 0:
            return self.maximum, True
        if kind == 1:
            return -1, False
        if kind == 2: # More bytes than all words have.
            return (self.blank + 1) * (v // 7 % 1000 + 1), False
        return (v // 7) % (self.maximum + 1), True

    def op_slice(self, j, k):
        want = dict((n, v) for n, v in enumerate(self.model)
                    if v != self.blank)
        expect_eq(dict(self.array.items()), want, 'items of an IntArray')
        for n in (j, k):
            if 0 <= n < len(self.model):
                expect_eq(self.array.get(n, 'none'), want.get(n, 'none'),
                          'get of an IntArray')
        expect_eq(self.array.get(len(self.model), 'none'), 'none',
                  'get of an IntArray')

    def op_setslice(self, j, k, extra, v):
        pass


CLASSES = [Bytes, Bits, Words, Ints]


def run(case, ctx):
    sequence = CLASSES[case['class']](case, ctx)
    sequence.run()
    ctx.label(type(sequence).__name__)
    ctx.mark(len(sequence.model) > 2 and len(case['ops']) > 2)


def run_set(case, ctx):
    place = Place(case, ctx)
    if case['default']:
        real = IntSet(file=place.file)
    else:
        real = IntSet(size=case['size'], file=place.file)
    model = set()
    for op, n in case['ops']:
        if op == 0:
            real.add(n)
            model.add(n)
        elif op == 1:
            real.discard(n)
            model.discard(n)
        elif op == 2:
            expect_eq(n in real, n in model, '%d in IntSet' % n)
        elif not place.own:
            size = 8 * (len(place.content()) - case['start'])
            place.seek()
            real = IntSet(size=size, file=place.file)
            ctx.label('reopened')
        for m in list(model)[:3] + [n + 1, n - 1 if n else 0]:
            expect_eq(m in real, m in model, '%d in IntSet' % m)
    for n in range(max(model or [0]) + 20):
        expect_eq(n in real, n in model, '%d in IntSet' % n)
    place.check()
    ctx.mark(len(model) > 1)


def run_byte(case, ctx):
    v = case['value']
    byte = Byte(v) if case['int'] else Byte(bytes([v]))
    bits = [(v >> (7 - j)) & 1 for j in range(8)]
    for j, b in case['ops']:
        good = -8 <= j <= 7
        same(outcome(lambda: byte[j]),
             outcome(lambda: bits[j]), 'Byte[%d]' % j)

        def real():
            byte[j] = b

        def model():
            bits[j] = b
        same(outcome(real), outcome(model), 'Byte[%d] = %d' % (j, b))
        n = int(''.join(map(str, bits)), 2)
        expect_eq(int(byte), n, 'int of a Byte')
        expect_eq(byte.byte(), bytes([n]), 'byte of a Byte')
        expect_eq(list(byte), bits, 'iteration over a Byte')
        expect_eq(str(byte), chr(n), 'str of a Byte')
    for bad in (256, -1, b'', b'ab'):
        check(outcome(Byte, bad)[0] == 'exc', 'Byte(%r) is accepted', bad)
    ctx.mark(len(case['ops']) > 1)


J = st.one_of(gen.small(20), st.integers(-25, 40), st.integers(-700, 700))
SIZE = st.one_of(gen.small(20), st.sampled_from([0, 1, 7, 8, 9, 16, 255, 300]))
GROW = st.one_of(gen.small(20), st.sampled_from([8195, 8196, 8197, 20000]))


def strategy():
    return gen.record(**{
        'class': gen.small(3), 'start': st.sampled_from([0, 0, 1, 5, 100]),
        'own': st.sampled_from([False, False, False, True]),
        'real': st.sampled_from([False, False, True]), 'size': SIZE,
        'width': st.integers(1, 9),
        'maximum': st.one_of(st.none(), gen.small(300), st.sampled_from(
            [253, 254, 255, 256, 65533, 65534, 65535, 2 ** 24 - 2,
             2 ** 24 - 1, 2 ** 32 - 2, 2 ** 56 - 2, 2 ** 56 - 1]),
            st.integers(0, 2 ** 63)),
        'ops': gen.ops(
            (4, gen.op('get', J)),
            (6, gen.op('set', J, st.one_of(gen.small(1023),
                                           st.integers(0, 2 ** 64)))),
            (3, gen.op('slice', J, J)),
            (3, gen.op('setslice', gen.small(30), gen.small(30),
                       st.sampled_from([0, 0, 0, 1, -1]), gen.small(255))),
            (1, gen.op('grow', GROW)), (1, gen.op('reopen')),
            (2, gen.op('iterate', st.lists(gen.small(400), max_size=5))),
            max_size=25)})


NUMBER = st.one_of(gen.small(30), gen.small(3000), st.sampled_from(
    [7, 8, 9, 1022, 1023, 1024, 1025, 1228, 1229, 8191, 8192, 20000]))


def set_strategy():
    return gen.record(
        start=st.sampled_from([0, 3]), real=st.sampled_from(
            [False, False, True]),
        own=st.sampled_from([False, False, False, True]),
        default=st.booleans(), size=gen.small(40),
        ops=st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, 3]),
                               NUMBER).map(list), max_size=30))


def byte_strategy():
    return gen.record(
        value=gen.small(255), int=st.booleans(),
        ops=st.lists(st.tuples(st.integers(-10, 10), gen.small(1)).map(list),
                     max_size=12))


FACETS = [
    Facet('arrays', strategy, run, quick=6000, thorough=200000,
          rule='an array of generated class, size and width in a file, and a '
          'history of reads, writes, slices, growth, iterations (with other '
          'accesses in between) and reopenings; non-trivial with more than '
          'two items and operations'),
    Facet('sets', set_strategy, run_set, quick=2000, thorough=60000,
          rule='a history of an IntSet; non-trivial when it ends with more '
          'than one element'),
    Facet('bytes', byte_strategy, run_byte, quick=800, thorough=20000,
          rule='a history of a Byte; non-trivial with several operations'),
]
