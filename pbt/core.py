"""Case plumbing shared by all properties: violations, labels, encoding."""
import hashlib
import json
import os
import pickle
import shutil
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import boot


NOTES = [] # what background threads have to say about the current case


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The machinery itself is at fault."""


class Discard(Exception):
    """The case reached a state that is recorded as a known finding."""


# Waiting is cut short while a failure is being shrunk.
patience = 1.0


def wait_until(cond, seconds=40):
    """Poll; True if cond() came true in time."""
    limit = None
    pause = 0.0001
    while not cond():
        now = time.monotonic()
        if limit is None:
            limit = now + seconds * patience
        elif now > limit:
            return False
        time.sleep(pause)
        pause = min(pause * 1.1, 0.005)
    return True


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def expect_eq(got, want, what):
    if got != want:
        raise Violation('%s: got %.600r, expected %.600r' % (what, got, want))


def expect_raises(exc, func, what):
    """func() must raise exc (and nothing else)."""
    try:
        result = func()
    except exc as e:
        return e
    raise Violation('%s: expected %s, got result %.300r' % (
        what, getattr(exc, '__name__', exc), result))


def outcome(func, *args, **kw):
    """('ok', value) or ('exc', exception class name)."""
    try:
        return ('ok', func(*args, **kw))
    except Exception as e:
        return ('exc', type(e).__name__)


def encode(x):
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [encode(i) for i in x]
    if isinstance(x, dict):
        return {'$d': [[encode(k), encode(v)] for k, v in x.items()]}
    if isinstance(x, str):
        try:
            x.encode('utf-8')
            return x
        except UnicodeEncodeError:
            return {'$s': x.encode('utf-8', 'surrogatepass').hex()}
    assert x is None or isinstance(x, (int, float, bool)), type(x)
    return x


def decode(x):
    if isinstance(x, list):
        return [decode(i) for i in x]
    if isinstance(x, dict):
        if '$b' in x:
            return bytes.fromhex(x['$b'])
        if '$s' in x:
            return bytes.fromhex(x['$s']).decode('utf-8', 'surrogatepass')
        return dict((decode(k), decode(v)) for k, v in x['$d'])
    return x


def dumps(case):
    return json.dumps(encode(case))


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


class Ctx(object):
    """Handed to every case: a scratch folder, labels, cleanups."""

    def __init__(self, base, mode, tier):
        self.base = base
        self.mode = mode
        self.tier = tier
        self.labels = Counter()
        self.nontrivial = False
        self._dir = None
        self._cleanups = []

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case', dir=self.base)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def label(self, name, n=1):
        self.labels[name] += n

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True

    def on_exit(self, func):
        self._cleanups.append(func)
        return func

    def close(self):
        while self._cleanups:
            func = self._cleanups.pop()
            try:
                func()
            except Exception:
                pass
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


class Facet(object):
    """One generated check: a Hypothesis strategy plus an interpreter.

    quick/thorough: number of cases over all workers.
    modes: which persistence base classes it runs with.
    """

    def __init__(self, name, strategy, run, quick, thorough=None,
                 modes=('c', 'py'), rule='', cpu_limit=60):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.modes = modes
        self.rule = rule
        self.cpu_limit = cpu_limit


def in_code_under_test(exc):
    """Does the traceback of this exception pass through the repository?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, lineno in traceback.walk_tb(exc.__traceback__):
            name = os.path.abspath(frame.f_code.co_filename)
            if name.startswith(os.path.abspath(boot.REPO) + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def malformed(exc):
    """Is this what an oracle raises when the repository gave it something
    that is not of the form that it should have (None for a number)?  It
    cannot be a renamed or changed internal interface."""
    if isinstance(exc, TypeError):
        return 'argument' not in str(exc)
    return isinstance(exc, (ValueError, LookupError, ArithmeticError,
                            struct.error, pickle.UnpicklingError))


def describe(exc):
    return (''.join(traceback.format_exception(
        type(exc), exc, exc.__traceback__))[-4000:] +
        ''.join(n[-1500:] for n in NOTES[-2:]))
