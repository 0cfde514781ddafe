"""Locating, building and importing the code under test.

The code under test is always the working tree of /repo (DURUS_REPO overrides
it while the machinery itself is being developed).  Nothing is ever written
there: the C extension is compiled into a scratch folder and pre-loaded as
durus._persistent, so a stale .so in the tree cannot be picked up.
"""
import importlib.util
import logging
import os
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('DURUS_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


def scratch_root():
    for base in ('/dev/shm', '/tmp'):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return base
    return tempfile.gettempdir()


def build_ext(outdir, extra=()):
    out = os.path.join(outdir, '_persistent.so')
    cmd = ['gcc', '-shared', '-fPIC', '-O1', '-g', '-w',
           '-I', sysconfig.get_paths()['include'],
           os.path.join(REPO, 'durus', '_persistent.c'), '-o', out]
    cmd[1:1] = list(extra)
    subprocess.run(cmd, check=True)
    return out


def build_asan(outdir):
    """An instrumented extension, and the library it needs to be preloaded."""
    outdir = os.path.join(outdir, 'asan')
    os.mkdir(outdir)
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], check=True,
                         stdout=subprocess.PIPE, text=True).stdout.strip()
    return build_ext(outdir, ['-fsanitize=address']), lib


def build_shim(outdir):
    out = os.path.join(outdir, 'ioshim.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w',
                    os.path.join(HERE, 'ioshim.c'), '-o', out, '-ldl',
                    '-lpthread'], check=True)
    return out


SO = None


def load_durus(mode, so=None, verbose=False):
    """mode: 'c' (extension), 'asan' (the same, instrumented) or 'py' (pure
    Python base classes)."""
    global SO
    SO = so
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import durus
    assert os.path.dirname(os.path.abspath(durus.__file__)) == \
        os.path.join(os.path.abspath(REPO), 'durus'), durus.__file__
    if mode == 'py':
        sys.modules['durus._persistent'] = None
    else:
        spec = importlib.util.spec_from_file_location('durus._persistent', so)
        mod = importlib.util.module_from_spec(spec)
        sys.modules['durus._persistent'] = mod
        spec.loader.exec_module(mod)
        durus._persistent = mod
    stderr = sys.stderr
    sys.stderr = open(os.devnull, 'w')
    try:
        import durus.persistent
    finally:
        sys.stderr = stderr
    from durus.logger import logger
    logger.setLevel(1 if verbose else 100)
    logger.handlers[:] = [Formatting()]
    logger.propagate = False


class Formatting(logging.Handler):
    """Makes the message, which goes nowhere."""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass # as other handlers do
