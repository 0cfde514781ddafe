#!/usr/bin/env python3
"""seed.py [--no-tests] [--check] ID...: confirm planted bugs in scratch copies.

For each: the patch applies, the extension builds, the stable tests pass, the
demonstration passes without and fails with the patch; --check also runs the
property's quick check against the copy.
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def run(cmd, cwd, env=None, timeout=400):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                          stdin=subprocess.DEVNULL, capture_output=True,
                          text=True)


def build(d):
    for name in os.listdir(d + '/durus'):
        if name.endswith('.so'):
            os.unlink(d + '/durus/' + name)
    r = run([PY, 'setup.py', 'build_ext', '--inplace', '--force',
             '--build-temp', d + '/.bt', '--build-lib', d + '/.bl'], d)
    return r.returncode, r.stderr[-1000:]


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + ':/opt/vp/plugin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               TMPDIR=d + '/.tmp', HOME='/root')
    os.makedirs(d + '/.tmp', exist_ok=True)
    failed = []
    with open('/tmp/seed.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for extra, more in (([], {}), (['-m', 'not server'],
                                       {'DURUS_PURE_PYTHON': '1'})):
            r = run([PY, '-m', 'pytest', '-q', '-p', 'sancho_pytest', '-p',
                     'no:cacheprovider', '--timeout=120', '--tb=short',
                     '--show-capture=no', '-o', 'junit_family=xunit2']
                    + extra + ['test'], d, dict(env, **more), 600)
            failed += [l for l in r.stdout.splitlines()
                       if l.startswith(('FAILED', 'ERROR'))]
            failed += ['-- ' + r.stdout.splitlines()[-1]] if r.stdout else []
    return failed


def main():
    args = sys.argv[1:]
    flags = [a for a in args if a.startswith('--')]
    ids = [a for a in args if not a.startswith('--')]
    for id in ids:
        where = os.path.join(HERE, 'seeded', id)
        meta = json.load(open(where + '/meta.json'))
        d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            subprocess.check_call(
                'git -C /repo archive HEAD | tar x -C ' + d, shell=True)
            build(d)
            env = dict(os.environ, PYTHONPATH=d)
            out = [id, meta['property']]
            demo = tempfile.mkdtemp(prefix='demo', dir=d)
            for name in os.listdir(where):
                if name not in ('patch.diff', 'meta.json'):
                    shutil.copy(os.path.join(where, name), demo)
            r0 = run(['bash', demo + '/demo.sh'], d, env)
            out.append('clean demo %s' % r0.returncode)
            if r0.returncode:
                print(r0.stdout[-1500:], r0.stderr[-1500:])
            p = run(['git', 'apply', where + '/patch.diff'], d)
            if p.returncode:
                p = run(['patch', '-p1', '-i', where + '/patch.diff'], d)
            out.append('apply %s' % p.returncode)
            b = build(d)
            out.append('build %s' % (b[0] or 0))
            r1 = run(['bash', demo + '/demo.sh'], d, env)
            out.append('patched demo %s (%s)' % (
                r1.returncode, (r1.stderr.strip().splitlines() or [''])[-1][:150]))
            if '--no-tests' not in flags:
                out.append('tests %s' % tests(d))
            if '--check' in flags:
                r = run([HERE + '/check', meta['property']], HERE,
                        dict(os.environ, DURUS_REPO=d), 900)
                out.append('check exit %s: %s' % (
                    r.returncode, r.stdout.strip().splitlines()[-1:]))
                if r.returncode == 1:
                    out.append(' | '.join(r.stdout.splitlines()[:2])[:300])
            print('; '.join(out), flush=True)
        finally:
            subprocess.call(['rm', '-rf', d])


main()
