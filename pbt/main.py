"""Entry point of every check: build, fan out, merge, report."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

from . import boot, registry

VERIF = os.path.dirname(boot.HERE)
WORKERS = 8


def spawn(scratch, spec, shim):
    path = os.path.join(scratch, 'spec%s.json' % spec['index'])
    with open(path, 'w') as f:
        json.dump(spec, f)
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(spec['hashseed'])
    env['PYTHONPATH'] = VERIF
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['TMPDIR'] = spec['scratch']
    env['HOME'] = spec['scratch']
    for name in ('LISTEN_PID', 'LISTEN_FDS', 'DURUSSTARTUP'):
        env.pop(name, None)
    if shim:
        env['LD_PRELOAD'] = shim
        env['IOSHIM_PREFIX'] = spec['scratch']
    if spec['mode'] == 'asan':
        env['LD_PRELOAD'] = spec['asan'][1]
        env['PYTHONMALLOC'] = 'malloc'
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99'
    elif spec['debug']:
        env['PYTHONMALLOC'] = 'pymalloc_debug'
    log = open(os.path.join(scratch, 'log%s' % spec['index']), 'w')
    return subprocess.Popen(
        [sys.executable, '-B', '-m', 'pbt.worker', path], env=env, cwd=scratch,
        stdin=subprocess.DEVNULL, stdout=log, stderr=log,
        start_new_session=True)


def make_spec(args, entry, scratch, so, index, mode, hashseed):
    base = os.path.join(scratch, 'w%s' % index)
    if not os.path.isdir(base):
        os.mkdir(base)
    return dict(
        module=entry['module'], mode=mode, index=index, seed=args.seed,
        tier=args.tier, so=so, scratch=base, debug='modes' in entry,
        asan=entry.get('asan'), hashseed=hashseed, verbose=index // 2 % 2 == 1,
        modes=[mode_of(i, entry) for i in range(WORKERS)], only=args.only,
        scale=args.scale,
        current=os.path.join(scratch, 'current%s' % index),
        out=os.path.join(scratch, 'out%s.json' % index))


def mode_of(index, entry):
    modes = entry.get('modes', ('c', 'py'))
    return modes[index % len(modes)]


def kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except OSError:
        pass
    proc.wait()


def run_replay(args, entry, scratch, so, shim, path, saved, timeout=300):
    """True if the saved case fails again (in a fresh process)."""
    spec = make_spec(args, entry, scratch, so, 99, saved['mode'],
                     saved['hashseed'])
    spec['replay'] = path
    spec['verbose'] = saved.get('verbose', False)
    if os.path.exists(spec['out']):
        os.unlink(spec['out'])
    proc = spawn(scratch, spec, shim)
    try:
        proc.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(proc)
        return 'did not terminate'
    kill(proc)
    if proc.returncode < 0:
        return 'process died with signal %d' % -proc.returncode
    if not os.path.exists(spec['out']):
        return None
    with open(spec['out']) as f:
        result = json.load(f)
    if result['harness_error']:
        sys.stderr.write(result['harness_error'])
        return None
    if result['failure']:
        return result['failure']['message'] + '\n' + result['failure']['trace']
    return None


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or
                        'quick')
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--only', action='append')
    parser.add_argument('--scale', type=float, default=1)
    parser.add_argument('--verbose', action='store_true')
    args = parser.parse_args()
    entry = registry.ENTRIES[args.property]
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='durus-verif-', dir=boot.scratch_root())
    procs = []
    try:
        so = boot.build_ext(scratch)
        if 'asan' in entry.get('modes', ()):
            entry['asan'] = boot.build_asan(scratch)
        shim = boot.build_shim(scratch) if entry.get('shim') else None
        if args.replay:
            with open(args.replay) as f:
                saved = json.load(f)
            why = run_replay(args, entry, scratch, so, shim,
                             os.path.abspath(args.replay), saved)
            if why:
                print(why)
                print('VIOLATION property=%s replay=%s' % (
                    args.property, os.path.abspath(args.replay)))
                return 1
            print('replay passes')
            return 0
        specs = [make_spec(args, entry, scratch, so, i, mode_of(i, entry),
                           (args.seed * 97 + i) % 4294967295)
                 for i in range(WORKERS)]
        procs = [spawn(scratch, spec, shim) for spec in specs]
        code, results = supervise(args, entry, scratch, so, shim, specs, procs)
        return report(args, entry, code, results, time.time() - start)
    finally:
        for proc in procs:
            kill(proc)
        shutil.rmtree(scratch, ignore_errors=True)


def current_case(spec, message):
    """What a worker that does not answer was doing."""
    try:
        with open(spec['current']) as f:
            head, text = f.read().split('\n', 1)
        json.loads(text)
        return dict(facet=json.loads(head)['facet'], case=text,
                    message=message, trace='')
    except (OSError, ValueError):
        return None


def judge(args, entry, scratch, so, shim, spec, failure, attempts=3,
          timeout=300):
    """Save the case and run it again in a new process: it has to fail."""
    saved = dict(property=args.property, facet=failure['facet'],
                 mode=spec['mode'], hashseed=spec['hashseed'],
                 verbose=spec['verbose'],
                 message=failure['message'], trace=failure['trace'],
                 case=json.loads(failure['case']))
    outdir = os.path.join(VERIF, 'replays')
    if not os.path.isdir(outdir):
        os.mkdir(outdir)
    path = os.path.join(outdir, '%s-%s.json' % (args.property, spec['mode']))
    with open(path, 'w') as f:
        json.dump(saved, f, indent=1)
    for attempt in range(attempts):
        why = run_replay(args, entry, scratch, so, shim, path, saved, timeout)
        if why:
            print('facet: %s (%s)' % (saved['facet'], saved['mode']))
            print(failure['message'])
            print(why[-3000:])
            print('case: %.2000s' % failure['case'])
            print('VIOLATION property=%s replay=%s' % (args.property, path))
            return True
    sys.stderr.write('not reproduced: %s\n%s\n%s\n' % (
        failure['message'], failure['trace'], path))
    return False


def supervise(args, entry, scratch, so, shim, specs, procs):
    limit = time.time() + (660 if args.tier == 'quick' else 6 * 3600)
    pending = dict((i, p) for i, p in enumerate(procs))
    results = []
    code = 0
    while pending:
        time.sleep(0.05)
        if time.time() > limit:
            for i, proc in pending.items():
                kill(proc)
            for i in list(pending)[:2]:
                failure = current_case(specs[i], 'does not terminate')
                if failure and judge(args, entry, scratch, so, shim, specs[i],
                                     failure, 1, 90):
                    return 1, results
            print('inconclusive: time limit reached')
            return 2, results
        for i, proc in list(pending.items()):
            if proc.poll() is None:
                continue
            del pending[i]
            failure = result = None
            if os.path.exists(specs[i]['out']):
                with open(specs[i]['out']) as f:
                    result = json.load(f)
                results.append(result)
                failure = result['failure']
                if result['harness_error'] and not failure:
                    sys.stderr.write(result['harness_error'][-1500:] + '\n')
                    code = 2
            else:
                # The process died: the current case is the suspect.
                failure = current_case(
                    specs[i], 'worker died with status %s' % proc.returncode)
                with open(os.path.join(scratch, 'log%d' % i)) as f:
                    sys.stderr.write(f.read()[-1500:])
                if failure is None:
                    code = 2
            if failure:
                suspects = [failure]
                if result is not None and result['first'] != failure:
                    suspects.append(result['first'])
                for failure in suspects:
                    if judge(args, entry, scratch, so, shim, specs[i],
                             failure):
                        return 1, results
                code = 2
    return code, results


def report(args, entry, code, results, wall):
    facets = {}
    for result in results:
        for f in result['facets']:
            total = facets.setdefault(f['name'], dict(
                evaluations=0, labels=Counter(), distinct=set(), samples=[],
                rule=f['rule'], wall=0))
            total['evaluations'] += f['evaluations']
            total['labels'].update(f['labels'])
            total['distinct'].update(f['distinct'])
            total['samples'].extend(f['samples'])
            total['wall'] = max(total['wall'], f['wall'])
    samples = []
    for name, total in facets.items():
        for case in total['samples'][:2]:
            samples.append(dict(facet=name, case=case))
    coverage = dict(
        evaluations=sum(t['evaluations'] for t in facets.values()),
        distinct_nontrivial=sum(len(t['distinct']) for t in facets.values()),
        rule=entry.get('rule') or '; '.join(
            '%s: %s' % (n, t['rule']) for n, t in facets.items()),
        samples=samples or ['none'],
        facets=dict((n, dict(
            evaluations=t['evaluations'],
            distinct_nontrivial=len(t['distinct']),
            labels=dict(sorted(t['labels'].items())),
            slowest_worker_s=t['wall'])) for n, t in facets.items()))
    evidence = dict(
        property=args.property, tier=args.tier, seed=args.seed,
        level=entry.get('level', 'exploration'), coverage=coverage,
        assumptions=entry.get('assumptions', []), wall_s=round(wall, 2),
        violations=1 if code == 1 else 0)
    outdir = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(outdir):
        os.mkdir(outdir)
    with open(os.path.join(outdir, args.property + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if args.verbose or code == 2:
        for n, t in facets.items():
            print('%-22s n=%-7d nontrivial=%-7d %.1fs %s' % (
                n, t['evaluations'], len(t['distinct']), t['wall'],
                dict(sorted(t['labels'].items()))))
    for text in entry.get('known', []):
        pass
    print('%s: %s evaluations, %s distinct non-trivial, %.1fs, exit %s' % (
        args.property, coverage['evaluations'],
        coverage['distinct_nontrivial'], wall, code))
    return code


if __name__ == '__main__':
    sys.exit(main())
