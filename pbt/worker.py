"""One worker process: runs every facet of a property with one seed."""
import faulthandler
import gc
import importlib
import json
import os
import resource
import signal
import socket
import sys
import time
from collections import Counter

from . import boot, core


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang('case exceeded its %s limit' % (
        'CPU' if signum == signal.SIGPROF else 'time'))


class Runner(object):

    def __init__(self, spec):
        self.spec = spec
        self.mode = spec['mode']
        self.tier = spec['tier']
        self.base = spec['scratch']
        self.current = open(spec['current'], 'w')
        self.failure = None
        self.harness_error = None
        self.first = None # the first failure, before it is shrunk

    def execute(self, facet, case, stats=None):
        try:
            self._execute(facet, case, stats)
        except core.Violation:
            if self.first is None:
                self.first = self.failure
                core.patience = 0.1
            raise

    def _execute(self, facet, case, stats=None):
        text = core.dumps(case)
        case = core.decode(json.loads(text))
        self.current.seek(0)
        self.current.truncate()
        self.current.write(json.dumps({'facet': facet.name}) + '\n' + text)
        self.current.flush()
        del core.NOTES[:]
        ctx = core.Ctx(self.base, self.mode, self.tier)
        signal.setitimer(signal.ITIMER_PROF, facet.cpu_limit)
        signal.setitimer(signal.ITIMER_REAL, 150 if self.first is None else 30)
        try:
            try:
                facet.run(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                ctx.close()
        except core.Violation as e:
            self.failure = dict(facet=facet.name, case=text,
                                message=str(e), trace=core.describe(e))
            raise core.Violation('violation')
        except core.HarnessError as e:
            self.harness_error = core.describe(e)
            raise
        except core.Discard as e:
            ctx.label('known-finding:' + str(e))
        except Hang as e:
            self.failure = dict(facet=facet.name, case=text,
                                message='hang: %s' % e,
                                trace=core.describe(e))
            raise core.Violation('violation')
        except Exception as e:
            if core.in_code_under_test(e) or core.malformed(e):
                self.failure = dict(
                    facet=facet.name, case=text,
                    message='unexpected %s: %s' % (type(e).__name__, e),
                    trace=core.describe(e))
                raise core.Violation('violation')
            self.harness_error = core.describe(e)
            raise core.HarnessError(str(e))
        if stats is not None and self.failure is None:
            stats['evaluations'] += 1
            stats['labels'].update(
                dict((k, 1) for k in ctx.labels))
            if ctx.nontrivial:
                h = core.digest(text)
                if h not in stats['distinct']:
                    stats['distinct'].add(h)
                    if len(text) < 1500 and (
                            len(stats['samples']) < 2 or
                            (len(stats['distinct']) % 97 == 0 and
                             len(stats['samples']) < 4)):
                        stats['samples'].append(json.loads(text))

    def run_facet(self, facet, count, seed):
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 45
        stats = dict(evaluations=0, labels=Counter(), distinct=set(),
                     samples=[])
        start = time.time()
        # In parts, because one long search becomes slow.
        done = 0
        while done < count and not (self.failure or self.harness_error):
            part = min(count - done, 1500)
            self.run_part(facet, part, seed + 7919 * done, stats)
            done += part
        return dict(
            name=facet.name, evaluations=stats['evaluations'],
            labels=dict(stats['labels']), distinct=sorted(stats['distinct']),
            samples=stats['samples'], rule=facet.rule,
            wall=round(time.time() - start, 2))

    def run_part(self, facet, count, seed, stats):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        strategy = facet.strategy()

        @hypothesis.seed(seed)
        @settings(max_examples=count, deadline=None, database=None,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False)
        @given(strategy)
        def test(case):
            self.execute(facet, case, stats)
        try:
            test()
        except core.Violation:
            pass
        except hypothesis.errors.Flaky:
            pass # The parent decides by replaying the saved case.
        except Exception as e:
            if self.failure is None and self.harness_error is None:
                self.harness_error = core.describe(e)


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    faulthandler.enable()
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    # Runaway code must not exhaust the memory (which scratch files use, too).
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 ** 28, 2 ** 28))
    if spec['mode'] != 'asan': # which reserves a lot
        resource.setrlimit(resource.RLIMIT_AS, (2 ** 32, 2 ** 32))
    socket.setdefaulttimeout(60)
    boot.load_durus(spec['mode'], spec['asan'][0] if spec['mode'] == 'asan'
                    else spec['so'], spec['verbose'])
    runner = Runner(spec)
    result = dict(facets=[], failure=None, harness_error=None)
    try:
        module = importlib.import_module('pbt.props.' + spec['module'])
        facets = [f for f in module.FACETS if spec['mode'] in f.modes and
                  f.name in (spec.get('only') or [f.name])]
        if spec.get('replay'):
            with open(spec['replay']) as f:
                saved = json.load(f)
            for facet in module.FACETS:
                if facet.name == saved['facet']:
                    try:
                        runner.execute(facet, core.decode(saved['case']))
                    except core.Violation:
                        pass
        else:
            for number, facet in enumerate(facets):
                total = facet.thorough if spec['tier'] == 'thorough' \
                    else facet.quick
                total = int(total * spec.get('scale', 1)) or 1
                group = [w for w in spec['modes'] if w in facet.modes]
                share = -(-total // len(group))
                seed = (spec['seed'] * 1000003 + spec['index'] * 1009 +
                        number * 101)
                result['facets'].append(
                    runner.run_facet(facet, share, seed))
                if runner.failure or runner.harness_error:
                    break
    except core.HarnessError:
        pass
    except Exception as e:
        runner.harness_error = core.describe(e)
    result['failure'] = runner.failure
    result['first'] = runner.first
    result['harness_error'] = runner.harness_error
    with open(spec['out'] + '.tmp', 'w') as f:
        json.dump(result, f)
    os.rename(spec['out'] + '.tmp', spec['out'])
    sys.stdout.flush()
    os._exit(0) # background threads must not delay the exit


if __name__ == '__main__':
    main()
