"""Runner shared by all checks.

A check module (checks/pXX.py) registers *subs*: a Hypothesis strategy producing a plain JSON-able case and a function
that executes one case against the real code and raises Violation (or lets the code under test raise) when the
property does not hold.  The case is data only, so every shrunk failure is a replay file that bypasses Hypothesis.
"""
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback

from vf import bootstrap

bootstrap.ensure()

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')      # only for development
FAST = bool(os.environ.get('VF_FAST'))          # only for development: stop at the first failure, do not shrink
sys.path.insert(0, REPO)

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')
CPU_LIMIT = 90.        # seconds of CPU time for a single case (typical: well below 0.5 s)
SHRINK_BUDGET = 40.    # seconds of wall time spent on shrinking
WALL_LIMIT = {'quick': 780., 'thorough': 6 * 3600.}

SUBS = []
META = dict(assumptions=[])


class Violation(Exception):
    """The oracle of a check rejects what the code did."""


class HarnessError(Exception):
    """Something is wrong with the check itself: exit 2, never a violation."""


class CpuLimit(Violation):
    pass


class Sub:
    def __init__(self, name, strategy, func, quick, thorough, rule, shards):
        self.name, self.strategy, self.func = name, strategy, func
        self.examples = dict(quick=quick, thorough=thorough)
        self.rule, self.shards = rule, shards


def sub(name, strategy, quick=200, thorough=None, rule='', shards=None):
    """Register a sub check. quick/thorough: numbers of generated cases."""
    def register(func):
        SUBS.append(Sub(name, strategy, func, quick, thorough or 20 * quick, rule, shards))
        return func
    return register


def require(condition, message, *details):
    if not condition:
        raise Violation(message + (': ' + ' | '.join(str(d) for d in details) if details else ''))


class Context:
    """Handed to every case: bookkeeping and scratch space."""
    def __init__(self, pid, known):
        self.pid = pid
        self.known_tags = known
        self.labels = []
        self.is_nontrivial = False
        self._dir = None

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, condition=True):
        self.is_nontrivial = self.is_nontrivial or bool(condition)

    def tmp(self):
        if self._dir is None:
            self._dir = os.path.join(SCRATCH, 'case_%d' % os.getpid())
            shutil.rmtree(self._dir, ignore_errors=True)
            os.makedirs(self._dir)
        return self._dir

    def known(self, tag, message):
        """A listed, unrepaired defect: identified by tag. Everything unlisted is a violation."""
        if tag not in self.known_tags:
            raise Violation(message)
        self.label('known finding ' + tag)

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(obj):
    if hasattr(obj, 'item'):
        return obj.item()
    if hasattr(obj, 'tolist'):
        return obj.tolist()
    raise TypeError(repr(obj))


def execute(sub_, case, pid, known):
    """Run one case. Returns the context; raises on failure."""
    ctx = Context(pid, known)

    def on_alarm(signum, frame):
        raise CpuLimit('the case used more than %.0f s of CPU time' % CPU_LIMIT)

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        sub_.func(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.cleanup()
    return ctx


def describe(exc):
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return '%s: %s' % (type(exc).__name__, str(exc)[:1500]), ''.join(tb)[-6000:]


def run_shard(sub_, shard, n_examples, seed, pid, known, deadline):
    """Executed in a forked process."""
    res = dict(sub=sub_.name, shard=shard, evaluations=0, skipped=0, nontrivial=[], labels=collections.Counter(),
               samples=[], failure=None, error=None)
    distinct = set()
    failing = {}
    state = dict(first=None, last=None)

    def body(case):
        key = canonical(case)
        if state['first'] is not None and time.time() - state['first'] > SHRINK_BUDGET and key not in failing:
            return
        if state['first'] is None and time.time() > deadline:
            res['skipped'] += 1
            return
        res['evaluations'] += 1
        try:
            ctx = execute(sub_, json.loads(key), pid, known)
        except HarnessError:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as exc:
            if state['first'] is None:
                state['first'] = time.time()
            failing[key] = describe(exc)
            state['last'] = key
            if isinstance(exc, CpuLimit):
                state['first'] = 0.
            raise Violation(failing[key][0]) from exc
        res['labels'].update(set(ctx.labels))
        if ctx.is_nontrivial:
            digest = hashlib.sha1(key.encode()).hexdigest()[:16]
            if digest not in distinct:
                distinct.add(digest)
                if len(res['samples']) < 2 and len(key) < 4000 or not res['samples']:
                    res['samples'].append(key[:4000])

    test = given(sub_.strategy)(body)
    number = int(hashlib.sha256(('%s:%s:%s:%d' % (seed, pid, sub_.name, shard)).encode()).hexdigest()[:12], 16)
    test = hypothesis.seed(number)(test)
    test = settings(max_examples=n_examples, database=None, deadline=None, report_multiple_bugs=False,
                    print_blob=False, phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(test)
    try:
        test()
    except HarnessError as exc:
        res['error'] = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    except BaseException as exc:
        if state['last'] is None:
            res['error'] = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    if state['last'] is not None:
        res['failure'] = confirm(sub_, pid, known, failing, state['last'])
    res['nontrivial'] = sorted(distinct)
    return res


def confirm(sub_, pid, known, failing, last):
    """Re-run the shrunk case without Hypothesis."""
    candidates = [last] + sorted((k for k in failing if k != last), key=len)[:2]
    for key in candidates:
        if 'CpuLimit' in failing[key][0]:
            return dict(case=json.loads(key), message=failing[key][0], trace=failing[key][1], reproduced=True)
        for _ in range(2):
            try:
                execute(sub_, json.loads(key), pid, known)
            except HarnessError:
                break
            except Exception as exc:
                message, trace = describe(exc)
                return dict(case=json.loads(key), message=message, trace=trace, reproduced=True)
    return dict(case=json.loads(last), message=failing[last][0], trace=failing[last][1], reproduced=False)


def read_known(pid):
    """tags of unrepaired findings and their descriptions."""
    known = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == 'known:' and parts[1] == 'property=' + pid and parts[2].startswith('tag='):
                known[parts[2][4:]] = parts[3]
    return known


def _fork(func, out):
    sys.stdout.flush()
    sys.stderr.flush()
    child = os.fork()
    if child:
        return child
    code = 0
    try:
        result = func()
        with open(out + '.tmp', 'w') as f:
            json.dump(result, f, default=_plain)
        os.rename(out + '.tmp', out)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def load_regressions(pid):
    directory = os.path.join(HERE, 'regressions', pid)
    cases = []
    if os.path.isdir(directory):
        for name in sorted(os.listdir(directory)):
            data = json.load(open(os.path.join(directory, name)))
            cases.append((name, data['sub'], data['case']))
    return cases


def run_regressions(pid, known, cases):
    """Saved inputs, executed without Hypothesis."""
    res = dict(sub='regressions', shard=0, evaluations=0, skipped=0, nontrivial=[], labels=collections.Counter(),
               samples=[], failure=None, error=None)
    by_name = {s.name: s for s in SUBS}
    for name, sub_name, case in cases:
        if sub_name not in by_name:
            res['error'] = 'regression %s refers to unknown sub %s' % (name, sub_name)
            continue
        res['evaluations'] += 1
        try:
            ctx = execute(by_name[sub_name], case, pid, known)
            if ctx.is_nontrivial:
                res['nontrivial'].append(hashlib.sha1(canonical(case).encode()).hexdigest()[:16])
        except HarnessError as exc:
            res['error'] = describe(exc)[1]
        except Exception as exc:
            message, trace = describe(exc)
            if res['failure'] is None:
                res['failure'] = dict(case=case, message=message, trace=trace, reproduced=True, sub=sub_name)
    return res


def write_replay(pid, failure, sub_name):
    directory = os.path.join(HERE, 'replays')
    os.makedirs(directory, exist_ok=True)
    digest = hashlib.sha1(canonical(failure['case']).encode()).hexdigest()[:10]
    path = os.path.join(directory, '%s-%s-%s.json' % (pid, sub_name, digest))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, sub=sub_name, case=failure['case'], message=failure['message'],
                       trace=failure['trace'], reproduced=failure['reproduced']), f, indent=1, default=_plain)
    return path


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('pid')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--only', help='name of a single sub')
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--scale', type=float, default=1.)
    args = parser.parse_args(argv)
    pid, tier = args.pid, args.tier
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()

    try:
        from vf import env
        env.prepare()
        importlib.import_module('checks.' + pid.lower())
    except BaseException:
        traceback.print_exc()
        print('ERROR of the check: the package or the check can not be imported')
        return 2
    known = read_known(pid)

    if args.replay:
        data = json.load(open(args.replay))
        sub_ = {s.name: s for s in SUBS}[data['sub']]
        try:
            execute(sub_, data['case'], pid, known)
        except HarnessError:
            traceback.print_exc()
            return 2
        except Exception as exc:
            print(describe(exc)[1])
            print('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(args.replay)))
            return 1
        print('replay passes')
        return 0

    subs = [s for s in SUBS if not args.only or s.name == args.only]
    jobs = []
    for s in subs:
        total = max(1, int(s.examples[tier] * args.scale))
        shards = s.shards or max(1, min(8, total // 25))
        for i in range(shards):
            jobs.append((s, i, max(1, total // shards)))
    # long ones first is unknown: interleave shards of all subs
    jobs.sort(key=lambda j: j[1])
    results, running, errors = [], {}, []
    queue = list(enumerate(jobs))
    out_dir = os.path.join(SCRATCH, 'results')
    os.makedirs(out_dir, exist_ok=True)
    deadline = t0 + WALL_LIMIT[tier] * .8
    regressions = [] if args.only else load_regressions(pid)
    if regressions:
        out = os.path.join(out_dir, 'regressions')
        running[_fork(lambda: run_regressions(pid, known, regressions), out)] = ('regressions', 0, out)
    while queue or running:
        while queue and len(running) < args.jobs:
            number, (s, shard, n) = queue.pop(0)
            out = os.path.join(out_dir, str(number))
            running[_fork(lambda: run_shard(s, shard, n, seed, pid, known, deadline), out)] = (s.name, shard, out)
        child, status = os.waitpid(-1, os.WNOHANG)
        if child == 0:
            if time.time() - t0 > WALL_LIMIT[tier]:
                for c, (name, shard, _) in running.items():
                    errors.append('%s/%d did not finish within the time limit (inconclusive)' % (name, shard))
                    os.kill(c, signal.SIGKILL)
                    os.waitpid(c, 0)
                queue, running = [], {}
                break
            time.sleep(.02)
            continue
        if child not in running:
            continue
        name, shard, out = running.pop(child)
        if status != 0 or not os.path.exists(out):
            errors.append('%s/%d ended with status %d' % (name, shard, status))
        else:
            res = json.load(open(out))
            if res['error']:
                errors.append('%s/%d: %s' % (name, shard, res['error']))
            results.append(res)
            if FAST and res['failure']:
                for c in running:
                    os.kill(c, signal.SIGKILL)
                    os.waitpid(c, 0)
                queue, running = [], {}

    # merge
    evaluations = sum(r['evaluations'] for r in results)
    distinct = set()
    per_sub = {}
    samples = []
    for r in sorted(results, key=lambda r: (r['sub'], r['shard'])):
        distinct.update(r['sub'] + '\0' + h for h in r['nontrivial'])
        p = per_sub.setdefault(r['sub'], dict(evaluations=0, skipped_by_time_limit=0, distinct_nontrivial=0,
                                              labels=collections.Counter()))
        p['evaluations'] += r['evaluations']
        p['skipped_by_time_limit'] += r['skipped']
        p['labels'].update(r['labels'])
        if r['samples'] and not any(s['sub'] == r['sub'] for s in samples):
            samples.append(dict(sub=r['sub'], case=r['samples'][-1]))
    for name, p in per_sub.items():
        p['distinct_nontrivial'] = len({h for h in distinct if h.startswith(name + '\0')})
        p['labels'] = dict(sorted(p['labels'].items()))
    failures = {}
    for r in results:
        if r['failure']:
            name = r['failure'].get('sub', r['sub'])
            if name not in failures or len(canonical(r['failure']['case'])) < len(canonical(failures[name]['case'])):
                failures[name] = r['failure']

    evidence = dict(property=pid, tier=tier, seed=int(seed) if seed.lstrip('-').isdigit() else 0, level='exploration',
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct),
                                  rule=' || '.join('%s: %s' % (s.name, s.rule) for s in subs),
                                  samples=samples or ['none'], per_sub=per_sub, regression_inputs=len(regressions)),
                    assumptions=META['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=_plain)

    for tag, text in known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    for name, p in sorted(per_sub.items()):
        print('%s %-28s %6d cases %6d distinct non-trivial  %s' % (
            pid, name, p['evaluations'], p['distinct_nontrivial'],
            json.dumps(p['labels']) if os.environ.get('VF_LABELS') else ''))
    print('%s %s seed=%s: %d cases, %.1f s' % (pid, tier, seed, evaluations, time.time() - t0))
    for name, failure in sorted(failures.items()):
        path = write_replay(pid, failure, name)
        print('--- %s/%s%s\n%s\ncase: %s\n%s' % (pid, name, '' if failure['reproduced'] else ' (not reproduced by a second run)',
                                             failure['message'], canonical(failure['case'])[:3000], failure['trace'][-2500:]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()
    if failures:
        return 1
    if errors:
        print('ERROR of the check:\n' + '\n'.join(errors))
        return 2
    return 0
