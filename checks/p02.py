"""P02: a completed tuning is really tuned at the voltages of the experiment."""
import copy
import math

import pandas as pd
from hypothesis import strategies as st

from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['measurements are reproducible at equal voltages',
                        'the first evaluation of each level succeeds (there is something to recover to)']


@st.composite
def histories(draw):
    spec = draw(models.system(failing=True, resolution=True))
    events = []
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(['targets', 'targets', 'restart', 'nothing']))
        event = dict(kind=kind, at=draw(gen.maybe(st.integers(0, 40), 2, 1)))     # None: when completed
        if kind == 'restart':
            event['voltages'] = {g: draw(gen.dec(-1, 1)) for g in spec['gates'] if draw(st.booleans())}
        if kind == 'targets':
            changes = []
            for level in spec['levels'][:draw(st.integers(1, len(spec['levels'])))]:
                change = {}
                for row in level['rows']:
                    for key, column, strategy in (('desired', 'desired', gen.dec(-3, 3)),
                                                  ('tol', 'tolerance', st.sampled_from([.005, .02, .1])),
                                                  ('minimum', 'minimum', gen.dec(.3, .5))):
                        if row.get(key) is not None and draw(st.booleans()):
                            change.setdefault(column, {})[row['name']] = draw(strategy)
                changes.append(change)
            event['changes'] = changes
            event['off'] = draw(gen.maybe(st.integers(0, 9), 2, 1))       # a parameter which loses its set point
        events.append(event)
    return dict(spec=spec, events=events)


def check_completion(spec, rows, exp, autotuner, start):
    v = exp.voltages
    for tuner, level, level_rows in zip(autotuner.tuning_hierarchy, spec['levels'], rows):
        for row in level_rows:
            value = exp.value(row['name'], v)
            if row.get('desired') is not None:
                require(abs(value - row['desired']) < row['tol'] + 1e-9, 'completed, but a parameter is not within its tolerance',
                        row, value)
            if row.get('minimum') is not None:
                require(value > row['minimum'] - 1e-9, 'completed, but a signal is below its minimum', row, value)
        require(len(tuner.tuned_voltages) > 0, 'completed, but a level never was tuned')
        last = tuner.tuned_voltages[-1]
        require(sorted(last.index) == sorted(v.index) and all(last[g] == v[g] for g in v.index),
                'the voltages recorded as tuned are not those of the experiment', last.to_dict(), v.to_dict())
    # everything was measured after the last change, from bottom to top
    measured = [entry[1] for entry in exp.log[start:]]
    last_set = max([-1] + [i for i, e in enumerate(exp.log[start:]) if e[0] == 'set'])
    measured = [e[1] for e in exp.log[start:][last_set + 1:]]
    expected = [sorted(level['cheap'] if level['kind'] == 'sensing' else level['evaluated']) for level in spec['levels']]
    position = 0
    for names in expected:
        require(sorted(measured[position:position + len(names)]) == names,
                'completed, but not every level was evaluated at these voltages (bottom to top)', measured, expected)
        position += len(names)
    require(position == len(measured), 'more was measured than once per level after the last change of voltages', measured,
            expected)


def switched_off(event, spec, rows, autotuner, ctx):
    """One of the set points is removed: the parameter is only kept as it is."""
    if event.get('off') is None:
        return
    options = []
    for k, (tuner, level, level_rows) in enumerate(zip(autotuner.tuning_hierarchy, spec['levels'], rows)):
        if level['kind'] == 'newton':
            # without its gradient, it cannot be kept
            options += [(k, row) for row, estimator in zip(level_rows, tuner.solver.gradient_estimators)
                        if row.get('desired') is not None and row['name'] in level['evaluated'] and estimator.estimate() is not None]
    if not options:
        return
    k, row = options[event['off'] % len(options)]
    row['off'] = (row['desired'], row['tol'])
    row['desired'] = row['tol'] = None
    nan = pd.Series({row['name']: float('nan')})
    autotuner.change_targets([{}] * k + [dict(desired=nan, tolerance=nan)])
    if k < len(event['changes']):
        for entries in event['changes'][k].values():
            entries.pop(row['name'], None)
    ctx.label('set point removed')


def switched_on(change, level_rows, ctx):
    """Changing the set point or the tolerance of a parameter that has none introduces both."""
    for row in level_rows:
        if row.get('off') and any(row['name'] in change.get(c, {}) for c in ('desired', 'tolerance')):
            change.setdefault('desired', {}).setdefault(row['name'], row['off'][0])
            change.setdefault('tolerance', {}).setdefault(row['name'], row['off'][1])
            row['off'] = None
            ctx.label('set point reintroduced')


@sub('completion', histories(), quick=480, thorough=12000,
     rule='the tuning completed after voltages were set')
def check_histories(case, ctx):
    spec = case['spec']
    ctx.label(*models.describe(spec))
    exp, autotuner = models.build(spec)
    rows = [[dict(r) for r in level['rows']] for level in spec['levels']]
    start, completions = 0, 0
    events = copy.deepcopy(case['events'])
    for n in range(400):
        complete = autotuner.is_tuning_complete()
        if complete:
            check_completion(spec, rows, exp, autotuner, start)
            completions += 1
            ctx.nontrivial(any(e[0] == 'set' for e in exp.log[start:]))
        if events and (complete if events[0]['at'] is None else n >= events[0]['at']):
            event = events.pop(0)
            ctx.label(event['kind'] + (' when completed' if complete else ' while tuning'))
            if event['kind'] == 'targets':
                switched_off(event, spec, rows, autotuner, ctx)
                changes = []
                for change, level_rows in zip(event['changes'], rows):
                    switched_on(change, level_rows, ctx)
                    changes.append({c: pd.Series(entries, dtype=float) for c, entries in change.items()})
                    for column, entries in change.items():
                        for row in level_rows:
                            if row['name'] in entries:
                                row[{'tolerance': 'tol'}.get(column, column)] = entries[row['name']]
                autotuner.change_targets(changes)
                start = len(exp.log)
            elif event['kind'] == 'restart':
                for g, x in event['voltages'].items():
                    exp.voltages[g] = x
                if any(math.isnan(exp.value(p)) for p in spec['params']):
                    ctx.label('restart where nothing can be evaluated')
                    return
                autotuner.restart()
                start = len(exp.log)
            continue
        if complete:
            if not events:
                break
            events[0]['at'] = None          # nothing happens before that event any more
            continue
        try:
            autotuner.iterate()
        except EvaluationError:
            ctx.label('stopped by an evaluation error')
            break
    ctx.label('%d completions' % min(completions, 3))
    if any(p.get('fail') for p in spec['params'].values()):
        ctx.label('failing region')
    if autotuner.tuning_hierarchy and any(t.last_evaluation_failed for t in autotuner.tuning_hierarchy):
        ctx.label('last evaluation failed')
