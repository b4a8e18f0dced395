"""P19: targets and scaling: units cancel and changes apply exactly."""
import copy
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.solver import ForwardingSolver, make_target
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['scaling factors of the compared runs are powers of two: the arithmetic is exact, runs must be identical',
                        'targets are changed between two iterations and keep parameters without a target without one']

CATEGORIES = ['desired', 'maximum', 'minimum', 'tolerance', 'cost_threshold', 'rescaling_factor']


@st.composite
def target_case(draw):
    names = list(draw(st.permutations(gen.PARAMS))[:draw(st.integers(1, 5))])
    rest = [p for p in gen.PARAMS if p not in names]
    entries = {}
    series = draw(st.lists(st.sampled_from(CATEGORIES[:4]), min_size=1, max_size=3, unique=True))
    first = next(c for c in CATEGORIES[:4] if c in series)
    for c in CATEGORIES:
        kind = 'series' if c in series else draw(st.sampled_from(['none', 'none', 'scalar', 'series']
                                                                 if c in CATEGORIES[4:] else ['none', 'scalar']))
        positive = c in ('rescaling_factor', 'tolerance')
        value = gen.dec(.1, 5) if positive else gen.dec(-5, 5)
        if c in ('desired', 'maximum', 'minimum', 'tolerance'):
            value = st.one_of(value, value, st.none())
        if kind == 'scalar':
            entries[c] = draw(st.one_of(gen.dec(.1, 5), st.integers(1, 4)))
        elif kind == 'series':
            # the first labelled argument determines the parameters, the others may know more
            extra = [] if c == first else draw(st.lists(st.sampled_from(rest), max_size=2, unique=True)) if rest else []
            labels = draw(st.permutations(names + extra))
            entries[c] = [[n, draw(value)] for n in labels]
    return dict(entries=entries, first=first)


def to_argument(entry):
    if isinstance(entry, list):
        return pd.Series([math.nan if v is None else v for _, v in entry], index=[n for n, _ in entry], dtype=float)
    return entry


@sub('make_target', target_case(), quick=1500, rule='labelled values in different orders and several parameters')
def build_target(case, ctx):
    entries = case['entries']
    arguments = {c: to_argument(e) for c, e in entries.items()}
    before = copy.deepcopy(arguments)
    target = make_target(**arguments)
    names = [n for n, _ in entries[case['first']]]
    require(sorted(target.index) == sorted(names), 'parameters of the target', list(target.index), names)
    require(set(target.columns) >= set(CATEGORIES), 'categories', list(target.columns))
    for n in names:
        for c in CATEGORIES:
            entry = entries.get(c)
            if entry is None:
                expected = 1. if c == 'rescaling_factor' else math.nan
            elif isinstance(entry, list):
                expected = dict(map(tuple, entry))[n]
                expected = math.nan if expected is None else expected
            else:
                expected = entry
            got = float(target.loc[n, c])
            require(got == expected or got != got and expected != expected, 'entry %s of %s' % (c, n), got, expected)
    for c, a in arguments.items():
        require(not isinstance(a, pd.Series) or a.equals(before[c]), 'the argument %s is changed' % c)
    orders = {tuple(n for n, _ in e) for e in entries.values() if isinstance(e, list)}
    ctx.nontrivial(len(orders) > 1 and len(names) > 1)
    ctx.label('%d parameters' % len(names), '%d different orders' % len(orders))


@st.composite
def scaling_case(draw):
    names = list(draw(st.permutations(gen.PARAMS))[:draw(st.integers(1, 6))])
    in_target = names[:draw(st.integers(1, len(names)))]
    factor = st.one_of(st.sampled_from([1., .25, 8., 1024., 2. ** -10]), gen.dec(.1, 20), gen.dec(.1, 9).map(lambda x: x * 1e-9))
    return dict(target=[[n, draw(factor)] for n in draw(st.permutations(in_target))],
                values=[[n, draw(st.one_of(gen.dec(-5, 5), st.none())), draw(gen.dec(0, 5))]
                        for n in draw(st.permutations(names))[:draw(st.integers(1, len(names)))]])


@sub('scaling', scaling_case(), quick=800, rule='a factor other than one for an evaluated parameter')
def scaling(case, ctx):
    factors = dict(map(tuple, case['target']))
    names = list(factors)
    target = make_target(desired=pd.Series(0., index=names), rescaling_factor=pd.Series(factors))
    mapping = pd.Series({names[0]: 'A'}, dtype=object)
    solver = ForwardingSolver(target=target, values_to_position=mapping, current_position=pd.Series(0., index=['A']))
    labels = [n for n, _, _ in case['values']]
    values = pd.Series([math.nan if v is None else v for _, v, _ in case['values']], index=labels, dtype=float)
    variances = pd.Series([v for _, _, v in case['values']], index=labels, dtype=float)
    v, w = values.copy(), variances.copy()
    solver.rescale_values(v, w)
    require(list(v.index) == labels and list(w.index) == labels, 'labels', list(v.index), labels)
    for n in labels:
        f = factors.get(n, 1.)
        ctx.nontrivial(f != 1.)
        require(np.isclose(v[n], values[n] / f, rtol=1e-12, atol=0, equal_nan=True), 'rescaled value of ' + n, v[n], values[n], f)
        require(np.isclose(w[n], variances[n] / f ** 2, rtol=1e-12, atol=0), 'rescaled variance of ' + n, w[n], variances[n], f)
    solver.descale_values(v, w)
    require(np.allclose(v, values, rtol=1e-12, atol=0, equal_nan=True), 'values after descaling', v.tolist(), values.tolist())
    require(np.allclose(w, variances, rtol=1e-12, atol=0), 'variances after descaling', w.tolist(), variances.tolist())
    ctx.label('not in the target' if set(labels) - set(names) else 'all in the target')


# ------------------------------------------------------------------------------------------------------ whole runs

def strip(log):
    """Measured values are recorded in scaled units."""
    return [[x if not isinstance(x, float) or x == x else 'nan' for x in entry] for entry in log]


@st.composite
def unit_case(draw):
    kinds = ('fd', 'fds', 'kalman', 'selfinit', 'nm', 'held', 'sensing')
    spec = draw(models.system(kinds=kinds, failing=draw(st.booleans()), resolution=True, noise_var=True))
    if not any(u != 1. for u in spec['units'].values()):
        spec['units'][draw(st.sampled_from(sorted(spec['units'])))] = draw(st.sampled_from([.25, 8., 1024., 2. ** -10]))
    return dict(spec=spec, iterations=draw(st.sampled_from([8, 20, 40])))


@sub('units', unit_case(), quick=160, rule='another unit and at least three changes of the voltages')
def units(case, ctx):
    """The same system in other units: the same voltages and measurements."""
    spec = case['spec']
    plain = copy.deepcopy(spec)
    plain['units'] = {n: 1. for n in spec['units']}
    logs = []
    for s in (spec, plain):
        exp, tuner = models.build(s)
        error = None
        try:
            n = models.run(tuner, case['iterations'])
        except Exception as e:
            n, error = None, type(e).__name__
        ranks = [t.last_parameters_and_variances for t in tuner.tuning_hierarchy]
        logs.append((strip(exp.log), n, error, [{k: (v[k], w[k]) for k in sorted(v.index)} for v, w in ranks],
                     exp.voltages.to_dict()))
    a, b = logs
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        require(x == y, 'action %d of the tuning depends on the unit' % i, x, y, spec['units'])
    require(len(a[0]) == len(b[0]) and a[1:3] == b[1:3], 'length of the tuning', a[1:3], b[1:3], len(a[0]), len(b[0]))
    require(a[4] == b[4], 'final voltages', a[4], b[4])
    if not spec.get('dot'):
        require(repr(a[3]) == repr(b[3]), 'rescaled parameters and variances of the tuners', a[3], b[3])
    ctx.label(*models.describe(spec))
    ctx.nontrivial(sum(x[0] == 'set' for x in a[0]) >= 3)
    if a[2]:
        ctx.label('ended by ' + a[2])


@st.composite
def change_case(draw):
    exact = draw(st.booleans())
    if exact:
        spec = draw(models.system(kinds=('kalman', 'kalman', 'held'), exact=True, nonlinear=False, limits=False))
    else:
        spec = draw(models.system(kinds=('fd', 'fds', 'kalman', 'selfinit', 'held', 'sensing')))
    changes = []
    for _ in range(draw(st.integers(1, 3))):
        n_levels = draw(st.integers(1, len(spec['levels'])))
        change = []
        for level in spec['levels'][:n_levels]:
            out = {}
            if level['kind'] == 'sensing':
                if draw(st.booleans()):
                    threshold = next(r['threshold'] for r in level['rows'] if 'threshold' in r)
                    out['minimum'] = {'current_signal': draw(gen.dec(.4, threshold))}
            else:
                names = [r['name'] for r in level['rows'] if r['desired'] is not None]
                for category, values in (('desired', gen.dec(-3, 3)), ('tolerance', st.sampled_from([.01, .02, .05]))):
                    if draw(st.booleans()):
                        chosen = draw(st.permutations(names))[:draw(st.integers(1, len(names)))]
                        out[category] = {n: draw(values) for n in chosen}
            change.append(out)
        changes.append(dict(after=draw(st.one_of(st.integers(0, 12), st.integers(4, 30))), change=change))
    return dict(spec=spec, exact=exact, changes=changes)


@sub('changes', change_case(), quick=240, rule='a set point is changed after at least one change of the voltages')
def changes(case, ctx):
    spec = copy.deepcopy(case['spec'])
    exp, tuner = models.build(spec)
    ctx.label(*models.describe(spec))
    for number, item in enumerate(case['changes']):
        models.run(tuner, item['after'])
        pending = tuner.voltages_to_set is not None
        old = [t.target.copy() for t in tuner.tuning_hierarchy]
        tuner.change_targets([{c: pd.Series(e, dtype=float) for c, e in level.items()} for level in item['change']])
        for k, t in enumerate(tuner.tuning_hierarchy):
            change = item['change'][k] if k < len(item['change']) else {}
            expected = old[k].copy()
            for c, e in change.items():
                for n, v in e.items():
                    expected.loc[n, c] = v
                    if c == 'desired' or c == 'tolerance':
                        next(r for r in spec['levels'][k]['rows'] if r['name'] == n)['desired' if c == 'desired' else 'tol'] = v
                        ctx.nontrivial(c == 'desired' and any(x[0] == 'set' for x in exp.log))
            require(list(t.target.index) == list(expected.index) and list(t.target.columns) == list(expected.columns) and
                    t.target.astype(float).equals(expected.astype(float)),
                    'target of level %d after a change of %s' % (k, change), t.target.to_dict(), expected.to_dict())
        if pending:
            ctx.label('with pending voltages')
        require(not tuner.is_tuning_complete(), 'the tuning is regarded as complete after a change')
        # it goes on at the bottom, without a step that was planned before
        start = len(exp.log)
        queued = any(t.to_hdf5().get('number_queued_steps', 0) for t in tuner.tuning_hierarchy)
        before = exp.voltages.copy()
        tuner.iterate()
        new = exp.log[start:]
        require(not any(x[0] == 'set' for x in new), 'voltages planned for the previous target are set', new)
        if not queued:
            bottom = spec['levels'][0]
            own = set(bottom['evaluated']) if bottom['kind'] != 'sensing' else set(bottom['cheap']) | set(bottom['expensive'])
            require(new and {x[1] for x in new} <= own, 'the bottom level is evaluated first', new, own)
        else:
            ctx.label('with queued steps')
        if case['exact']:
            # known gradients, linear: the next step leads to the new target of the lowest level which is not tuned
            for _ in range(10):
                if any(x[0] == 'set' for x in exp.log[start:]) or tuner.is_tuning_complete():
                    break
                tuner.iterate()
            positions = before.to_dict()
            wrong = [k for k, level in enumerate(spec['levels']) if any(
                r['desired'] is not None and abs(exp.value(r['name'], positions) - r['desired']) >= r['tol'] for r in level['rows'])]
            if not wrong:
                require(tuner.is_tuning_complete(), 'everything agrees with the target but the tuning goes on')
                ctx.label('nothing to do')
            else:
                require(not tuner.is_tuning_complete(), 'the tuning ends without reaching the targets')
                for r in spec['levels'][wrong[0]]['rows']:
                    if r['desired'] is not None:
                        require(abs(exp.value(r['name']) - r['desired']) < 1e-6, 'the step leads to the new target of ' + r['name'],
                                exp.value(r['name']), r['desired'])
                ctx.label('exact step')
    if case['exact']:
        return                 # strongly coupled levels
    n = models.run(tuner, 300)
    require(tuner.is_tuning_complete(), 'the tuning does not reach the new targets', n, exp.voltages.to_dict())
    for level in spec['levels']:
        if level['kind'] != 'sensing':
            for r in level['rows']:
                if r['desired'] is not None:
                    require(abs(exp.value(r['name']) - r['desired']) < r['tol'], 'final value of ' + r['name'],
                            exp.value(r['name']), r['desired'], r['tol'])
