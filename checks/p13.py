"""P13: the history reproduces what was measured and when."""
import itertools
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.history import History, read_files
from qtune.storage import from_hdf5, to_hdf5
from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['names contain no # (separator of the columns); gates, parameters and evaluators have distinct names',
                        'the first row of a history also holds what the levels knew before their first evaluation']

HOSTILE_GATES = ['A', 'AB', 'B', 'A.B', 'x+', '(T)', 'T*', 'g 1', 'a[0]', '^N', 'N$', 'd|T']
HOSTILE_PARAMS = ['t', 'tt', 't.', 'x|t', '\\d', 'pos', 'pos 2', '(pos)', 'time_load', 'x{y}', 'load']


class NoisyExperiment(models.ModelExperiment):
    """Repeated measurements give different values."""
    noise = 0.

    def measure(self, measurement):
        n = len(self.log)
        raw = super().measure(measurement)
        raw = raw + self.noise * math.sin(1.7 * n) * self.unit(measurement.options['parameter'])
        self.log[-1] = self.log[-1][:2] + (float(raw[0]),)
        return raw


@st.composite
def history_case(draw):
    spec = draw(models.system(failing=True, resolution=True, gate_pool=HOSTILE_GATES, param_pool=HOSTILE_PARAMS))
    offset = draw(st.sampled_from([0., 0., 0., 4096., -65536.]))        # small steps of large voltages
    if offset:
        spec['origin'] = offset
        spec['v0'] = [v + offset for v in spec['v0']]
    introduced = []
    if draw(st.integers(0, 3)) == 0:
        # evaluated from the beginning, but without set point
        rows = [row for level in spec['levels'] if level['kind'] == 'newton' and len(level['rows']) > 1 for row in level['rows']
                if row['desired'] is not None and spec['estimators'][row['name']]['type'] == 'kalman']
        if rows:
            row = draw(st.sampled_from(rows))
            row['off'] = row['desired'], row['tol']
            row['desired'] = row['tol'] = None
            introduced = [(draw(st.integers(1, 8)), 'set points', [0.])]
    events = draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(['restart', 'move', 'targets', 'move+', 'restart+', 'set points', 'set points+', 'set points']),
                                     gen.lists(gen.dec(-.3, .3), len(spec['gates']))), max_size=2))
    return dict(spec=spec, events=events + introduced, limit=draw(st.sampled_from([6, 12, 25])), noise=draw(st.sampled_from([0., 0., 1e-3])),
                save=draw(st.integers(0, 2)) == 0, shuffle=draw(gen.permutation(25)), append_every=draw(st.booleans()))


class Row:
    def __init__(self, voltages):
        self.voltages = voltages
        self.values, self.variances, self.gradients, self.covariances, self.raw = {}, {}, {}, {}, {}
        self.maybe = {}
        self.measured = {}
        self.paths = []


def level_parameters(spec, level):
    """Names whose values a level evaluates for itself and whose gradients it has."""
    if level['kind'] == 'sensing':
        return sorted(set(level['cheap']) | set(level['expensive'])), []
    return [r['name'] for r in level['rows'] if r['desired'] is not None], \
        [r['name'] for r in level['rows']] if level['kind'] == 'newton' else []


def estimates(tuner):
    result = {}
    if hasattr(tuner.solver, 'gradient_estimators'):
        for name, est in zip(tuner.target.index, tuner.solver.gradient_estimators):
            result[name] = est.estimate(), est.covariance(), list(est.current_position.index)
    return result


class Model:
    """What the history should contain, from the log of the experiment."""
    def __init__(self, spec, exp, autotuner):
        self.spec, self.exp, self.autotuner = spec, exp, autotuner
        self.rows = []
        self.initial = [estimates(t) for t in autotuner.tuning_hierarchy]
        self.evaluators = {}
        self.changed = set()        # parameters whose set points were removed or introduced
        for tuner in autotuner.tuning_hierarchy:
            for e in tuner.evaluators:
                self.evaluators[e.name] = list(e.parameters)

    def factor(self, name):
        return self.spec.get('units', {}).get(name, 1.)

    def row(self, voltages):
        if not self.rows or self.rows[-1].voltages != voltages:
            self.rows.append(Row(voltages))
            return self.rows[-1], True
        return self.rows[-1], False

    def begin_row(self):
        row, new = self.row(self.exp.voltages.to_dict())
        if new and len(self.rows) == 1:
            for known in self.initial:
                for name, (gradient, covariance, gates) in known.items():
                    self.maybe_gradient(row, name, gradient, covariance)
        return row

    def iteration(self, log, before, queue):
        """before: index of the level when the iteration started; queue: an evaluation was skipped"""
        measured = [e for e in log if e[0] == 'measure']
        if not measured and not queue:
            return
        row = self.begin_row()
        for _, name, value in measured:
            factor = self.factor(name)
            row.values[name] = value / factor
            row.measured.setdefault(name, []).append(value / factor)
            row.variances[name] = self.spec.get('variances', {}).get(name, 1e-6) * self.exp.unit(name) ** 2 / factor ** 2
            row.raw[name] = value
        for name, (gradient, covariance, gates) in estimates(self.autotuner.tuning_hierarchy[before]).items():
            if measured:
                row.gradients[name] = gradient
                row.covariances[name] = covariance
            else:
                self.maybe_gradient(row, name, gradient, covariance)

    def maybe_gradient(self, row, name, gradient, covariance):
        row.maybe[name] = gradient, covariance


def close(a, b):
    return (a != a and b != b) or a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-300


def check_history(history, model, spec, path_check=True):
    rows = model.rows
    gates = sorted(spec['gates'])
    require(history.number_of_stored_iterations == len(rows), 'the number of rows differs from the number of voltage configurations',
            history.number_of_stored_iterations, len(rows), [history.get_gate_values(g).tolist() for g in gates],
            [r.voltages for r in rows])
    require(set(history.gate_names) == set(gates), 'gate names', history.gate_names)
    for g in gates:
        found = history.get_gate_values(g).tolist()
        require(found == [r.voltages[g] for r in rows], 'voltages of ' + g, found, [r.voltages[g] for r in rows])
    parameters, gradients = set(), {}
    for level, tuner in zip(spec['levels'], model.autotuner.tuning_hierarchy):
        own, controlled = level_parameters(spec, level)
        parameters |= set(own)
        for name, est in zip(tuner.target.index, getattr(tuner.solver, 'gradient_estimators', ())):
            gradients[name] = list(est.current_position.index)
    require(set(history.parameter_names) - model.changed == parameters - model.changed, 'parameter names', history.parameter_names,
            parameters)
    # only parameters with set points are recorded: those that had them not all the time may be missing
    parameters = {p for p in parameters | model.changed if p in history.parameter_names}
    require(set(history.gradient_controlled_parameter_names) == set(gradients), 'names of parameters with gradients',
            history.gradient_controlled_parameter_names, gradients)
    for name in sorted(parameters):
        values, std = history.get_parameter_values(name), history.get_parameter_std(name)
        require(isinstance(values, pd.Series) and isinstance(std, pd.Series), 'not a single column', values)
        for i, row in enumerate(rows):
            expected = row.values.get(name, math.nan)
            if name in model.changed and (values.iloc[i] != values.iloc[i] or
                                          any(close(values.iloc[i], v) for v in row.measured.get(name, ()))):
                continue
            require(close(values.iloc[i], expected), 'value of %s in row %d' % (name, i), values.iloc[i], expected)
            expected = math.sqrt(row.variances.get(name, math.nan))
            require(close(std.iloc[i], expected), 'standard deviation of %s in row %d' % (name, i), std.iloc[i], expected)
    for name, own_gates in gradients.items():
        require(set(history.gradient_controlled_parameter_names[name]) == set(own_gates), 'gates of the gradient of ' + name)
        frame = history.get_gradients(name)
        cov = history.get_gradient_covariances(name)
        var = history.get_gradient_variances(name)
        require(sorted(frame.columns) == sorted(own_gates), 'columns of the gradient of ' + name, list(frame.columns), own_gates)
        require(sorted(var.columns) == sorted(own_gates), 'columns of the variances of ' + name, list(var.columns), own_gates)
        require(sorted(cov.columns) == sorted(itertools.product(own_gates, own_gates)), 'columns of the covariance of ' + name,
                list(cov.columns))
        for i, row in enumerate(rows):
            options = [(row.gradients[name], row.covariances[name])] if name in row.gradients else \
                [(None, None)] + ([row.maybe[name]] if name in row.maybe else [])
            errors = [gradient_difference(frame.iloc[i], cov.iloc[i], var.iloc[i], own_gates, *o) for o in options]
            require(None in errors, 'gradient of %s in row %d' % (name, i), errors)
    # raw data
    for name, pars in model.evaluators.items():
        if name in history.evaluator_names:
            column = history.get_evaluator_data([name])[name]
            require(len(column) == len(rows), 'rows of the evaluator data', len(column), len(rows))
        for i, row in enumerate(rows):
            cell = column.iloc[i] if name in history.evaluator_names else None
            if isinstance(cell, dict) and any(r is None for r in cell['raw_y_data']):
                cell = None                # initial state
            if any(p in row.raw for p in pars) and all(p in row.values for p in pars):
                if not all(model.measured_by.get((i, p)) == name for p in pars):
                    continue               # measured by another evaluator of the same parameters
                require(isinstance(cell, dict), 'raw data of %s are missing in row %d' % (name, i), cell)
                raw = [float(r[0]) for r in cell['raw_y_data']]
                require(len(raw) == len(pars) and all(close(r, row.raw[p]) for r, p in zip(raw, pars)), 'raw data of %s in row %d' % (name, i), raw, [row.raw[p] for p in pars])
            else:
                require(not isinstance(cell, dict), 'raw data of %s in row %d were not measured there' % (name, i), cell)


def gradient_difference(gradient, covariance, variance, gates, expected, expected_cov):
    for a in gates:
        want = math.nan if expected is None else expected[a]
        if not close(gradient[a], want):
            return 'gradient %s: %r instead of %r' % (a, gradient[a], want)
        for b in gates:
            want = math.nan if expected_cov is None else expected_cov.loc[a, b]
            if not close(covariance[a, b], want) and (expected_cov is None or not close(covariance[a, b], expected_cov.loc[b, a])):
                # (symmetric up to rounding errors)
                return 'covariance %s %s: %r instead of %r' % (a, b, covariance[a, b], want)
        want = math.nan if expected_cov is None else expected_cov.loc[a, a]
        if not close(variance[a], want):
            return 'variance %s: %r instead of %r' % (a, variance[a], want)


@sub('history', history_case(), quick=240, thorough=8000, rule='at least three rows')
def check_case(case, ctx):
    spec = case['spec']
    ctx.label(*models.describe(spec))
    exp = NoisyExperiment(spec)
    exp.noise = case['noise']
    directory = os.path.join(ctx.tmp(), 'store')
    exp, autotuner = models.build(spec, storage=directory if case['save'] else None, experiment=exp)
    history = History(None, exp)
    model = Model(spec, exp, autotuner)
    model.measured_by = {}
    events = {n: (kind, shift) for n, kind, shift in case['events']}
    try:
        iterations(case, ctx, spec, exp, autotuner, history, model, events)
    finally:
        if case['save']:
            autotuner.asynchrone_writer.join()
    ctx.nontrivial(len(model.rows) > 2)
    if not model.rows:
        return
    check_history(history, model, spec)
    if case['save']:
        ctx.label('loaded')
        # the order of the tuning is that of the names, whatever happened to the files since
        for i, path in enumerate(sorted(os.listdir(directory))):
            when = 1e9 + case['shuffle'][i % 25]
            os.utime(os.path.join(directory, path), (when, when))
        loaded = History(directory, exp)
        check_history(loaded, model, spec)
        for h in (history, loaded):
            for i, row in enumerate(model.rows):
                path = h.get_reload_path(i)
                require(path in row.paths, 'row %d refers to another state' % i, path, row.paths)
                state = from_hdf5(path, {'experiment': exp})['autotuner']
                require(state.tuning_hierarchy[0].last_voltages.to_dict() == row.voltages, 'the saved state has other voltages')
        single = History(model.rows[-1].paths[-1], exp)
        require(single.number_of_stored_iterations == 1 and
                {g: single.get_gate_values(g).iloc[0] for g in spec['gates']} == model.rows[-1].voltages,
                'the history of a single file has other voltages')


def set_points(rows, spec, autotuner, model, n, ctx):
    """Removes a set point or introduces one."""
    options = []
    for k, (tuner, level, level_rows) in enumerate(zip(autotuner.tuning_hierarchy, spec['levels'], rows)):
        if level['kind'] == 'newton':
            # without its gradient, a parameter cannot be kept
            options += [(k, row) for row, estimator in zip(level_rows, tuner.solver.gradient_estimators)
                        if row['name'] in level['evaluated'] and (row.get('desired') is None or estimator.estimate() is not None)]
    options = [(k, row) for k, row in options if row.get('off')] or options
    if options:
        k, row = options[n % len(options)]
        if row.get('desired') is None:
            row['desired'], row['tol'] = row.pop('off', (.25, .05))
            ctx.label('set point introduced')
        else:
            row['off'] = row['desired'], row['tol']
            row['desired'] = row['tol'] = None
            ctx.label('set point removed')
        model.changed.add(row['name'])
        autotuner.change_targets([{}] * k + [{column: pd.Series({row['name']: math.nan if row[key] is None else row[key]})
                                              for column, key in (('desired', 'desired'), ('tolerance', 'tol'))}])


def iterations(case, ctx, spec, exp, autotuner, history, model, events):
    rows = [[dict(r) for r in level['rows']] for level in spec['levels']]
    for n in range(case['limit']):
        if n in events:
            kind, shift = events[n]
            if kind.startswith('set points'):
                set_points(rows, spec, autotuner, model, n, ctx)
                if kind.endswith('+'):
                    autotuner.restart()
                if shift[0] > 0:
                    events.setdefault(n + 1 + int(10 * shift[0]), (kind, [0.]))
            elif kind == 'targets':
                autotuner.change_targets([{'desired': pd.Series({r['name']: r['desired'] - .125 for r in level_rows
                                                                 if r.get('desired') is not None}, dtype=float)}
                                          for level_rows in rows])
            else:
                if kind.startswith('move'):
                    exp.voltages += pd.Series(shift, index=spec['gates'])
                autotuner.restart()
                if kind.endswith('+') and not case['save']:
                    # recorded before anything is evaluated
                    ctx.label('early')
                    history.append_autotuner(autotuner)
                    model.begin_row()
        if autotuner.is_tuning_complete():
            break
        before, status, pending = autotuner.current_tuner_index, autotuner.current_tuner_status, autotuner.voltages_to_set is not None
        start = len(exp.log)
        try:
            autotuner.iterate()
        except EvaluationError:
            ctx.label('evaluation error')
            break
        except IndexError:
            # no voltages to go back to: the level has never been evaluated completely
            last = [e[1] for e in exp.log if e[0] == 'measure' and e[2] != e[2]]
            require(last and not any(e[0] == 'measure' and e[1] == last[-1] and e[2] == e[2] for e in exp.log), 'IndexError', last)
            ctx.label('no way back')
            break
        log = exp.log[start:]
        measured = any(e[0] == 'measure' for e in log)
        queue = not pending and not status and not measured
        if queue:
            ctx.label('skipped evaluation')
        model.iteration(log, before, queue)
        tuner = autotuner.tuning_hierarchy[before] if measured else None
        for p in [e[1] for e in log if e[0] == 'measure']:
            for e in tuner.evaluators:
                if p in e.parameters:
                    model.measured_by[len(model.rows) - 1, p] = e.name        # expensive evaluators come last
                    if spec['levels'][before]['kind'] == 'sensing':
                        # the same parameter may be measured by both
                        names = [e[1] for e in log if e[0] == 'measure']
                        if names.count(p) < 2 and sum(p in e.parameters for e in tuner.evaluators) > 1:
                            model.measured_by[len(model.rows) - 1, p] = next(e.name for e in tuner.evaluators if p in e.parameters)
        history.append_autotuner(autotuner)
        if model.rows:
            model.rows[-1].paths.append(autotuner.last_save_file)
        if case['append_every']:
            check_history(history, model, spec)
