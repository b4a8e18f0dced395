"""Closed-loop systems: a described experiment with known response, and a tuning hierarchy for it.

A system is a JSON document (strategy `system`); `build` creates the experiment and the autotuner from it using only
public constructors.
"""
import math
import threading
import time

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.autotuner import Autotuner
from qtune.evaluator import Evaluator
from qtune.experiment import Experiment, Measurement
from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver, make_target
from vf import gen


DELAY = 0.


class ModelExperiment(Experiment):
    """Known response, records everything that is set and measured."""
    def __init__(self, spec, voltages=None):
        self.spec = spec
        self.voltages = pd.Series(spec['v0'] if voltages is None else voltages, index=spec['gates'], dtype=float)
        self.log = []

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.voltages.index)

    def read_gate_voltages(self):
        return self.voltages.copy()

    def set_gate_voltages(self, new_gate_voltages):
        self.log.append(('set', {g: float(v) for g, v in new_gate_voltages.items()}))
        for g, v in new_gate_voltages.items():
            if g not in self.voltages.index:
                raise KeyError(g)
            res = self.spec.get('resolution')
            self.voltages[g] = round(v * res) / res if res else v
        return self.voltages.copy()

    def measure(self, measurement):
        name = measurement.options['parameter']
        value = self.value(name)
        self.log.append(('measure', name, value))
        return np.array([value * self.unit(name)])

    def unit(self, name):
        dot = self.spec.get('dot')
        if dot and name in dot['names'][2:]:
            return 1.           # detected positions are voltages, whatever their rescaling factor
        return self.spec.get('units', {}).get(name, 1.)

    def value(self, name, voltages=None):
        """In scaled units."""
        v = self.voltages if voltages is None else voltages
        if self.spec.get('origin'):
            v = v - self.spec['origin']
        dot = self.spec.get('dot')
        if dot and name in dot['names']:
            drift = sum(k * v[g] for g, k in dot['drift'].items())
            x = [c + drift for c in dot['x']]
            origin = self.spec.get('origin', 0.)
            a = [math.exp(-((v[g] - c) / w) ** 2) for g, c, w in zip(dot['gates'], x, dot['w'])]
            kind = dot['names'].index(name)
            return [a[0] * a[1], a[0], x[1] + origin, x[0] + origin][kind]
        par = self.spec['params'][name]
        fail = par.get('fail')
        if fail is not None and fail['sign'] * (v[fail['gate']] - fail['limit']) > 0:
            return float('nan')
        value = par['c'] + sum(k * v[g] for g, k in par['grad'].items())
        if par.get('amp'):
            value += par['amp'] * math.sin(sum(k * v[g] for g, k in par['w'].items()))
        return value


class ModelEvaluator(Evaluator):
    """Measures its parameters one by one."""
    def __init__(self, experiment, measurements, parameters, raw_x_data=(None,), raw_y_data=(None,), name='ModelEvaluator'):
        super().__init__(experiment=experiment, measurements=measurements, parameters=parameters, raw_x_data=raw_x_data,
                         raw_y_data=raw_y_data, name=name)

    def evaluate(self):
        raw = [self.experiment.measure(m) for m in self.measurements]
        self._raw_y_data = tuple(raw)
        values = pd.Series([float(r[0]) for r in raw], index=self.parameters)
        variances = pd.Series([m.options['variance'] for m in self.measurements], index=self.parameters)
        return values, variances

    def to_hdf5(self):
        if DELAY and threading.current_thread() is not threading.main_thread():
            time.sleep(DELAY)           # a writer that is late
        return dict(experiment=self.experiment, measurements=self.measurements, parameters=self.parameters,
                    raw_x_data=self._raw_x_data, raw_y_data=self._raw_y_data, name=self.name)


def make_evaluators(spec, exp, names, split, label):
    cut = min(split, len(names) - 1)
    result = []
    for i, group in enumerate(g for g in (names[:cut], names[cut:]) if g):
        measurements = [Measurement('measurement', parameter=n,
                                    variance=spec.get('variances', {}).get(n, 1e-6) * exp.unit(n) ** 2) for n in group]
        result.append(ModelEvaluator(exp, measurements, tuple(group), name='%s_%d' % (label, i)))
    return result


def make_estimator(e, position, value=None):
    """position: full series of voltages"""
    gates = e['gates']
    start = position[gates].copy()
    if e['type'] == 'kalman':
        n = len(gates)
        kwargs = {}
        if e.get('q'):
            kwargs['process_noise'] = np.eye(n) * e['q']
        kalman = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=list(e['x0']),
                                initial_covariance_matrix=np.eye(n) * e['p0'], alpha=e.get('alpha', 1), **kwargs)
        return KalmanGradientEstimator(kalman, current_position=start, epsilon=e['eps'],
                                       maximum_covariance=np.inf if e['max_cov'] is None else e['max_cov'])
    if e['type'] == 'fd':
        return FiniteDifferencesGradientEstimator(current_position=None if e.get('scratch') else start,
                                                  epsilon=pd.Series(e['eps'], index=gates), symmetric=e['symmetric'])
    if e['type'] == 'selfinit':
        return SelfInitializingKalmanEstimator.from_scratch(current_position=start, epsilon=pd.Series(e['eps'], index=gates),
                                                            maximum_covariance=e['max_cov'] or np.inf,
                                                            symmetric=e['symmetric'])
    raise ValueError(e['type'])


def make_level_target(spec, level):
    names = [r['name'] for r in level['rows']]
    nan = float('nan')

    def column(key):
        return pd.Series([nan if r.get(key) is None else r[key] for r in level['rows']], index=names)

    rescaling = pd.Series([spec.get('units', {}).get(n, 1.) for n in names], index=names)
    if level['kind'] == 'sensing':
        return make_target(desired=column('desired'), minimum=column('minimum').fillna(-np.inf),
                           cost_threshold=column('threshold').fillna(-np.inf), rescaling_factor=rescaling)
    return make_target(desired=column('desired'), tolerance=column('tol'), rescaling_factor=rescaling)


def build(spec, voltages=None, storage=None, experiment=None, learned=None):
    """learned: gradient estimators by parameter, which replace the ones of the specification."""
    exp = ModelExperiment(spec, voltages) if experiment is None else experiment
    position = exp.read_gate_voltages()
    estimators = dict(learned or {})
    tuners = []
    for number, level in enumerate(spec['levels']):
        target = make_level_target(spec, level)
        gates = level['gates']
        label = 'level_%d' % number
        last = position.copy() if level.get('last', True) else None
        if level['kind'] == 'sensing':
            dot = spec['dot']
            mapping = pd.Series({dot['names'][2]: dot['gates'][1], dot['names'][3]: dot['gates'][0]}, dtype=object)
            solver = ForwardingSolver(target=target, values_to_position=mapping, current_position=position[gates].copy())
            tuners.append(SensingDotTuner(make_evaluators(spec, exp, level['cheap'], level['split'], label + '_cheap'),
                                          make_evaluators(spec, exp, level['expensive'], 0, label + '_expensive'),
                                          gates=gates, solver=solver, last_voltage=last))
            continue
        names = [n for n in level['evaluated']]
        evaluators = make_evaluators(spec, exp, names, level['split'], label)
        if level['kind'] == 'newton':
            for row in level['rows']:
                if row['name'] not in estimators:
                    estimators[row['name']] = make_estimator(spec['estimators'][row['name']], position)
            solver = NewtonSolver(target=target, gradient_estimators=[estimators[r['name']] for r in level['rows']],
                                  current_position=position[gates].copy())
        elif level['kind'] == 'nm':
            values = pd.Series([exp.value(r['name']) for r in level['rows']], index=[r['name'] for r in level['rows']])
            solver = NelderMeadSolver.from_scratch(target=target, span=pd.Series(level['span'], index=gates),
                                                   current_position=position[gates].copy(), current_values=values)
        else:
            raise ValueError(level['kind'])
        tuners.append(SubsetTuner(evaluators, gates=gates, solver=solver, last_voltage=last,
                                  maximal_step_size=np.nan if level['max_size'] is None else level['max_size'],
                                  maximal_step_number=level['max_number']))
    kwargs = {}
    if storage is not None:
        kwargs = storage if isinstance(storage, dict) else dict(hdf5_storage_path=storage, append_time_to_path=False)
    return exp, Autotuner(exp, tuning_hierarchy=tuners, **kwargs)


# ------------------------------------------------------------------------------------------------------ strategies

@st.composite
def system(draw, kinds=('fd', 'fds', 'kalman', 'selfinit', 'nm', 'held', 'sensing'), max_levels=3, nonlinear=True,
           limits=True, units=True, failing=False, resolution=False, hostile=False, exact=False, noise_var=True,
           gate_pool=None, param_pool=None):
    """Well conditioned, weakly coupled systems."""
    n_levels = draw(st.integers(1, max_levels))
    level_kinds = []
    for k in range(n_levels):
        options = [x for x in kinds if not (x == 'sensing' and k) and not (x == 'nm' and k != n_levels - 1) and
                   not (x == 'held' and k == 0)]
        # the restricted ones more often
        options += [x for x in options if x == 'sensing'] + [x for x in options if x in ('held', 'nm')] * 2
        level_kinds.append(draw(st.sampled_from(options)))
    # a level that keeps the parameters of another one invariant needs that one to use Kalman filters on all gates
    held_from = None
    for k in range(n_levels):
        if level_kinds[k] == 'held':
            if level_kinds[k - 1] in ('sensing', 'nm'):
                level_kinds[k] = 'kalman'
            else:
                if level_kinds[k - 1] != 'held':
                    level_kinds[k - 1] = 'held'
                held_from = k
    gate_pool = gate_pool or gen.GATES
    param_pool = param_pool or gen.PARAMS
    gate_names = draw(st.permutations(gate_pool))
    param_names = draw(st.permutations(param_pool))
    gi, pi = 0, 0
    raw = []
    for kind in level_kinds:
        if kind == 'sensing':
            n_par, n_g = 0, 2
        elif kind == 'nm':
            n_par, n_g = draw(st.sampled_from([(1, 1), (1, 2), (2, 2)]))
        else:
            n_par = draw(st.integers(1, 2))
            n_g = n_par + draw(st.sampled_from([0, 0, 1]))
        raw.append(dict(kind=kind, gates=list(gate_names[gi:gi + n_g]), params=list(param_names[pi:pi + n_par])))
        gi += n_g
        pi += n_par
    extra = draw(st.integers(0, 1))
    all_gates = list(gate_names[:gi + extra])
    spec = dict(gates=[all_gates[i] for i in draw(gen.permutation(len(all_gates)))], params={}, estimators={}, levels=[],
                units={}, variances={})
    spec['v0'] = draw(gen.lists(gen.dec(-1, 1), len(all_gates)))
    scales = st.sampled_from([1., 1., .25, 8., 1024., 2. ** -10])
    coupling = .03 if not exact else .0
    true_grad = {}
    for level in raw:
        others = [g for g in all_gates if g not in level['gates']]
        for i, p in enumerate(level['params']):
            grad = {}
            diag = draw(gen.sdec(.7, 2))
            for j, g in enumerate(level['gates']):
                grad[g] = diag if j == i else draw(gen.dec(-.25, .25))
            for g in others:
                grad[g] = draw(gen.dec(-1, 1, 1)) * (coupling or .5)
            par = dict(c=draw(gen.dec(-1, 1)), grad=grad)
            if nonlinear and draw(st.integers(0, 2)) == 0:
                par['amp'] = draw(gen.dec(.01, .06))
                par['w'] = {g: draw(gen.dec(.5, 1)) for g in level['gates']}
            if units:
                spec['units'][p] = draw(scales)
            spec['variances'][p] = draw(st.sampled_from([1e-6, 1e-6, 1e-4])) if noise_var else 1e-6
            if failing and draw(st.integers(0, 3)) == 0:
                # the start can be evaluated
                g = draw(st.sampled_from(level['gates']))
                sign = draw(st.sampled_from([-1, 1]))
                par['fail'] = dict(gate=g, sign=sign, limit=sign * draw(gen.dec(1.05, 3)))
            spec['params'][p] = par
            true_grad[p] = grad
    held_block = [k for k in range(n_levels) if level_kinds[k] == 'held']
    held_gates = [g for k in held_block for g in raw[k]['gates']]
    held_params = [p for k in held_block for p in raw[k]['params']]
    for k, level in enumerate(raw):
        kind = level['kind']
        out = dict(kind=kind, split=draw(st.integers(0, 2)), last=draw(st.integers(0, 4)) > 0)
        if kind == 'sensing':
            names = ['current_signal', 'optimal_signal', 'position_' + level['gates'][1], 'position_' + level['gates'][0]]
            spec['dot'] = dict(gates=level['gates'], names=names, x=draw(gen.lists(gen.dec(-1, 1), 2)),
                               w=draw(gen.lists(gen.dec(.8, 2), 2)),
                               drift={g: draw(gen.dec(-.2, .2)) for g in all_gates if g not in level['gates']})
            minimum = draw(gen.dec(.5, .8))
            # the threshold is not below the minimum: otherwise neither evaluation can improve the signal
            rows = [dict(name=names[0], minimum=minimum), dict(name=names[1], threshold=draw(gen.dec(minimum, .85))),
                    dict(name=names[2]), dict(name=names[3])]
            if units:
                for n in names:
                    spec['units'][n] = draw(scales)
            out.update(gates=level['gates'], rows=[rows[i] for i in draw(gen.permutation(4))],
                       cheap=[names[i] for i in draw(gen.permutation(3))],
                       expensive=draw(st.sampled_from([[names[3], names[2]], names, [names[2], names[0], names[3]]])))
            spec['levels'].append(out)
            continue
        rows = [dict(name=p, desired=draw(gen.dec(-3, 3)), tol=draw(st.sampled_from([.01, .02, .05])) if kind != 'nm'
                     else draw(st.sampled_from([.05, .1]))) for p in level['params']]
        if kind == 'nm':
            out.update(gates=level['gates'], rows=rows, span=draw(gen.lists(gen.dec(.3, 1), len(level['gates']))),
                       evaluated=list(level['params']), max_size=None, max_number=1)
            if limits and draw(st.integers(0, 3)) == 0:
                out['max_size'] = 50.        # partial steps are not part of the Nelder-Mead method
            spec['levels'].append(out)
            continue
        gates = list(level['gates'])
        if kind == 'held':
            out['kind'] = 'newton'
            gates = list(held_gates)
            rows += [dict(name=p, desired=None, tol=None) for p in held_params if p not in level['params']]
        else:
            out['kind'] = 'newton'
        gates = [gates[i] for i in draw(gen.permutation(len(gates)))]
        rows = [rows[i] for i in draw(gen.permutation(len(rows)))]
        evaluated = [level['params'][i] for i in draw(gen.permutation(len(level['params'])))]
        out.update(gates=gates, rows=rows, evaluated=evaluated, max_size=None, max_number=1)
        if limits and draw(st.booleans()):
            out['max_size'] = draw(gen.dec(.3, 1.5))
            out['max_number'] = draw(st.integers(1, 4))
        spec['levels'].append(out)
        # estimators of one level receive each others measurements: all symmetric or none
        symmetric = kind == 'fds' or (kind == 'selfinit' and draw(st.booleans()))
        surplus = []
        if kind in ('kalman', 'held') and draw(st.integers(0, 3)) == 0:
            # the filters also know the gradients of gates which the level does not use
            surplus = [g for g in all_gates if g not in gates]
        for p in level['params']:
            known = gates + (surplus if surplus and draw(st.booleans()) else [])
            est_gates = [known[i] for i in draw(gen.permutation(len(known)))]
            e = dict(gates=est_gates)
            if kind in ('fd', 'fds', 'selfinit'):
                e.update(type='fd' if kind != 'selfinit' else 'selfinit',
                         symmetric=symmetric,
                         eps=draw(gen.lists(gen.dec(.05, .3), len(gates))), max_cov=draw(st.sampled_from([None, .5])))
            else:
                delta = st.just(0.) if exact else gen.dec(-.2, .2)
                e.update(type='kalman', eps=draw(gen.dec(.05, .3)), max_cov=draw(st.sampled_from([None, None, .5, .1])),
                         p0=draw(st.sampled_from([.01, .1, 1.])) if not exact else 1e-14,
                         x0=[true_grad[p][g] * (1 + draw(delta)) for g in est_gates],
                         alpha=draw(st.sampled_from([1, 1, 1.01])) if not exact else 1,
                         q=draw(st.sampled_from([None, None, 1e-4])) if not exact else None)
            spec['estimators'][p] = e
    if resolution:
        spec['resolution'] = draw(st.sampled_from([None, None, 1000, 4096]))
    return spec


def describe(spec):
    """Labels of a system for the evidence."""
    labels = ['levels %d' % len(spec['levels'])]
    for level in spec['levels']:
        if level['kind'] == 'newton':
            for row in level['rows']:
                e = spec['estimators'][row['name']]
                labels.append('estimator ' + e['type'] + (' symmetric' if e.get('symmetric') else ''))
                if row['desired'] is None:
                    labels.append('held parameter')
            if level['max_size']:
                labels.append('step limit')
        else:
            labels.append('tuner ' + level['kind'])
    return sorted(set(labels))


def run(autotuner, max_iterations, before=None, after=None):
    """Returns the number of iterations."""
    for n in range(max_iterations):
        if autotuner.is_tuning_complete():
            return n
        if before is not None:
            before(n)
        autotuner.iterate()
        if after is not None:
            after(n)
    return max_iterations
