"""P20: a restart continues from the manually configured voltages.

After a restart the tuning must proceed exactly like a new autotuner that is constructed at the manually configured
voltages from the gradients learned so far and the current targets.
"""
import copy
import os

import h5py
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.storage import from_hdf5, to_hdf5
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['recovery from failed evaluations after a restart is not compared: it refers to the last voltages that '
                        'could be evaluated', 'Nelder-Mead tunings are restarted in any of its states']


def learned(estimator, voltages):
    """A new estimator at these voltages with the gradient known to the given one."""
    if isinstance(estimator, SelfInitializingKalmanEstimator):
        data = estimator.to_hdf5()
        kalman = data['kalman_estimator']
        return SelfInitializingKalmanEstimator(
            finite_difference_estimator=learned(data['finite_difference_estimator'], voltages),
            kalman_estimator=None if kalman is None else learned(kalman, voltages),
            kalman_arguments=copy.deepcopy(data['kalman_arguments']),
            kalman_gradient_args=copy.deepcopy(data['kalman_gradient_args']))
    data = estimator.to_hdf5()
    gates = data['current_position'].index
    start = voltages[gates].copy()
    if isinstance(estimator, FiniteDifferencesGradientEstimator):
        return FiniteDifferencesGradientEstimator(
            current_position=start, epsilon=data['epsilon'].copy(), symmetric=data['symmetric'],
            current_estimate=copy.deepcopy(data['current_estimate']), covariance=copy.deepcopy(data['covariance']))
    assert isinstance(estimator, KalmanGradientEstimator)
    kalman = KalmanGradient(**copy.deepcopy(data['kalman_gradient'].to_hdf5()))
    return KalmanGradientEstimator(kalman, current_position=start, epsilon=copy.deepcopy(data['epsilon']),
                                   maximum_covariance=copy.deepcopy(data['maximum_covariance']))


def estimators_of(tuner):
    """By parameter."""
    result = {}
    for t in tuner.tuning_hierarchy:
        if hasattr(t.solver, 'gradient_estimators'):
            result.update(zip(t.solver.target.index, t.solver.gradient_estimators))
    return result


def gradients(tuner):
    result = {}
    for name, e in estimators_of(tuner).items():
        g = e.estimate()
        c = e.covariance()
        result[name] = None if g is None else (g.to_dict(), None if c is None else c.to_dict())
    return result


@st.composite
def restart_case(draw):
    kinds = draw(st.sampled_from([('fd', 'fds', 'kalman', 'selfinit', 'nm', 'held', 'sensing')] * 3 +
                                 [('fd', 'fds', 'selfinit'), ('nm',), ('kalman', 'held'), ('sensing', 'kalman', 'fd')]))
    spec = draw(models.system(kinds=kinds, max_levels=1 if kinds == ('nm',) else 3, failing=draw(st.integers(0, 3)) == 0,
                               resolution=draw(st.booleans())))
    restarts = []
    for _ in range(draw(st.integers(1, 3))):
        gates = draw(st.permutations(spec['gates']))[:draw(st.integers(0, len(spec['gates'])))]
        change = {}
        if draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(0, len(spec['levels']) - 1))
            names = [r['name'] for r in spec['levels'][k]['rows'] if r.get('desired') is not None]
            if names:
                change = dict(level=k, desired={n: draw(gen.dec(-3, 3)) for n in names[:draw(st.integers(1, len(names)))]})
        restarts.append(dict(after=draw(st.one_of(st.integers(0, 6), st.integers(1, 30))),
                             voltages={g: draw(gen.dec(-1, 1)) for g in gates},
                             jump={p: draw(gen.sdec(1, 3)) for p in spec['params'] if draw(st.integers(0, 3)) == 0},
                             change=change, off=draw(st.integers(0, 3)) == 0, off_choice=draw(st.integers(0, 3)),
                             on_after=draw(st.integers(0, 4)), reload=draw(st.integers(0, 3)) == 0, through_experiment=draw(st.booleans()),
                             follow=draw(st.sampled_from([3, 10, 25]))))
    return dict(spec=spec, restarts=restarts)


def advance(tuner, exp, steps):
    """The log of the experiment in blocks of iterations until the end, an evaluation that fails or an error."""
    blocks = []
    for _ in range(steps):
        if tuner.is_tuning_complete():
            blocks.append('complete')
            break
        start = len(exp.log)
        try:
            tuner.iterate()
        except Exception as error:
            blocks.append(type(error).__name__)
            break
        block = exp.log[start:]
        blocks.append(block)
        if any(x[0] == 'measure' and x[2] != x[2] for x in block):
            break
    return blocks


def set_point_off(spec, tuner, choice):
    """Removes the set point of one parameter."""
    known = gradients(tuner)
    options = [(k, row) for k, level in enumerate(spec['levels']) if level['kind'] == 'newton'
               for row in level['rows'] if row.get('desired') is not None and row['name'] in level['evaluated'] and
               known[row['name']] is not None]
    if not options:
        return None
    k, row = options[choice % len(options)]
    nan = pd.Series({row['name']: np.nan})
    tuner.change_targets([{}] * k + [dict(desired=nan, tolerance=nan)])
    result = (k, row['name'], row['desired'], row['tol'])
    row['desired'] = row['tol'] = None
    return result


def set_point_on(spec, tuner, off):
    k, name, desired, tol = off
    tuner.change_targets([{}] * k + [dict(desired=pd.Series({name: desired}), tolerance=pd.Series({name: tol}))])
    next(row for row in spec['levels'][k]['rows'] if row['name'] == name).update(desired=desired, tol=tol)


@sub('restart', restart_case(), quick=560,
     rule='restart after a change of voltages by the autotuner, at manually changed voltages, followed by a step')
def restart(case, ctx):
    spec = copy.deepcopy(case['spec'])
    resolution = spec.get('resolution')

    def rounded(v):
        # nobody can apply other voltages than the experiment
        return round(v * resolution) / resolution if resolution else v

    spec['v0'] = [rounded(v) for v in spec['v0']]
    exp, tuner = models.build(spec)
    exp.spec = spec
    ctx.label(*models.describe(spec))
    for number, r in enumerate(case['restarts']):
        before = len(exp.log)
        try:
            models.run(tuner, r['after'])
        except IndexError:
            return             # not even the first evaluation worked: nowhere to return to
        ctx.label('with pending voltages' if tuner.voltages_to_set is not None else 'without pending voltages')
        if any(t.to_hdf5().get('number_queued_steps', 0) for t in tuner.tuning_hierarchy):
            ctx.label('with queued steps')
        if any(t.last_evaluation_failed for t in tuner.tuning_hierarchy):
            ctx.label('after a failed evaluation')
        if any(g is None for g in gradients(tuner).values()) and len(exp.log) > before + 2:
            ctx.label('during the first estimation of a gradient')
        if r['change']:
            k = r['change']['level']
            for n, v in r['change']['desired'].items():
                next(row for row in spec['levels'][k]['rows'] if row['name'] == n)['desired'] = v
            tuner.change_targets([{}] * k + [dict(desired=pd.Series(r['change']['desired']))])
        off = None
        if r['off']:
            off = set_point_off(spec, tuner, r['off_choice'])
        if r['reload']:
            path = os.path.join(ctx.tmp(), 'state%d.hdf5' % number)
            to_hdf5(path, 'autotuner', tuner, reserved=dict(experiment=exp))
            with h5py.File(path, 'r') as f:
                tuner = from_hdf5(f, reserved=dict(experiment=exp))['autotuner']
            ctx.label('reloaded')
        # somebody changes the voltages and the sample changes, too
        if r['through_experiment']:
            exp.set_gate_voltages(pd.Series(r['voltages'], dtype=float))
        else:
            for g, v in r['voltages'].items():
                exp.voltages[g] = rounded(v)
        for p, v in r['jump'].items():
            spec['params'][p]['c'] += v
        manual = exp.voltages.copy()
        targets = [t.target.copy() for t in tuner.tuning_hierarchy]
        known = gradients(tuner)
        fresh_estimators = {n: learned(e, manual) for n, e in estimators_of(tuner).items()}
        fresh_exp, fresh = models.build(spec, voltages=manual.to_dict(), learned=fresh_estimators)
        fresh_exp.voltages = fresh_exp.voltages[exp.voltages.index]
        start = len(exp.log)
        tuner.restart()
        require(exp.log[start:] == [] and exp.voltages.equals(manual), 'the restart changes voltages', exp.log[start:])
        require(not tuner.is_tuning_complete() and tuner.voltages_to_set is None, 'state after the restart')
        for k, t in enumerate(tuner.tuning_hierarchy):
            require(t.target.equals(targets[k]), 'targets after the restart', t.target, targets[k])
        require(repr(gradients(tuner)) == repr(known), 'gradients after the restart', gradients(tuner), known)
        a, b = [], []
        if off:
            # a parameter had no set point during the restart and gets it back later
            a, b = advance(tuner, exp, r['on_after']), advance(fresh, fresh_exp, r['on_after'])
            for t in (tuner, fresh):
                set_point_on(spec, t, off)
            ctx.label('set point reintroduced')
        a += advance(tuner, exp, r['follow'])
        b += advance(fresh, fresh_exp, r['follow'])
        for i, (x, y) in enumerate(zip(a, b)):
            require(x == y or repr(x) == repr(y), 'iteration %d after the restart' % i, x, 'new autotuner: %s' % (y,),
                    'manual voltages', manual.to_dict())
        require(len(a) == len(b), 'number of iterations', len(a), len(b))
        moved = any(x[0] == 'set' for block in a if not isinstance(block, str) for x in block)
        ctx.nontrivial(r['voltages'] and moved and any(x[0] == 'set' for x in exp.log[:start]))
        if isinstance(a[-1], str) and a[-1] != 'complete':
            ctx.label('ended by ' + a[-1])
            return
        if a[-1] != 'complete' and any(x[0] == 'measure' and x[2] != x[2] for x in a[-1]):
            ctx.label('evaluation fails afterwards')
            return
        require(repr(gradients(tuner)) == repr(gradients(fresh)), 'gradients after the following iterations', gradients(tuner),
                gradients(fresh))
        # gates which are not used by the tuning keep their values
        used = {g for level in spec['levels'] for g in level['gates']}
        for g in exp.voltages.index:
            require(g in used or exp.voltages[g] == manual[g], 'voltage of the gate %s, which is not tuned' % g, exp.voltages[g], manual[g])
