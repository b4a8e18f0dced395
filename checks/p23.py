"""P23: the self checks of the autotuner are right, and looking at a tuning does not change it."""
import copy
import math
import os
import pickle

import h5py
import matplotlib.pyplot as plt
import pandas as pd
from hypothesis import strategies as st

from qtune.autotuner import Autotuner
from qtune.history import History
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver
from qtune.storage import from_hdf5, to_hdf5
from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['objects handed out by the package (series, data frames) are read, not modified']


# ------------------------------------------------------------------------------------------------------ coherence

@st.composite
def naming_case(draw):
    spec = draw(models.system(nonlinear=False))
    return dict(spec=spec, removed=draw(st.lists(st.integers(0, 9), max_size=2, unique=True)),
                added=draw(st.integers(0, 1)), last=draw(st.lists(st.lists(st.booleans(), min_size=10, max_size=10), min_size=3, max_size=3)),
                full=draw(st.integers(0, 2)) == 0, order=draw(gen.permutation(10)))


@sub('naming', naming_case(), quick=200, thorough=6000, rule='a gate is unknown to the experiment')
def check_naming(case, ctx):
    spec = case['spec']
    exp, autotuner = models.build(spec)
    gates = list(spec['gates'])
    used, tuners = set(), []
    for k, tuner in enumerate(autotuner.tuning_hierarchy):
        arguments = tuner.to_hdf5()
        last = [g for g, keep in zip(gates, case['last'][k]) if keep or case['full']]
        if not last:
            last = gates[:1]
        arguments['last_voltage'] = arguments['last_voltage'][last]
        level = spec['levels'][k]
        tuners.append(type(tuner)(**arguments))
        used |= set(last)
        used |= set(level['gates'])
        if level['kind'] == 'newton':
            for row in level['rows']:
                used |= set(spec['estimators'][row['name']]['gates'])
    autotuner = Autotuner(exp, tuning_hierarchy=tuners)
    require(autotuner.ready_to_tune() is True, 'a coherent tuning is not ready')
    removed = {gates[i % len(gates)] for i in case['removed']}
    voltages = exp.voltages.drop(list(removed))
    if case['added']:
        voltages['brand new'] = .5
    names = list(voltages.index)
    exp.voltages = voltages[[names[i] for i in sorted(range(len(names)), key=lambda i: case['order'][i % 10])]]
    expected = not removed & used
    found = autotuner.ready_to_tune()
    require(found == expected, 'verdict on gates', found, removed, used)
    ctx.nontrivial(bool(removed))
    ctx.label('removed %s' % ('used' if removed & used else 'unused' if removed else 'nothing'), 'added' if case['added'] else 'not added')


# ----------------------------------------------------------------------------------------------------- inspection

KINDS = ['ready_to_tune', 'all_estimators_ready', 'tuned_parameters', 'repr', 'estimates', 'require', 'values', 'history', 'file', 'plot',
         'pickle', 'copy', 'target']


def inspect(kind, exp, autotuner, history, directory, number):
    if kind == 'ready_to_tune':
        require(autotuner.ready_to_tune(), 'not ready to tune')
    elif kind == 'all_estimators_ready':
        autotuner.all_estimators_ready
    elif kind == 'tuned_parameters':
        autotuner.tuned_parameters, autotuner.is_tuning_complete(), autotuner.voltages_to_set, autotuner.current_tuner_status
    elif kind == 'repr':
        repr(autotuner), [repr(t) for t in autotuner.tuning_hierarchy], [repr(t.solver) for t in autotuner.tuning_hierarchy]
    elif kind == 'values':
        for t in autotuner.tuning_hierarchy:
            t.last_voltages, t.last_parameters_and_variances, t.tuned_voltages, t.parameters, t.solver.current_position
            [e.raw_data for e in t.evaluators]
    elif kind == 'target':
        for t in autotuner.tuning_hierarchy:
            repr(t.target), t.solver.target, t.to_hdf5(), t.solver.to_hdf5()
    elif kind in ('estimates', 'require'):
        for t in autotuner.tuning_hierarchy:
            if isinstance(t.solver, NewtonSolver):
                for e in t.solver.gradient_estimators:
                    if kind == 'require':
                        e.require_measurement(t.solver.current_position.index)
                    else:
                        e.estimate(), e.covariance(), e.current_position, e.to_hdf5()
    elif kind == 'history':
        history.append_autotuner(autotuner)
    elif kind == 'file':
        to_hdf5(os.path.join(directory, '%d.hdf5' % number), 'autotuner', autotuner, {'experiment': exp})
    elif kind == 'plot':
        history.append_autotuner(autotuner)
        history.plot_tuning(mode='all_voltages all_parameters with_par_variances')
        plt.close('all')
    elif kind == 'pickle':
        pickle.dumps(autotuner)
    elif kind == 'copy':
        copy.copy(autotuner)


@st.composite
def inspection_case(draw):
    return dict(spec=draw(models.system(failing=True, resolution=True)), steps=draw(st.sampled_from([12, 25, 40, 6])),
                kinds=draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=4, unique=True)),
                when=draw(st.lists(st.booleans(), min_size=5, max_size=5)), restart=draw(st.one_of(st.none(), st.integers(1, 12))))


def expected_ready(autotuner):
    """No estimator asks for a measurement"""
    for t in autotuner.tuning_hierarchy:
        if isinstance(t.solver, NewtonSolver):
            for e in t.solver.gradient_estimators:
                wanted = e.require_measurement(t.solver.current_position.index)
                if wanted is not None and len(wanted):
                    return False
                if e.estimate() is None:
                    return None
    return True


@sub('inspection', inspection_case(), quick=220, thorough=8000, rule='the tuning is inspected at least twice between evaluations')
def check_inspection(case, ctx):
    spec = case['spec']
    ctx.label(*case['kinds'])
    outcomes = []
    times = 0
    for looking in (False, True):
        exp, autotuner = models.build(spec)
        history = History(None, exp)
        trace = []
        for n in range(case['steps']):
            if case['restart'] == n:
                autotuner.restart()
            if looking and (case['when'][n % 5] or n == 0):
                for kind in case['kinds']:
                    inspect(kind, exp, autotuner, history, ctx.tmp(), n)
                times += 1
            if looking:
                expected = expected_ready(autotuner)
                found = autotuner.all_estimators_ready
                require(expected is None or found == expected, 'verdict on the estimators', found, expected)
                ctx.label('estimators ready' if found else 'estimators not ready')
            if autotuner.is_tuning_complete():
                break
            try:
                autotuner.iterate()
            except EvaluationError:
                trace.append('failed')
                break
            trace.append((autotuner.current_tuner_index, bool(autotuner.current_tuner_status)))
        outcomes.append((trace, exp.log, exp.voltages.to_dict()))
    plain, inspected = outcomes
    for i, (a, b) in enumerate(zip(plain, inspected)):
        require(a == b or repr(a) == repr(b), 'the tuning is changed by looking at it', ['iterations', 'log', 'voltages'][i], a, b)
    ctx.nontrivial(times > 1 and len([e for e in plain[1] if e[0] == 'measure']) > 2)
