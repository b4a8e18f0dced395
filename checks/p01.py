"""P01: each iteration is exactly one step of the tuning hierarchy."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.autotuner import Autotuner
from qtune.evaluator import Evaluator
from qtune.experiment import Experiment
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import ParameterTuner, SubsetTuner
from qtune.solver import NewtonSolver, Solver, make_target
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['rows of a target are complete or (invariant parameters) have no set point',
                        'the tuners know the last voltages of all gates']


class RecordingExperiment(Experiment):
    def __init__(self, voltages, resolution=None):
        self.voltages = voltages.copy()
        self.resolution = resolution
        self.log = []

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.voltages.index)

    def read_gate_voltages(self):
        return self.voltages.copy()

    def set_gate_voltages(self, new_gate_voltages):
        self.log.append(('set', {g: float(v) for g, v in new_gate_voltages.items()}))
        for g, v in new_gate_voltages.items():
            if g not in self.voltages.index:
                raise KeyError(g)
            self.voltages[g] = round(v * self.resolution) / self.resolution if self.resolution else v
        return self.voltages.copy()

    def measure(self, measurement):
        self.log.append(('measure', measurement))
        return np.zeros(3)


class StubSolver(Solver):
    def __init__(self, target, current_position):
        self._target, self._current_position = target, current_position

    @property
    def state(self):
        return pd.Series(dtype=float)

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position)


class StubEvaluator(Evaluator):
    def __init__(self, params):
        super().__init__(experiment=None, measurements=(), parameters=params, raw_x_data=(None,), raw_y_data=(None,),
                         name='stub')

    def to_hdf5(self):
        return {}


class ScriptedTuner(ParameterTuner):
    """Returns scripted outcomes and records the calls."""
    def __init__(self, level, log, params, **kwargs):
        super().__init__([StubEvaluator(tuple(params))], last_parameter_values=pd.Series(.5, index=params),
                         last_parameters_variances=pd.Series(.5, index=params), **kwargs)
        self.level, self.log = level, log
        self.outcome, self.suggestion = True, None

    def to_hdf5(self):
        return dict(level=self.level, log=self.log, params=list(self.parameters), solver=self.solver)

    def is_tuned(self, voltages):
        self.log.append(('evaluate', self.level, dict(voltages)))
        self._last_voltage = voltages
        return self.outcome

    def get_next_voltages(self, tuned_parameters=None):
        self.log.append(('ask', self.level, tuned_parameters))
        return self.suggestion


@st.composite
def hierarchy_case(draw):
    n_gates = draw(st.integers(1, 4))
    n_levels = draw(st.integers(1, 4))
    levels = []
    for _ in range(n_levels):
        n_par = draw(st.integers(1, 3))
        kind = draw(st.sampled_from(['desired', 'desired', 'sensing']))
        rows = draw(gen.lists(st.booleans(), n_par))
        rows[0] = True
        levels.append(dict(kind=kind, rows=rows if kind == 'desired' else [True] * n_par))
    ops = []
    for _ in range(draw(st.integers(6, 34))):
        kind = draw(st.integers(0, 24))
        if kind == 0:
            ops.append(['restart', draw(gen.maybe(gen.lists(gen.dec(-2, 2, 2), n_gates), 1, 2))])
        elif kind == 1:
            ops.append(['change', draw(st.integers(0, n_levels - 1)), draw(st.integers(0, 2)), draw(gen.dec(-2, 2, 2)),
                        draw(st.booleans())])
        elif kind == 2:
            ops.append(['noise', draw(gen.lists(gen.dec(-2, 2, 2), n_gates))])
        else:
            what = draw(st.integers(0, 9))
            nxt = dict(gates=draw(gen.subset(list(range(n_gates)), 1)), v=draw(gen.lists(gen.dec(-2, 2, 3), n_gates)),
                       kind='nan' if what == 0 else 'unknown' if what == 1 else 'ok')
            ops.append(['iterate', draw(st.sampled_from([True, True, False, True, False])), nxt])
    return dict(n_gates=n_gates, levels=levels, ops=ops, v0=draw(gen.lists(gen.dec(-2, 2, 2), n_gates)),
                resolution=draw(st.sampled_from([None, None, 64, 10])), order=draw(gen.permutation(n_gates)))


@sub('hierarchy', hierarchy_case(), quick=2400, thorough=40000,
     rule='at least two levels, the second one reached, and voltages set at least once')
def check_hierarchy(case, ctx):
    gates = gen.GATES[:case['n_gates']]
    exp = RecordingExperiment(pd.Series(case['v0'], index=gates), case['resolution'])
    log = exp.log
    tuners, params, tuned_rows = [], [], []
    for k, level in enumerate(case['levels']):
        names = ['par%d%d' % (k, i) for i in range(len(level['rows']))]
        if level['kind'] == 'desired':
            desired = pd.Series([1. if r else np.nan for r in level['rows']], index=names)
            target = make_target(desired=desired, tolerance=desired * .1)
        else:
            target = make_target(desired=pd.Series(np.nan, index=names), minimum=pd.Series(-np.inf, index=names),
                                 cost_threshold=pd.Series(-np.inf, index=names))
        solver = StubSolver(target, pd.Series(0., index=gates[:1]))
        tuners.append(ScriptedTuner(k, log, names, solver=solver))
        params.append(names)
        tuned_rows.append({n for n, r in zip(names, level['rows']) if r})
    autotuner = Autotuner(exp, tuning_hierarchy=tuners)
    index, status, pending, poisoned = 0, False, None, None
    max_index, n_set = 0, 0

    def check_state(where):
        require(autotuner.current_tuner_index == index, 'wrong position in the hierarchy ' + where,
                autotuner.current_tuner_index, index)
        require(bool(autotuner.current_tuner_status) == status, 'wrong status ' + where, autotuner.current_tuner_status)
        require(autotuner.is_tuning_complete() == (index == len(tuners)), 'wrong completion ' + where)
        if pending is None:
            require(autotuner.voltages_to_set is None, 'pending voltages ' + where, autotuner.voltages_to_set)
        elif poisoned is None:
            require(dict(autotuner.voltages_to_set) == pending, 'wrong pending voltages ' + where, autotuner.voltages_to_set)

    check_state('initially')
    for number, op in enumerate(case['ops']):
        del log[:]
        where = 'after operation %d %s' % (number, op[0])
        before = exp.voltages.copy()
        if op[0] == 'restart':
            if op[1] is not None:
                exp.voltages = pd.Series(op[1], index=gates)
                before = exp.voltages.copy()
            autotuner.restart()
            index, status, pending, poisoned = 0, False, None, None
            require(not log, 'a restart must not measure or set anything', log)
            check_state(where)
            ctx.label('restart')
            continue
        if op[0] == 'noise':
            # voltages drift or are changed without restart
            exp.voltages = pd.Series(op[1], index=gates)
            continue
        if op[0] == 'change':
            changes = [{} for _ in range(op[1] + 1)]
            row = params[op[1]][op[2] % len(params[op[1]])]
            if case['levels'][op[1]]['kind'] == 'desired':
                value = op[3] if op[4] or len(tuned_rows[op[1]] - {row}) else 1.
                changes[op[1]] = {'desired': pd.Series([value if op[4] or value == 1. else np.nan], index=[row])}
                if op[4] or value == 1.:
                    changes[op[1]]['tolerance'] = pd.Series([.1], index=[row])
                    tuned_rows[op[1]].add(row)
                else:
                    changes[op[1]]['tolerance'] = pd.Series([np.nan], index=[row])
                    tuned_rows[op[1]].discard(row)
            autotuner.change_targets(changes)
            index, status, pending, poisoned = 0, False, None, None
            require(not log, 'a change of targets must not measure or set anything', log)
            check_state(where)
            ctx.label('change of targets')
            continue

        outcome, nxt = op[1], op[2]
        suggestion = pd.Series({gates[i]: nxt['v'][i] for i in nxt['gates']})
        kind = nxt['kind']
        if kind == 'nan':
            suggestion.iloc[-1] = np.nan
        elif kind == 'unknown':
            suggestion['not a gate'] = 1.
        for t in tuners:
            t.outcome, t.suggestion = outcome, suggestion.copy()
        expect_error = poisoned is not None or (pending is None and index == len(tuners))
        try:
            autotuner.iterate()
        except (RuntimeError, AssertionError) as err:
            require(expect_error, 'unexpected error in iterate ' + where, repr(err), 'pending', pending, 'index', index)
            require(not log and (exp.voltages == before).all(), 'an iteration that fails touches the experiment', log)
            ctx.label('error %s' % (poisoned or 'complete'))
            check_state(where)
            continue
        require(not expect_error, 'an impossible iteration is executed ' + where, poisoned or 'complete', log)
        require(len(log) == 1, 'an iteration must do exactly one thing ' + where, log)
        entry = log[0]
        if pending is not None:
            require(entry == ('set', pending), 'pending voltages are not set ' + where, entry, pending)
            n_set += 1
            index, pending = 0, None
        elif not status:
            require(entry[0] == 'evaluate' and entry[1] == index, 'level %d must be evaluated' % index, entry)
            require(entry[2] == dict(before), 'evaluation at other voltages than those of the experiment', entry[2], before)
            max_index = max(max_index, index)
            if outcome:
                index += 1
            else:
                status = True
        else:
            require(entry[0] == 'ask' and entry[1] == index, 'level %d must be asked for voltages' % index, entry)
            expected = set().union(*tuned_rows[:index])
            require(set(entry[2] or ()) == expected, 'wrong tuned parameters', entry[2], expected)
            pending, status = dict(suggestion), False
            poisoned = None if kind == 'ok' else kind
            ctx.label('asked with tuned parameters' if expected else 'asked')
        check_state(where)
    ctx.nontrivial(len(tuners) > 1 and max_index > 0 and n_set > 0)
    if index == len(tuners):
        ctx.label('complete')


@st.composite
def setup_case(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, where=draw(st.sampled_from(['last_voltage', 'position', 'estimator', 'nothing'])),
                kalman=draw(st.booleans()), level=draw(st.integers(0, 1)), iterations=draw(st.integers(1, 3)))


@sub('setup', setup_case(), quick=60, thorough=400, rule='a gate unknown to the experiment occurs in the hierarchy')
def check_setup(case, ctx):
    gates = gen.GATES[:case['n']]
    exp = RecordingExperiment(pd.Series(.5, index=gates))

    class CountingEvaluator(StubEvaluator):
        def to_hdf5(self):
            return {}

        def evaluate(self):
            exp.log.append('measure')
            return pd.Series({p: 5. for p in self.parameters}), pd.Series({p: .1 for p in self.parameters})

    tuners = []
    for level in range(2):
        bad = case['where'] if level == case['level'] else 'nothing'
        solver_gates = gates + (['unknown'] if bad == 'position' else [])
        est_gates = solver_gates + (['unknown'] if bad == 'estimator' else [])
        position = pd.Series(.5, index=est_gates)
        if case['kalman']:
            est = KalmanGradientEstimator(KalmanGradient(len(est_gates), 1), current_position=position, maximum_covariance=10.,
                                          epsilon=.1)
        else:
            est = FiniteDifferencesGradientEstimator(current_position=position, epsilon=.1)
        name = 'par%d' % level
        target = make_target(desired=pd.Series(1., index=[name]), tolerance=pd.Series(.1, index=[name]))
        solver = NewtonSolver(target, [est], current_position=pd.Series(.5, index=solver_gates))
        last = pd.Series(.5, index=gates + (['unknown'] if bad == 'last_voltage' else []))
        tuners.append(SubsetTuner([CountingEvaluator((name,))], gates=solver_gates, solver=solver, last_voltage=last))
    autotuner = Autotuner(exp, tuning_hierarchy=tuners)
    for _ in range(case['iterations']):
        try:
            autotuner.iterate()
        except (RuntimeError, AssertionError):
            require(case['where'] != 'nothing', 'a complete setup is rejected')
            require(not exp.log, 'an iteration with unknown gates touches the experiment', exp.log)
            ctx.nontrivial()
        else:
            require(case['where'] == 'nothing', 'a setup with unknown gates is accepted', case['where'], exp.log)
    ctx.label(case['where'])
