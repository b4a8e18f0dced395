"""P10: storing and reloading reproduces every supported object."""
import math
import os

import h5py
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import qtune.evaluator as ev
from qtune.experiment import Measurement
from qtune.history import read_files
from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.autotuner import Autotuner
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver, make_target
from qtune.storage import from_hdf5, to_hdf5
from vf import gen, models
from vf.core import META, require, sub
from vf.deep import difference

META['assumptions'] += ['keys of dicts are non empty strings without slash other than "." and "..", strings contain no NUL',
                        'arrays and frames have one numeric or boolean dtype (series also strings), at least one dimension',
                        'labels are all strings or all numbers and smaller than 64 kB',
                        'numbers fit into 64 bits and are loaded as the corresponding numpy scalars']

# ------------------------------------------------------------------------------------------------------ values

key = st.one_of(st.sampled_from(['a', 'b', 'index', '0', '1', '#type', 'experiment', 'name', 'data', 'ä ö', 'x.y']),
                st.text(st.characters(blacklist_categories=('Cs', 'Cc')), min_size=1, max_size=6)).filter(
                    lambda s: '/' not in s and s not in ('.', '..'))
text = st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\0'), max_size=12)
floats = st.one_of(st.sampled_from([0., -0., float('nan'), float('inf'), -float('inf'), 5e-324, 1.7976931348623157e308]),
                   st.floats(width=64)).map(lambda x: ('nan' if math.isnan(x) else float(x).hex()))
ints = st.one_of(st.integers(-3, 3), st.integers(-2 ** 63, 2 ** 63 - 1))
DTYPES = ['float64', 'float32', 'int64', 'int32', 'uint8', 'bool', 'complex128']


def fl(s):
    return float('nan') if s == 'nan' else float.fromhex(s)


def arr(dtype, raw, shape, order='C'):
    data = np.array([fl(s) for s in raw])
    with np.errstate(all='ignore'):
        if dtype.startswith(('int', 'uint')):
            data = np.array([int(abs(hash(s)) % 251) if s == 'nan' or not math.isfinite(fl(s)) else int(max(-100, min(100, fl(s))))
                             for s in raw] or [0][:0])
            data = np.abs(data) if dtype == 'uint8' else data
        data = data.astype(dtype)
    return np.array(data.reshape(shape), order=order)


@st.composite
def labels(draw, n):
    kind = draw(st.sampled_from(['str', 'str', 'int', 'float']))
    if kind == 'str':
        pool = gen.GATES + gen.PARAMS + ['', 'ä', 'a/b', '0']
        return [x for x in draw(st.permutations(pool))[:n]]
    if kind == 'int':
        return draw(st.lists(st.integers(-5, 20), min_size=n, max_size=n, unique=True))
    return draw(st.lists(gen.dec(-5, 5), min_size=n, max_size=n, unique=True))


@st.composite
def array_node(draw):
    shape = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))
    n = int(np.prod(shape))
    return dict(t='array', dtype=draw(st.sampled_from(DTYPES)), shape=shape, raw=draw(gen.lists(floats, n)),
                order=draw(st.sampled_from('CF')))


@st.composite
def series_node(draw):
    n = draw(st.integers(0, 4))
    dtype = draw(st.sampled_from(['float64', 'float64', 'int64', 'bool', 'str']))
    raw = draw(gen.lists(text, n)) if dtype == 'str' else draw(gen.lists(floats, n))
    return dict(t='series', dtype=dtype, raw=raw, index=draw(labels(n)))


@st.composite
def frame_node(draw):
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(t='frame', dtype=draw(st.sampled_from(['float64', 'float64', 'int64', 'bool'])), shape=[n, m],
                raw=draw(gen.lists(floats, n * m)), index=draw(labels(n)), columns=draw(labels(m)))


leaf = st.one_of(
    st.just(dict(t='none')), floats.map(lambda v: dict(t='float', v=v)), ints.map(lambda v: dict(t='int', v=v)),
    st.booleans().map(lambda v: dict(t='bool', v=v)), st.tuples(floats, floats).map(lambda v: dict(t='complex', v=v)),
    text.map(lambda v: dict(t='str', v=v)), st.tuples(st.sampled_from(DTYPES), floats).map(lambda v: dict(t='scalar', dtype=v[0], v=v[1])),
    array_node(), series_node(), series_node(), frame_node(), st.integers(0, 6).map(lambda i: dict(t='ref', v=i)),
    st.integers(0, 6).map(lambda i: dict(t='ref', v=i)), st.just(dict(t='reserved')))
nodes = st.recursive(leaf, lambda children: st.one_of(
    st.lists(children, max_size=4).map(lambda v: dict(t='list', v=v)),
    st.lists(children, max_size=4).map(lambda v: dict(t='tuple', v=v)),
    st.dictionaries(key, children, max_size=4).map(lambda v: dict(t='dict', v=v)),
    st.dictionaries(key.filter(lambda k: k not in ('name', 'self')), children, max_size=3).map(
        lambda v: dict(t='measurement', v=v))), max_leaves=14)


class Reserved:
    pass


def make(node, made, reserved):
    t = node['t']
    if t == 'none':
        return None
    if t == 'reserved':
        return reserved
    if t == 'ref':
        return made[node['v'] % len(made)] if made else None
    if t == 'float':
        return fl(node['v'])
    if t in ('int', 'bool', 'str'):
        return node['v']
    if t == 'complex':
        return complex(*map(fl, node['v']))
    if t == 'scalar':
        return arr(node['dtype'], [node['v']], (1,))[0]
    if t == 'array':
        result = arr(node['dtype'], node['raw'], node['shape'], node['order'])
    elif t == 'series':
        data = node['raw'] if node['dtype'] == 'str' else arr(node['dtype'], node['raw'], (len(node['raw']),))
        result = pd.Series(data, index=node['index'], dtype=object if node['dtype'] == 'str' else node['dtype'])
    elif t == 'frame':
        result = pd.DataFrame(arr(node['dtype'], node['raw'], node['shape']), index=node['index'], columns=node['columns'])
    elif t == 'list':
        result = [make(v, made, reserved) for v in node['v']]
    elif t == 'tuple':
        result = tuple(make(v, made, reserved) for v in node['v'])
    elif t == 'dict':
        result = {k: make(v, made, reserved) for k, v in node['v'].items()}
    elif t == 'measurement':
        result = Measurement('m', **{k: make(v, made, reserved) for k, v in node['v'].items()})
    else:
        raise ValueError(t)
    if t != 'array':
        made.append(result)
    return result


@st.composite
def values_case(draw):
    return dict(entries=draw(st.lists(nodes, min_size=1, max_size=3)), shared=draw(st.booleans()),
                handle=draw(st.booleans()))


def store_and_load(entries, reserved, path, handle):
    if handle:
        with h5py.File(path, 'w') as f:
            for name, value in entries:
                to_hdf5(f, name, value, reserved=reserved)
        with h5py.File(path, 'r') as f:
            return from_hdf5(f, reserved=reserved)
    for name, value in entries:
        to_hdf5(path, name, value, reserved=reserved)
    return from_hdf5(path, reserved=reserved)


@sub('values', values_case(), quick=1600, thorough=40000, rule='nested or labelled data')
def check_values(case, ctx):
    reserved = Reserved()
    made = []
    entries = [('entry %d' % i, make(node, made, reserved)) for i, node in enumerate(case['entries'])]
    ctx.nontrivial(any(n['t'] in ('list', 'tuple', 'dict', 'measurement', 'series', 'frame') for n in case['entries']))
    path = os.path.join(ctx.tmp(), 'values.hdf5')
    loaded = store_and_load(entries, {'reserved one': reserved}, path, case['handle'])
    require(set(loaded) - {'reserved one'} == {n for n, _ in entries}, 'entries get lost', sorted(loaded))
    for name, value in entries:
        # every entry is complete in itself: sharing is tracked within an entry
        diff = difference(value, loaded[name], name, reserved=(reserved,))
        require(diff is None, 'the loaded value differs', diff)
    # one entry alone
    with h5py.File(path, 'r') as f:
        groups = [n for n, _ in entries if isinstance(f[n], h5py.Group)]
        for name, value in entries:
            if name in groups:
                diff = difference(value, from_hdf5(f[name], reserved={'reserved one': reserved}), name, reserved=(reserved,))
                require(diff is None, 'the value loaded from its own entry differs', diff)
    if len(groups) == len(entries):
        found = read_files(path, {'reserved one': reserved})
        require([n for n, _ in found] == sorted(n for n, _ in entries), 'entries of the file', [n for n, _ in found])
        for name, value in entries:
            diff = difference(value, dict(found)[name], name, reserved=(reserved,))
            require(diff is None, 'the value read from a file differs', diff)


# ------------------------------------------------------------------------------------------------------ objects

num = gen.dec(-3, 3)


@st.composite
def objects_case(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    return dict(kind=kind, seed=draw(st.integers(0, 10 ** 6)), n=draw(st.integers(1, 3)), wrap=draw(st.sampled_from(['plain', 'list', 'twice'])))


class Rng:
    """Everything about an object follows from the seed: the variety matters, not a particular value."""
    def __init__(self, seed, n):
        self.r = np.random.RandomState(seed)
        self.n = n
        self.gates = list(self.r.permutation(gen.GATES)[:n])
        self.gates = [str(g) for g in self.gates]
        self.params = [str(p) for p in self.r.permutation(gen.PARAMS)[:n]]

    def f(self):
        return float(self.r.choice([self.r.randn(), self.r.randn() * 1e-6, self.r.randint(1, 9)]))

    def pos(self):
        return abs(self.f()) + 1e-9

    def flag(self):
        return bool(self.r.randint(2))

    def series(self, labels):
        return pd.Series(self.r.randn(len(labels)), index=list(labels))

    def shuffled(self, labels):
        return [str(x) for x in self.r.permutation(labels)]

    def array(self):
        return self.r.randn(self.r.randint(1, 4), self.r.randint(1, 4))

    def raw(self):
        return tuple(self.array() if self.flag() else None for _ in range(self.r.randint(1, 3)))

    def text(self):
        return 'name %d' % self.r.randint(1000)

    def cov(self):
        m = self.r.randn(self.n, self.n)
        return m @ m.T + np.eye(self.n)


def kalman_args(r):
    return dict(n_pos_dim=r.n, n_values=1, state_transition_function=np.eye(r.n) * r.pos(), initial_gradient=list(r.r.randn(r.n)),
                initial_covariance_matrix=r.cov(), measurement_covariance_matrix=np.eye(1) * r.pos(),
                process_noise=r.cov(), alpha=1 + r.pos())


def fd_args(r, gates=None):
    gates = r.shuffled(gates or r.gates)
    return dict(current_position=r.series(gates), epsilon=r.series(gates), symmetric=r.flag(),
                current_estimate=r.series(gates) if r.flag() else None,
                covariance=pd.DataFrame(r.cov(), index=gates, columns=gates) if r.flag() else None,
                stored_measurements=[(r.series(gates), r.f(), r.pos()) for _ in range(r.r.randint(1, 3))],
                requested_measurements=[r.series(gates)])


def kalman_est_args(r, gates=None):
    gates = r.shuffled(gates or r.gates)
    return dict(kalman_gradient=KalmanGradient(**kalman_args(r)), current_position=r.series(gates),
                maximum_covariance=r.series(gates) if r.flag() else r.pos(),
                epsilon=r.series(gates) if r.flag() else r.pos(), current_value=r.f())


def selfinit_args(r):
    return dict(finite_difference_estimator=FiniteDifferencesGradientEstimator(**fd_args(r)),
                kalman_estimator=KalmanGradientEstimator(**kalman_est_args(r)) if r.flag() else None,
                kalman_arguments=dict(maximum_covariance=r.pos(), epsilon=r.series(r.gates)),
                kalman_gradient_args=dict(alpha=r.pos()) if r.flag() else None)


def target(r, params=None):
    params = params or r.params
    return make_target(desired=r.series(params), minimum=r.series(params), maximum=r.series(params),
                       tolerance=r.series(params).abs(), cost_threshold=r.series(params),
                       rescaling_factor=r.series(params).abs())


def newton_args(r):
    return dict(target=target(r), gradient_estimators=[
        KalmanGradientEstimator(**kalman_est_args(r)) if r.flag() else FiniteDifferencesGradientEstimator(**fd_args(r))
        for _ in r.params], current_position=r.series(r.shuffled(r.gates)), current_values=r.series(r.params))


def nm_args(r):
    def points(k):
        return [(r.series(r.gates), r.series(r.params)) for _ in range(k)]
    return dict(target=target(r), simplex=points(r.n + 1), span=r.series(r.gates), current_position=r.series(r.gates),
                current_values=r.series(r.params), reflected_point=points(1)[0],
                shrunk_points=points(r.r.randint(0, r.n + 1)), cost_function=None,
                state=str(r.r.choice([s.value for s in NelderMeadSolver.State])))


def forwarding_args(r):
    return dict(target=target(r), values_to_position=pd.Series(r.shuffled(r.gates), index=r.params),
                current_position=r.series(r.gates), next_position=r.series(r.gates))


def evaluator_args(r, params=None):
    return dict(measurements=(Measurement('scan', a=r.f(), b=r.text()),), parameters=tuple(params or r.params),
                raw_x_data=r.raw(), raw_y_data=r.raw(), name=r.text())


def tuner_args(r, solver):
    voltages = lambda: r.series(r.shuffled(r.gates))
    return dict(solver=solver, tuned_voltages=[voltages() for _ in range(r.r.randint(1, 3))], last_voltage=voltages(),
                last_parameter_values=r.series(r.params), last_parameters_variances=r.series(r.params).abs(),
                last_evaluation_failed=r.flag(), evaluatable_voltages=[voltages() for _ in range(r.r.randint(1, 3))])


def model_evaluator(r, exp, params=None):
    return models.ModelEvaluator(exp, **evaluator_args(r, params))


def subset_args(r, exp):
    solver = NewtonSolver(**newton_args(r)) if r.flag() else NelderMeadSolver(**nm_args(r))
    return dict(tuner_args(r, solver), evaluators=[model_evaluator(r, exp)], gates=r.shuffled(r.gates),
                maximal_step_size=r.pos(), maximal_step_number=r.r.randint(1, 5), number_queued_steps=r.r.randint(0, 5))


def sensing_args(r, exp):
    return dict(tuner_args(r, ForwardingSolver(**forwarding_args(r))), cheap_evaluators=[model_evaluator(r, exp)],
                expensive_evaluators=[model_evaluator(r, exp)], gates=r.shuffled(r.gates), cheap_evaluation_only=r.flag())


def fitting_args(r, names):
    return dict(evaluator_args(r), fit_results=r.series(names), initial_fit_arguments=r.series(names))


FIT3 = ['offset', 'height', 'curvature']
FIT5 = ['offset', 'slope', 'height', 'position', 'width']
FIT6 = ['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset']

KINDS = {
    'measurement': (Measurement, lambda r, exp: dict(name=r.text(), center=r.f(), gate=r.gates[0], data=r.array(), nothing=None,
                                                     many=[r.f(), r.text(), (r.f(),)], flag=r.flag(), number=r.r.randint(9))),
    'kalman': (KalmanGradient, lambda r, exp: kalman_args(r)),
    'fd': (FiniteDifferencesGradientEstimator, lambda r, exp: fd_args(r)),
    'kalman estimator': (KalmanGradientEstimator, lambda r, exp: kalman_est_args(r)),
    'selfinit': (SelfInitializingKalmanEstimator, lambda r, exp: selfinit_args(r)),
    'newton': (NewtonSolver, lambda r, exp: newton_args(r)),
    'nelder mead': (NelderMeadSolver, lambda r, exp: nm_args(r)),
    'forwarding': (ForwardingSolver, lambda r, exp: forwarding_args(r)),
    'subset tuner': (SubsetTuner, subset_args),
    'sensing tuner': (SensingDotTuner, sensing_args),
    'autotuner': (Autotuner, lambda r, exp: dict(
        experiment=exp, tuning_hierarchy=[SensingDotTuner(**sensing_args(r, exp)), SubsetTuner(**subset_args(r, exp))],
        current_tuner_index=r.r.randint(0, 3), current_tuner_status=r.flag(), voltage_to_set=r.series(r.gates) if r.flag() else None,
        hdf5_storage_path='/nowhere/%d' % r.r.randint(9), append_time_to_path=False, last_save_file=r.text())),
    'lead prefit': (ev.LeadTunnelTimePrefitVersion, lambda r, exp: dict(
        fitting_args(r, FIT6), experiment=exp, sample_rate=r.pos(), evaluation_arguments=dict(r.series(FIT6)))),
    'lead': (ev.LeadTunnelTimeByLeadScan, lambda r, exp: dict(
        fitting_args(r, FIT6), experiment=exp, sample_rate=r.pos(), evaluation_arguments=dict(r.series(FIT6)))),
    'coupling': (ev.InterDotTCByLineScan, lambda r, exp: dict(fitting_args(r, FIT5), experiment=exp,
                                                              intermediate_fit_arguments=r.series(FIT5))),
    'load time': (ev.NewLoadTime, lambda r, exp: dict(fitting_args(r, FIT3), experiment=exp, initial_curvature=r.pos())),
    'transition': (ev.LeadTransition, lambda r, exp: dict(
        evaluator_args(r), experiment=exp, shifting_gates=tuple(r.gates), charge_diagram_width=r.pos(),
        transition_positions=r.series(r.params) if r.flag() else pd.Series([], dtype=float), transition_width=r.pos())),
    'sensing 1d': (ev.SensingDot1D, lambda r, exp: dict(
        evaluator_args(r), experiment=exp, sweeping_gate=r.gates[0], current_signal=r.f(), optimal_signal=r.f(),
        optimal_position=r.f(), rising_flank=r.flag())),
    'sensing 2d': (ev.SensingDot2D, lambda r, exp: dict(
        evaluator_args(r), experiment=exp, sweeping_gates=tuple(r.gates), scan_range=r.pos(),
        new_voltages=r.series(r.params), rising_flank=r.flag())),
    'averaging': (ev.AveragingEvaluator, lambda r, exp: dict(
        evaluator=model_evaluator(r, exp), n_measurement_repetitions=r.r.randint(1, 9), raw_x_data=[r.array()],
        raw_y_data=[r.array(), None], name=r.text())),
}


def loosely(given, kept):
    """The stored argument says the same as the given one (scalars may be spread, sequences and labels reordered)."""
    if given is None or kept is None:
        return given is kept
    if isinstance(given, pd.Series):
        given = dict(given)
    if isinstance(kept, pd.Series):
        kept = dict(kept)
    if isinstance(given, dict):
        return isinstance(kept, dict) and set(given) == set(kept) and all(loosely(given[k], kept[k]) for k in given)
    if isinstance(kept, dict):
        return all(loosely(given, x) for x in kept.values())
    if isinstance(given, pd.DataFrame):
        return given.equals(kept)
    if isinstance(given, (list, tuple)) and isinstance(kept, (list, tuple)):
        if all(isinstance(x, str) for x in given):
            return sorted(given) == sorted(kept)
        return len(given) == len(kept) and all(loosely(x, y) for x, y in zip(given, kept))
    if isinstance(given, (list, np.ndarray)) or isinstance(kept, np.ndarray):
        return np.array_equal(np.squeeze(np.asarray(given)), np.squeeze(np.asarray(kept)), equal_nan=True)
    if isinstance(given, (str, bool, int, float, np.generic)):
        return given == kept or (given != given and kept != kept)
    return given is kept


@sub('objects', objects_case(), quick=700, thorough=16000, rule='every case: an object with non default arguments')
def check_objects(case, ctx):
    ctx.label(case['kind'])
    ctx.nontrivial()
    r = Rng(case['seed'], case['n'])
    exp = Reserved()
    cls, factory = KINDS[case['kind']]
    args = factory(r, exp)
    import copy
    kept = {k: (v if v is exp else v) for k, v in args.items()}
    obj = cls(**args)
    stored = obj.to_hdf5()
    for k, v in kept.items():
        require(k in stored, 'a constructor argument is not stored', cls.__name__, k)
        require(loosely(v, stored[k]), 'a constructor argument is stored with another value', cls.__name__, k, v, stored[k])
    path = os.path.join(ctx.tmp(), 'object.hdf5')
    value = {'plain': obj, 'list': [obj, dict(again=obj)], 'twice': (obj, cls(**factory(Rng(case['seed'], case['n']), exp)))}[case['wrap']]
    loaded = store_and_load([('entry', value)], {'experiment': exp}, path, bool(case['seed'] % 2))['entry']
    diff = difference(value, loaded, 'entry', reserved=(exp,), identity=False)
    require(diff is None, 'the loaded object differs', diff)


# ------------------------------------------------------------------------------------------------------ states

@st.composite
def states_case(draw):
    return dict(spec=draw(models.system(max_levels=3, failing=True)), n=draw(st.integers(0, 40)))


@sub('states', states_case(), quick=240, thorough=6000, rule='an autotuner after at least five iterations')
def check_states(case, ctx):
    """Autotuners in the middle of a tuning."""
    ctx.label(*models.describe(case['spec']))
    exp, autotuner = models.build(case['spec'])
    n = models.run(autotuner, case['n'])
    ctx.nontrivial(n >= 5)
    path = os.path.join(ctx.tmp(), 'state.hdf5')
    loaded = store_and_load([('autotuner', autotuner)], {'experiment': exp}, path, False)['autotuner']
    diff = difference(autotuner, loaded, 'autotuner', reserved=(exp,), identity=False)
    require(diff is None, 'the loaded autotuner differs', diff)
    estimators = [e for t in autotuner.tuning_hierarchy if isinstance(t.solver, NewtonSolver) for e in t.solver.gradient_estimators]
    again = [e for t in loaded.tuning_hierarchy if isinstance(t.solver, NewtonSolver) for e in t.solver.gradient_estimators]
    require([[a is b for a in estimators] for b in estimators] == [[a is b for a in again] for b in again],
            'estimators shared by several solvers are not shared any more')
