"""P24: the QQD backend hands measurements to MATLAB as they are and reports exactly the results of their analysis."""
import builtins
import copy
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf.matlab import FakeEngine, connection  # before qtune: it needs the stand-in
from qtune import mat2py
from qtune.autotuner import Autotuner
from qtune.experiment import Measurement
from qtune.history import History
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target
from qtune.gradient import FiniteDifferencesGradientEstimator
import qtune.sm_tune_qqd as qqd
from qtune.storage import from_hdf5, to_hdf5
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['MATLAB and its tune script are represented by a stand-in which returns generated results of the analysis',
                        'struct arrays of MATLAB are represented by lists, matrices by nested lists']

GATES = ['LB', 'LP', 'RB', 'T']


class Struct:
    """A MATLAB struct."""
    def __init__(self, **fields):
        self.__dict__.update(fields)


class Bench:
    """The experiment with recorded calls of tune."""
    def __init__(self, gates=GATES):
        self.engine = FakeEngine({g: 0. for g in gates})
        self.exp = qqd.SMTuneQQD(connection(self.engine))
        self.calls = []
        self.data = None
        bench = self

        def call(view, *args, **kwargs):
            require('tune.tune' in str(view), 'another function than tune is called', str(view))
            require(not kwargs, 'keyword arguments', kwargs)
            bench.calls.append(args)
            reply = bench.data(args) if callable(bench.data) else bench.data
            return Struct(data=Struct(), successful=True, ana=reply[0], args=Struct(fullFile=reply[1]))
        mat2py.MATLABFunctionView.__call__ = call

    def expect(self, name, index, options, what):
        require(len(self.calls) == 1, what + ': number of calls of tune', len(self.calls))
        compare_call(self.calls.pop(), name, index, options, what)


def compare_call(args, name, index, options, what):
    require(len(args) >= 2 and len(args) % 2 == 0, what + ': number of arguments', args)
    require(args[0] == name, what + ': operation', args[0], name)
    require(type(args[1]) is float and args[1] == index, what + ': index', repr(args[1]), index)
    keys = list(args[2::2])
    require(sorted(keys) == sorted(options), what + ': names of the options', keys, sorted(options))
    for key, value in zip(keys, args[3::2]):
        expected = options[key]
        if isinstance(expected, str):
            require(type(value) is str and value == expected, what + ': option ' + key, repr(value), expected)
        else:
            require(type(value) is float and (value == expected or value != value and expected != expected),
                    what + ': option ' + key, repr(value), expected)


NAMES = ['sensor 2d', 'sensor', 'chrg', 'resp', 'line', 'lead', 'load', 'load pos', 'chrg rnd', 'chrg s', 'stp', 'tl']
number = gen.dec(-50, 50, 2)
option = st.one_of(st.tuples(st.sampled_from(['float', 'int', 'float64', 'int64', 'bool', 'float32', 'bool_']), number),
                   st.tuples(st.just('str'), st.sampled_from(['', 'rng', 'a b', '3']))).map(list)
options = st.dictionaries(st.sampled_from(['cntrl', 'np', 'opts', 'rng', 'gate', 'loadFile', 'indx']), option, max_size=4)


def option_value(spec):
    kind, value = spec
    if kind == 'str':
        return value
    if kind in ('float', 'int'):
        return getattr(builtins, kind)(value)
    if kind == 'bool':
        return value > 0
    if kind == 'float32':
        return np.float32(int(value))
    if kind == 'bool_':
        return np.bool_(value > 0)
    return getattr(np, kind)(value)


# ------------------------------------------------------------------------------------------------------ measurements

@st.composite
def measure_case(draw):
    return dict(calls=draw(st.lists(st.fixed_dictionaries(dict(
        name=st.sampled_from(NAMES + ['stp', 'tl', 'unknown', 'Line']), index=st.integers(0, 9),
        kind=st.sampled_from(['int', 'float', 'int64', 'float64']), options=options, repeat=st.integers(1, 2),
        direct=st.integers(0, 4).map(lambda i: i == 0), x=number, y=number, own=st.booleans())), min_size=1, max_size=5)),
        order=draw(gen.permutation(5)))


@sub('measure', measure_case(), quick=1500, rule='several measurements, one of them with at least two options')
def check_measure(case, ctx):
    bench = Bench()
    exp = bench.exp
    n = 0
    jobs = []
    for spec in case['calls']:
        index = option_value([spec['kind'], spec['index']])
        given = {k: option_value(v) for k, v in spec['options'].items()}
        cls = qqd.QQDMeasurement if spec['own'] else Measurement
        jobs.append((spec, index, given, cls(spec['name'], index=index, **copy.deepcopy(given))))
    for k in [i for i in case['order'] if i < len(jobs)]:
        spec, index, given, measurement = jobs[k]
        for _ in range(spec['repeat']):
            n += 1
            ana = Struct(STp_x=spec['x'] + n, STp_y=spec['y'] - n, Tp_x=spec['x'] - n, Tp_y=spec['y'] + n)
            bench.data = (ana, 'file %d' % n)
            if spec['direct']:
                given = {k: bool(v) if isinstance(v, np.bool_) else v for k, v in given.items()}
                result = exp.tune(spec['name'], index, **given)
                bench.expect(spec['name'], spec['index'], given, 'tune')
                require(result['data'].ana is ana, 'another result is returned')
                continue
            if spec['name'] not in NAMES:
                try:
                    exp.measure(measurement)
                except ValueError:
                    require(not bench.calls, 'an unknown measurement is conducted')
                    ctx.label('unknown')
                    continue
                require(False, 'an unknown measurement is accepted', spec['name'])
            result = exp.measure(measurement)
            bench.expect(spec['name'], spec['index'], given, 'measure')
            require(exp.get_last_file_name() == 'file %d' % n, 'name of the last file', exp.get_last_file_name(), n)
            if spec['name'] == 'stp':
                require(list(result) == [ana.STp_x, ana.STp_y], 'positions of the singlet point', result)
            elif spec['name'] == 'tl':
                require(list(result) == [ana.Tp_x, ana.Tp_y], 'positions of the triple point', result)
            else:
                require(result['data'].ana is ana, 'another result is returned')
            require(measurement.name == spec['name'], 'name of the measurement', measurement.name)
            left = dict(measurement.options)
            require(sorted(left) == sorted(dict(given, index=index)), 'options of the measurement', left, given)
            for key, value in dict(given, index=index).items():
                require(left[key] == value, 'option of the measurement', key, left[key], value)
            ctx.label(spec['name'])
    ctx.nontrivial(len(jobs) > 1 and any(len(s['options']) > 1 for s in case['calls']))


# ------------------------------------------------------------------------------------------------------ evaluators

KINDS = ['line', 'lead', 'sensor', 'sensor 2d', 'chrg', 'dist', 'resp', 'pass']
PARAMETERS = dict(line=1, lead=1, sensor=2, dist=1, resp=2, **{'sensor 2d': 3})


@st.composite
def evaluator_spec(draw, i):
    kind = draw(st.sampled_from(KINDS))
    n = {'chrg': draw(st.integers(2, 4)), 'pass': 2}.get(kind) or PARAMETERS[kind]
    spec = dict(kind=kind, parameters=['p%d %s' % (i, x) for x in draw(gen.names(['a', 'b', 'c', 'd'], n))],
                index=draw(st.integers(1, 4)), options=draw(options), error=draw(gen.dec(.01, 4)),
                reference=draw(gen.dec(.1, 4)), low=draw(gen.maybe(gen.dec(-6, 3))), high=draw(gen.maybe(gen.dec(-3, 6))),
                height=draw(gen.maybe(gen.dec(0, 3))), own=draw(st.booleans()),
                limits=draw(st.sampled_from(['scalar', 'series', 'reversed'])),
                lows=draw(gen.lists(gen.dec(-6, 3), 2)), highs=draw(gen.lists(gen.dec(-3, 6), 2)),
                errors=draw(gen.maybe(gen.lists(gen.dec(.01, 4), 2))), measured=draw(st.sampled_from(['stp', 'tl'])),
                both=draw(st.booleans()), fixed=draw(st.booleans()), residuals=draw(st.booleans()))
    if kind == 'pass' and spec['both']:
        spec['parameters'] = ['p%d %s' % (i, x) for x in draw(gen.names(['a', 'b', 'c', 'd'], 4))]
    return spec


value = st.one_of(gen.dec(-6, 6), gen.dec(-6, 6), gen.dec(-6, 6), st.sampled_from([float('nan'), -6., 0., 3.]))


def by_name(spec, values):
    series = pd.Series(values, index=spec['parameters'])
    return series[::-1] if spec['limits'] == 'reversed' else series


def build(spec, exp, k):
    given = {key: option_value(v) for key, v in spec['options'].items()}
    cls = qqd.QQDMeasurement if spec['own'] else Measurement
    kind = spec['kind']
    name = {'dist': 'chrg', 'pass': spec['measured']}.get(kind, kind)
    measurements = [cls(name, index=spec['index'], **given)]
    if kind == 'pass' and spec['both']:
        measurements.append(cls('tl', index=spec['index'] + 1))
        spec['measured'] = 'stp'
        measurements[0] = cls('stp', index=spec['index'], **given)
    arguments = dict(experiment=exp, measurements=measurements, parameters=list(spec['parameters']), name='evaluator %d' % k)
    limits = {}
    if kind in ('line', 'lead'):
        if spec['low'] is not None:
            limits['minimal_value'] = spec['low']
        if spec['high'] is not None:
            limits['maximal_value'] = spec['high']
    if kind == 'line':
        return qqd.QQDLine(**arguments, **limits), given
    if kind == 'lead':
        return qqd.QQDLead(**arguments, **limits, error=spec['error'], reference_residual_sum=spec['reference']), given
    if kind == 'sensor':
        return qqd.QQDSensor1D(**arguments), given
    if kind == 'sensor 2d':
        return qqd.QQDSensor2D(**arguments), given
    if kind == 'chrg':
        return qqd.QQDCharge(**arguments, error=spec['error']), given
    if kind == 'dist':
        return qqd.QQDDistTP(**arguments, error=spec['error']), given
    if kind == 'resp':
        if spec['low'] is not None:
            limits['min_position'] = spec['low'] if spec['limits'] == 'scalar' else by_name(spec, spec['lows'])
        if spec['high'] is not None:
            limits['max_position'] = spec['high'] if spec['limits'] == 'scalar' else by_name(spec, spec['highs'])
        if spec['height'] is not None:
            limits['min_transition_height'] = spec['height']
        return qqd.QQDResp(**arguments, **limits, error=spec['error'] if spec['errors'] is None else by_name(spec, spec['errors'])), given
    error = pd.Series(spec['error'], index=spec['parameters']) * np.arange(1, 1 + len(spec['parameters']))
    return qqd.SMQQDPassThru(**arguments, error=error if spec['fixed'] else None), given


def generate(spec, numbers, layout):
    """-> result of the analysis, expected values and variances (None: not specified)"""
    nan = float('nan')
    kind = spec['kind']
    lo = -math.inf if spec['low'] is None else spec['low']
    hi = math.inf if spec['high'] is None else spec['high']

    def limited(v, lo, hi):
        return v if lo <= v <= hi else nan
    if kind == 'line':
        n = 1 + layout % 5
        width = numbers[:n]
        mean = sum(width) / n
        # the mean is only known up to rounding
        if n > 1 and min(abs(mean - lo), abs(mean - hi)) < 1e-9:
            width = [w + .01 for w in width]
            mean += .01
            if min(abs(mean - lo), abs(mean - hi)) < 1e-9:
                width, mean = [nan] * n, nan
        variance = sum((w - mean) ** 2 for w in width) / n / n
        return [Struct(width=w) for w in width], [limited(mean, lo, hi)], [variance]
    if kind == 'lead':
        ana = Struct(fitParams=[numbers[:4 + layout % 2], numbers[3:7] + numbers[2:3]], sumResiduals=abs(numbers[7]))
        return ana, [limited(numbers[6], lo, hi)], [spec['error'] * abs(numbers[7]) / spec['reference']]
    if kind == 'sensor':
        return Struct(xVal=numbers[0], minGradData=numbers[1], yVal=numbers[2]), [numbers[0], abs(numbers[1])], [nan, nan]
    if kind == 'sensor 2d':
        return Struct(xVal=numbers[0], yVal=numbers[1], minGradData=numbers[2]), [numbers[0], numbers[1], abs(numbers[2])], [nan] * 3
    if kind == 'chrg':
        values = numbers[:len(spec['parameters'])]
        return Struct(O=[values, [values], [[v] for v in values]][layout % 3]), list(values), [spec['error']] * len(values)
    if kind == 'dist':
        left, right = numbers[:2], numbers[2:4]
        shape = [lambda p: p, lambda p: [p], lambda p: [[x] for x in p]][layout % 3]
        distance = math.sqrt((left[0] - right[0]) ** 2 + (left[1] - right[1]) ** 2)
        return Struct(triplePointLeft=shape(left), triplePointRight=shape(right)), [distance], [spec['error']]
    if kind == 'resp':
        heights = [abs(x) for x in numbers[2:4]]
        values = []
        for i in range(2):
            low = lo if spec['low'] is None or spec['limits'] == 'scalar' else spec['lows'][i]
            high = hi if spec['high'] is None or spec['limits'] == 'scalar' else spec['highs'][i]
            v = limited(numbers[i], low, high)
            if spec['height'] is not None and heights[i] < spec['height']:
                v = nan
            values.append(v)
        return [Struct(position=numbers[i], visiblity=heights[i]) for i in range(2)], values, \
            [spec['error']] * 2 if spec['errors'] is None else list(spec['errors'])


def close(a, b):
    return a != a and b != b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def compare_result(result, spec, values, variances, what):
    require(isinstance(result, tuple) and len(result) == 2, what + ': type of the result', type(result))
    for series, expected, part in zip(result, (values, variances), ('value', 'variance')):
        require(list(series.index) == list(spec['parameters']), what + ': parameters', list(series.index), spec['parameters'])
        for parameter, e, v in zip(spec['parameters'], expected, values):
            if part == 'variance' and v != v and spec['kind'] in ('line', 'lead', 'resp'):
                continue
            require(close(float(series[parameter]), e), '%s: %s of %s' % (what, part, parameter), series[parameter], e)


@st.composite
def evaluate_case(draw):
    n = draw(st.integers(1, 3))
    return dict(evaluators=[draw(evaluator_spec(i)) for i in range(n)],
                steps=draw(st.lists(st.fixed_dictionaries(dict(
                    what=st.sampled_from(['evaluate'] * 4 + ['reload', 'process']), which=st.integers(0, n - 1),
                    numbers=gen.lists(value, 8), layout=st.integers(0, 14))), min_size=1, max_size=10)))


@sub('evaluate', evaluate_case(), quick=1200, rule='an evaluation after another evaluator was evaluated or after reloading')
def check_evaluate(case, ctx):
    bench = Bench()
    evaluators, given, files = [], [], [None] * len(case['evaluators'])
    learned = [None] * len(case['evaluators'])
    for k, spec in enumerate(case['evaluators']):
        evaluator, options_ = build(spec, bench.exp, k)
        evaluators.append(evaluator)
        given.append(options_)
        ctx.label(spec['kind'])
    before = None
    for number_, step in enumerate(case['steps']):
        k = step['which']
        spec, evaluator = case['evaluators'][k], evaluators[k]
        what = '%s %d' % (spec['kind'], number_)
        if step['what'] == 'reload':
            path = os.path.join(ctx.tmp(), 'e%d.h5' % number_)
            to_hdf5(path, 'evaluator', evaluator, reserved={'experiment': bench.exp})
            evaluators[k] = from_hdf5(path, reserved={'experiment': bench.exp})['evaluator']
            require(type(evaluators[k]) is type(evaluator) and evaluators[k].name == evaluator.name, what + ': reloaded evaluator')
            stored = evaluators[k].to_hdf5()['last_file_names']
            compare_files(stored, files[k], what + ' reloaded')
            before = 'reload'
            ctx.label('reload')
            continue
        if spec['kind'] == 'pass':
            evaluate_passing(bench, spec, evaluator, given[k], step, number_, learned, k, files, what)
            ctx.nontrivial(before not in (None, k))
            before = k
            continue
        ana, values, variances = generate(spec, step['numbers'], step['layout'])
        file = 'file %d.mat' % number_
        if step['layout'] % 4 == 0:
            file = [file, 'second ' + file]
        bench.data = (ana, file)
        if step['what'] == 'process' and spec['kind'] != 'resp':
            result = evaluator.process_raw_data(pd.Series({'data': Struct(ana=ana, args=Struct(fullFile=file))}))
            require(not bench.calls, what + ': a measurement is conducted to process recorded data')
            flat = np.concatenate([np.atleast_1d(np.asarray(r, float)).ravel() for r in result])[:len(values)]
            require(len(flat) == len(values) and all(close(a, b) for a, b in zip(flat, values)), what + ': processed', result, values)
        else:
            result = evaluator.evaluate()
            name = 'chrg' if spec['kind'] == 'dist' else spec['kind']
            bench.expect(name, spec['index'], given[k], what)
            compare_result(result, spec, values, variances, what)
            if any(v != v for v in values):
                ctx.label('failed')
            ctx.nontrivial(before not in (None, k))
        files[k] = file
        compare_files(evaluator.to_hdf5()['last_file_names'], file, what)
        before = k
    for k, evaluator in enumerate(evaluators):
        compare_files(evaluator.to_hdf5()['last_file_names'], files[k], 'at the end, evaluator %d' % k)
        require(list(evaluator.parameters) == case['evaluators'][k]['parameters'], 'parameters', evaluator.parameters)


def compare_files(actual, expected, what):
    if expected is None:
        require(actual is None, what + ': names of the files', actual)
    elif isinstance(expected, str):
        require(isinstance(actual, str) and actual == expected, what + ': names of the files', actual, expected)
    else:
        require(list(actual) == expected, what + ': names of the files', actual, expected)


def evaluate_passing(bench, spec, evaluator, given, step, number_, learned, k, files, what):
    """Values are passed on, the variance was estimated from repeated measurements before."""
    state = dict(n=0)
    returned = []
    numbers = [0. if x != x else x for x in step['numbers']]

    def data(args):
        state['n'] += 1
        x, y = [numbers[(state['n'] + i) % 8] + .1 * state['n'] * (i + 1) for i in range(2)]
        wrong = 1e3
        returned.append((args, (x, y)))
        ana = Struct(STp_x=x, STp_y=y, Tp_x=wrong, Tp_y=wrong) if args[0] == 'stp' else Struct(STp_x=wrong, STp_y=wrong, Tp_x=x, Tp_y=y)
        return ana, 'file %d %d' % (number_, state['n'])
    bench.data = data
    result = evaluator.evaluate()
    expected_calls = [(spec['measured'], spec['index'], given)] + ([('tl', spec['index'] + 1, {})] if spec['both'] else [])
    m = len(expected_calls)
    require(len(returned) % m == 0, what + ': number of measurements', len(returned), m)
    for j, args in enumerate(bench.calls):
        compare_call(args, *expected_calls[j % m], what)
    bench.calls = []
    rounds = [[x for _, pair in returned[i:i + m] for x in pair] for i in range(0, len(returned), m)]
    values = rounds[-1]
    if learned[k] is None:
        if spec['fixed']:
            require(len(rounds) == 1, what + ': the error is given, but measured', len(rounds))
            learned[k] = [spec['error'] * (i + 1) for i in range(len(values))]
        else:
            require(len(rounds) > 2, what + ': the error is not estimated', len(rounds))
            columns = list(zip(*rounds[:-1]))
            learned[k] = [np.var(c, ddof=1) for c in columns]
    else:
        require(len(rounds) == 1, what + ': the error is measured again', len(rounds))
    compare_result(result, spec, values, learned[k], what)
    files[k] = ['file %d %d' % (number_, len(returned) - m + i + 1) for i in range(m)]
    compare_files(evaluator.to_hdf5()['last_file_names'], files[k], what)
    require([float(x) for x in evaluator.raw_data[1]] == values, what + ': raw data', evaluator.raw_data, values)


# ------------------------------------------------------------------------------------------------------ reevaluation

@st.composite
def history_case(draw):
    n = draw(st.integers(1, 3))
    specs = []
    for i in range(n):
        spec = draw(evaluator_spec(i).filter(lambda s: s['kind'] in ('sensor', 'chrg', 'dist', 'sensor 2d')))
        spec['options'].pop('loadFile', None)
        specs.append(spec)
    return dict(evaluators=specs, iterations=draw(st.integers(1, 6)), stored=draw(st.booleans()), names=draw(gen.permutation(3)),
                requests=draw(st.lists(st.fixed_dictionaries(dict(
                    which=st.integers(0, n - 1), indices=st.one_of(st.integers(0, 6), st.lists(st.integers(0, 6), min_size=1, max_size=3)),
                    hold=st.booleans())), min_size=1, max_size=3)))


@sub('reevaluate', history_case(), quick=150, thorough=3000, rule='an earlier state of several is reevaluated')
def check_reevaluate(case, ctx):
    gates = ['g%02d' % i for i in range(12)]
    bench = Bench(gates)
    specs = case['evaluators']
    for k, spec in enumerate(specs):
        spec['index'] = k + 1
    evaluators = [build(spec, bench.exp, case['names'][k])[0] for k, spec in enumerate(specs)]
    given = [dict(e.measurements[0].options) for e in evaluators]
    parameters = sorted(p for spec in specs for p in spec['parameters'])
    start = pd.Series(0., index=gates)
    estimators = [FiniteDifferencesGradientEstimator(current_position=start, epsilon=pd.Series(.5, index=gates), symmetric=False)
                  for _ in parameters]
    target = make_target(desired=pd.Series(100., index=parameters), tolerance=pd.Series(.001, index=parameters))
    solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=start)
    tuner = SubsetTuner(evaluators, gates, solver=solver, last_voltage=start)
    directory = os.path.join(ctx.tmp(), 'history')
    storage = dict(hdf5_storage_path=directory, append_time_to_path=False) if case['stored'] else {}
    autotuner = Autotuner(bench.exp, tuning_hierarchy=[tuner], **storage)
    history = History(None)
    counter = dict(n=0)

    def data(args):
        counter['n'] += 1
        n = counter['n']
        v = list(bench.engine.hardware.values())
        f = [sum((1 + (i * 7 + j * 3) % 11) * x for j, x in enumerate(v)) + .1 * math.sin(i + n) for i in range(4)]
        size = len(specs[int(args[1]) - 1]['parameters'])
        return Struct(O=f[:size], xVal=f[0], yVal=f[1], minGradData=f[2], triplePointLeft=f[:2], triplePointRight=f[2:4]), 'file %d' % n
    bench.data = data
    recorded = {}
    try:
        for _ in range(2 * case['iterations']):
            autotuner.iterate()
            first = counter['n'] - len(bench.calls)
            history.append_autotuner(autotuner)
            if bench.calls:
                row = history.number_of_stored_iterations - 1
                require(row not in recorded, 'two evaluations in one row')
                recorded[row] = {int(args[1]) - 1: 'file %d' % (first + i + 1) for i, args in enumerate(bench.calls)}
            bench.calls = []
    finally:
        if case['stored']:
            autotuner.asynchrone_writer.join()
    if case['stored']:
        history = History(directory, bench.exp)
        require(history.number_of_stored_iterations > max(recorded), 'number of loaded states')
    rows = sorted(recorded)
    for request in case['requests']:
        k = request['which']
        name = evaluators[k].name
        indices = request['indices']
        wanted = [rows[i % len(rows)] for i in ([indices] if isinstance(indices, int) else indices)]
        bench.calls = []
        asked = []
        builtins_input = builtins.input
        builtins.input = lambda *args: asked.append(args) or ''
        try:
            results = qqd.reevaluate_data_with_matlab(bench.exp, history, name, wanted[0] if isinstance(indices, int) else wanted,
                                                      hold=request['hold'])
        finally:
            builtins.input = builtins_input
        require(len(results) == len(wanted) == len(bench.calls), 'number of results', len(results), len(bench.calls), wanted)
        require(len(asked) == (len(wanted) if request['hold'] else 0), 'number of prompts', len(asked), request['hold'])
        for i, args in zip(wanted, bench.calls):
            options_ = dict(given[k], loadFile=recorded[i][k])
            index = options_.pop('index')
            compare_call(args, evaluators[k].measurements[0].name, index, options_, 'reevaluated state %d' % i)
        for e, options_ in zip(evaluators, given):
            require(dict(e.measurements[0].options) == options_, 'reevaluating changes the options of further measurements',
                    e.measurements[0].options, options_)
        ctx.nontrivial(min(wanted) < rows[-1])
    ctx.label('rows %d' % len(rows), 'loaded' if case['stored'] else 'live')
