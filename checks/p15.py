"""P15: evaluators leave the experiment as found and measure where they claim."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.evaluator import (AveragingEvaluator, Evaluator, InterDotTCByLineScan, LeadTransition,
                             LeadTunnelTimeByLeadScan, LeadTunnelTimePrefitVersion, NewLoadTime, SensingDot1D,
                             SensingDot2D)
from qtune.experiment import Experiment, Measurement
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['the experiment accepts the voltages it reported']

GATES = ['RFA', 'RFB', 'SDB1', 'SDB2', 'N', 'T']


class MeasurementFailed(Exception):
    pass


class Recorder(Experiment):
    """Records everything and answers with data whose features lie at fixed absolute voltages."""

    def __init__(self, voltages, partial):
        self.voltages = voltages
        self.partial = partial
        self.log = []
        self.fail_at = None
        self.scan = dict(step=0.)
        self.counter = 0

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.voltages.index)

    def read_gate_voltages(self):
        return self.voltages.copy()

    def set_gate_voltages(self, new_gate_voltages):
        require(not new_gate_voltages.isna().any(), 'only defined voltages are set', new_gate_voltages)
        require(set(new_gate_voltages.index) <= set(self.voltages.index), 'only gates of the experiment are set',
                new_gate_voltages)
        for gate, voltage in new_gate_voltages.items():
            self.voltages[gate] = voltage
        self.log.append(('set', self.voltages.copy()))
        return self.voltages.copy()

    def measure(self, measurement):
        options = dict(measurement.options)
        self.log.append(('measure', measurement.name, options, self.voltages.copy()))
        self.counter += 1
        if self.fail_at == self.counter:
            raise MeasurementFailed()
        name = measurement.name
        if name == 'load_scan':
            x = np.linspace(0., 500., 100, endpoint=False)
            return np.stack([np.exp(-x / 30.), x])
        if name == 'lead_scan':
            x = np.arange(400) * 10.
            y = np.where((x > 70) & (x < 2070), 1 - 2 * np.exp(-(x - 70) / 50.), -1 + 2 * np.exp(-np.abs(x - 2070) / 50.))
            return np.stack([0 * y, y])
        if name == 'detune_scan':
            x = np.linspace(options['center'] - options['range'], options['center'] + options['range'], options['N_points'])
            return np.tanh((x - options['center']) / 2e-4)
        if name == '2d_scan':
            c, r = options['center'], options['range']
            y = np.linspace(c[0] - r, c[0] + r, options['n_lines'])[:, None]
            x = np.linspace(c[1] - r, c[1] + r, options['n_points'])
            return np.exp(-.5 * ((x - self.scan['peak']) / (.5 * r)) ** 2 - .5 * ((y - self.scan['line']) / (.5 * r)) ** 2)
        # line scans see the real voltage of their gate
        x = np.linspace(options['center'] - options['range'], options['center'] + options['range'], options['N_points'])
        if self.scan['kind'] == 'peak':
            return np.exp(-.5 * ((x - self.scan['peak']) / (.5 * options['range'])) ** 2)
        return np.tanh((x - self.scan['steps'][options['gate']]) / 1e-4)


binary = st.integers(-64, 64).map(lambda i: i / 32)


@st.composite
def evaluator_case(draw):
    kind = draw(st.sampled_from(['transition', 'transition', 'transition', 'dot1d', 'dot2d', 'interdot', 'load', 'lead',
                                 'prefit']))
    n = draw(st.integers(1, 3))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        steps.append(dict(voltages=draw(gen.lists(binary, len(GATES))), fail=draw(gen.maybe(st.integers(1, 3), 3, 1)),
                          offset=draw(gen.dec(-.3, .3, 2)), offset2=draw(gen.dec(-.4, .4, 2)),
                          positions=draw(gen.lists(gen.dec(-.4, .4, 2), 6))))
    return dict(kind=kind, order=draw(gen.permutation(len(GATES))), swept=draw(gen.names(GATES, n)),
                shifted=[draw(st.sampled_from(GATES)) for _ in range(n)], width=draw(st.sampled_from([4e-3, 2.5e-3, -1e-3, .5])),
                default=draw(st.integers(0, 4)) == 0, steps=steps, names=draw(st.booleans()), repeat=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                partial=draw(st.booleans()))


@sub('voltages', evaluator_case(), quick=800, thorough=20000,
     rule='a scan shifts a gate, is centred on the working point, or a measurement raises')
def check_voltages(case, ctx):
    kind, n = case['kind'], len(case['swept'])
    gates = [GATES[i] for i in case['order']]
    experiment = Recorder(pd.Series(np.zeros(len(gates)), gates), case['partial'])
    own = case['names']
    swept, shifted, width = case['swept'], case['shifted'], case['width']
    options = {}
    if kind == 'transition':
        if case['default']:
            swept, shifted, width = ['RFA', 'RFB'], ['RFB', 'RFA'], 4e-3
        else:
            options = dict(shifting_gates=tuple(shifted), sweeping_gates=tuple(swept), charge_diagram_width=width)
            if own:
                options['measurements'] = tuple(Measurement('line_scan', center=0., range=4e-3, gate=g, N_points=200)
                                                for g in swept)
        names = ['position_' + g for g in swept]
        evaluator = LeadTransition(experiment, parameters=tuple(names), **options)
        n = len(swept)
    elif kind == 'dot1d':
        if case['default']:
            swept = ['SDB2']
        else:
            options = dict(sweeping_gate=swept[0])
        names = ['position_' + swept[0], 'current_signal', 'optimal_signal']
        if own:
            options['measurements'] = (Measurement('line_scan', center=None, range=2e-3, gate='SDB2', N_points=640),)
        evaluator = SensingDot1D(experiment, parameters=tuple(names), **options)
        n = 1
    elif kind == 'dot2d':
        swept = (swept + [g for g in GATES if g not in swept])[:2]
        if own:
            # the measurement names its gates
            options = dict(measurements=(Measurement('2d_scan', center=[None, None], range=6e-3, gate1=swept[0], gate2=swept[1],
                                                     n_lines=20, n_points=104),))
            if not case['default']:
                options['sweeping_gates'] = tuple(swept)
        elif case['default']:
            swept = ['SDB1', 'SDB2']
        else:
            options = dict(sweeping_gates=tuple(swept), scan_range=6e-3)
        names = ['position_' + g for g in swept]
        evaluator = SensingDot2D(experiment, parameters=tuple(names), **options)
        n = 1
    else:
        cls, names = {'interdot': (InterDotTCByLineScan, ['parameter_tunnel_coupling']),
                      'load': (NewLoadTime, ['parameter_time_load']),
                      'lead': (LeadTunnelTimeByLeadScan, ['parameter_time_rise', 'parameter_time_fall']),
                      'prefit': (LeadTunnelTimePrefitVersion, ['parameter_time_rise', 'parameter_time_fall'])}[kind]
        if own:
            names = ['my ' + name for name in names]
            options['parameters'] = tuple(names)
        evaluator = cls(experiment, **options)
        n = 1
    repeat = case['repeat']
    if repeat:
        evaluator = AveragingEvaluator(evaluator, n_measurement_repetitions=repeat)
    ctx.label(kind + (' averaged' if repeat else ''))
    for step in case['steps']:
        before = pd.Series(step['voltages'], gates)
        experiment.voltages[:] = before
        experiment.log, experiment.counter, experiment.fail_at = [], 0, step['fail']
        total = n * (repeat or 1)
        if kind in ('dot1d', 'dot2d'):
            half = evaluator.measurements[0].options['range']
            experiment.scan = dict(kind='peak', line=before[swept[0]] + step['offset2'] * half,
                                   peak=before[swept[-1 if kind == 'dot2d' else 0]] + (step['offset'] + .5) * half)
        else:
            experiment.scan = dict(kind='steps', steps={g: p * 4e-3 for g, p in zip(GATES, step['positions'])})
        raised = False
        try:
            values, variances = evaluator.evaluate()
        except MeasurementFailed:
            raised = True
        require(raised == (step['fail'] is not None and step['fail'] <= total), 'errors of the experiment are passed on')
        require(experiment.voltages.equals(before), 'all voltages are as before', before.to_dict(),
                experiment.voltages.to_dict())
        measured = [entry for entry in experiment.log if entry[0] == 'measure']
        require(len(measured) == (step['fail'] if raised else total), 'every scan is carried out exactly once', len(measured))
        if raised:
            ctx.nontrivial()
            ctx.label('measurement raises')
        for i, (_, name, used, voltages) in enumerate(measured):
            expected = before.copy()
            if kind == 'transition':
                ctx.nontrivial()
                expected[shifted[i % n]] -= width
                require(used['gate'] == swept[i % n], 'the configured gate is swept', used, swept)
            require(np.allclose(voltages, expected, rtol=0, atol=1e-12), 'the scan is measured at the configured voltages',
                    voltages.to_dict(), expected.to_dict())
            if kind == 'dot1d':
                ctx.nontrivial()
                require(used['gate'] == swept[0] and used['center'] == before[swept[0]],
                        'the scan is centred on the voltage of the swept gate', used, before.to_dict())
            if kind == 'dot2d':
                ctx.nontrivial()
                require([used['gate1'], used['gate2']] == swept and list(used['center']) == [before[g] for g in swept],
                        'the scan is centred on the voltages of the swept gates', used, before.to_dict())
        if raised:
            continue
        require(list(values.index) == names and list(variances.index) == names,
                'exactly the parameters of the evaluator are returned', list(values.index), list(variances.index), names)
        require(list(evaluator.parameters) == names, 'the evaluator announces its parameters', evaluator.parameters)
        if kind == 'transition':
            for gate, name in zip(swept, names):
                require(abs(values[name] - experiment.scan['steps'][gate]) < 3e-4, 'the position belongs to the swept gate',
                        name, values, experiment.scan['steps'])
        if kind == 'dot1d':
            require(abs(values[names[0]] - (before[swept[0]] + step['offset'] * half)) < .05 * half,
                    'the position is an absolute voltage', values, before.to_dict())
        if kind == 'dot2d':
            require(abs(values[names[1]] - (before[swept[1]] + step['offset'] * half)) < .08 * half and
                    abs(values[names[0]] - experiment.scan['line']) < .12 * half,
                    'the positions are absolute voltages', values, before.to_dict())


class Scripted(Evaluator):
    def __init__(self, parameters, results):
        super().__init__(experiment=None, measurements=(Measurement('m', a=1),), parameters=parameters, raw_x_data=None,
                         raw_y_data=None, name='scripted')
        self.results = list(results)
        self.calls = 0

    def evaluate(self):
        result = self.results[self.calls % len(self.results)]
        self.calls += 1
        self._raw_x_data = np.array([self.calls, 0.])
        self._raw_y_data = np.array([self.calls, 1.])
        return pd.Series(result, self.parameters), pd.Series(1e3, self.parameters)

    def to_hdf5(self):
        return dict(parameters=self.parameters, results=self.results)


@st.composite
def averaging_case(draw):
    n_par = draw(st.integers(1, 3))
    n = draw(st.integers(1, 6))
    value = st.one_of(gen.dec(-4, 4), gen.dec(-4, 4), gen.dec(-4, 4), st.none())
    return dict(names=draw(gen.names(gen.PARAMS, n_par)), n=n, evaluations=draw(st.lists(
        gen.matrix(value, n, n_par), min_size=1, max_size=3)), order=draw(gen.permutation(n_par)))


@sub('averaging', averaging_case(), quick=800, thorough=20000, rule='several repetitions, some of which succeed and some fail')
def check_averaging(case, ctx):
    names, n = case['names'], case['n']
    results = [[np.nan if x is None else x for x in row] for evaluation in case['evaluations'] for row in evaluation]
    inner = Scripted(tuple(names), results)
    evaluator = AveragingEvaluator(inner, n_measurement_repetitions=n)
    require(list(evaluator.parameters) == names, 'the parameters are those of the averaged evaluator', evaluator.parameters)
    require(list(evaluator.measurements) == list(inner.measurements), 'the measurements are those of the averaged evaluator')
    calls = 0
    for evaluation in case['evaluations']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            values, variances = evaluator.evaluate()
        require(inner.calls == calls + n, 'exactly the configured number of repetitions', inner.calls - calls, n)
        require(list(values.index) == names and list(variances.index) == names,
                'exactly the parameters of the evaluator are returned', values, variances)
        for j, name in enumerate(names):
            data = [row[j] for row in evaluation if row[j] is not None]
            if len(data) < n:
                ctx.label('failures')
                if data:
                    ctx.nontrivial()
            if not data:
                require(np.isnan(values[name]), 'undefined if all repetitions failed', values)
                continue
            mean = sum(data) / len(data)
            variance = sum((x - mean) ** 2 for x in data) / len(data) / len(data)
            require(abs(values[name] - mean) < 1e-12, 'the mean of the successful repetitions', name, values, mean)
            require(abs(variances[name] - variance) < 1e-12, 'the variance of the mean of the successful repetitions', name,
                    variances, variance)
        raw_x, raw_y = evaluator.raw_data
        require(len(raw_x) == n and len(raw_y) == n and
                all(np.array_equal(raw_x[i], [calls + i + 1, 0]) and np.array_equal(raw_y[i], [calls + i + 1, 1])
                    for i in range(n)), 'the raw data are those of all repetitions', raw_x, raw_y)
        calls += n
