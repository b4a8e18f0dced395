"""P14: fits recover the physical parameter that generated the data."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.evaluator import (InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan,
                             LeadTunnelTimePrefitVersion, NewLoadTime, SensingDot1D, SensingDot2D)
from qtune.experiment import Experiment, Measurement
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['the transition line lies outside the first and last quarter of the scan and is 3 to 9 samples wide',
                        'reload times between 4 and 200 time units and inside the scan',
                        'tunnelling times between 40 ns and 300 ns at pulses of 2 us',
                        'lead transitions and coulomb peaks are resolved by the scan and inside its inner part',
                        'noise below 0.3 % of the signal height']

FIT = {'interdot': ['offset', 'slope', 'height', 'position', 'width'], 'load': ['offset', 'height', 'curvature'],
       'lead': ['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset']}


class Scanner(Experiment):
    """Answers every measurement with the data of a function of the voltages and the measurement."""

    def __init__(self, voltages):
        self.voltages = voltages
        self.answer = None
        self.calls = []

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.voltages.index)

    def read_gate_voltages(self):
        return self.voltages.copy()

    def set_gate_voltages(self, new_gate_voltages):
        for gate, voltage in new_gate_voltages.items():
            self.voltages[gate] = voltage
        return self.voltages.copy()

    def measure(self, measurement):
        self.calls.append((measurement.name, dict(measurement.options), self.voltages.copy()))
        return self.answer(measurement)


def logspace(lo, hi):
    return st.integers(0, 1000).map(lambda i: float('%.4g' % (lo * (hi / lo) ** (i / 1000))))


def noise_of(case, size, height):
    if not case['noise']:
        return np.zeros(size)
    return .003 * abs(height) * np.random.RandomState(case['seed']).randn(*np.atleast_1d(size))


def check_returned(values, variances, parameters):
    for series, what in ((values, 'values'), (variances, 'variances')):
        require(isinstance(series, pd.Series), 'evaluate returns labelled ' + what, type(series))
        require(list(series.index) == list(parameters), 'the %s are those of the parameters of the evaluator' % what,
                list(series.index), list(parameters))


def same(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def is_nan_series(series, names):
    return isinstance(series, pd.Series) and sorted(series.index) == sorted(names) and series.isna().all()


bad_data = st.sampled_from(['nan', 'part', 'noise', 'inf'])


def spoil(kind, data, seed):
    data = np.array(data, dtype=float)
    random = np.random.RandomState(seed)
    if kind == 'nan':
        data[...] = np.nan
    elif kind == 'inf':
        data.flat[::7] = np.inf
    elif kind == 'part':
        data.flat[::7] = np.nan
    else:
        data = random.randn(*data.shape)
    return data


@st.composite
def scans(draw, one, n_max=3):
    """A history of scans with the same evaluator, some of them giving useless data."""
    return dict(scans=[dict(draw(one), bad=draw(st.one_of(st.none(), st.none(), st.none(), bad_data)),
                            noise=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))
                       for _ in range(draw(st.integers(1, n_max)))])


class Snapshots:
    """Data of previous evaluations handed out by the evaluator must not change later on."""

    def __init__(self):
        self.items = []

    def keep(self, what, obj):
        if obj is None:
            return
        if isinstance(obj, dict):
            obj = pd.Series(obj)
        self.items.append((what, obj, np.array(obj, dtype=float)))

    def verify(self):
        for what, obj, copy in self.items:
            require(same(obj, copy), 'the %s of a previous evaluation stays unchanged' % what, obj, copy)


# -- inter dot transition line ------------------------------------------------------------------------------------------

interdot_scan = st.fixed_dictionaries(dict(
    width=gen.dec(3., 9., 2), position=gen.dec(-.3, .3, 3), height=st.tuples(logspace(.03, 1e3), st.booleans()).map(
        lambda t: t[0] if t[1] else -t[0]), offset=gen.dec(-5, 5), slope=gen.dec(-2, 2),
    gaps=st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 79)), max_size=5))))


@st.composite
def interdot_case(draw):
    case = draw(scans(interdot_scan))
    return dict(case, n=draw(st.sampled_from([80, 100, 101, 120, 160, 200])), lines=draw(st.sampled_from([0, 0, 1, 3])),
                center=draw(st.sampled_from([0., 0., .5, -.01, 1e-3])), name=draw(st.sampled_from(['parameter_tunnel_coupling', 'tc'])))


@sub('interdot', interdot_case(), quick=500, thorough=12000,
     rule='at least one scan with a transition away from the centre')
def check_interdot(case, ctx):
    n, lines = case['n'], case['lines']
    half = 2e-3
    measurement = Measurement('detune_scan', center=case['center'], range=half, N_points=n, ramptime=.02, N_average=5,
                              AWGorDecaDAC='AWG')
    experiment = Scanner(pd.Series([0.], ['A']))
    evaluator = InterDotTCByLineScan(experiment, parameters=(case['name'],), measurements=(measurement,))
    snapshots = Snapshots()
    x = np.linspace(case['center'] - half, case['center'] + half, n)
    for scan in case['scans']:
        h = scan['height']
        # the width is given in samples of the coarsest scan (50 um) to stay around the 130 um the fit starts from
        width, position = scan['width'] * 4e-5, case['center'] + scan['position'] * half
        slope = scan['slope'] * abs(h) / (2 * half)
        clean = scan['offset'] * h + slope * (x - case['center']) + .5 * h * (1 + np.tanh((x - position) / width))
        noise = noise_of(scan, n, h)
        if lines:
            # the average over the lines is the data
            spread = np.arange(lines) - (lines - 1) / 2
            data = clean + noise + .1 * h * spread[:, None]
            if lines > 1 and scan.get('gaps'):
                # points which are missing in one of the lines
                data = np.tile(clean + noise, (lines, 1))
                for column in {c for _, c in scan['gaps']}:
                    data[[r for r, c in scan['gaps'] if c == column][0], column] = np.nan
                ctx.label('missing points')
        else:
            data = clean + noise
        if scan['bad']:
            data = spoil(scan['bad'], data, scan['seed'])
        sent = data.copy()
        experiment.answer = lambda m: data
        values, variances = evaluator.evaluate()
        check_returned(values, variances, [case['name']])
        require(same(data, sent), 'the raw data are not modified')
        value, variance = values[case['name']], variances[case['name']]
        raw_x, raw_y = evaluator.raw_data
        require(same(raw_x, x) and same(raw_y, np.squeeze(data)), 'the raw data belong to the scan', raw_x, raw_y)
        fit = evaluator.fit_results
        require(same(fit['width'], value), 'the fit results belong to the scan', fit, value)
        initial, intermediate = evaluator.initial_fit_arguments, evaluator.intermediate_fit_arguments
        if scan['bad'] in ('nan', 'inf') or (scan['bad'] == 'part' and lines < 2):
            ctx.label('undefined data')
            require(np.isnan(value) and is_nan_series(fit, FIT['interdot']), 'undefined data give an undefined parameter',
                    value, fit)
        if scan['bad'] and np.isnan(value):
            require(not intermediate.notna().any() or scan['bad'] in ('noise', 'part'),
                    'no intermediate results of previous scans are kept', intermediate)
        if not scan['bad']:
            ctx.label('noisy' if scan['noise'] else 'clean')
            if scan['position'] != 0:
                ctx.nontrivial()
            tolerance = .15 if scan['noise'] else 1e-4
            require(abs(value / width - 1) < tolerance, 'the width of the transition is recovered', value, width)
            require(abs(fit['position'] - position) < (.3 * width if scan['noise'] else 1e-4 * half),
                    'the position of the transition is recovered', fit['position'], position)
            require(abs(fit['height'] / h - 1) < (.1 if scan['noise'] else 1e-4), 'the height is recovered', fit, h)
            require(0 <= variance and (variance < 1e-8 or scan['noise']), 'the variance is the scaled residual', variance)
            require(abs(initial['position'] - position) < .3 * half, 'the initial guess belongs to the scan', initial)
            require(abs(intermediate['position'] - position) < 1.5 * width, 'the intermediate fit belongs to the scan',
                    intermediate)
            again, _ = evaluator.process_raw_data((raw_x, raw_y))
            require(abs(again['width'] / value - 1) < 1e-9, 'the raw data reproduce the result', again, value)
        snapshots.keep('fit results', evaluator.fit_results)
        snapshots.keep('initial guess', initial)
        snapshots.keep('intermediate fit', intermediate)
        snapshots.verify()


# -- singlet reload -----------------------------------------------------------------------------------------------------

load_scan = st.fixed_dictionaries(dict(
    tau=logspace(4., 200.), height=st.tuples(logspace(.03, 1e3), st.booleans()).map(
        lambda t: t[0] if t[1] else -t[0]), offset=gen.dec(-5, 5)))


@st.composite
def load_case(draw):
    case = draw(scans(load_scan))
    return dict(case, n=draw(st.sampled_from([60, 100, 150])), stop=draw(st.sampled_from([500., 600.])),
                name=draw(st.sampled_from(['parameter_time_load', 'tl'])), own=draw(st.booleans()),
                start=draw(st.sampled_from([30, 30, 15, 60])))


@sub('load', load_case(), quick=600, thorough=15000, rule='at least one scan with useful data')
def check_load(case, ctx):
    n = case['n']
    x = np.linspace(0, case['stop'], n, endpoint=False)
    experiment = Scanner(pd.Series([0.], ['A']))
    given = pd.Series([.1, .2, 10.], FIT['load'])
    kept = given.copy()
    evaluator = NewLoadTime(experiment, parameters=(case['name'],), initial_curvature=case['start'],
                            **(dict(initial_fit_arguments=given) if case['own'] else {}))
    snapshots = Snapshots()
    for scan in case['scans']:
        h, tau = scan['height'], scan['tau']
        y = scan['offset'] * h + h * np.exp(-x / tau) + noise_of(scan, n, h)
        if scan['bad']:
            y = spoil(scan['bad'], y, scan['seed'])
        data = np.stack([y, x])
        sent = data.copy()
        experiment.answer = lambda m: data
        values, variances = evaluator.evaluate()
        check_returned(values, variances, [case['name']])
        require(same(data, sent), 'the raw data are not modified')
        value, variance = values[case['name']], variances[case['name']]
        raw_x, raw_y = evaluator.raw_data
        require(same(raw_x, x) and same(raw_y, y), 'the raw data belong to the scan', raw_x, raw_y)
        fit, initial = evaluator.fit_results, evaluator.initial_fit_arguments
        require(same(fit['curvature'], value), 'the fit results belong to the scan', fit, value)
        require(same(initial['offset'], np.nanmin(y) if not np.isnan(y).all() else np.nan),
                'the initial guess belongs to the scan', initial)
        if scan['bad'] in ('nan', 'part', 'inf'):
            ctx.label('undefined data')
            require(np.isnan(value) and is_nan_series(fit, FIT['load']), 'undefined data give an undefined parameter',
                    value, fit)
        if not scan['bad']:
            ctx.label('noisy' if scan['noise'] else 'clean')
            ctx.nontrivial()
            require(abs(value / tau - 1) < (.1 if scan['noise'] else 1e-3), 'the reload time is recovered', value, tau)
            require(abs(fit['height'] / h - 1) < (.1 if scan['noise'] else 1e-3), 'the height is recovered', fit, h)
            require(abs(fit['offset'] - scan['offset'] * h) < (.05 if scan['noise'] else 1e-3) * abs(h),
                    'the offset is recovered', fit, h)
            require(0 <= variance and (variance < 1e-6 or scan['noise']), 'the variance is the scaled residual', variance)
        snapshots.keep('fit results', fit)
        snapshots.keep('initial guess', initial)
        snapshots.verify()
    require(same(given, kept), 'the arguments of the constructor are not modified', given)


# -- tunnelling times ---------------------------------------------------------------------------------------------------

lead_scan = st.fixed_dictionaries(dict(
    t_rise=st.integers(40, 300), t_fall=st.integers(40, 300), rise=st.integers(50, 90), fall=st.integers(2050, 2090),
    height=st.tuples(logspace(.03, 1e3), st.booleans()).map(lambda t: t[0] if t[1] else -t[0]),
    offset=gen.dec(-3, 3)))


@st.composite
def lead_case(draw):
    case = draw(scans(lead_scan, 2))
    case['scans'] = [dict(s, bad='nan' if s['bad'] == 'noise' else s['bad']) for s in case['scans']]
    return dict(case, kind=draw(st.sampled_from(['prefit', 'prefit', 'prefit', 'scan'])),
                names=draw(st.sampled_from([['parameter_time_rise', 'parameter_time_fall'], ['rise B', 'fall B']])))


def lead_model(x, scan):
    """Response of the population of a level with different rates to a square wave with a half period of 2 us."""
    period = 2000.

    def relaxation(t, tau):
        q = np.exp(-period / tau)
        return (1 + q - 2 * np.exp(-t / tau)) / (1 - q)

    rising = relaxation(x - scan['rise'], scan['t_rise'])
    falling = -relaxation(x - scan['fall'], scan['t_fall'])
    wrapped = -relaxation(x + x[-1] - scan['fall'], scan['t_fall'])
    return .5 * scan['height'] * np.where(x < scan['rise'], wrapped, np.where(x < scan['fall'], rising, falling))


@sub('lead', lead_case(), quick=160, thorough=4000, rule='different rise and fall times')
def check_lead(case, ctx):
    n = 400
    x = np.arange(n) * 10.
    experiment = Scanner(pd.Series([0.], ['A']))
    cls = LeadTunnelTimePrefitVersion if case['kind'] == 'prefit' else LeadTunnelTimeByLeadScan
    rise_name, fall_name = case['names']
    evaluator = cls(experiment, parameters=tuple(case['names']))
    snapshots = Snapshots()
    for scan in case['scans']:
        h = scan['height']
        y = scan['offset'] * h + lead_model(x, scan) + noise_of(scan, n, h)
        if scan['bad']:
            y = spoil(scan['bad'], y, scan['seed'])
        background = np.cos(np.arange(n)) * h
        data = np.stack([background, background + y])
        sent = data.copy()
        experiment.answer = lambda m: data
        values, variances = evaluator.evaluate()
        check_returned(values, variances, case['names'])
        require(same(data, sent), 'the raw data are not modified')
        raw_x, raw_y = evaluator.raw_data
        require(np.allclose(raw_x, x * 1e-9, rtol=1e-12, atol=0) and same(raw_y, data[1] - data[0]),
                'the raw data belong to the scan', raw_x, raw_y)
        fit = evaluator.fit_results
        require(same(values[[rise_name, fall_name]], fit[['t_rise', 't_fall']]), 'the fit results belong to the scan',
                fit, values)
        if scan['bad']:
            ctx.label('undefined data')
            require(values.isna().all() and fit.isna().all(), 'undefined data give undefined parameters', values, fit)
        else:
            if scan['t_rise'] != scan['t_fall']:
                ctx.nontrivial()
            error = max(abs(values[rise_name] / scan['t_rise'] * 1e9 - 1), abs(values[fall_name] / scan['t_fall'] * 1e9 - 1))
            if case['kind'] == 'scan':
                if error > .1:
                    ctx.known('lead-scan-fit', 'LeadTunnelTimeByLeadScan does not recover the tunnelling times')
            else:
                ctx.label('noisy' if scan['noise'] else 'clean')
                require(error < (.15 if scan['noise'] else 1e-3), 'the tunnelling times are recovered', values, scan)
                require(abs(fit['height'] / h - 1) < (.05 if scan['noise'] else 1e-3), 'the height is recovered', fit, h)
                require((variances > 0).all(), 'the variances are positive', variances)
        snapshots.keep('fit results', fit)
        snapshots.keep('initial guess', evaluator.initial_fit_arguments)
        snapshots.verify()


# -- lead transitions ---------------------------------------------------------------------------------------------------

@st.composite
def transition_case(draw):
    n_gates = draw(st.integers(1, 3))
    gates = draw(gen.names(['RFA', 'RFB', 'A', 'T'], n_gates + 1))
    width = draw(st.sampled_from([.2e-3, .1e-3, .4e-3]))
    measurements = []
    for i in range(n_gates):
        measurements.append(dict(center=draw(st.sampled_from([0., 0., -.3, 2e-3])), range=draw(st.sampled_from([4e-3, 2e-3, 6e-3])),
                                 n=draw(st.sampled_from([160, 320, 321, 500]))))
    repetitions = []
    for _ in range(draw(st.integers(1, 2))):
        repetitions.append([dict(position=draw(gen.dec(-.6, .6)), sharp=draw(gen.dec(.3, 1., 2)), slope=draw(gen.dec(-.2, .2, 2)),
                                 height=draw(st.tuples(logspace(.03, 1e3), st.booleans()).map(
                                     lambda t: t[0] if t[1] else -t[0])), offset=draw(gen.dec(-3, 3)),
                                 lines=draw(st.sampled_from([0, 0, 3])), noise=draw(st.booleans()),
                                 bad=draw(st.integers(0, 7)) == 0, seed=draw(st.integers(0, 10 ** 6)))
                            for _ in range(n_gates)])
    return dict(gates=gates, width=width, measurements=measurements, repetitions=repetitions,
                default_names=draw(st.booleans()), explicit=draw(st.booleans()))


@sub('transition', transition_case(), quick=600, thorough=15000, rule='several scans with different options or positions')
def check_transition(case, ctx):
    n_gates = len(case['measurements'])
    swept, shifted = case['gates'][:n_gates], case['gates'][1:n_gates + 1]
    names = ['position_' + g if case['default_names'] else 'transition %d' % i for i, g in enumerate(swept)]
    measurements = [Measurement('line_scan', center=m['center'], range=m['range'], gate=g, N_points=m['n'])
                    for g, m in zip(swept, case['measurements'])]
    experiment = Scanner(pd.Series(np.arange(4.), ['RFA', 'RFB', 'A', 'T']))
    options = dict(transition_width=case['width']) if case['explicit'] or case['width'] != .2e-3 else {}
    evaluator = LeadTransition(experiment, shifting_gates=tuple(shifted), sweeping_gates=tuple(swept),
                               measurements=measurements, parameters=tuple(names), **options)
    if n_gates > 1:
        ctx.nontrivial()
    snapshots = Snapshots()
    for repetition in case['repetitions']:
        expected, data = {}, {}
        for gate, name, m, s in zip(swept, names, case['measurements'], repetition):
            x = np.linspace(m['center'] - m['range'], m['center'] + m['range'], m['n'])
            window = int(case['width'] / m['range'] * m['n'])
            pitch = 2 * m['range'] / (m['n'] - 1)
            position = m['center'] + s['position'] * m['range']
            y = .5 * s['height'] * np.tanh((x - position) / (s['sharp'] * window * pitch))
            y = y + s['offset'] * s['height'] + s['slope'] * s['height'] * (x - m['center']) / (2 * m['range'])
            y = y + noise_of(s, m['n'], s['height'])
            if s['bad']:
                y[::5] = np.nan
            if s['lines']:
                y = y + .2 * s['height'] * (np.arange(s['lines'])[:, None] - (s['lines'] - 1) / 2)
            data[gate] = y
            tolerance = (window / 2 + 3 if s['noise'] else 2.01) * pitch
            expected[name] = (np.nan if s['bad'] else position, tolerance, x, y)
        experiment.answer = lambda measurement: data[measurement.options['gate']].copy()
        values, variances = evaluator.evaluate()
        check_returned(values, variances, names)
        for i, name in enumerate(names):
            position, tolerance, x, y = expected[name]
            raw_x, raw_y = evaluator.raw_data[0][i], evaluator.raw_data[1][i]
            require(np.allclose(raw_x, x, rtol=0, atol=1e-15), 'the raw data belong to the scan', name)
            require(same(raw_y, y if y.ndim == 1 else y.mean(0)), 'the raw data belong to the scan', name)
            require(same(evaluator.transition_positions[name], values[name]), 'the displayed position is the returned one')
            if np.isnan(position):
                ctx.label('undefined data')
                require(np.isnan(values[name]), 'undefined data give an undefined position', values)
            else:
                require(abs(values[name] - position) < tolerance, 'the position of the transition is found', name, values[name],
                        position, tolerance)
                require(np.min(np.abs(x - values[name])) < 1e-12, 'the position is a voltage of the scan', values[name])
                require(variances[name] > 0, 'the variances are positive', variances)
        snapshots.keep('positions', values)
        snapshots.verify()


# -- sensing dots -------------------------------------------------------------------------------------------------------

peak = dict(width=gen.dec(.3, .6), flank=gen.dec(-.6, .6), height=st.tuples(logspace(.03, 1e3), st.booleans()).map(
    lambda t: t[0] if t[1] else -t[0]), offset=gen.dec(-3, 3), volt=gen.dec(-2, 2),
    bad=st.integers(0, 9).map(lambda i: 'nan' if i == 0 else 'part' if i == 1 else None))


@st.composite
def dot1d_case(draw):
    return dict(scans=draw(st.lists(st.fixed_dictionaries(peak), min_size=1, max_size=3)), range=draw(st.sampled_from([4e-3, 1e-2, 1e-3])),
                n=draw(st.sampled_from([320, 640, 1280, 1281])), rising=draw(st.sampled_from([None, True, False])),
                gate=draw(st.sampled_from(['SDB2', 'SA'])), row=draw(st.booleans()))


def gaussian_peak(x, scan, half, center, rising):
    """A coulomb peak and its selected flank, the height may be negative."""
    width = scan['width'] * half
    flank = center + scan['flank'] * half
    # the selected flank of a peak lies on the left exactly if the sign of the slope is that of the height
    top = flank + width if (scan['height'] > 0) == rising else flank - width
    return scan['height'] * np.exp(-.5 * ((x - top) / width) ** 2), flank, top, width


@sub('dot1d', dot1d_case(), quick=500, thorough=12000, rule='a working point away from 0 V')
def check_dot1d(case, ctx):
    gate, half, n = case['gate'], case['range'], case['n']
    rising = case['rising'] is not False
    experiment = Scanner(pd.Series([0., .25], [gate, 'B']))
    measurement = Measurement('line_scan', center=None, range=half, gate=gate, N_points=n)
    names = ['position_' + gate, 'current_signal', 'optimal_signal']
    evaluator = SensingDot1D(experiment, sweeping_gate=gate, parameters=tuple(names), measurements=(measurement,),
                             rising_flank=case['rising'])
    for scan in case['scans']:
        center = scan['volt']
        if center != 0:
            ctx.nontrivial()
        experiment.voltages[gate] = center
        x = np.linspace(center - half, center + half, n)
        y, flank, top, width = gaussian_peak(x, scan, half, center, rising)
        y = y + scan['offset'] * scan['height']
        if scan['bad']:
            y = spoil(scan['bad'], y, 0)
        experiment.answer = lambda m: y[None].copy() if case['row'] else y.copy()
        values, variances = evaluator.evaluate()
        check_returned(values, variances, names)
        require(np.allclose(evaluator.raw_data[0], x, rtol=0, atol=1e-12) and same(np.squeeze(evaluator.raw_data[1]), y),
                'the raw data belong to the scan')
        require(same(values[names], [evaluator.optimal_position, evaluator.current_signal, evaluator.optimal_signal]),
                'the displayed values are the returned ones', values)
        if scan['bad']:
            ctx.label('undefined data')
            require(values.isna().all(), 'undefined data give undefined values', values)
            continue
        ctx.label('rising' if rising else 'falling')
        pitch = 2 * half / (n - 1)
        steepest = abs(scan['height']) / width * np.exp(-.5) * pitch
        here = -scan['height'] * (center - top) / width ** 2 * np.exp(-.5 * ((center - top) / width) ** 2) * pitch
        require(abs(values[names[0]] - flank) < .03 * half, 'the steepest point of the flank is found', values, flank)
        require(abs(values['optimal_signal'] - (1 if rising else -1) * steepest) < .1 * steepest,
                'the optimal signal is the slope of the flank', values, steepest)
        require(abs(values['current_signal'] - here) < .1 * steepest, 'the current signal is the slope at the voltage of the gate',
                values, here)


@st.composite
def dot2d_case(draw):
    one = dict(peak, width=gen.dec(.25, .5), volt1=gen.dec(-2, 2), line=gen.dec(-.9, .9), width1=gen.dec(.2, .6))
    return dict(scans=draw(st.lists(st.fixed_dictionaries(one), min_size=1, max_size=2)), range=draw(st.sampled_from([5e-3, 1e-2])),
                n_points=draw(st.sampled_from([90, 104, 128])), n_lines=draw(st.sampled_from([7, 12, 20])),
                rising=draw(st.sampled_from([None, True, False])), gates=draw(gen.names(['SDB1', 'SDB2', 'SA'], 2)))


@sub('dot2d', dot2d_case(), quick=300, thorough=8000, rule='working points of the two gates differ')
def check_dot2d(case, ctx):
    gate1, gate2 = case['gates']
    half = case['range']
    rising = case['rising'] is not False
    experiment = Scanner(pd.Series([0., 0., .25], [gate2, gate1, 'B']))
    measurement = Measurement('2d_scan', center=[None, None], range=half, gate1=gate1, gate2=gate2,
                              n_lines=case['n_lines'], n_points=case['n_points'])
    names = ['position_' + gate1, 'position_' + gate2]
    evaluator = SensingDot2D(experiment, sweeping_gates=(gate1, gate2), scan_range=half, parameters=tuple(names),
                             measurements=(measurement,), rising_flank=case['rising'])
    for scan in case['scans']:
        center, center1 = scan['volt'], scan['volt1']
        if center != center1:
            ctx.nontrivial()
        experiment.voltages[gate2], experiment.voltages[gate1] = center, center1
        x = np.linspace(center - half, center + half, case['n_points'])
        lines = np.linspace(center1 - half, center1 + half, case['n_lines'])
        y, flank, _, _ = gaussian_peak(x, scan, half, center, rising)
        line = center1 + scan['line'] * half
        y = y * np.exp(-.5 * ((lines - line) / (scan['width1'] * half)) ** 2)[:, None] + scan['offset'] * scan['height']
        if scan['bad'] == 'nan':
            y = np.full_like(y, np.nan)
        elif scan['bad'] == 'part':
            y[np.argmax(np.abs(lines - line))] = np.nan
        experiment.answer = lambda m: y.copy()
        values, variances = evaluator.evaluate()
        check_returned(values, variances, names)
        raw_x, raw_y = evaluator.raw_data
        require(np.allclose(raw_x[0], lines, rtol=0, atol=1e-12) and np.allclose(raw_x[1], x, rtol=0, atol=1e-12) and
                same(raw_y, y), 'the raw data belong to the scan')
        if scan['bad'] == 'nan':
            ctx.label('undefined data')
            require(values.isna().all(), 'undefined data give undefined positions', values)
            continue
        ctx.label('rising' if rising else 'falling')
        require(abs(values[names[1]] - flank) < .06 * half, 'the steepest point of the flank is found', values, flank)
        require(abs(values[names[0]] - line) < 1.01 * 2 * half / (case['n_lines'] - 1), 'the line with the steepest flank is found',
                values, line)
        require((variances > 0).all(), 'the variances are positive', variances)
