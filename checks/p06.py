"""P06: sensing dot tuning forwards detected positions and measures only as needed."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.evaluator import Evaluator, SensingDot1D, SensingDot2D
from qtune.experiment import Experiment, Measurement
from qtune.parameter_tuner import SensingDotTuner
from qtune.solver import ForwardingSolver, make_target
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['the dot was tuned once before a failing evaluation (there is nothing to go back to otherwise)',
                        'the expensive evaluation succeeds']


class StubEvaluator(Evaluator):
    def __init__(self, params):
        super().__init__(experiment=None, measurements=(), parameters=params, raw_x_data=(None,), raw_y_data=(None,),
                         name='stub')
        self.result = None
        self.calls = 0

    def evaluate(self):
        self.calls += 1
        return self.result[0].copy(), self.result[1].copy()

    def to_hdf5(self):
        return {}


binary = st.integers(-24, 24).map(lambda i: i / 8)


@st.composite
def sensing_case(draw):
    n_gates = draw(st.integers(1, 4))
    gates = draw(gen.names(gen.GATES, n_gates))
    n_sig = draw(st.integers(1, 3))
    n_pos = draw(st.integers(1, n_gates))
    names_ = draw(gen.names(['current_signal', 'optimal_signal', 'contrast', 's 2'], n_sig)) + [
        'position_' + g for g in gates[:n_pos]]
    n = len(names_)
    cheap = [draw(st.booleans()) for _ in range(n)]
    cheap[0] = True
    expensive = [draw(st.integers(0, 3)) > 0 for _ in range(n)]
    for i in range(n):
        if not cheap[i]:
            expensive[i] = True
    if not any(expensive):
        expensive[-1] = True
    steps = []
    for i in range(draw(st.integers(1, 10))):
        steps.append(dict(kind='evaluate',
                          # in eighths relative to the minimum
                          sig=draw(gen.lists(st.integers(-6, 8), n_sig)),
                          sig_e=draw(gen.lists(st.integers(-6, 8), n_sig)),
                          pos=draw(gen.lists(binary, n_pos)), pos_e=draw(gen.lists(binary, n_pos)),
                          fail=draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, n - 1))),
                          move=draw(gen.maybe(gen.lists(binary, n_gates), 2, 1)),
                          order=draw(gen.permutation(n_gates)),
                          again=draw(st.integers(0, 4)) == 0))
    return dict(gates=gates, names=names_, n_sig=n_sig, cheap=cheap, expensive=expensive, order=draw(gen.permutation(n)),
                eval_order=draw(gen.permutation(n)), pos_order=draw(gen.permutation(n_gates)),
                split=draw(st.integers(0, 3)),
                minimum=draw(gen.lists(gen.maybe(binary, 1, 3), n_sig)),
                # in eighths below/above the minimum
                threshold=draw(gen.lists(gen.maybe(st.integers(-6, 3), 1, 3), n_sig)),
                unset=draw(st.sampled_from(['-inf', 'nan'])),
                scale=draw(gen.maybe(gen.lists(st.sampled_from([.25, .5, 2., 8., 1024.]), n), 1, 2)),
                initially_tuned=draw(st.booleans()), v0=draw(gen.lists(binary, n_gates)), steps=steps)


@sub('sensing', sensing_case(), quick=1500, thorough=30000,
     rule='expensive evaluation with rescaled positions, or a cheap forward, or a recovery')
def check_sensing(case, ctx):
    gates, all_names, n_sig = case['gates'], case['names'], case['n_sig']
    order = [all_names[i] for i in case['order']]
    unset = -np.inf if case['unset'] == '-inf' else np.nan
    minimum = pd.Series(unset, index=order)
    threshold = pd.Series(unset, index=order)
    scale = pd.Series(1., index=order)
    base = {}
    for i, p in enumerate(all_names):
        if case['scale']:
            scale[p] = case['scale'][i]
        if i < n_sig:
            m = case['minimum'][i]
            base[p] = 1. if m is None else m
            if m is not None:
                minimum[p] = m
            if case['threshold'][i] is not None:
                threshold[p] = base[p] + case['threshold'][i] / 8
    # rows of unused signals only contain -inf in practice
    target = make_target(desired=pd.Series(np.nan, index=order), minimum=minimum, cost_threshold=threshold,
                         rescaling_factor=scale)
    mapping = pd.Series({p: p[len('position_'):] for p in order if p.startswith('position_')}, dtype=object)
    if case['split'] % 2:
        mapping = mapping.reindex(order)      # undefined entries for signals
    v0 = pd.Series(case['v0'], index=gates)
    solver = ForwardingSolver(target=target, values_to_position=mapping,
                              current_position=v0.iloc[case['pos_order']].copy())

    def evaluators(selected):
        chosen = [all_names[i] for i in case['eval_order'] if selected[i]]
        cut = min(case['split'], len(chosen) - 1)
        return [StubEvaluator(tuple(g)) for g in (chosen[:cut], chosen[cut:]) if g]

    cheap, expensive = evaluators(case['cheap']), evaluators(case['expensive'])
    cheap_names = [p for e in cheap for p in e.parameters]
    expensive_names = [p for e in expensive for p in e.parameters]
    kwargs = {}
    last_tuned = None
    if case['initially_tuned']:
        kwargs['tuned_voltages'] = [v0.copy()]
        last_tuned = v0.copy()
    tuner = SensingDotTuner(cheap, expensive, gates=list(reversed(gates)), solver=solver, last_voltage=v0.copy(), **kwargs)

    voltages = v0
    for number, step in enumerate(case['steps']):
        if step['move'] is not None:
            voltages = pd.Series(step['move'], index=gates)
        v = voltages.iloc[step['order']]
        raw_c, raw_e = {}, {}
        for i, p in enumerate(all_names):
            if i < n_sig:
                raw_c[p] = (base[p] + step['sig'][i] / 8) * scale[p]
                raw_e[p] = (base[p] + step['sig_e'][i] / 8) * scale[p]
            else:
                raw_c[p] = step['pos'][i - n_sig]
                raw_e[p] = step['pos_e'][i - n_sig]
        if step['fail'] is not None:
            raw_c[all_names[step['fail']]] = np.nan
        for group, raw in ((cheap, raw_c), (expensive, raw_e)):
            for e in group:
                e.calls = 0
                e.result = (pd.Series({p: raw[p] for p in e.parameters}),
                            pd.Series({p: (i + 1.) / 4 for i, p in enumerate(e.parameters)}))
        failed = any(np.isnan(raw_c[p]) for p in cheap_names)
        below = not failed and any(raw_c[p] / scale[p] <= minimum[p] for p in cheap_names)
        need_expensive = below and any(raw_c[p] / scale[p] <= threshold[p] for p in cheap_names)

        result = tuner.is_tuned(v.copy())
        require(all(e.calls == 1 for e in cheap), 'every cheap evaluator must be called once')
        require(all(e.calls == int(need_expensive) for e in expensive), 'expensive evaluations: %s, expected %d' % (
            [e.calls for e in expensive], need_expensive), raw_c, target.to_dict())
        require(bool(result) == (not failed and not below), 'wrong acceptance', raw_c, target.to_dict())
        require(tuner.last_evaluation_failed == failed, 'wrong failure flag', raw_c)
        got, _ = tuner.last_parameters_and_variances
        for p in cheap_names:
            expected = raw_e[p] if need_expensive and p in expensive_names else raw_c[p]
            require(got[p] == expected / scale[p] or (np.isnan(expected) and np.isnan(got[p])),
                    'last values are not those of the last evaluation', p, got, expected / scale[p])
        if result:
            last_tuned = v.copy()
            require((tuner.tuned_voltages[-1][gates] == v[gates]).all(), 'tuned voltages not recorded')
            ctx.label('tuned')
            continue
        if failed:
            if last_tuned is None:
                return
            expected = .5 * (last_tuned + v)
            ctx.nontrivial()
            ctx.label('recovery')
        else:
            raw, names_ = (raw_e, expensive_names) if need_expensive else (raw_c, cheap_names)
            expected = v.copy()
            moved = 0
            for p in names_:
                if p.startswith('position_'):
                    expected[p[len('position_'):]] = raw[p]
                    moved += 1
            ctx.label('expensive' if need_expensive else 'cheap forward')
            ctx.nontrivial(moved and case['scale'])
        nxt = tuner.get_next_voltages(tuned_parameters=set())
        require(set(nxt.index) == set(gates), 'wrong gates', nxt)
        require(np.allclose(nxt[gates].astype(float), expected[gates].astype(float), rtol=1e-12, atol=1e-12),
                'next voltages', nxt, 'expected', expected, 'measured at', v)
        if not step['again']:
            voltages = nxt[gates].astype(float).copy()


# ------------------------------------------------------------------------------------------------ a dot with real scans

class Dot(Experiment):
    """A Coulomb peak on the second gate whose contrast depends on the first gate. Both drift."""
    def __init__(self, spec, gates):
        self.spec, self.gates = spec, gates
        self.voltages = pd.Series([spec['start'][g] for g in ('line', 'flank', 'other')], gates)
        self.line, self.flank = self.voltages[gates[0]], self.voltages[gates[1]]
        self.scans = []

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(sorted(self.gates))

    def read_gate_voltages(self):
        return self.voltages.sort_index()

    def set_gate_voltages(self, new_gate_voltages):
        for gate, voltage in new_gate_voltages.items():
            self.voltages[gate] = voltage
        return self.read_gate_voltages()

    def current(self, v1, v2):
        """Current with the first and the second gate at the given voltages."""
        s = self.spec
        top = self.flank + s['width'] if s['rising'] else self.flank - s['width']
        contrast = np.exp(-.5 * ((v1 - self.line) / s['line width']) ** 2)
        return s['offset'] + s['height'] * contrast * np.exp(-.5 * ((v2 - top) / s['width']) ** 2)

    def slope(self):
        h = 1e-7
        v1, v2 = self.voltages[self.gates[0]], self.voltages[self.gates[1]]
        return (self.current(v1, v2 + h) - self.current(v1, v2 - h)) / (2 * h)

    def best_slope(self):
        return self.spec['height'] * np.exp(-.5) / self.spec['width']

    def measure(self, measurement):
        o = measurement.options
        self.scans.append(measurement.name)
        if measurement.name == 'line_scan':
            require(o['gate'] == self.gates[1], 'the swept gate', o['gate'])
            x = np.linspace(o['center'] - o['range'], o['center'] + o['range'], int(o['N_points']))
            return self.current(self.voltages[self.gates[0]], x)
        require([o['gate1'], o['gate2']] == self.gates[:2], 'the gates of the two-dimensional scan', o)
        y = np.linspace(o['center'][0] - o['range'], o['center'][0] + o['range'], int(o['n_lines']))
        x = np.linspace(o['center'][1] - o['range'], o['center'][1] + o['range'], int(o['n_points']))
        return self.current(y[:, None], x)


@st.composite
def dot_case(draw):
    spec = dict(rising=draw(st.booleans()), height=draw(gen.dec(.1, 9)), offset=draw(gen.dec(-3, 3)),
                width=draw(st.sampled_from([1.2e-3, 1.5e-3, 1.8e-3])), start=dict(line=draw(gen.dec(-1, 1)),
                flank=draw(gen.dec(-1, 1)), other=draw(gen.dec(-1, 1))), **{'line width': draw(st.sampled_from([2e-3, 3e-3]))})
    return dict(spec=spec, gates=draw(gen.names(['SDB1', 'SDB2', 'SA', 'SB'], 3)), minimum=draw(gen.dec(.3, .5, 2)),
                threshold=draw(gen.dec(.05, .2, 2)), scaled=draw(st.booleans()),
                drifts=draw(st.lists(st.tuples(gen.dec(-3, 3, 1), gen.dec(-2, 2, 1)), min_size=1, max_size=5)))


@sub('dot', dot_case(), quick=250, thorough=6000, rule='a drift requires the two-dimensional scan')
def check_dot(case, ctx):
    spec, gates = case['spec'], case['gates']
    dot = Dot(spec, gates)
    line, swept, other = gates
    one = SensingDot1D(dot, sweeping_gate=swept, parameters=('position_' + swept, 'current_signal', 'optimal_signal'),
                       measurements=(Measurement('line_scan', center=None, range=4e-3, gate=swept, N_points=640),),
                       rising_flank=spec['rising'])
    two = SensingDot2D(dot, sweeping_gates=(line, swept), parameters=('position_' + line, 'position_' + swept),
                       measurements=(Measurement('2d_scan', center=[None, None], range=5e-3, gate1=line, gate2=swept, n_lines=21,
                                                 n_points=104),), rising_flank=spec['rising'])
    pitch = 8e-3 / 639
    best = dot.best_slope() * pitch
    unit = best if case['scaled'] else 1.
    sign = 1. if spec['rising'] else -1.
    names = ['current_signal', 'optimal_signal', 'position_' + line, 'position_' + swept]
    # the signals of falling flanks are negative, the unit turns them around
    target = make_target(minimum=pd.Series([case['minimum'] * best / unit, -np.inf, -np.inf, -np.inf], names),
                         cost_threshold=pd.Series([-np.inf, (case['minimum'] + case['threshold']) * best / unit, -np.inf, -np.inf], names),
                         rescaling_factor=pd.Series([sign * unit, sign * unit, 1., 1.], names))
    solver = ForwardingSolver(target=target, values_to_position=pd.Series({'position_' + line: line, 'position_' + swept: swept}),
                              current_position=dot.read_gate_voltages()[sorted([line, swept])])
    tuner = SensingDotTuner([one], [two], gates=[line, swept], solver=solver)
    for k, (dline, dflank) in enumerate([(0., 0.)] + case['drifts']):
        dot.line, dot.flank = dot.line + dline * 1e-3, dot.flank + dflank * 1e-3
        before = dot.read_gate_voltages()
        good = sign * dot.slope() > (case['minimum'] + .15) * dot.best_slope()
        bad = sign * dot.slope() < (case['minimum'] - .15) * dot.best_slope()
        dot.scans = []
        for n in range(5):
            here = dot.read_gate_voltages()
            if tuner.is_tuned(here):
                break
            dot.set_gate_voltages(here.add(tuner.get_next_voltages().reindex(here.index) - here, fill_value=0.))
        else:
            require(False, 'drift %d: the sensing dot is not tuned after five steps' % k, dot.scans)
        after = dot.read_gate_voltages()
        two_dimensional = dot.scans.count('2d_scan')
        require(sign * dot.slope() > (case['minimum'] - .15) * dot.best_slope(), 'drift %d: the sensor is not sensitive' % k,
                dot.slope() / dot.best_slope(), dot.scans)
        require(after[other] == before[other], 'another gate is changed')
        if good:
            require(dot.scans == ['line_scan'] and after.equals(before), 'drift %d: a good sensor is not kept' % k, dot.scans)
        if bad:
            require(not after.equals(before), 'drift %d: a bad sensor is kept' % k, dot.scans)
        if two_dimensional == 0:
            require(after[line] == before[line], 'drift %d: the one-dimensional scan moves the other gate' % k)
        else:
            ctx.nontrivial()
        if (after[line] - dot.line) ** 2 + dline ** 2 * 1e-6 < 1e-12 and not two_dimensional:
            ctx.label('one-dimensional')
        require(two_dimensional <= 2, 'drift %d: repeated two-dimensional scans' % k, dot.scans)
        contrast = np.exp(-.5 * ((before[line] - dot.line) / spec['line width']) ** 2)
        if contrast > case['minimum'] + case['threshold'] + .15 and abs(before[swept] - dot.flank) < 1e-3:
            require(two_dimensional == 0, 'drift %d: an unnecessary two-dimensional scan' % k, dot.scans)
        if contrast < case['minimum'] + case['threshold'] - .15 and bad:
            require(two_dimensional > 0, 'drift %d: the two-dimensional scan is missing' % k, dot.scans)
    ctx.label('rising' if spec['rising'] else 'falling')
