"""P03: well conditioned experiments are tuned within a bounded number of steps."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['diagonally dominant response of every level, coupling between levels at most 3 % (sensing dot: 20 %)',
                        'Kalman filters start with gradients that are accurate to 20 %']

BOUND = 1500


@sub('closed_loop', models.system(), quick=320, thorough=8000,
     rule='completed after at least one step of voltages')
def check_loop(spec, ctx):
    ctx.label(*models.describe(spec))
    exp, autotuner = models.build(spec)
    state = {}

    def before(n):
        state['level'] = autotuner.current_tuner_index
        state['asking'] = autotuner.current_tuner_status and autotuner.voltages_to_set is None
        state['old'] = exp.read_gate_voltages()
        state['pending'] = autotuner.voltages_to_set

    def after(n):
        if state['asking']:
            owner = spec['levels'][state['level']]['gates']
            nxt = autotuner.voltages_to_set
            for g in nxt.index:
                if g not in owner:
                    require(nxt[g] == state['old'][g], 'level %d moves a gate that it does not own' % state['level'], g, owner)

    n = models.run(autotuner, BOUND, before, after)
    require(n < BOUND, 'not tuned within %d iterations' % BOUND, 'last voltages', exp.voltages.to_dict(),
            'level', autotuner.current_tuner_index, {p: exp.value(p) for p in spec['params']})
    for level in spec['levels']:
        for row in level['rows']:
            if row.get('desired') is not None:
                require(abs(exp.value(row['name']) - row['desired']) < row['tol'] * (1 + 1e-9), 'not tuned', row)
    ctx.nontrivial(any(e[0] == 'set' for e in exp.log))
    ctx.label('iterations < %d' % (50 * 2 ** int(np.ceil(np.log2(max(n, 50) / 50.)))))


@sub('invariant', models.system(kinds=('held', 'held', 'kalman'), exact=True, nonlinear=False), quick=240, thorough=6000,
     rule='a level with an invariant parameter changes voltages')
def check_invariant(spec, ctx):
    """With exact gradients a parameter without a set point does not change when the level that lists it moves."""
    ctx.label(*models.describe(spec))
    exp, autotuner = models.build(spec)
    state = {}

    def before(n):
        state['pending'] = autotuner.voltages_to_set
        if state['pending'] is not None:
            state['values'] = {p: exp.value(p) for p in spec['params']}
        elif autotuner.current_tuner_status:
            state['level'] = autotuner.current_tuner_index

    def after(n):
        if state['pending'] is None:
            return
        for row in spec['levels'][state['level']]['rows']:
            if row.get('desired') is None and row['name'] in spec['params']:
                ctx.nontrivial()
                new = exp.value(row['name'])
                require(abs(new - state['values'][row['name']]) < 1e-6, 'an invariant parameter changes', row['name'],
                        state['values'][row['name']], new)

    n = models.run(autotuner, BOUND, before, after)
    require(n < BOUND, 'not tuned within %d iterations' % BOUND)


# ------------------------------------------------------------------------------------- simulated double quantum dot

@st.composite
def dqd(draw):
    rel = gen.dec(-.12, .12)         # the exponentials stay mildly non-linear
    return dict(v0={g: draw(rel) for g in ['BA', 'BB', 'N', 'RFA', 'RFB', 'SDB1', 'SDB2', 'T']},
                goal={g: draw(rel) for g in ['N', 'RFA', 'RFB', 'T']},
                estimator=draw(st.sampled_from(['fd', 'fds', 'kalman', 'selfinit'])),
                max_size=draw(gen.maybe(gen.dec(.3, 1))), number=draw(st.integers(1, 3)),
                leads=draw(st.booleans()), coupling=draw(st.booleans()), order=draw(st.booleans()))


@sub('simulated_dqd', dqd(), quick=40, thorough=1200, rule='both a lead and a tunnel coupling level')
def check_dqd(case, ctx):
    from qtune import basic_dqd
    from qtune.autotuner import Autotuner
    from qtune.evaluator import InterDotTCByLineScan, LeadTransition, NewLoadTime
    from qtune.experiment import Measurement
    from qtune.parameter_tuner import SubsetTuner
    from qtune.solver import NewtonSolver, make_target

    lead_scans = [Measurement('line_scan', center=0., range=4e-3, gate=g, N_points=1280, ramptime=.001, N_average=7,
                              AWGorDecaDAC='DecaDAC') for g in ('RFA', 'RFB')]
    detune = Measurement('detune_scan', center=0., range=2e-3, N_points=100, ramptime=.02, N_average=5, AWGorDecaDAC='AWG')
    load = Measurement('load_scan')
    sim = basic_dqd.Simulator
    simulators = {
        id(lead_scans[0]): sim(basic_dqd.transition_simulation, gate_lead='RFA', gate_opposite='BB'),
        id(lead_scans[1]): sim(basic_dqd.transition_simulation, gate_lead='RFB', gate_opposite='BA'),
        id(detune): sim(basic_dqd.detune_simulation, central_upper_gate='T', central_lower_gate='N', left_gate='BA',
                        right_gate='BB'),
        id(load): sim(basic_dqd.load_simulation, gate1='N', gate2='RFA')}
    exp = basic_dqd.TestExperiment(pd.Series(case['v0']), lead_scans + [detune, load], simulators)

    def truth(v):
        return {'position_RFA': v['RFA'] - v['BB'], 'position_RFB': v['RFB'] - v['BA'],
                'parameter_tunnel_coupling': 190 + np.exp(v['T'] - v['BB']) + np.exp(v['N'] - v['BA']),
                'parameter_time_load': 15 + np.exp(-v['N'] - v['RFA'])}

    goal = truth(dict(case['v0'], **case['goal']))

    def gradient(name, gates, v):
        h = 1e-5
        return np.array([(truth(dict(v, **{g: v[g] + h}))[name] - truth(dict(v, **{g: v[g] - h}))[name]) / 2 / h for g in gates])

    def solver(names, gates, tol, scale):
        position = exp.read_gate_voltages()[gates]
        eps = pd.Series(.1, index=gates)
        estimators = []
        for name in names:
            if case['estimator'] == 'kalman':
                estimators.append(models.KalmanGradientEstimator(
                    models.KalmanGradient(len(gates), 1, initial_gradient=list(gradient(name, gates, case['v0'])),
                                          initial_covariance_matrix=np.eye(len(gates)) * .1),
                    current_position=position.copy(), epsilon=.2, maximum_covariance=np.inf))
            elif case['estimator'] == 'selfinit':
                estimators.append(models.SelfInitializingKalmanEstimator.from_scratch(position.copy(), eps, np.inf, symmetric=True))
            else:
                estimators.append(models.FiniteDifferencesGradientEstimator(current_position=position.copy(), epsilon=eps,
                                                                            symmetric=case['estimator'] == 'fds'))
        target = make_target(desired=pd.Series({n: goal[n] for n in names}), tolerance=pd.Series(tol, index=names),
                             rescaling_factor=pd.Series(scale, index=names))
        return NewtonSolver(target, estimators, position.copy())

    tuners = []
    limit = np.nan if case['max_size'] is None else case['max_size']
    if case['leads'] or not case['coupling']:
        # the sampling distance of the scan is 6.25 uV, i.e. 0.00625 in the units of the simulation
        names = ['position_RFA', 'position_RFB'][::-1 if case['order'] else 1]
        tuners.append(SubsetTuner([LeadTransition(exp, measurements=lead_scans, shifting_gates=('RFA', 'RFB'))],
                                  ['RFA', 'RFB'], maximal_step_size=limit, maximal_step_number=case['number'],
                                  solver=solver(names, ['RFB', 'RFA'], .03, 1e-3)))
    if case['coupling'] or not case['leads']:
        names = ['parameter_tunnel_coupling', 'parameter_time_load']
        factors = pd.Series([1e-6, 1.], index=names)
        tuners.append(SubsetTuner([InterDotTCByLineScan(exp, measurements=(detune,)), NewLoadTime(exp, measurements=(load,))],
                                  ['N', 'T'], maximal_step_size=limit, maximal_step_number=case['number'],
                                  solver=solver(names, ['N', 'T'], .03, factors)))
    ctx.label('levels %d' % len(tuners), 'estimator ' + case['estimator'])
    ctx.nontrivial(len(tuners) == 2)
    autotuner = Autotuner(exp, tuners)
    n = models.run(autotuner, 600)
    final = truth(exp.read_gate_voltages())
    require(n < 600, 'the simulated double dot is not tuned within 600 iterations', final, goal)
    for tuner in tuners:
        for name in tuner.target.index:
            slack = .0125 if name.startswith('position') else .003
            require(abs(final[name] - goal[name]) < .03 + slack, 'completed but not tuned', name, final[name], goal[name])
