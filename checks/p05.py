"""P05: partial steps, recovery and acceptance of the subset tuner."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.evaluator import Evaluator
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import Solver, make_target
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['at least one parameter has a set point; rows of the target have both set point and tolerance or none',
                        'the first evaluation succeeds (there is nothing to go back to otherwise)']


class StubSolver(Solver):
    def __init__(self, target, current_position):
        self._target = target
        self._current_position = current_position
        self.suggestion = None
        self.updates = []
        self.asked = []

    def suggest_next_position(self, tuned_parameters=None):
        self.asked.append(tuned_parameters)
        return self.suggestion.copy()

    def update_after_step(self, position, values, variances):
        self.updates.append((position.copy(), values.copy(), variances.copy()))

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position)


class StubEvaluator(Evaluator):
    def __init__(self, params):
        super().__init__(experiment=None, measurements=(), parameters=params, raw_x_data=(None, ), raw_y_data=(None, ),
                         name="stub")
        self.result = None
        self.calls = 0

    def evaluate(self):
        self.calls += 1
        return self.result[0].copy(), self.result[1].copy()

    def to_hdf5(self):
        return {}


binary = st.integers(-24, 24).map(lambda i: i / 8)


@st.composite
def subset_case(draw):
    n_all = draw(st.integers(1, 5))
    n_gates = draw(st.integers(1, n_all))
    gates = draw(gen.names(gen.GATES, n_all))
    n_par = draw(st.integers(1, 3))
    n_held = draw(st.integers(0, 2))
    params = draw(gen.names(gen.PARAMS, n_par + n_held))
    steps = []
    for i in range(draw(st.integers(1, 14))):
        kind = draw(st.integers(0, 5)) if i else 1
        # offsets of the values from the set point in units of eighths: small ones are frequent
        off = draw(gen.lists(st.one_of(st.integers(-4, 4), st.integers(-40, 40)).map(lambda k: k / 8), n_par))
        fail = None
        if kind == 0 and i:
            fail = draw(gen.subset(list(range(n_par)), 1))
        held = draw(gen.lists(gen.maybe(binary, 1, 2), n_held))
        move = draw(st.sampled_from(['to', 'to', 'by']))
        vec = draw(gen.lists(gen.dec(-4, 4, 2), n_gates))
        keep = draw(st.booleans())          # keep the previous suggestion (the solver did not learn anything)
        restrict = draw(st.one_of(st.none(), st.none(), st.integers(1, n_gates)))
        change = None
        if draw(st.integers(0, 7)) == 0:
            change = dict(i=draw(st.integers(0, n_par + n_held - 1)), desired=draw(gen.maybe(binary, 1, 2)),
                          tol=draw(st.integers(1, 8)) / 8)
        steps.append(dict(change=change, off=off, fail=fail, held=held, move=move, vec=vec, keep=keep, restrict=restrict,
                          var=draw(gen.lists(st.integers(0, 16).map(lambda k: k / 16), n_par + n_held)),
                          disturb=draw(st.sampled_from([0, 0, 0, 1])), order=draw(gen.permutation(n_all))))
    return dict(gates=gates, n_gates=n_gates, n_par=n_par, params=params,
                order=draw(gen.permutation(n_par + n_held)), eval_order=draw(gen.permutation(n_par + n_held)),
                evaluated_held=draw(st.booleans()),
                split=draw(st.integers(0, n_par)),
                desired=draw(gen.lists(binary, n_par)),
                tol=draw(gen.lists(st.integers(1, 8).map(lambda k: k / 8), n_par)),
                scale=draw(gen.maybe(gen.lists(st.sampled_from([.25, .5, 1., 2., 8., 1024.]), n_par + n_held), 1, 1)),
                v0=draw(gen.lists(gen.dec(-3, 3, 2), n_all)),
                max_size=draw(gen.maybe(st.sampled_from([.25, .5, .7, 1., 2., 1e-3]), 1, 3)),
                max_number=draw(st.integers(1, 5)), steps=steps)


@sub('tuner', subset_case(), quick=1500, thorough=30000,
     rule='at least two partial steps queued before an evaluation, or a recovery from a failed evaluation')
def check_tuner(case, ctx):
    all_gates = case['gates']
    gates = all_gates[:case['n_gates']]
    n_par = case['n_par']
    params = case['params']
    target_params = [params[i] for i in case['order']]
    desired = pd.Series(np.nan, index=target_params)
    tol = pd.Series(np.nan, index=target_params)
    scale = pd.Series(1., index=target_params)
    for i, p in enumerate(params):
        if i < n_par:
            desired[p] = case['desired'][i]
            tol[p] = case['tol'][i]
        if case['scale'] is not None:
            scale[p] = case['scale'][i]
    target = make_target(desired=desired, tolerance=tol, rescaling_factor=scale)
    solver = StubSolver(target, pd.Series([case['v0'][i] for i in range(len(gates))], index=gates))
    evaluated = [params[i] for i in case['eval_order'] if i < n_par or case['evaluated_held']]
    cut = min(case['split'], len(evaluated) - 1)
    groups = [g for g in (evaluated[:cut], evaluated[cut:]) if g]
    evaluators = [StubEvaluator(tuple(g)) for g in groups]
    max_size = np.nan if case['max_size'] is None else case['max_size']
    tuner = SubsetTuner(evaluators, gates=list(reversed(gates)), maximal_step_size=max_size,
                        maximal_step_number=case['max_number'], solver=solver)

    voltages = pd.Series(case['v0'], index=all_gates)
    queued, failed = 0, False
    last_good = None
    suggestion = None
    n_tuned = 0
    partial_run = 0
    relevant = set(params[:n_par])
    base = desired.copy()
    desired, tol = desired.copy(), tol.copy()
    for number, step in enumerate(case['steps']):
        change = step.get('change')
        if change and params[change['i']] in evaluated:
            p = params[change['i']]
            new = np.nan if change['desired'] is None else change['desired']
            new_tol = np.nan if change['desired'] is None else change['tol']
            tuner.target = dict(desired=pd.Series({p: new}), tolerance=pd.Series({p: new_tol}))
            desired[p], tol[p] = new, new_tol
            ctx.label('set point removed' if new != new else 'set point introduced' if p not in relevant else 'set point changed')
            relevant = {p for p in params if desired[p] == desired[p]}
        v = voltages.iloc[step['order']]
        values = pd.Series(0., index=evaluated)
        variances = pd.Series(0., index=evaluated)
        for i, p in enumerate(params):
            if p not in evaluated:
                continue
            variances[p] = step['var'][i] * scale[p] ** 2
            if i < n_par:
                values[p] = (base[p] + step['off'][i]) * scale[p]
                if step['fail'] and i in step['fail']:
                    values[p] = np.nan
            else:
                h = step['held'][i - n_par]
                values[p] = np.nan if h is None else h * scale[p]
        for e, g in zip(evaluators, groups):
            e.result = (values[g], variances[g])
            e.calls = 0
        solver.updates.clear()
        solver.asked.clear()
        result = tuner.is_tuned(v.copy())
        require(isinstance(result, (bool, np.bool_)), 'is_tuned is not a bool', result)
        if queued > 0:
            require(not any(e.calls for e in evaluators), 'evaluation while partial steps are queued', number, queued)
            require(not result, 'tuned without evaluation')
            require(not solver.updates, 'solver updated without evaluation')
        else:
            require(all(e.calls == 1 for e in evaluators), 'every evaluator must be called once', number,
                    [e.calls for e in evaluators])
            partial_run = 0
            scaled = values / scale[values.index]
            scaled_var = variances / scale[values.index] ** 2
            got_val, got_var = tuner.last_parameters_and_variances
            for p in relevant:
                require(got_val[p] == scaled[p] or (np.isnan(scaled[p]) and np.isnan(got_val[p])),
                        'last values differ from the measured ones', p, got_val, scaled)
                require(got_var[p] == scaled_var[p], 'last variances differ', p, got_var, scaled_var)
            failed = bool(scaled[sorted(relevant)].isna().any())
            require(tuner.last_evaluation_failed == failed, 'failure is not reported correctly', scaled, failed)
            if failed:
                require(not result, 'tuned although an evaluation failed', scaled)
                require(not solver.updates, 'failed evaluation is passed to the solver')
                ctx.label('failure')
            else:
                last_good = v.copy()
                expected = all(abs(desired[p] - scaled[p]) < tol[p] for p in relevant)
                require(result == expected, 'wrong acceptance', 'values', scaled.to_dict(), 'target', tuner.target.to_dict())
                require(len(solver.updates) == 1, 'the solver is updated exactly once per evaluation')
                pos, val, var = solver.updates[0]
                require((pos[gates] == v[gates]).all(), 'wrong position passed to the solver', pos, v)
                for p in evaluated:
                    require(val[p] == scaled[p] or (np.isnan(val[p]) and np.isnan(scaled[p])), 'wrong value passed',
                            p, val, scaled)
                    require(var[p] == scaled_var[p] , 'wrong variance passed', p, var, scaled_var)
                if any(abs(abs(desired[p] - scaled[p]) - tol[p]) < 1e-12 for p in relevant):
                    ctx.label('at the tolerance')
                if result:
                    n_tuned += 1
                    ctx.label('tuned')
        require(len(tuner.tuned_voltages) == n_tuned, 'tuned voltages do not correspond to successful evaluations',
                len(tuner.tuned_voltages), n_tuned)
        if result:
            last = tuner.tuned_voltages[-1]
            require((last[all_gates] == v[all_gates]).all(), 'wrong tuned voltages', last, v)
            # the hierarchy above decides about the voltages
            voltages = voltages + pd.Series(.25, index=all_gates) * step['disturb']
            continue

        # next voltages
        if failed:
            if last_good is None:
                return
            nxt = tuner.get_next_voltages(set())
            expected = .5 * (last_good + v)
            require(set(nxt.index) == set(all_gates) and np.allclose(nxt[all_gates], expected[all_gates], rtol=0, atol=1e-9),
                    'recovery is not half way between the last good and the current voltages', nxt, expected, last_good)
            require(not solver.asked, 'the solver is asked after a failed evaluation')
            ctx.nontrivial()
        else:
            if suggestion is None or not (step['keep'] or queued and number % 4) or set(suggestion.index) - set(gates):
                sel = gates[:step['restrict']] if step['restrict'] else gates
                vec = pd.Series(step['vec'][:len(sel)], index=sel)
                suggestion = vec if step['move'] == 'to' else v[sel] + vec
            solver.suggestion = suggestion.iloc[::-1]
            tuned_parameters = {'p%d' % number}
            nxt = tuner.get_next_voltages(tuned_parameters)
            require(solver.asked == [tuned_parameters], 'the solver must be told the tuned parameters', solver.asked)
            move = suggestion - v[suggestion.index]
            distance = float(np.linalg.norm(move))
            require(set(nxt.index) == set(all_gates), 'wrong gates', nxt)
            others = [g for g in all_gates if g not in suggestion.index]
            require((nxt[others] == v[others]).all(), 'a gate is moved that the solver did not suggest', nxt, v)
            if distance > max_size * (1 + 1e-12):
                if queued == 0:
                    ratio = distance / max_size
                    if abs(ratio - round(ratio)) < 1e-6:
                        return       # rounding decides how many full steps fit
                    queued = min(int(ratio), case['max_number'])
                queued -= 1
                expected = v[suggestion.index] + move * (max_size / distance)
                length = np.linalg.norm((nxt - v[nxt.index]).astype(float))
                require(length <= max_size * (1 + 1e-9), 'step larger than the maximal step size', length, max_size)
                partial_run += 1
                ctx.nontrivial(partial_run >= 2)
                ctx.label('partial step')
                if queued:
                    ctx.label('queued')
            else:
                if max_size == max_size and abs(distance - max_size) < 1e-9 * max_size:
                    ctx.label('exactly one step')
                if queued:
                    ctx.label('reached early')
                queued = 0
                expected = suggestion
            require(np.allclose(nxt[suggestion.index].astype(float), expected, rtol=0, atol=1e-9),
                    'next voltages', nxt, 'expected', expected, 'from', v, 'suggestion', suggestion)
        voltages = nxt[all_gates].astype(float)
        if step['disturb']:
            # a real experiment has a limited resolution
            voltages = (voltages * 64).round() / 64
