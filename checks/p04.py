"""P04: the Newton solver suggests the minimum norm least squares step."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.gradient import GradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.solver import NewtonSolver, make_target
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['parameters with a set point have a value (SubsetTuner never passes undefined ones)',
                        'problems whose numerical rank is ambiguous at machine precision are only checked for the '
                        'residual']


class StubEstimator(GradientEstimator):
    """Given gradient, scripted requests, records what it is told."""
    def __init__(self, current_position, gradient):
        self._current_position = current_position
        self.gradient = gradient
        self.request = None
        self.asked = []
        self.updates = []

    def estimate(self):
        return self.gradient

    def covariance(self):
        return pd.DataFrame(0., index=self.gradient.index, columns=self.gradient.index)

    def require_measurement(self, gates=None, tuned_jacobian=None):
        self.asked.append((gates, tuned_jacobian))
        return self.request

    def update(self, position, value, covariance=None, is_new_position=False, **kwargs):
        self.updates.append((position.copy(), value, covariance, is_new_position))

    def to_hdf5(self):
        return dict(current_position=self._current_position, gradient=self.gradient)


entry = st.one_of(st.integers(-3, 3).map(float), gen.dec(-2, 2), gen.dec(-2, 2, 2).map(lambda x: x * 1e-3),
                  gen.dec(-2, 2, 2).map(lambda x: x * 1e3))


@st.composite
def newton_case(draw):
    n_gates = draw(st.integers(1, 5))
    n_par = draw(st.integers(1, n_gates))
    n_extra = draw(st.integers(0, 2))
    gates = draw(gen.names(gen.GATES, n_gates + n_extra))
    params = draw(gen.names(gen.PARAMS, n_par))
    grads = draw(gen.matrix(entry, n_par, n_gates + n_extra))
    for i in range(1, n_par):
        kind = draw(st.integers(0, 5))
        if kind == 0:
            grads[i] = [draw(st.sampled_from([1., -1., 2.])) * x for x in grads[draw(st.integers(0, i - 1))]]
        elif kind == 1:
            grads[i] = [0.] * len(gates)
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            ops.append(['update', draw(gen.permutation(n_gates + n_extra)), draw(gen.lists(gen.dec(-3, 3), n_gates + n_extra)),
                        draw(gen.lists(gen.dec(-3, 3), n_par)), draw(gen.lists(gen.dec(0, 2), n_par)),
                        draw(gen.permutation(n_par))])
        else:
            requests = None
            if draw(st.integers(0, 2)) == 0:
                requests = draw(gen.lists(st.sampled_from(['none', 'empty', 'ask']), n_par))
            ops.append(['suggest', draw(gen.subset(list(range(n_par)))), requests])
    ops.append(['suggest', [], None])
    return dict(gates=gates, n_gates=n_gates, params=params, grads=grads,
                orders=[draw(gen.permutation(n_gates + n_extra)) for _ in range(n_par)],
                use_extra=[draw(st.booleans()) for _ in range(n_par)],
                desired=draw(gen.lists(gen.maybe(gen.dec(-3, 3), 1, 2), n_par)),
                values=draw(gen.maybe(gen.lists(gen.dec(-3, 3), n_par))),
                position=draw(gen.lists(gen.dec(-3, 3), n_gates)), ops=ops)


def expected_step(jac, diff):
    """Returns (minimum norm least squares solution, is the rank unambiguous)."""
    s = np.linalg.svd(jac, compute_uv=False)
    cut = np.finfo(float).eps * max(jac.shape) * (s[0] if len(s) else 0)
    ambiguous = any(.2 * cut < x < 1e6 * cut for x in s) and s[0] > 0
    return np.linalg.pinv(jac, rcond=np.finfo(float).eps * max(jac.shape)) @ diff, not ambiguous, s


@sub('newton', newton_case(), quick=1600, thorough=30000,
     rule='at least two gates, different label orders or surplus gates, and a non-zero least squares step')
def check_newton(case, ctx):
    gates = case['gates'][:case['n_gates']]
    params = case['params']
    position = pd.Series(case['position'], index=gates)
    estimators = []
    full = []
    for i, p in enumerate(params):
        g = pd.Series(case['grads'][i], index=case['gates'])
        full.append(g)
        labels = [case['gates'][j] for j in case['orders'][i]]
        if not case['use_extra'][i]:
            labels = [l for l in labels if l in gates]
        estimators.append(StubEstimator(pd.Series(0., index=labels), g[labels].copy()))
    desired = pd.Series([np.nan if d is None else d for d in case['desired']], index=params, dtype=float)
    target = make_target(desired=desired, tolerance=pd.Series(.1, index=params))
    values = None
    if case['values'] is not None:
        values = pd.Series(case['values'], index=params)
    elif desired.notna().any():
        # before any measurement only invariant parameters have no value
        values = pd.Series(0., index=params)
        values[desired.isna()] = np.nan
    solver = NewtonSolver(target=target, gradient_estimators=estimators, current_position=position.copy(),
                          current_values=values)
    current_values = values if values is not None else pd.Series(np.nan, index=params)
    jac = np.array([[full[i][g] for g in gates] for i in range(len(params))])

    state = solver.state
    require(len(state) == jac.size, 'the state has the wrong number of entries', state)
    for i, p in enumerate(params):
        for j, g in enumerate(gates):
            require(state['d%s/d%s' % (p, g)] == jac[i, j], 'wrong entry of the state', p, g, state)

    for op in case['ops']:
        for e in estimators:
            e.asked.clear()
            e.updates.clear()
            e.request = None
        if op[0] == 'suggest':
            requests = {}
            if op[2]:
                for i, kind in enumerate(op[2]):
                    if kind == 'empty':
                        estimators[i].request = pd.Series(dtype=float)
                    elif kind == 'ask':
                        estimators[i].request = position + (i + 1.)
                        if desired.notna()[params[i]]:
                            requests[i] = estimators[i].request
            tuned = {params[i] for i in op[1]} | {'a parameter of another level'}
            suggestion = solver.suggest_next_position(tuned if op[1] else None)
            for i, e in enumerate(estimators):
                if desired.isna()[params[i]]:
                    continue
                for asked_gates, tuned_jac in e.asked:
                    require(sorted(asked_gates) == sorted(gates), 'estimators are asked for the wrong gates', asked_gates)
                    if not op[1]:
                        require(tuned_jac is None or len(tuned_jac) == 0, 'tuned gradients without tuned parameters')
                    else:
                        require(tuned_jac is not None, 'the gradients of the tuned parameters are not passed')
                        rows = sorted(tuned_jac[gates].values.tolist())
                        require(rows == sorted(jac[k].tolist() for k in op[1]), 'wrong gradients of the tuned parameters',
                                tuned_jac, jac)
            if requests:
                require(any(set(suggestion.index) == set(r.index) and (suggestion[r.index] == r).all()
                            for r in requests.values()), 'the requested measurement is not suggested', suggestion)
                ctx.label('request')
                continue
            require(all(e.asked for i, e in enumerate(estimators) if desired.notna()[params[i]]),
                    'a gradient estimator was not asked whether it requires a measurement')
            diff = (desired - current_values).fillna(0.).values
            step, unambiguous, s = expected_step(jac, diff)
            require(sorted(suggestion.index) == sorted(gates), 'wrong gates', suggestion)
            got = (suggestion[gates] - position).values.astype(float)
            scale = np.abs(position.values).max() + np.abs(step).max() + 1
            cond = s[0] / min([x for x in s if x > 1e-9 * s[0]], default=1) if s[0] > 0 else 1.
            if unambiguous:
                require(np.allclose(got, step, rtol=0, atol=1e-12 * scale * cond ** 2 + 1e-9 * scale),
                        'not the minimum norm least squares step', got, step, 'jacobian', jac.tolist(), 'difference', diff)
                if len(gates) > 1 and np.abs(step).max() > 1e-6 and (
                        len(case['gates']) > len(gates) or any(o != sorted(o) for o in case['orders'])):
                    ctx.nontrivial()
                ctx.label('rank %s' % ('deficient' if sum(s > 1e-9 * max(s[0], 1e-300)) < len(params) else 'full'))
                if desired.isna().any():
                    ctx.label('invariant parameter')
            else:
                ctx.label('ambiguous rank')
        else:
            _, perm, pos, vals, var, order = op
            new_position = pd.Series(pos, index=case['gates']).iloc[perm]
            new_values = pd.Series(vals, index=params).iloc[order]
            new_var = pd.Series(var, index=params).iloc[order]
            solver.update_after_step(new_position.copy(), new_values.copy(), new_var.copy())
            for i, e in enumerate(estimators):
                p = params[i]
                if desired.isna()[p]:
                    continue
                require(len(e.updates) == 1, 'an estimator is not updated exactly once', p)
                got_pos, got_val, got_var, new = e.updates[0]
                require(got_val == new_values[p], 'value of another parameter', p, got_val, new_values)
                require(got_var == new_var[p], 'variance of another parameter', p, got_var, new_var)
                require(new, 'the position is not passed as the new position')
                labels = [l for l in e.current_position.index]
                require((got_pos[labels] == new_position[labels]).all(), 'wrong position', got_pos)
            position = new_position[gates]
            current_values = new_values[params]
            require(sorted(solver.current_position.index) == sorted(gates) and
                    (solver.current_position[gates] == position).all(), 'wrong current position', solver.current_position)
            ctx.label('update')


@st.composite
def surplus_case(draw):
    n_gates, n_extra = draw(st.integers(2, 4)), draw(st.integers(0, 2))
    n = n_gates + n_extra
    n_par = draw(st.integers(2, n_gates))
    return dict(gates=draw(gen.names(gen.GATES, n)), n_gates=n_gates, params=draw(gen.names(gen.PARAMS, n_par)),
                grads=draw(gen.matrix(gen.dec(-2, 2), n_par, n)), orders=[draw(gen.permutation(n)) for _ in range(n_par)],
                held=draw(gen.lists(st.booleans(), n_par)), max_cov=draw(gen.lists(st.sampled_from([1e-3, .1, 10.]), n_par)),
                eps=draw(gen.lists(st.sampled_from([.01, .125, 1.]), n)), cov=draw(gen.lists(st.sampled_from([1e-4, .05, 1.]), n)),
                position=draw(gen.lists(gen.dec(-3, 3), n)), values=draw(gen.lists(gen.dec(-3, 3), n_par)),
                tuned=draw(gen.subset(list(range(n_par)))))


@sub('surplus', surplus_case(), quick=1200, thorough=20000,
     rule='a measurement is requested by an estimator with gates the solver does not use, or while other parameters are tuned')
def check_surplus(case, ctx):
    """Kalman estimators which also know the gradients of gates that the solver does not use."""
    gates = case['gates'][:case['n_gates']]
    params = case['params']
    position = pd.Series(case['position'], index=case['gates'])
    eps = pd.Series(case['eps'], index=case['gates'])
    full = {p: pd.Series(g, index=case['gates']) for p, g in zip(params, case['grads'])}
    estimators = []
    for p, order, max_cov in zip(params, case['orders'], case['max_cov']):
        labels = [case['gates'][k] for k in order]
        cov = pd.Series(case['cov'], index=case['gates'])
        kalman = KalmanGradient(n_pos_dim=len(labels), n_values=1, initial_gradient=full[p][labels].values,
                                initial_covariance_matrix=np.diag(cov[labels].values))
        estimators.append(KalmanGradientEstimator(kalman, current_position=position[labels].copy(), maximum_covariance=max_cov,
                                                  epsilon=eps[labels]))
    desired = pd.Series([np.nan if h else 0. for h in case['held']], index=params)
    solver = NewtonSolver(target=make_target(desired=desired, tolerance=pd.Series(.1, index=params)), gradient_estimators=estimators,
                          current_position=position[gates].copy())
    solver.update_after_step(position.copy(), pd.Series(case['values'], index=params), pd.Series(1e-3, index=params))
    tuned = [params[i] for i in case['tuned'] if case['held'][i]]
    suggestion = solver.suggest_next_position(set(tuned) or None)
    step = suggestion - position[suggestion.index]
    others = [g for g in suggestion.index if g not in gates]
    require(set(suggestion.index) <= set(case['gates']) and (step[others].abs() < 1e-12).all(),
            'a gate is moved that does not belong to the solver', suggestion, position, gates)
    jac = np.array([full[p][gates] for p in params])
    newton = np.linalg.pinv(jac) @ [0. if h else -v for h, v in zip(case['held'], case['values'])]
    if np.linalg.matrix_rank(jac, tol=1e-3 * max(np.abs(jac).max(), 1e-300)) < len(params):
        return
    got = step.reindex(gates).fillna(0.).values.astype(float)
    scale = 1 + np.abs(position.values).max() + np.abs(newton).max()
    if np.allclose(got, newton, rtol=0, atol=1e-6 * scale):
        ctx.label('newton step')
        return
    require(abs(np.linalg.norm(got / eps[gates].values) - 1) < 1e-6, 'neither the solution nor one step size of a gradient measurement',
            got, newton, eps[gates].values)
    for p in tuned:
        require(abs(full[p][gates].values @ got) < 1e-7 * (1 + np.abs(full[p]).max()) * np.abs(got).max(),
                'the requested measurement changes %s, which is tuned' % p, full[p], got)
    ctx.label('request' + (' with tuned parameters' if tuned else ''))
    ctx.nontrivial(tuned or len(case['gates']) > len(gates))
