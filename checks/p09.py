"""P09: Kalman gradient estimators track, ask for measurements only if uncertain."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['cases in which the decision depends on rounding or on the choice of a basis of a degenerate '
                        'eigenspace are only checked for what does not depend on it',
                        'for tuned gradients of a null space with more than one dimension: no request if every direction '
                        'is certain, a request if every direction is uncertain, and any request along an uncertain one']


def covariance_from(case, n):
    root = np.array(case['root'])
    return root @ root.T + np.diag(case['diag'])


@st.composite
def covariance_case(draw):
    n = draw(st.integers(1, 5))
    diagonal = draw(st.integers(0, 2)) == 0
    return dict(n=n, gates=draw(gen.names(gen.GATES, n)),
                root=[[0.] * n for _ in range(n)] if diagonal else draw(gen.matrix(gen.dec(-1, 1, 2), n, n)),
                diag=draw(gen.lists(gen.dec(.01, 3, 2), n)),
                max_cov=draw(st.one_of(gen.dec(.05, 3, 2), gen.lists(st.one_of(gen.dec(.05, 3, 2), st.just(None)), n))),
                eps=draw(st.one_of(gen.dec(.01, 2), gen.lists(gen.dec(.01, 2), n))),
                position=draw(gen.lists(gen.dec(-3, 3), n)),
                use=draw(gen.maybe(st.permutations(list(range(n))).flatmap(
                    lambda p: st.integers(1, len(p)).map(lambda k: list(p[:k]))))),
                series_order=draw(gen.permutation(n)),
                n_tuned=draw(st.sampled_from([1, max(1, n - 1), max(1, n - 2), n])), jac=draw(gen.matrix(st.integers(-8, 8).map(lambda i: i / 4), n, n)),
                kind=draw(st.sampled_from(['free', 'tuned'])), wrapped=draw(st.integers(0, 3)) == 0)


def build_estimator(case, cov):
    gates = case['gates']
    position = pd.Series(case['position'], index=gates)
    order = [gates[i] for i in case['series_order']]
    max_cov, eps = case['max_cov'], case['eps']
    if isinstance(max_cov, list):
        max_cov = pd.Series([np.inf if c is None else c for c in max_cov], index=gates)[order]
    if isinstance(eps, list):
        eps = pd.Series(eps, index=gates)[order]
    kalman = KalmanGradient(n_pos_dim=len(gates), n_values=1, initial_covariance_matrix=cov.copy())
    est = KalmanGradientEstimator(kalman_gradient=kalman, current_position=position.copy(), current_value=1.,
                                  maximum_covariance=max_cov, epsilon=eps)
    to_series = lambda a: a[gates] if isinstance(a, pd.Series) else pd.Series(a, index=gates)
    return est, position, to_series(max_cov), to_series(eps)


def empty(request):
    return request is None or request.empty


@sub('request', covariance_case(), quick=2800, thorough=30000,
     rule='a measurement is requested in two or more dimensions, or declined although a diagonal element is large')
def check_request(case, ctx):
    n, gates = case['n'], case['gates']
    cov = covariance_from(case, n)
    est, position, max_cov, eps = build_estimator(case, cov)
    if case['wrapped']:
        est = SelfInitializingKalmanEstimator(FiniteDifferencesGradientEstimator(current_position=position.copy(), epsilon=eps),
                                              kalman_estimator=est, kalman_arguments=dict(maximum_covariance=max_cov, epsilon=eps))
    use = [gates[i] for i in case['use']] if case['use'] is not None else list(gates)
    idx = [gates.index(g) for g in use]
    if case['kind'] == 'free':
        request = est.require_measurement(gates=use) if case['use'] is not None else est.require_measurement()
        sub_cov = cov[np.ix_(idx, idx)]
        w, v = np.linalg.eigh(sub_cov)
        limit = max_cov[use].values
        gaps = np.diff(w)
        degenerate = len(w) > 1 and gaps.min() < 1e-6 * w[-1]
        if degenerate and len(set(limit)) > 1:
            ctx.label('degenerate')
            return
        lengths = np.linalg.norm(w * v / limit[:, None], axis=0)
        if np.abs(lengths - 1).min() < 1e-6:
            ctx.label('at the threshold')
            return
        expected = bool((lengths > 1).any())
        require(empty(request) != expected, 'request expected: %s' % expected, 'lengths', lengths, 'covariance', sub_cov,
                'limits', limit, request)
        if not expected:
            ctx.label('declined')
            ctx.nontrivial(len(use) > 1 and np.diag(sub_cov).max() > min(limit))
            return
        ctx.label('requested')
        step = ((request.reindex(gates) - position) / eps).astype(float)
        require(not step[use].isna().any(), 'undefined request', request)
        others = [g for g in gates if g not in use]
        require((step[others].fillna(0.).abs() < 1e-12).all(), 'a gate is moved that is not used', step)
        require(set(request.index) <= set(gates), 'unknown gates', request)
        d = step[use].values
        require(abs(np.linalg.norm(d) - 1) < 1e-6, 'not one step size', d)
        best = np.flatnonzero(lengths > lengths.max() * (1 - 1e-6))
        if degenerate:
            span = v[:, np.abs(w - w[-1]) < 1e-5 * w[-1]]
            require(np.linalg.norm(span.T @ d) > 1 - 1e-5, 'not along the worst direction', d, v, lengths)
        else:
            require(any(abs(v[:, k] @ d) > 1 - 1e-5 for k in best), 'not along the worst direction', d, v, lengths)
        ctx.nontrivial(len(use) > 1)
        return

    # parameters below are tuned
    n_tuned = min(case['n_tuned'], len(use))
    jac = np.array(case['jac'])[:n_tuned, :len(use)].reshape(n_tuned, len(use))
    u, s, vt = np.linalg.svd(jac)
    if s.max() == 0 or s.min() < 1e-3 * s.max():
        ctx.label('tuned gradients are dependent')
        return
    null = vt[n_tuned:].T
    tuned_jacobian = pd.DataFrame(jac, index=range(n_tuned), columns=use)
    request = est.require_measurement(gates=use, tuned_jacobian=tuned_jacobian)
    if null.shape[1] == 0:
        require(empty(request), 'no direction leaves the tuned parameters unchanged', request)
        ctx.label('no free direction')
        return
    proj = null.T @ cov[np.ix_(idx, idx)] @ null
    w = np.linalg.eigvalsh(proj)
    lo, hi = max_cov.min(), max_cov.max()
    ctx.label('null space %d' % null.shape[1])
    if w[-1] < lo * (1 - 1e-6):
        require(empty(request), 'a measurement is requested although every free direction is certain', w, max_cov.values)
        ctx.label('declined (tuned)')
        ctx.nontrivial()
    elif w[0] > hi * (1 + 1e-6):
        require(not empty(request), 'no measurement is requested although every free direction is uncertain', w,
                max_cov.values)
    if not empty(request):
        step = (request.reindex(gates) - position).astype(float)
        others = [g for g in gates if g not in use]
        require((step[others].fillna(0.).abs() < 1e-12).all(), 'a gate is moved that is not used', step)
        d = step[use].values
        require(np.linalg.norm(jac @ d) < 1e-7 * np.linalg.norm(jac) * np.linalg.norm(d),
                'the requested step changes the tuned parameters', jac @ d, d)
        require(abs(np.linalg.norm(d / eps[use].values) - 1) < 1e-6, 'not one step size', d, eps)
        unit = d / np.linalg.norm(d)
        var = unit @ cov[np.ix_(idx, idx)] @ unit
        require(var > lo * (1 - 1e-6), 'the requested direction is not uncertain', var, max_cov.values)
        ctx.label('requested (tuned)')
        ctx.nontrivial()


class Reference:
    """Kalman filter of a single value and the bookkeeping of differences."""
    def __init__(self, gates, x, p, position, value, alpha=1., q=None):
        self.gates, self.x, self.p, self.position, self.value = gates, x, p, position, value
        self.alpha, self.q = alpha, np.zeros_like(p) if q is None else q

    def update(self, position, value, variance, new=True):
        position = position[self.gates].astype(float).values
        if self.value is None:
            self.value, self.position = value, position
            return False
        dx = position - self.position
        moved = np.linalg.norm(dx) > 1e-7
        if moved:
            p = self.alpha ** 2 * self.p + self.q
            gain = p @ dx / (dx @ p @ dx + variance)
            self.x = self.x + gain * (value - self.value - dx @ self.x)
            a = np.eye(len(dx)) - np.outer(gain, dx)
            self.p = a @ p @ a.T + variance * np.outer(gain, gain)
        if new:
            self.value, self.position = value, position
        return moved

    def compare(self, est, where):
        got = est.estimate()
        require(set(got.index) == set(self.gates), 'wrong labels', got)
        require(np.allclose(got[self.gates].astype(float), self.x, rtol=0, atol=1e-6 * (1 + np.abs(self.x).max())),
                'wrong gradient ' + where, got[self.gates].values, self.x)
        cov = est.covariance().loc[self.gates, self.gates].astype(float)
        require(np.allclose(cov, self.p, rtol=0, atol=1e-6 * np.abs(self.p).max()), 'wrong covariance ' + where,
                cov.values, self.p)


@st.composite
def measurements(draw, n, size):
    ops = []
    for _ in range(size):
        kind = draw(st.integers(0, 9))
        if kind == 0:
            ops.append(['restart', draw(gen.lists(gen.dec(-3, 3), n)), draw(st.booleans())])
        elif kind == 1:
            ops.append(['same', draw(gen.dec(.05, 2))])
        elif kind == 2:
            ops.append(['probe', draw(gen.lists(gen.dec(-3, 3), n)), draw(gen.dec(-5, 5)), draw(gen.dec(.05, 2))])
        else:
            ops.append(['measure', draw(gen.lists(gen.dec(-3, 3), n)), draw(gen.dec(-5, 5)), draw(gen.dec(.05, 2))])
    return ops


@st.composite
def tracking_case(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, gates=draw(gen.names(gen.GATES, n)), root=draw(gen.matrix(gen.dec(-1, 1), n, n)),
                diag=draw(gen.lists(gen.dec(.05, 2), n)), x0=draw(gen.maybe(gen.lists(gen.dec(-3, 3), n))),
                position=draw(gen.lists(gen.dec(-3, 3), n)), value=draw(gen.maybe(gen.dec(-5, 5), 1, 1)),
                alpha=draw(st.sampled_from([1, 1., 1.02, 1.1])), q=draw(gen.maybe(gen.dec(.01, .5))),
                order=draw(gen.permutation(n + 1)), ops=draw(measurements(n, draw(st.integers(1, 8)))))


@sub('tracking', tracking_case(), quick=1200, thorough=30000,
     rule='at least two measurements with a change of position, and a restart, a repeated or a probing measurement')
def check_tracking(case, ctx):
    n, gates = case['n'], case['gates']
    cov = covariance_from(case, n)
    x0 = np.zeros(n) if case['x0'] is None else np.array(case['x0'])
    kwargs = dict(alpha=case['alpha'])
    q = None
    if case['q'] is not None:
        q = case['q'] * np.eye(n)
        kwargs['process_noise'] = q.copy()
    kalman = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=None if case['x0'] is None else case['x0'],
                            initial_covariance_matrix=cov.copy(), **kwargs)
    position = pd.Series(case['position'], index=gates)
    est = KalmanGradientEstimator(kalman, current_position=position.copy(), maximum_covariance=1., epsilon=.1,
                                  current_value=case['value'])
    ref = Reference(gates, x0, cov, position.values.copy(), case['value'], case['alpha'], q)
    ref.compare(est, 'initially')
    moved, special = 0, 0
    last = position
    for k, op in enumerate(case['ops']):
        def full(vec):
            return pd.Series(list(vec) + [7.], index=gates + ['surplus']).iloc[case['order']]

        if op[0] == 'restart':
            new = full(op[1])
            if op[2]:
                new = new.drop(gates[-1])      # gates of the experiment may be unknown to the estimator and vice versa
            est.restart(new)
            ref.value = None
            special += 1
        elif op[0] == 'same':
            if ref.value is None:
                continue
            est.update(full(ref.position), ref.value, op[1], is_new_position=True)
            special += 1
        else:
            new = op[0] == 'measure'
            est.update(full(op[1]), op[2], op[3], is_new_position=new)
            moved += bool(ref.update(full(op[1]), op[2], op[3], new))
            special += not new
        ref.compare(est, 'after operation %d %s' % (k, op[0]))
        ctx.label(op[0])
        if ref.value is not None:
            require(np.allclose(est.current_position[gates].astype(float), ref.position, rtol=0, atol=0),
                    'wrong position', est.current_position, ref.position)
        elif op[0] == 'restart':
            got = est.current_position
            require(all(got[g] == new[g] for g in gates if g in new.index), 'restart does not set the position', got, new)
    ctx.nontrivial(moved >= 2 and special)


@st.composite
def selfinit_case(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, gates=draw(gen.names(gen.GATES, n)), symmetric=draw(st.booleans()), scratch=draw(st.booleans()),
                position=draw(gen.lists(gen.dec(-3, 3), n)), eps=draw(gen.lists(gen.dec(.05, .5), n)),
                max_cov=draw(gen.dec(.05, 3)), grad=draw(gen.lists(gen.dec(-3, 3), n)), noise=draw(gen.lists(gen.dec(-.2, .2), 8)),
                var=draw(gen.lists(gen.dec(.05, 1), 8)), alpha=draw(gen.maybe(st.sampled_from([1.02, 1.1]))),
                order=draw(gen.permutation(n + 1)), restart=draw(gen.maybe(st.integers(0, 5), 2, 1)),
                ops=draw(measurements(n, draw(st.integers(0, 5)))))


@sub('selfinit', selfinit_case(), quick=500, thorough=12000,
     rule='handed over to the Kalman filter and updated at least once after that')
def check_selfinit(case, ctx):
    n, gates = case['n'], case['gates']
    eps = pd.Series(case['eps'], index=gates)
    base = pd.Series(case['position'], index=gates)
    start = None if case['scratch'] else base.copy()
    args = dict(epsilon=eps, symmetric=case['symmetric'])
    twin = FiniteDifferencesGradientEstimator(current_position=None if case['scratch'] else base.copy(), **args)
    if case['alpha'] is None:
        est = SelfInitializingKalmanEstimator.from_scratch(current_position=start, maximum_covariance=case['max_cov'], **args)
    else:
        est = SelfInitializingKalmanEstimator(
            finite_difference_estimator=FiniteDifferencesGradientEstimator(current_position=start, **args),
            kalman_arguments=dict(maximum_covariance=case['max_cov'], epsilon=eps),
            kalman_gradient_args=dict(alpha=case['alpha']))

    def full(position):
        return position[gates].astype(float).append(pd.Series([7.5], index=['surplus'])).iloc[case['order']]

    def f(position):
        return float(np.dot(case['grad'], (position[gates] - base).astype(float)))

    numbers = iter(zip(case['noise'], case['var']))
    position = base
    n_meas = 0
    for k in range(8):
        if case['restart'] == k:
            position = position + .25
            est.restart(full(position))
            twin.restart(full(position))
            est.update(full(position), f(position), .1, is_new_position=True)
            twin.update(full(position), f(position), .1, is_new_position=True)
        else:
            noise, var = next(numbers)
            value = f(position) + noise
            est.update(full(position), value, var, is_new_position=True)
            twin.update(full(position), value, var, is_new_position=True)
        n_meas += 1
        if twin.estimate() is not None:
            break
        require(est.estimate() is None, 'an estimate before the finite differences are complete', est.estimate())
        expected = twin.require_measurement(gates=gates)
        request = est.require_measurement(gates=gates)
        require(not empty(request) and np.allclose(request[gates].astype(float), expected[gates].astype(float)),
                'requests differ from those of the finite differences', request, expected)
        position = request[gates]
    if twin.estimate() is None:
        return
    value = f(position) + (noise if case['restart'] != k else 0.)
    ref = Reference(gates, twin.estimate()[gates].values.astype(float), twin.covariance().loc[gates, gates].values.astype(float),
                    position[gates].values.astype(float), value, case['alpha'] or 1.)
    ref.compare(est, 'after the hand over')
    ctx.label('handed over')
    used = 0
    for k, op in enumerate(case['ops']):
        if op[0] == 'restart':
            new = pd.Series(op[1], index=gates)
            est.restart(full(new))
            ref.value = None
        elif op[0] == 'same':
            if ref.value is None:
                continue
            est.update(full(pd.Series(ref.position, index=gates)), ref.value, op[1], is_new_position=True)
        else:
            new = op[0] == 'measure'
            est.update(full(pd.Series(op[1], index=gates)), op[2], op[3], is_new_position=new)
            used += bool(ref.update(pd.Series(op[1], index=gates), op[2], op[3], new))
        ref.compare(est, 'after operation %d %s' % (k, op[0]))
        w = np.linalg.eigvalsh(ref.p)
        if abs(w[-1] - case['max_cov']) > 1e-6:
            require(empty(est.require_measurement(gates=gates)) == (w[-1] < case['max_cov']), 'wrong request', w, case['max_cov'])
    ctx.nontrivial(used)
