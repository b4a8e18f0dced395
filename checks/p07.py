"""P07: finite differences recover gradients and propagate the errors."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.util import calculate_gradient_non_orthogonal, gradient_min_evaluations
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['measurements are taken where they were requested',
                        'the base point is measured first if the differences are not symmetric (as the tuner does)']

binary = st.integers(-32, 32).map(lambda i: i / 8)


@st.composite
def points_case(draw):
    n = draw(st.integers(1, 5))
    symmetric = draw(st.booleans()) and n > 1
    defect = draw(st.sampled_from(['none', 'none', 'none', 'none', 'dependent', 'zero', 'count']))
    diffs = draw(gen.matrix(st.one_of(binary, st.integers(-32, 32).map(lambda i: i / 1024)), n, n))
    if defect == 'dependent' and n > 1:
        i, j = draw(st.permutations(list(range(n))))[:2]
        f = draw(st.sampled_from([1., -1., 2., .5]))
        diffs[i] = [f * x for x in diffs[j]]
    elif defect == 'zero':
        diffs[draw(st.integers(0, n - 1))] = [0.] * n
    elif defect == 'dependent':
        diffs[0] = [0.]
    n_par = draw(st.integers(1, 3))
    count = None
    if defect == 'count':
        count = draw(st.integers(1, 2 * n + 3).filter(lambda k: k not in (n + 1, 2 * n)))
    return dict(n=n, symmetric=symmetric, defect=defect, diffs=diffs, centers=draw(gen.matrix(binary, n, n)), n_par=n_par,
                grad=draw(gen.matrix(gen.dec(-3, 3), n_par, n)), offset=draw(gen.lists(gen.dec(-5, 5), n_par)),
                var=draw(gen.lists(gen.dec(0, 4), 2 * n)), as_series=draw(st.booleans()), count=count)


@sub('points', points_case(), quick=1600, thorough=40000,
     rule='independent, non orthogonal differences in at least two dimensions, or rejected points')
def check_points(case, ctx):
    n, n_par = case['n'], case['n_par']
    diffs, centers = np.array(case['diffs']), np.array(case['centers'])
    points, weights = [], []
    if case['symmetric']:
        for d, c in zip(diffs, centers):
            points += [c, c + d]
    else:
        points = [centers[0]] + [centers[0] + d for d in diffs]
    if case['count'] is not None:
        points = (points * 5)[:case['count']]
    grad, offset = np.array(case['grad']), np.array(case['offset'])
    values = [offset + grad @ p for p in points]
    variances = (case['var'] * 5)[:len(points)]
    if not case['symmetric']:
        variances = variances[:len(points)]
    labels = gen.GATES[:n]
    positions = [pd.Series(p, index=labels) for p in points] if case["as_series"] else points

    if case['defect'] in ('dependent', 'zero', 'count'):
        ctx.nontrivial(n > 1)
        ctx.label('rejected ' + case['defect'])
        for func, args in ((gradient_min_evaluations, (values, points)),
                           (calculate_gradient_non_orthogonal, (positions, [v[0] for v in values], variances))):
            try:
                result = func(*args)
            except (RuntimeError, np.linalg.LinAlgError):
                continue
            require(False, 'points that do not determine the gradient are accepted (%s)' % case['defect'], func.__name__,
                    result)
        return
    s = np.linalg.svd(diffs, compute_uv=False)
    if s[-1] < 1e-7 * s[0] or s[0] == 0:
        ctx.label('ill conditioned')
        return
    tol = 1e-13 * (1 + np.abs(grad).max() * 50) / s[-1] * (s[0] / s[-1]) + 1e-12
    result = np.asarray(gradient_min_evaluations(values, points))
    require(result.shape == (n_par, n) and np.allclose(result, grad, rtol=0, atol=tol), 'wrong gradient', result, grad)
    inv = np.linalg.inv(diffs)           # gradient = inv @ differences
    w = np.zeros((n, len(points)))
    if case['symmetric']:
        w[:, 1::2] = inv
        w[:, ::2] = -inv
    else:
        w[:, 1:] = inv
        w[:, 0] = -inv.sum(axis=1)
    expected_cov = w @ np.diag(variances) @ w.T
    for k in range(n_par):
        vals = [v[k] for v in values]
        g, cov = calculate_gradient_non_orthogonal(positions, vals, variances)
        require(np.allclose(np.squeeze(g), grad[k], rtol=0, atol=tol), 'wrong gradient', g, grad[k])
        require(np.shape(cov) == (n, n) and np.allclose(cov, expected_cov, rtol=1e-8 * (s[0] / s[-1]),
                                                        atol=1e-9 * np.abs(expected_cov).max() * (s[0] / s[-1])),
                'the covariance is not the propagated error', cov, expected_cov)
        g = calculate_gradient_non_orthogonal(positions, vals)
        require(np.allclose(np.squeeze(g), grad[k], rtol=0, atol=tol), 'wrong gradient without variances', g, grad[k])
    ctx.nontrivial(n > 1 and np.abs(diffs @ diffs.T - np.diag(np.diag(diffs @ diffs.T))).max() > 0)
    ctx.label('symmetric' if case['symmetric'] else 'asymmetric')


@st.composite
def estimator_case(draw):
    n = draw(st.integers(1, 5))
    quad = draw(gen.matrix(gen.dec(-2, 2), n, n))
    return dict(n=n, gates=draw(gen.names(gen.GATES, n)), symmetric=draw(st.booleans()),
                base=draw(gen.lists(gen.dec(-3, 3), n)),
                eps=draw(st.one_of(gen.dec(.002, .5), gen.lists(gen.dec(.002, .5), n))),
                grad=draw(gen.lists(gen.dec(-3, 3), n)), quad=quad, offset=draw(gen.dec(-5, 5)),
                var=draw(gen.lists(gen.dec(0, 4), 2 * n + 1)), order=draw(gen.permutation(n + 1)),
                ask_gates=draw(st.one_of(st.none(), gen.permutation(n))), scratch=draw(st.booleans()),
                base_again=draw(st.booleans()), ask_twice=draw(st.booleans()), integer_base=draw(st.integers(0, 5)) == 0)


@sub('estimator', estimator_case(), quick=900, thorough=20000,
     rule='at least two gates with a non-zero gradient and different variances')
def check_estimator(case, ctx):
    n, gates, symmetric = case['n'], case['gates'], case['symmetric']
    base = pd.Series(case['base'], index=gates)
    if case['integer_base'] and not case['scratch']:
        base = base.round().astype(int)
    eps = pd.Series(case['eps'], index=gates)
    grad, quad = np.array(case['grad']), np.array(case['quad'])
    if not symmetric:
        quad = np.zeros((n, n))

    def f(position):
        d = (position[gates] - base).astype(float).values
        return case['offset'] + grad @ d + d @ quad @ d

    def full(position):
        # as passed by the solver: other order, other gates
        return position.append(pd.Series([7.5], index=['surplus'])).iloc[case['order']]

    if case['scratch']:
        est = FiniteDifferencesGradientEstimator(epsilon=eps, symmetric=symmetric)
    else:
        start = base.copy()
        est = FiniteDifferencesGradientEstimator(current_position=start, symmetric=symmetric,
                                                 epsilon=case['eps'] if not isinstance(case['eps'], list) else eps)
    variances = iter(case['var'])
    points, vars_ = [], []
    if not symmetric or case['scratch'] or case['base_again']:
        v = next(variances)
        est.update(full(base), f(base), v, is_new_position=True)
        if not symmetric:
            points.append(base.astype(float).values)
            vars_.append(v)
    require(est.estimate() is None, 'estimate without measurements')
    n_requests = 0
    ask = None if case['ask_gates'] is None else [gates[i] for i in case['ask_gates']]
    expected_requests = 2 * n if symmetric else n
    while True:
        request = est.require_measurement(gates=ask) if ask is not None else est.require_measurement()
        if request is None or request.empty:
            break
        n_requests += 1
        require(n_requests <= expected_requests, 'too many measurements are requested', expected_requests)
        if case['ask_twice']:
            again = est.require_measurement(gates=ask)
            require(np.allclose(again[gates].astype(float), request[gates].astype(float)),
                    'asking twice yields different requests', request, again)
        require(set(request.index) == set(gates), 'request for wrong gates', request)
        d = ((request[gates] - base) / eps[gates]).astype(float).values
        require(abs(np.linalg.norm(d) - 1) < 1e-6, 'the request is not one step size away from the base', d)
        v = next(variances)
        points.append(request[gates].astype(float).values)
        vars_.append(v)
        est.update(full(request), f(request), v, is_new_position=True)
    require(n_requests == expected_requests, 'wrong number of requests', n_requests, expected_requests)
    points = np.array(points)
    if symmetric:
        diffs = points[1::2] - points[::2]
        mid = .5 * (points[1::2] + points[::2]) - base.values.astype(float)
        require(np.abs(mid).max() < 1e-9, 'pairs are not symmetric around the base', mid)
    else:
        diffs = points[1:] - points[0]
    scaled = diffs / eps.values
    s = np.linalg.svd(scaled, compute_uv=False)
    require(s[-1] > 1e-3, 'the requested directions are not independent', scaled)
    got = est.estimate()
    require(set(got.index) == set(gates), 'wrong labels', got)
    tol = 1e-11 * 60 / eps.min() / s[-1] + 1e-11
    require(np.allclose(got[gates].astype(float), grad, rtol=0, atol=tol), 'wrong gradient', got[gates].values, grad)
    inv = np.linalg.inv(diffs)
    w = np.zeros((n, len(points)))
    if symmetric:
        w[:, 1::2] = inv
        w[:, ::2] = -inv
    else:
        w[:, 1:] = inv
        w[:, 0] = -inv.sum(axis=1)
    expected = w @ np.diag(vars_) @ w.T
    cov = est.covariance()
    require(np.allclose(cov.loc[gates, gates].astype(float), expected, rtol=1e-6, atol=1e-8 * np.abs(expected).max()),
            'the covariance is not the propagated error', cov.loc[gates, gates].values, expected)
    # further measurements do not change the estimate
    est.update(full(base + eps), 1e3, 1., is_new_position=True)
    require((est.estimate()[gates].astype(float) == got[gates].astype(float)).all() and est.require_measurement() is None,
            'a complete estimate is changed by a further measurement')
    ctx.nontrivial(n > 1 and np.abs(grad).min() > 0 and len(set(vars_)) > 1)
    ctx.label('symmetric' if symmetric else 'asymmetric')
