"""P08: the Kalman filter equals Bayesian linear regression of the gradient."""
import numpy as np
from hypothesis import strategies as st

from qtune.kalman_gradient import KalmanGradient
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['covariances are symmetric, positive (semi)definite and well conditioned',
                        'positions and values up to 10 in their natural units']


def spd(root, floor):
    root = np.array(root)
    return root @ root.T + floor * np.eye(len(root))


@st.composite
def filter_case(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(1, 3)) if n < 3 else draw(st.integers(1, 2))
    d = n * m
    full = draw(st.booleans())

    def root(size):
        return draw(gen.matrix(gen.dec(-1, 1), size, size)) if full else [
            [draw(gen.dec(.1, 1)) if i == j else 0. for j in range(size)] for i in range(size)]

    updates = []
    for _ in range(draw(st.integers(0, 7))):
        updates.append(dict(dx=draw(gen.lists(gen.dec(-2, 2), n)), dy=draw(gen.lists(gen.dec(-4, 4), m)),
                            r=draw(st.sampled_from(['none', 'scalar', 'matrix'])) if m > 1 else
                            draw(st.sampled_from(['none', 'scalar'])),
                            r_scalar=draw(gen.dec(.01, 2)), r_root=root(m) if m > 1 else None,
                            q=root(d) if draw(st.integers(0, 5)) == 0 else None,
                            predict=draw(st.integers(0, 5)) > 0))
    return dict(n=n, m=m, x0=draw(gen.maybe(gen.lists(gen.dec(-3, 3), d))), p0=root(d) if draw(st.booleans()) else None,
                r0=root(m) if draw(st.booleans()) else None, q0=root(d) if draw(st.integers(0, 2)) == 0 else None,
                f=draw(gen.maybe(gen.matrix(gen.dec(-.6, .6), d, d), 3, 1)),
                alpha=draw(st.sampled_from([1, 1, 1., 1.01, 1.1])), updates=updates,
                perm=draw(gen.permutation(len(updates))), reload=draw(st.integers(0, 8)))


def measurement_matrix(dx, m):
    n = len(dx)
    h = np.zeros((m, n * m))
    for i in range(m):
        h[i, i * n:(i + 1) * n] = dx
    return h


@sub('filter', filter_case(), quick=2400, thorough=60000,
     rule='at least two updates with a non-zero step in two or more dimensions')
def check_filter(case, ctx):
    n, m = case['n'], case['m']
    d = n * m
    kwargs = dict(alpha=case['alpha'])
    x, p, r, q, f = np.zeros(d), np.eye(d), np.eye(m), np.zeros((d, d)), np.eye(d)
    if case['x0'] is not None:
        x = np.array(case['x0'])
        kwargs['initial_gradient'] = case['x0'] if m == 1 else x.reshape(m, n)
    if case['p0'] is not None:
        p = spd(case['p0'], .05)
        kwargs['initial_covariance_matrix'] = p.copy()
    if case['r0'] is not None:
        r = spd(case['r0'], .05)
        kwargs['measurement_covariance_matrix'] = r.copy()
    if case['q0'] is not None:
        q = spd(case['q0'], 0.) * .1
        kwargs['process_noise'] = q.copy()
    if case['f'] is not None:
        f = np.array(case['f']) + np.eye(d) * .8
        kwargs['state_transition_function'] = f.copy()
    kalman = KalmanGradient(n_pos_dim=n, n_values=m, **kwargs)
    x0, p0 = x.copy(), p.copy()
    static = case['q0'] is None and case['f'] is None and case['alpha'] == 1 and all(u['q'] is None for u in case['updates'])

    def compare(where):
        scale = 1 + np.abs(x).max()
        require(np.shape(kalman.grad) == (m, n), 'wrong shape of the gradient', kalman.grad)
        require(np.allclose(np.ravel(kalman.grad), x, rtol=0, atol=1e-7 * scale), 'wrong gradient ' + where, kalman.grad, x)
        require(np.allclose(kalman.cov, p, rtol=0, atol=1e-7 * np.abs(p).max()), 'wrong covariance ' + where, kalman.cov, p)

    compare('initially')
    info = []
    for k, u in enumerate(case['updates']):
        if case['reload'] == k:
            kalman = KalmanGradient(**kalman.to_hdf5())
        dx, dy = np.array(u['dx']), np.array(u['dy'])
        args = {}
        r_used = r
        if u['r'] == 'scalar':
            r_used = np.eye(m) * u['r_scalar']
            args['measurement_covariance'] = u['r_scalar']
        elif u['r'] == 'matrix':
            r_used = spd(u['r_root'], .05)
            args['measurement_covariance'] = r_used.copy()
        q_used = q
        if u['q'] is not None:
            q_used = spd(u['q'], 0.) * .1
            args['process_covariance'] = q_used.copy()
        if not u['predict']:
            args['predict'] = False
        old = np.array(kalman.cov)
        kalman.update(u['dx'], u['dy'], **args)
        # reference: predict, then condition the joint Gaussian (Joseph form)
        if u['predict']:
            x = f @ x
            p = case['alpha'] ** 2 * f @ p @ f.T + q_used
        h = measurement_matrix(dx, m)
        s = h @ p @ h.T + r_used
        gain = np.linalg.solve(s, h @ p).T
        x = x + gain @ (dy - h @ x)
        a = np.eye(d) - gain @ h
        p = a @ p @ a.T + gain @ r_used @ gain.T
        info.append((h, r_used, dy))
        compare('after update %d' % k)
        cov = np.array(kalman.cov)
        require(np.abs(cov - cov.T).max() < 1e-9 * np.abs(cov).max(), 'covariance is not symmetric', cov)
        require(np.linalg.eigvalsh(.5 * (cov + cov.T))[0] > -1e-9 * np.abs(cov).max(), 'covariance is not positive', cov)
        if static:
            require(np.linalg.eigvalsh(old - cov)[0] > -1e-9 * np.abs(old).max(),
                    'the uncertainty grows without process noise', old, cov)
    if static:
        precision = np.linalg.inv(p0) + sum((h.T @ np.linalg.solve(rr, h) for h, rr, _ in info), np.zeros((d, d)))
        rhs = np.linalg.solve(p0, x0) + sum((h.T @ np.linalg.solve(rr, dy) for h, rr, dy in info), np.zeros(d))
        post = np.linalg.inv(precision)
        require(np.allclose(kalman.cov, post, rtol=0, atol=1e-6 * np.abs(p0).max()), 'not the posterior covariance')
        require(np.allclose(np.ravel(kalman.grad), post @ rhs, rtol=0, atol=1e-6 * (1 + np.abs(post @ rhs).max())),
                'not the posterior mean')
        # order of the measurements
        other = KalmanGradient(n_pos_dim=n, n_values=m, **kwargs)
        for k in case['perm']:
            h, rr, dy = info[k]
            other.update(case['updates'][k]['dx'], dy, measurement_covariance=rr)
        require(np.allclose(other.grad, kalman.grad, rtol=0, atol=1e-6 * (1 + np.abs(kalman.grad).max())) and
                np.allclose(other.cov, kalman.cov, rtol=0, atol=1e-6 * np.abs(p0).max()), 'order of measurements matters')
        ctx.label('static')
    # suggested direction: one of largest uncertainty
    cov = np.array(kalman.cov)
    w, v = np.linalg.eigh(cov)
    direction = np.asarray(kalman.sugg_diff_position)
    require(direction.shape == (n,), 'wrong shape of the suggested direction', direction)
    if d == 1 or w[-1] - w[-2] > 1e-6 * w[-1]:
        if m == 1:
            overlap = abs(direction @ v[:, -1]) / np.linalg.norm(direction)
            require(overlap > 1 - 1e-6, 'not the direction of the largest uncertainty', direction, v[:, -1])
            ctx.label('direction')
        else:
            # a part of the principal axis belonging to one of the values
            parts = np.split(v[:, -1], m)
            norm = np.linalg.norm(direction)
            require(any(np.linalg.norm(part) > 0 and abs(abs(direction @ part) - norm * np.linalg.norm(part)) <
                        1e-6 * norm * np.linalg.norm(part) + 1e-9 for part in parts),
                    'not the direction of the largest uncertainty', direction, parts)
    ctx.nontrivial(d > 1 and sum(any(u['dx']) for u in case['updates']) >= 2)
    ctx.label('values %d' % m)
