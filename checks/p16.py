"""P16: the Nelder-Mead solver performs the Nelder-Mead simplex method."""
import os

import numpy as np
import pandas as pd
from hypothesis import assume
from hypothesis import strategies as st
from scipy.optimize import minimize

from qtune.autotuner import Autotuner
from qtune.solver import NelderMeadSolver, make_target
from qtune.storage import from_hdf5, to_hdf5
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['costs do not tie', 'targets change and solvers are restarted only between two iterations of the method',
                        'a level using the Nelder-Mead method is the last one of the hierarchy']


class Function:
    """A vector valued function of up to four variables."""

    def __init__(self, spec):
        self.a, self.b, self.c = np.array(spec['a']), np.array(spec['b']), np.array(spec['c'])
        self.kind, self.amp = spec['kind'], spec['amp']

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        y = self.a @ (x - self.c)
        if self.kind == 'sin':
            y = y + self.amp * np.sin(self.b @ x)
        elif self.kind == 'rough':
            y = y + 3 * self.amp * np.sin(37 * (self.b @ x))
        elif self.kind == 'square':
            y = y + self.amp * (self.b @ x) ** 2
        elif self.kind == 'kink':
            y = y + self.amp * np.abs(self.b @ x)
        return y


@st.composite
def function(draw, n, m):
    return dict(a=draw(gen.matrix(gen.dec(-2, 2), m, n)), b=draw(gen.matrix(gen.dec(-2, 2), m, n)),
                c=draw(gen.lists(gen.dec(-2, 2), n)), amp=draw(gen.dec(-1, 1)),
                kind=draw(st.sampled_from(['linear', 'sin', 'square', 'kink', 'rough', 'rough'])))


class Reference:
    """The textbook method for a given initial simplex (Nelder and Mead with the standard coefficients 1, 2, 1/2, 1/2)."""

    def __init__(self, points, values, cost):
        self.points = [np.array(p, dtype=float) for p in points]
        self.values = [np.array(v, dtype=float) for v in values]
        self.cost = cost
        self.moves = set()
        self.begin()

    def begin(self):
        order = np.argsort([self.cost(v) for v in self.values], kind='stable')
        self.points = [self.points[i] for i in order]
        self.values = [self.values[i] for i in order]
        self.stage, self.shrunk = 'reflect', []

    def step(self, factor):
        centroid = np.mean(self.points[:-1], axis=0)
        return centroid + factor * (centroid - self.points[-1])

    def request(self):
        if self.stage == 'shrink':
            return self.points[0] + .5 * (self.points[len(self.shrunk) + 1] - self.points[0])
        return self.step(dict(reflect=1., expand=2., outside=.5, inside=-.5)[self.stage])

    def accept(self, point, value):
        self.points[-1], self.values[-1] = point, value
        self.begin()

    def answer(self, point, value):
        """Ties are avoided by the caller."""
        self.moves.add(self.stage)
        costs = [self.cost(v) for v in self.values]
        cost = self.cost(value)
        if self.stage == 'reflect':
            self.reflected = point, value
            if cost < costs[0]:
                self.stage = 'expand'
            elif cost < costs[-2]:
                self.accept(point, value)
            else:
                self.stage = 'outside' if cost < costs[-1] else 'inside'
        elif self.stage == 'expand':
            self.accept(*((point, value) if cost < self.cost(self.reflected[1]) else self.reflected))
        elif self.stage == 'outside':
            if cost < self.cost(self.reflected[1]):
                self.accept(point, value)
            else:
                self.stage = 'shrink'
        elif self.stage == 'inside':
            if cost < costs[-1]:
                self.accept(point, value)
            else:
                self.stage = 'shrink'
        else:
            self.shrunk.append((point, value))
            if len(self.shrunk) == len(self.points) - 1:
                for i, (p, v) in enumerate(self.shrunk):
                    self.points[i + 1], self.values[i + 1] = p, v
                self.begin()

    @property
    def between(self):
        return self.stage == 'reflect'


@st.composite
def sequence_case(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(1, 3))
    steps = draw(st.integers(n + 1, 50))
    return dict(n=n, m=m, f=draw(function(n, m)), span=draw(gen.lists(gen.dec(.1, 2), n)), start=draw(gen.lists(gen.dec(-3, 3), n)),
                desired=draw(gen.lists(gen.dec(-2, 2), m)), steps=steps,
                names=draw(gen.names(gen.GATES, n + 1)), params=draw(gen.names(gen.PARAMS, m + 2)),
                order=draw(gen.permutation(n + 1)), par_order=draw(gen.permutation(m + 1)),
                scratch=draw(st.booleans()), again=draw(st.booleans()), ignored=draw(st.booleans()),
                custom=draw(st.integers(0, 3)) == 0, resolution=draw(st.sampled_from([None, None, 4096, 1000])),
                given=draw(st.integers(0, 3)) == 0,
                reloads=draw(st.lists(st.integers(0, 50), max_size=3, unique=True)),
                restart=draw(gen.maybe(st.tuples(st.integers(5, 60), gen.lists(gen.dec(-3, 3), n)).map(list), 4, 1)),
                targets=draw(st.lists(st.tuples(st.integers(3, 60), gen.lists(gen.dec(-2, 2), m)).map(list), max_size=2)))


@sub('sequence', sequence_case(), quick=480, thorough=16000,
     rule='at least two different kinds of moves besides the reflection')
def check_sequence(case, ctx):
    n, m = case['n'], case['m']
    gates, params = case['names'][:n], case['params'][:m]
    f = Function(case['f'])
    target = make_target(desired=pd.Series(case['desired'] + ([np.nan] if case['ignored'] else []),
                                           params + ([case['params'][m]] if case['ignored'] else [])),
                         tolerance=pd.Series([1e-3] * m + ([np.nan] if case['ignored'] else []),
                                             params + ([case['params'][m]] if case['ignored'] else [])))
    all_params = params + ([case['params'][m]] if case['ignored'] else [])
    span = pd.Series(case['span'], gates)
    round_to = (lambda x: np.round(np.asarray(x, float) * case['resolution']) / case['resolution']) if case['resolution'] else \
        (lambda x: np.asarray(x, float))
    start = round_to(case['start'])
    desired = [np.array(case['desired'])]

    def cost(value):
        difference = np.asarray(value)[:m] - desired[0]
        return float(np.sum(np.abs(difference))) if case['custom'] else float(difference @ difference)

    full_order = [(gates + [case['names'][n]])[i] for i in case['order']]
    par_names = params + [case['params'][m]]
    full_params = [par_names[i] for i in case['par_order']]

    def measured(x):
        """Positions and values as the tuner passes them: in any order, with further gates and parameters."""
        y = np.append(f(x), 17.)
        position = pd.Series(np.append(x, .375), gates + [case['names'][n]])[full_order]
        return y, position, pd.Series(y, par_names)[full_params], pd.Series(1e-6, full_params)

    kwargs = {}
    if case['custom']:
        kwargs['cost_function'] = lambda values: float(np.nansum(np.abs(values)))
    order = list(np.argsort(case['order'][:n]))
    span = span.iloc[order] if len(order) == n else span
    first = pd.Series(start, gates)
    y0 = np.append(f(start), 17.)
    first_values = pd.Series(y0, par_names)[all_params]
    measured_points = []

    def remember(x, y):
        measured_points.append((np.array(x), np.array(y)))

    given_simplex = None
    if case['given']:
        given_simplex = [start] + [start + s * e for s, e in zip(case['span'], np.eye(n))]
        entries = []
        for x in given_simplex:
            y, position, values, _ = measured(x)
            remember(x, y)
            entries.append((position[gates], values[all_params]))
        solver = NelderMeadSolver(target=target, simplex=entries, span=span, current_position=first, current_values=first_values,
                                  state='start_iteration', **kwargs)
    elif case['scratch'] and not case['custom']:
        solver = NelderMeadSolver.from_scratch(target=target, span=span, current_position=first, current_values=first_values)
        remember(start, y0)
    else:
        solver = NelderMeadSolver(target=target, simplex=[], span=span, current_position=first,
                                  current_values=first_values * np.nan, **kwargs)
    reference = None

    def all_distinct(values):
        costs = sorted(cost(v) for v in values)
        return all(b - a > 1e-9 * (1 + abs(a)) for a, b in zip(costs, costs[1:]))

    if case['given']:
        assume(all_distinct([y for _, y in measured_points]))
        reference = Reference(*zip(*measured_points), cost)
    elif case['again'] or not case['scratch'] or case['custom']:
        # the tuner evaluates the initial position first
        y, position, values, variances = measured(start)
        solver.update_after_step(position, values, variances)
        if not measured_points:
            remember(start, y)
    targets = {k: t for k, t in case['targets']}
    built, sequence = [start], []

    def judge_built(points):
        diffs = (np.array(points[1:]) - points[0]) / span[gates].values
        if not case['resolution']:
            require(np.allclose(np.linalg.norm(diffs, axis=1), 1, atol=1e-9),
                    'the initial simplex has the given spans', points, span.to_dict())
        require(np.linalg.svd(diffs, compute_uv=False).min() > .05, 'the initial simplex is not degenerate', points)

    for k in range(case['steps']):
        if case['restart'] and case['restart'][0] == k and reference is not None and reference.between:
            ctx.label('restart')
            start = round_to(case['restart'][1])
            _, position, _, _ = measured(start)
            solver.restart(position[gates])
            measured_points.clear()
            y, position, values, variances = measured(start)
            solver.update_after_step(position, values, variances)
            remember(start, y)
            built, reference, sequence = [start], None, []
        if k in targets and (reference is None or reference.between):
            ctx.label('target changed')
            desired[0] = np.array(targets[k])
            solver.target = dict(desired=pd.Series(targets[k], params))
            sequence = []
            if reference is not None:
                if not all_distinct(reference.values):
                    break
                reference.begin()
        if k in case['reloads'] and not case['custom']:
            ctx.label('reloaded')
            path = os.path.join(ctx.tmp(), 'solver_%d.h5' % k)
            to_hdf5(path, 'solver', solver)
            solver = from_hdf5(path, reserved={})['solver']
        suggestion = solver.suggest_next_position()
        require(sorted(suggestion.index) == sorted(gates), 'the suggestion consists of the gates of the solver', suggestion)
        suggested = suggestion[gates].values.astype(float)
        require(np.array_equal(solver.suggest_next_position()[gates].values.astype(float), suggested),
                'asking again does not change the suggestion')
        if reference is not None:
            expected = reference.request()
            scale = 1 + np.max(np.abs(expected))
            require(np.max(np.abs(suggested - expected)) < 1e-9 * scale, 'the next point is that of the Nelder-Mead method',
                    reference.stage, suggested, expected)
        x = round_to(suggested)
        y, position, values, variances = measured(x)
        before = values.copy()
        solver.update_after_step(position, values, variances)
        require(values.equals(before), 'the values are not modified')
        remember(x, y)
        if reference is None:
            built.append(x)
            if len(built) == n + 1:
                judge_built(built)
                ys = [next(v for p, v in measured_points if np.array_equal(p, b)) for b in built]
                if not all_distinct(ys):
                    break
                reference = Reference(built, ys, cost)
                sequence = []
        else:
            known = reference.values + ([reference.reflected[1]] if reference.stage != 'reflect' else []) + \
                [v for _, v in reference.shrunk]
            if not all_distinct([y] + known):
                break           # the method does not specify ties
            reference.answer(x, y)
            sequence.append(x)
        require(np.allclose(solver.current_position[gates].values.astype(float), x, rtol=0, atol=1e-12),
                'the current position is the last measured one', solver.current_position, x)
        simplex = solver.simplex
        require(len(simplex) <= n + 1, 'the simplex has at most n + 1 points')
        for p, v in simplex:
            p, v = p[gates].values.astype(float), v[params].values.astype(float)
            require(any(np.array_equal(p, q) and np.array_equal(v, w[:m]) for q, w in measured_points),
                    'the simplex consists of measured points with their own values', p, v)
        if reference is not None and reference.between:
            mine = sorted((tuple(p), tuple(v[:m])) for p, v in zip(reference.points, reference.values))
            theirs = sorted((tuple(p[gates].values.astype(float)), tuple(v[params].values.astype(float))) for p, v in simplex)
            require(mine == theirs, 'the simplex is that of the Nelder-Mead method', theirs, mine)
            if not case['targets'] and not case['resolution']:
                best = min(cost(v) for _, v in measured_points)
                require(min(cost(v[params].values.astype(float)) for _, v in simplex) <= best,
                        'the simplex contains the best point measured')
    if reference is not None:
        for move in reference.moves:
            ctx.label(move)
        if len(reference.moves - {'reflect'}) >= 2:
            ctx.nontrivial()


@st.composite
def scipy_case(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, f=draw(function(n, n)), span=draw(gen.lists(gen.dec(.1, 2), n)), start=draw(gen.lists(gen.dec(-3, 3), n)))


@sub('scipy', scipy_case(), quick=300, thorough=8000, rule='in at least two dimensions')
def check_scipy(case, ctx):
    """Differential check of the reference and the solver against scipy."""
    n = case['n']
    f = Function(case['f'])
    gates, params = gen.GATES[:n], ['p%d' % i for i in range(n)]
    target = make_target(desired=pd.Series(0., params), tolerance=pd.Series(1e-6, params))
    solver = NelderMeadSolver(target=target, simplex=[], span=pd.Series(case['span'], gates),
                              current_position=pd.Series(case['start'], gates), current_values=pd.Series(np.nan, params))
    x, seq, costs = np.array(case['start']), [], []
    for _ in range(60):
        y = f(x)
        seq.append(x)
        costs.append(float(y @ y))
        solver.update_after_step(pd.Series(x, gates), pd.Series(y, params), pd.Series(1e-9, params))
        x = solver.suggest_next_position()[gates].values.astype(float)
    calls = []

    def cost(z):
        calls.append(np.array(z))
        return float(f(z) @ f(z))

    minimize(cost, seq[0], method='Nelder-Mead', options=dict(initial_simplex=np.array(seq[:n + 1]), maxfev=60, xatol=0, fatol=0))
    if n > 1:
        ctx.nontrivial()
    for k, (a, b) in enumerate(zip(seq, calls)):
        if len(set(np.round(np.array(costs[:k]) / max(costs), 12))) < len(costs[:k]):
            ctx.label('tie')
            break
        require(np.allclose(a, b, rtol=1e-8, atol=1e-8), 'the sequence of points is that of scipy', k, a, b)


@st.composite
def convergence_case(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, diag=draw(gen.lists(gen.sdec(.5, 2), n)), off=draw(gen.matrix(gen.dec(-.2, .2), n, n)),
                amp=draw(gen.dec(0, .05)), start=draw(gen.lists(gen.dec(-2, 2), n)), desired=draw(gen.lists(gen.dec(-2, 2), n)),
                span=draw(gen.lists(gen.dec(.2, 1), n)))


@sub('convergence', convergence_case(), quick=160, thorough=4000, rule='in at least two dimensions')
def check_convergence(case, ctx):
    n = case['n']
    gates, params = gen.GATES[:n], gen.PARAMS[:n]
    a = np.diag(case['diag']) + np.array(case['off'])
    solver = NelderMeadSolver(target=make_target(desired=pd.Series(case['desired'], params), tolerance=pd.Series(1e-3, params)),
                              simplex=[], span=pd.Series(case['span'], gates), current_position=pd.Series(case['start'], gates),
                              current_values=pd.Series(np.nan, params))
    x, best = np.array(case['start']), np.inf
    for k in range(120 * n):
        y = a @ x + case['amp'] * np.sin(x)
        best = min(best, np.max(np.abs(y - case['desired'])))
        if best < 1e-3:
            break
        solver.update_after_step(pd.Series(x, gates), pd.Series(y, params), pd.Series(1e-9, params))
        x = solver.suggest_next_position()[gates].values.astype(float)
    if n > 1:
        ctx.nontrivial()
    require(best < 1e-3, 'the method converges to the target', best)


@st.composite
def tuner_case(draw):
    return dict(spec=draw(models.system(kinds=('nm', 'kalman', 'fd'), max_levels=2, limits=False).filter(
        lambda s: s['levels'][-1]['kind'] == 'nm')), reload=draw(gen.maybe(st.integers(1, 60), 1, 1)))


@sub('autotuner', tuner_case(), quick=64, thorough=1600, rule='the method performs at least one move after the initial simplex')
def check_tuner(case, ctx):
    spec = case['spec']
    path = os.path.join(ctx.tmp(), 'store') if case['reload'] is not None else None
    exp, tuner = models.build(spec, storage=path)
    if case['reload'] is not None:
        models.run(tuner, case['reload'])
        if tuner.is_tuning_complete():
            return
        tuner.asynchrone_writer.join()
        file = tuner.last_save_file
        tuner = from_hdf5(file, reserved={'experiment': exp})['autotuner']
        require(isinstance(tuner, Autotuner), 'the autotuner is loaded')
        ctx.label('reloaded')
    n = models.run(tuner, 900)
    if case['reload'] is not None:
        tuner.asynchrone_writer.join()
    require(tuner.is_tuning_complete(), 'the tuning with the Nelder-Mead method completes', n)
    level = spec['levels'][-1]
    for row in level['rows']:
        require(abs(exp.value(row['name']) - row['desired']) <= row['tol'], 'the parameters are tuned', row, exp.value(row['name']))
    if len(spec['levels']) == 1:
        evaluations = sum(1 for entry in exp.log if entry[0] == 'measure' and entry[1] == level['rows'][0]['name'])
        if evaluations > len(level['gates']) + 2:
            ctx.nontrivial()
    else:
        ctx.nontrivial()
