"""P11: a tuning resumed from any saved state continues identically."""
import os

import pandas as pd
from hypothesis import strategies as st

from qtune.autotuner import load_auto_tuner
from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub

META['assumptions'] += ['measurements are reproducible at equal voltages',
                        'the resumed experiment has the voltages it had when the state was saved']


def roughen(draw, spec):
    """Rough functions lead to all moves of the simplex."""
    for level in spec['levels']:
        if level['kind'] == 'nm':
            for name in level['evaluated']:
                spec['params'][name].update(amp=draw(gen.dec(.5, 2)), w={g: draw(gen.dec(3, 20)) for g in level['gates']})


@st.composite
def simplices(draw):
    spec = draw(models.system(kinds=('nm',), max_levels=1, resolution=True))
    roughen(draw, spec)
    for row in spec['levels'][0]['rows']:
        row['tol'] = .001
    return dict(spec=spec, event=None, time_path=False, limit=44, crash=list(range(8 + draw(st.integers(0, 1)), 44, 2)), every=False)


@st.composite
def crashes(draw):
    spec = draw(models.system(failing=True, resolution=True))
    if draw(st.integers(0, 2)):
        roughen(draw, spec)
    return dict(spec=spec, event=draw(gen.maybe(st.tuples(
        st.integers(0, 20), st.sampled_from(['restart', 'targets'])), 2, 1)),
                time_path=draw(st.booleans()), limit=draw(st.sampled_from([12, 30, 60])),
                crash=draw(st.lists(st.integers(0, 60), unique=True, min_size=1, max_size=4)),
                every=draw(st.integers(0, 5)) == 1)


def outcome(autotuner):
    """None or the error of an iteration."""
    try:
        autotuner.iterate()
    except EvaluationError:
        return 'evaluation error'
    return None


def interfere(event, n, autotuner, spec):
    """A restart or a change of targets, in both runs."""
    if event is None or event[0] != n:
        return
    if event[1] == 'restart':
        autotuner.restart()
    else:
        changes = [{'desired': pd.Series({r['name']: r['desired'] - .125 for r in level['rows'] if r.get('desired') is not None},
                                         dtype=float)} for level in spec['levels']]
        autotuner.change_targets(changes)


def uninterrupted(spec, limit, event):
    exp, autotuner = models.build(spec)
    steps = []
    for n in range(limit):
        interfere(event, n, autotuner, spec)
        if autotuner.is_tuning_complete():
            break
        start = len(exp.log)
        error = outcome(autotuner)
        steps.append((exp.log[start:], exp.voltages.to_dict(), autotuner.is_tuning_complete(), error))
        if error:
            break
    return steps


def same(a, b):
    """NaN equals NaN"""
    return repr(a) == repr(b)


@sub('resume', crashes(), quick=240, thorough=9000, rule='at least one reload with at least three iterations afterwards')
def check_resume(case, ctx):
    spec = case['spec']
    ctx.label(*models.describe(spec))
    reference = uninterrupted(spec, case['limit'], case['event'])
    directory = os.path.join(ctx.tmp(), 'store')
    kwargs = dict(hdf5_storage_path=directory, append_time_to_path=case['time_path'])
    exp, autotuner = models.build(spec, storage=kwargs)
    location = None
    crash = {c % max(len(reference), 1) for c in case['crash']}
    reloads = 0
    try:
        for n, (log, voltages, complete, error) in enumerate(reference):
            interfere(case['event'], n, autotuner, spec)
            start = len(exp.log)
            require(not autotuner.is_tuning_complete(), 'the tuning is complete too early', n)
            found = outcome(autotuner)
            require(found == error, 'the iteration ends differently after resuming', n, found, error)
            require(same(exp.log[start:], log), 'measurements or voltages differ after resuming', 'iteration %d' % n,
                    'resumed', exp.log[start:], 'uninterrupted', log)
            require(same(exp.voltages.to_dict(), voltages), 'voltages differ', n)
            require(autotuner.is_tuning_complete() == complete, 'completion differs', n)
            if error:
                break
            path = autotuner.last_save_file
            require(path is not None, 'the state was not saved', n)
            if location is None:
                location = os.path.dirname(path)
                require(location == directory or (case['time_path'] and os.path.dirname(location) == directory),
                        'saved in an unexpected directory', path)
            require(os.path.dirname(path) == location, 'the resumed tuning writes elsewhere', path, location)
            if n in crash or case['every']:
                autotuner.asynchrone_writer.join()
                old = exp
                exp = models.ModelExperiment(spec, old.voltages.to_dict())
                del autotuner
                autotuner = load_auto_tuner(path, {'experiment': exp})
                reloads += 1
                ctx.nontrivial(len(reference) - n > 3)
    finally:
        writer = getattr(autotuner, '_asynchrone_writer', None)
        if writer is not None:
            autotuner.asynchrone_writer.join()
    ctx.label('event %s' % (case['event'][1] if case['event'] and case['event'][0] < len(reference) else None))
    ctx.label('reloads %s' % (reloads if reloads < 3 else '3+'))


@sub('simplex', simplices(), quick=40, thorough=1600, rule='at least one reload with at least three iterations afterwards')
def check_simplex(case, ctx):
    """Often reloaded during a Nelder-Mead search."""
    check_resume(case, ctx)
