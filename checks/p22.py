"""P22: reloading an earlier run from the GUI brings back exactly that run."""
import os

from hypothesis import strategies as st

from qtune.autotuner import load_auto_tuner
from qtune.history import History
from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub
from vf.deep import difference
from vf.gui import Collector, QtWidgets, application, gui_module

META['assumptions'] += ['the history was loaded from the files of the tuning (only saved states can be reloaded)',
                        'runs are reloaded while no iteration is in progress']


@st.composite
def reload_case(draw):
    number = st.one_of(st.integers(-2, 12), st.integers(0, 5))
    op = st.one_of(st.tuples(st.just('voltages'), st.integers(0, 1), number),
                   st.tuples(st.just('state'), st.integers(0, 1), number),
                   st.tuples(st.just('voltages'), st.integers(0, 1), st.none()),
                   st.tuples(st.just('state'), st.integers(0, 1), st.none()),
                   st.tuples(st.just('iterate'), st.integers(1, 4), st.none()),
                   st.tuples(st.just('iterate'), st.integers(1, 4), st.none()))
    return dict(spec=draw(models.system(resolution=True, max_levels=2, units=False)), steps=draw(st.sampled_from([8, 12, 4, 16])),
                ops=[draw(op)] + draw(st.lists(op, max_size=4)) + [('iterate', draw(st.sampled_from([4, 2, 8])), None)], connected=draw(st.integers(0, 9)) > 0)


def iterate(autotuner, n):
    """the outcome of n iterations"""
    out = []
    for _ in range(n):
        if autotuner.is_tuning_complete():
            out.append('complete')
            break
        try:
            autotuner.iterate()
            out.append((autotuner.current_tuner_index, bool(autotuner.current_tuner_status)))
        except EvaluationError:
            out.append('failed')
            break
    return out


class Reference:
    """The same done by hand, on another experiment."""
    def __init__(self, spec, path):
        self.exp = models.ModelExperiment(spec)
        self.load(path)

    def load(self, path):
        self.autotuner = load_auto_tuner(path, {'experiment': self.exp})


@sub('reload', reload_case(), quick=96, thorough=3000, shards=8, rule='something is reloaded and the tuning continues')
def check_reload(case, ctx):
    app = application()
    spec = dict(case['spec'])
    if spec.get('resolution'):
        # (the history contains the voltages before the first iteration as well)
        spec['v0'] = [round(v * spec['resolution']) / spec['resolution'] for v in spec['v0']]
    ctx.label(*models.describe(spec))
    directory = os.path.join(ctx.tmp(), 'store')
    exp, autotuner = models.build(spec, storage=directory)
    writers = [autotuner]
    iterate(autotuner, case['steps'])
    autotuner.asynchrone_writer.join()
    history = History(directory, exp)
    rows = [{g: history.get_gate_values(g).iloc[i] for g in spec['gates']} for i in range(history.number_of_stored_iterations)]
    ctx.label('rows %d' % min(len(rows), 4))
    # states saved at the same voltages belong to the same run, which ends with the last of them
    stored = []
    for name in sorted(os.listdir(directory)):
        path = os.path.join(directory, name)
        voltages = load_auto_tuner(path, {'experiment': exp}).tuning_hierarchy[0].last_voltages.to_dict()
        if stored and stored[-1][0] == voltages:
            stored.pop()
        stored.append((voltages, path))
    require([v for v, _ in stored] == rows, 'runs of the history', rows, [v for v, _ in stored])
    # what was saved last is continued
    last = os.path.join(directory, sorted(os.listdir(directory))[-1])
    reference = Reference(spec, last)
    reference.exp.voltages = exp.voltages.copy()
    autotuner = load_auto_tuner(last, {'experiment': exp})
    writers += [autotuner, reference.autotuner]
    gui = gui_module.GUI(autotuner if case['connected'] else None, history, logger='vf_p22')
    done = set()
    try:
        with Collector('plotting') as log, Collector('vf_p22') as log2:
            for _ in range(2):
                gui.spawn_reload_window()
            log.check()
            windows = [w for w in app.topLevelWidgets() if isinstance(w, gui_module.ReloadWidget) and w.history is history]
            require(len(windows) == 2, 'number of reload windows', len(windows))
            windows.sort(key=lambda w: id(w))
            numbers = [0, 0]
            for op in case['ops']:
                done.add(op[0])
                if op[0] == 'iterate':
                    if not case['connected']:
                        continue
                    found = gui.auto_tuner
                    start, start_ref = len(exp.log), len(reference.exp.log)
                    outcome, expected = iterate(found, op[1]), iterate(reference.autotuner, op[1])
                    require(outcome == expected, 'the tuning continues differently', outcome, expected)
                    require(exp.log[start:] == reference.exp.log[start_ref:], 'the tuning measures and commands something else',
                            exp.log[start:], reference.exp.log[start_ref:])
                    if {'voltages', 'state'} & done:
                        ctx.nontrivial()
                    continue
                w = windows[op[1]]
                if op[2] is not None:
                    w.tune_run_line.setText(str(op[2]))
                    w.tune_run_line.editingFinished.emit()
                    numbers[op[1]] = min(max(op[2], 0), len(rows) - 1)
                n = numbers[op[1]]
                require(w.tune_run_line.text() == str(n), 'the window shows another run', w.tune_run_line.text(), n)
                buttons = {b.text(): b for b in w.findChildren(QtWidgets.QPushButton)}
                before = exp.voltages.copy()
                button, = [b for t, b in buttons.items() if ('voltages' if op[0] == 'voltages' else 'state') in t.lower()]
                previous = gui.auto_tuner
                button.click()
                log.check()
                log2.check()
                if not case['connected']:
                    require(exp.voltages.equals(before) and gui.auto_tuner is None, 'something happens without an autotuner')
                    continue
                if op[0] == 'voltages':
                    ctx.label('voltages')
                    require(gui.auto_tuner is previous, 'the autotuner is exchanged')
                    require(exp.voltages.to_dict() == rows[n], 'voltages of run %d' % n, exp.voltages.to_dict(), rows[n])
                    reference.exp.voltages = exp.voltages.copy()
                    reference.autotuner.restart()
                else:
                    ctx.label('state')
                    require(exp.voltages.equals(before), 'reloading the state changes the voltages')
                    require(gui.auto_tuner is not previous, 'the state is not reloaded')
                    writers.append(gui.auto_tuner)
                    expected = load_auto_tuner(stored[n][1], {'experiment': exp})
                    expected.restart()
                    diff = difference(expected, gui.auto_tuner, 'autotuner', reserved=(exp,), identity=False)
                    require(diff is None, 'another state than that of run %d is loaded' % n, diff)
                    reference.load(stored[n][1])
                    reference.autotuner.restart()
                    writers.append(reference.autotuner)
                # the logs contain commands
                require(gui.auto_tuner.current_tuner_index == 0 and not gui.auto_tuner.current_tuner_status and
                        gui.auto_tuner.voltages_to_set is None, 'the tuning is not restarted')
    finally:
        for w in app.topLevelWidgets():
            if isinstance(w, gui_module.ReloadWidget) and w.history is history:
                w.close()
        gui.close()
        app.processEvents()
        for a in writers[1:]:
            a.asynchrone_writer.join()
