"""P25: the main window reports what happens, and failing windows stop nothing."""
import logging
import sys
import threading
import time

from hypothesis import strategies as st

from qtune.history import History
from vf import gen, models
from vf.core import META, require, sub
from vf.gui import Collector, QtCore, QtWidgets, application, curves, eventually, gui_module, same

META['assumptions'] += ['messages contain no markup and no control characters', 'nested loggers are not both connected to the window',
                        'the level NOTSET is not selected']

LEVELS = ['CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG']
LOGGERS = ['qtune', 'plotting', 'vf_p25', 'vf_p25_b.c']
TEXT = st.text(st.characters(codec='utf-8', exclude_characters='<>&\u2028\u2029\xa0\xad', categories=['L', 'N', 'P', 'S']), max_size=12)


class Handlers:
    """loggers as configured before, restored afterwards"""
    def __init__(self, names):
        self.loggers = [logging.getLogger(n) for n in names] + [logging.getLogger()]

    def __enter__(self):
        self.old = [(list(x.handlers), x.level, x.propagate) for x in self.loggers]
        return self

    def __exit__(self, *exc):
        for logger, (handlers, level, propagate) in zip(self.loggers, self.old):
            logger.handlers[:] = handlers
            logger.setLevel(level)
            logger.propagate = propagate


class Hook:
    """PyQt ends the program if an exception leaves a slot"""
    def __enter__(self):
        self.seen = []
        self.old = sys.excepthook
        sys.excepthook = lambda t, v, tb: self.seen.append('%s: %s' % (t.__name__, v))
        return self

    def __exit__(self, *exc):
        sys.excepthook = self.old

    def check(self):
        require(not self.seen, 'an exception leaves a slot (which ends the program)', *self.seen[:2])


def text_of(gui):
    edits = gui.findChildren(QtWidgets.QTextEdit)
    require(len(edits) == 1, 'number of logs', len(edits))
    return edits[0].toPlainText().replace('\xa0', ' ').split('\n')


def select_level(gui, name):
    boxes = [b for b in gui.findChildren(QtWidgets.QComboBox) if b.findText(name) >= 0]
    require(len(boxes) == 1, 'number of selections of the level', len(boxes))
    boxes[0].setCurrentIndex(boxes[0].findText(name))


@st.composite
def log_case(draw):
    index, level = st.integers(0, 5), st.sampled_from(LEVELS)
    op = st.one_of(st.tuples(st.just('message'), index, level, TEXT, st.sampled_from(['here', 'here', 'thread', 'child', 'exception'])),
                   st.tuples(st.just('message'), index, level, TEXT, st.sampled_from(['here', 'here', 'thread', 'child', 'exception'])),
                   st.tuples(st.just('level'), level), st.tuples(st.just('again'), index), st.tuples(st.just('direct'), TEXT))
    default = draw(st.booleans())
    return dict(default=default, loggers=draw(gen.permutation(len(LOGGERS))), n=draw(st.integers(1, len(LOGGERS))),
                root=draw(st.integers(0, 2)), own=draw(st.lists(st.integers(0, 2), min_size=4, max_size=4)),
                propagate=draw(st.lists(st.booleans(), min_size=4, max_size=4)), levels=draw(st.lists(level, min_size=4, max_size=4)),
                history=draw(st.booleans()), spec=draw(models.system(max_levels=1, limits=False, nonlinear=False)) if default else None,
                ops=draw(st.lists(op, min_size=1, max_size=10)))


@sub('log', log_case(), quick=240, thorough=6000, rule='messages above and below the level')
def check_log(case, ctx):
    app = application()
    names = ['qtune', 'plotting'] if case['default'] else [LOGGERS[i] for i in case['loggers']][:case['n']]
    with Handlers(LOGGERS + ['qtune.child', 'plotting.child']), Hook() as hook:
        root = logging.getLogger()
        for _ in range(case['root']):
            root.addHandler(logging.NullHandler())
        level = {}
        for name, own, lev, propagate in zip(LOGGERS, case['own'], case['levels'], case['propagate']):
            logger = logging.getLogger(name)
            logger.handlers[:] = [logging.NullHandler() for _ in range(own)]
            logger.setLevel(lev)
            logger.propagate = propagate
            level[name] = lev
        ctx.label('root handlers' if case['root'] else 'no root handlers')
        if case['default']:
            exp, autotuner = models.build(case['spec'])
            history = None
            if case['history']:
                history = History(None, exp)
                history.append_autotuner(autotuner)
            gui = gui_module.setup_default_gui(autotuner, history)
            require(gui.isVisible(), 'the window is not shown')
            require(gui.auto_tuner is autotuner, 'autotuner of the window')
            require(history is None or gui.history is history, 'history of the window')
            require(gui.history.number_of_stored_iterations == 1 and
                    set(gui.history.gate_names) == set(case['spec']['gates']), 'a new history begins with the current state',
                    gui.history.number_of_stored_iterations)
            level = dict.fromkeys(names, 'INFO')
        else:
            gui = gui_module.GUI(None, None)
            for name in names:
                gui.configure_logging(name if case['propagate'][0] else logging.getLogger(name))
        expected, outcomes = [], set()
        try:
            for number, op in enumerate(case['ops']):
                if op[0] == 'level':
                    select_level(gui, op[1])
                    # (selecting what is shown already changes nothing)
                    level = dict.fromkeys(names, op[1])
                elif op[0] == 'again':
                    gui.configure_logging(names[op[1] % len(names)])
                elif op[0] == 'direct':
                    gui.log('token%d. %s' % (number, op[1]))
                    expected.append((number, None, op[1]))
                else:
                    name = names[op[1] % len(names)]
                    logger = logging.getLogger(name + '.child' if op[4] == 'child' else name)

                    def message(how=op[4], value=getattr(logging, op[2])):
                        if how == 'exception':
                            try:
                                raise KeyError('cause%d.' % number)
                            except KeyError:
                                logger.log(value, 'token%d. %s', number, op[3], exc_info=True)
                        else:
                            logger.log(value, 'token%d. %s', number, op[3])
                    if op[4] == 'thread':
                        thread = threading.Thread(target=message)
                        thread.start()
                        thread.join()
                    else:
                        message()
                    shown = LEVELS.index(op[2]) <= LEVELS.index(level[name])
                    outcomes.add(shown)
                    if shown:
                        expected.append((number, op[2], op[3]))
                        if op[4] == 'exception':
                            expected.append((number, op[2], None))

                def check():
                    lines = [line for line in text_of(gui) if 'token' in line or 'cause' in line and 'raise' not in line]
                    require(len(lines) == len(expected), 'messages in the window', lines, expected)
                    for line, (n, lev, text) in zip(lines, expected):
                        if text is None:
                            require('KeyError' in line and 'cause%d.' % n in line, 'the cause is not shown', line, n)
                        else:
                            require('token%d. %s' % (n, text) in line and (lev is None or lev in line),
                                    'message of the window', line, n, lev, text)
                eventually(app, check)
                hook.check()
            if len(outcomes) > 1:
                ctx.nontrivial()
        finally:
            gui.close()
            app.processEvents()


# ------------------------------------------------------------------------------------------------------- failures

ACCESSORS = ['get_gate_values', 'get_parameter_values', 'get_parameter_std', 'get_gradients', 'get_gradient_variances']


@st.composite
def failure_case(draw):
    index = st.integers(0, 5)
    spawn = st.tuples(st.just('spawn'), st.sampled_from(['plot', 'parameters', 'gradients']), index)
    fault = st.tuples(st.just('fault'), st.sampled_from(ACCESSORS[:3] + ACCESSORS))
    op = st.one_of(st.tuples(st.just('step'), st.sampled_from([None, None, None, 'fail'])), fault, fault, st.tuples(st.just('repair')), spawn)
    return dict(spec=draw(models.system(max_levels=2, limits=False, nonlinear=False)),
                ops=draw(st.lists(spawn, min_size=2, max_size=3)) + draw(st.lists(op, min_size=2, max_size=7)) +
                [('step', None), draw(fault), ('step', None), ('repair',), ('step', None)])


class Failing(Exception):
    pass


@sub('failures', failure_case(), quick=120, thorough=3000, shards=8, rule='a window fails while another one is open, or an iteration fails')
def check_failures(case, ctx):
    app = application()
    ctx.label(*models.describe(case['spec']))
    exp, autotuner = models.build(case['spec'])
    history = History(None, exp)
    history.append_autotuner(autotuner)
    with Handlers(['qtune', 'plotting']), Hook() as hook:
        logging.getLogger('qtune').propagate = logging.getLogger('plotting').propagate = False
        faults, raised, windows = set(), [], []
        steps, ended, fail, tokens = [], [], [], []

        def spoil(name):
            original = getattr(history, name)

            def accessor(*args, **kwargs):
                if name in faults:
                    frame, window = sys._getframe(1), None
                    while frame is not None and window is None:
                        window = next((w for w in windows if frame.f_locals.get('self') is w), None)
                        frame = frame.f_back
                    token = 'fault%d.' % len(raised)
                    raised.append((window, token))
                    raise Failing(token)
                return original(*args, **kwargs)
            setattr(history, name, accessor)

        for name in ACCESSORS:
            spoil(name)
        append, iterate = history.append_autotuner, autotuner.iterate

        def appending(*args, **kwargs):
            append(*args, **kwargs)
            ended.append(None)

        def iterating():
            steps.append(None)
            if fail:
                fail.clear()
                tokens.append('error%d.' % len(tokens))
                ended.append(tokens[-1])
                raise Failing(tokens[-1])
            try:
                iterate()
            except Exception as e:
                ended.append('%s' % e)
                raise
        history.append_autotuner, autotuner.iterate = appending, iterating
        gui = gui_module.setup_default_gui(autotuner, history)

        def log():
            return '\n'.join(text_of(gui))

        def check():
            hook.check()
            text = log()
            for window, token in raised:
                require(text.count('Failing: ' + token) == 1, 'a failure of a window is not shown once', token, text[-300:])
            for token in tokens:
                require(text.count('Failing: ' + token) == 1, 'a failed iteration is not shown once', token, text[-300:])
            if not raised:
                require('in refresh' not in text, 'a window fails', text[-300:])
            for window in windows:
                if id(window) in broken:
                    continue
                if isinstance(window, gui_module.PlotOrganizer):
                    for curve in window.plot.getPlotItem().listDataItems():
                        x, y = curve.getOriginalDataset()
                        want = frame[curve.name()]
                        require(same([] if y is None else y, want), 'a window does not follow', curve.name(), y, list(want))
                    require(sorted(c.name() for c in window.plot.getPlotItem().listDataItems()) == sorted(selected[id(window)]),
                            'curves of a window', selected[id(window)])
                elif isinstance(window, gui_module.ParameterWidget):
                    for name, ax in zip(window.parameter_names, window.getFigure().axes):
                        curve, = curves(ax)
                        have, want = [v for v in curve[2] if v == v], [v for v in frame[name] if v == v]
                        require(same(have, want), 'a window does not follow', name, have, want)

        def recorded():
            """what the accessors return"""
            active = set(faults)
            faults.clear()
            values = {n: history.get_gate_values(n) for n in history.gate_names}
            values.update((n, history.get_parameter_values(n)) for n in history.parameter_names)
            faults.update(active)
            return values
        frame, broken, selected = recorded(), set(), {}
        spawners = dict(plot=gui.spawn_plot_window, parameters=gui.spawn_parameter_window, gradients=gui.spawn_gradient_window)
        try:
            for op in case['ops']:
                if op[0] == 'spawn':
                    active = set(faults)
                    faults.clear()
                    spawners[op[1]]()
                    new = [w for w in app.topLevelWidgets() if getattr(w, 'history', None) is history and w is not gui and
                           all(w is not o for o in windows)]
                    require(len(new) == 1, 'windows which are opened', len(new))
                    windows += new
                    if op[1] == 'plot':
                        gate = sorted(case['spec']['gates'])[op[2] % len(case['spec']['gates'])]
                        new[0].parameter.child('Gate Voltages').child(gate).setValue(True)
                        selected[id(new[0])] = [gate]
                    faults.update(active)
                elif op[0] == 'fault':
                    faults.add(op[1])
                elif op[0] == 'repair':
                    faults.clear()
                else:
                    if autotuner.is_tuning_complete():
                        break
                    if op[1]:
                        fail.append(1)
                    before, known = len(ended), len(raised)
                    gui.step()
                    end = time.time() + 60
                    while len(ended) == before and time.time() < end:
                        app.processEvents()
                        time.sleep(.001)
                    require(len(ended) == before + 1, 'a step is not done after a failure')
                    frame = recorded()

                    def refreshed():
                        # windows which failed show what they showed before, or parts of the new data
                        if ended[-1] is None:
                            broken.clear()
                        broken.update(id(w) for w, _ in raised[known:] if w is not None)
                        check()
                    eventually(app, refreshed)
                    if op[1]:
                        ctx.label('failed iteration')
                        ctx.nontrivial()
                    if len(raised) > known and len(windows) > 1:
                        ctx.label('failed window')
                        ctx.nontrivial()
        finally:
            faults.clear()
            for window in windows:
                window.close()
            gui.close()
            app.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)
            app.processEvents()
            hook.check()
