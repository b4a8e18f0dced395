"""P21: plots and plot windows show exactly the recorded data."""
import copy
import time

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import qtune.evaluator as ev
from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.history import History, parameter_information
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target
from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub
from vf.gui import Collector, QtCore, QtWidgets, application, check_curve, curves, eventually, floats, gui_module, same, vertical_marks

META['assumptions'] += ['what the accessors of the history return is decided by P13; here it is compared with what is drawn',
                        'raw data are plotted for the evaluators in the table of the module, under their default names']

GATES = ['A', 'AB', 'B', 'x+', '(T)', 'g 1', 'a[0]', 'N1', 'd|T']
PARAMS = ['t', 'tt', 't.', 'x|t', 'pos', 'pos 2', 'time_load', 'load', 'parameter_tunnel_coupling', 'position_RFA',
          'position_RFB', 'parameter_time_load', 'parameter_time_rise', 'lead time', 'origin y']


@st.composite
def history_spec(draw):
    return dict(spec=draw(models.system(failing=True, gate_pool=GATES, param_pool=PARAMS, max_levels=2, nonlinear=False,
                                        limits=False, units=draw(st.booleans()))),
                limit=draw(st.sampled_from([12, 6, 25, 2, 1])))


def produce(case, ctx):
    exp, autotuner = models.build(case['spec'])
    history = History(None, exp)
    history.append_autotuner(autotuner)
    for _ in range(case['limit']):
        if not step(autotuner, history):
            break
    ctx.label('rows %d' % min(4, history.number_of_stored_iterations))
    return exp, autotuner, history


def step(autotuner, history):
    if autotuner.is_tuning_complete():
        return False
    try:
        autotuner.iterate()
    except EvaluationError:
        return False
    history.append_autotuner(autotuner)
    return True


def pick(order, mask, names):
    """some of the names in some order"""
    names = sorted(names)
    if not names:
        return []
    return list(dict.fromkeys(names[i % len(names)] for i, m in zip(order, mask) if m))


def parameter_title(name):
    return parameter_information.get(name, {}).get('name', name)


def check_parameter_axes(history, axes, names, with_std):
    require(len(axes) == len(names), 'number of plots', len(axes), len(names))
    titles = [ax.get_title() for ax in axes]
    expected = [parameter_title(n) for n in names]
    require(sorted(titles) == sorted(expected), 'titles of the parameters', titles, expected)
    for name in names:
        ax = axes[titles.index(parameter_title(name))] if titles.count(parameter_title(name)) == 1 else axes[names.index(name)]
        shown = curves(ax)
        require(len(shown) == 1, 'curves of ' + name, len(shown))
        values = history.get_parameter_values(name)
        check_curve(name, shown[0], values.index, values, history.get_parameter_std(name) if with_std else None)


def check_gradient_axes(history, axes, names, with_std):
    require(len(axes) == len(names), 'number of plots', len(axes), len(names))
    for name, ax in zip(names, axes):
        frame, variances = history.get_gradients(name), history.get_gradient_variances(name)
        shown = curves(ax)
        require(sorted(c[0] for c in shown) == sorted(frame.columns), 'gates of the gradient of ' + name, [c[0] for c in shown])
        label = parameter_information.get(name, {}).get('gradient_unit')
        require(label is None and name in ax.get_ylabel() or label == ax.get_ylabel(), 'label of the gradient of ' + name,
                ax.get_ylabel())
        for curve in shown:
            gate = curve[0]
            check_curve('gradient of %s at %s' % (name, gate), curve, frame.index, frame[gate],
                        np.sqrt(variances[gate]) if with_std else None)


@st.composite
def figure_case(draw):
    case = draw(history_spec())
    flags = st.lists(st.booleans(), min_size=6, max_size=6)
    for key in ('voltages', 'parameters', 'gradients'):
        case[key] = draw(st.sampled_from(['all', 'some', 'none', 'all']))
        case[key + '_mask'] = draw(flags)
        case[key + '_order'] = draw(gen.permutation(6))
    case.update(cov=draw(st.booleans()), var=draw(st.booleans()))
    return case


@sub('figures', figure_case(), quick=200, thorough=4000, rule='at least two kinds of data are plotted')
def check_figures(case, ctx):
    exp, autotuner, history = produce(case, ctx)
    mode, chosen = [], {}
    available = dict(voltages=history.gate_names, parameters=history.parameter_names,
                     gradients=history.gradient_controlled_parameter_names)
    arguments = {}
    for key, argument in (('voltages', 'voltage_indices'), ('parameters', 'parameter_names'),
                          ('gradients', 'gradient_parameter_names')):
        if not available[key]:
            chosen[key] = None
        elif case[key] == 'all':
            mode.append('all_' + key)
            chosen[key] = sorted(available[key])
        elif case[key] == 'some':
            chosen[key] = pick(case[key + '_order'], case[key + '_mask'], available[key]) or None
            if chosen[key]:
                arguments[argument] = list(chosen[key])
        else:
            chosen[key] = None
    if case['cov']:
        mode.append('with_grad_covariances')
    if case['var']:
        mode.append('with_par_variances')
    ctx.nontrivial(sum(c is not None for c in chosen.values()) > 1)
    ctx.label(*[k + ' ' + case[k] for k in chosen])
    try:
        figures, axes = history.plot_tuning(mode=' '.join(mode), **arguments)
        for key, fig, ax in zip(('voltages', 'parameters', 'gradients'), figures, axes):
            require((fig is None) == (ax is None) == (chosen[key] is None), 'figure of the ' + key, fig, chosen[key])
        if chosen['voltages']:
            shown = curves(axes[0])
            require(sorted(c[0] for c in shown) == sorted(chosen['voltages']), 'gates which are shown', [c[0] for c in shown])
            for curve in shown:
                values = history.get_gate_values(curve[0])
                check_curve('voltage of ' + curve[0], curve, values.index, values)
        if chosen['parameters']:
            check_parameter_axes(history, list(axes[1]), chosen['parameters'], case['var'])
        if chosen['gradients']:
            check_gradient_axes(history, list(axes[2]), chosen['gradients'], case['cov'])
    finally:
        plt.close('all')


# ------------------------------------------------------------------------------------------------------- windows

@st.composite
def window_case(draw):
    case = draw(history_spec())
    case['limit'] = draw(st.sampled_from([6, 2, 12, 0, 1]))
    index = st.integers(0, 9)
    value = st.sampled_from(['', 'plot', 'plot + error', 'plot', 'plot + error'])
    case['ops'] = draw(st.lists(st.one_of(
        st.tuples(st.just('gate'), index, st.booleans()),
        st.tuples(st.just('parameter'), index, value),
        st.tuples(st.just('gradient'), index, index, value),
        st.tuples(st.just('gradients'), index, value),
        st.tuples(st.just('iterate'), st.integers(1, 8))), min_size=1, max_size=10))
    case['other'] = draw(st.booleans())
    return case


def check_organizer(organizer, history, gates, parameters, gradients):
    item = organizer.plot.getPlotItem()
    expected, bars = {}, []
    for g, on in gates.items():
        if on:
            expected[g] = history.get_gate_values(g)
    for p, v in parameters.items():
        if v:
            expected[p] = history.get_parameter_values(p)
        if v.endswith('error'):
            bars.append((p, history.get_parameter_values(p), history.get_parameter_std(p)))
    for p, of_gate in gradients.items():
        frame, variances = history.get_gradients(p), history.get_gradient_variances(p)
        for g, v in of_gate.items():
            if v:
                expected[p + '#' + g] = frame[g]
            if v.endswith('error'):
                bars.append((p + '#' + g, frame[g], np.sqrt(variances[g])))
    shown = {c.name(): c for c in item.listDataItems()}
    require(len(shown) == len(item.listDataItems()), 'a curve is shown twice', [c.name() for c in item.listDataItems()])
    require(shown.keys() == expected.keys(), 'selected curves', sorted(shown), sorted(expected))
    legend = sorted(label.text for _, label in item.legend.items)
    require(legend == sorted(expected), 'entries of the legend', legend, sorted(expected))
    for name, values in expected.items():
        x, y = shown[name].getOriginalDataset()
        if y is None:
            x, y = [], []
        require(same(y, values) and same(x, values.index), name + ' is not shown as recorded', x, y, list(values))
    errors = [i for i in item.items if isinstance(i, gui_module.pg.ErrorBarItem)]
    require(len(errors) == len(bars), 'number of sets of error bars', len(errors), [b[0] for b in bars])
    for name, values, std in bars:
        require(any(same(e.opts['x'], values.index) and same(e.opts['y'], values) and same(e.opts['height'], 2 * std)
                    for e in errors), 'error bars of ' + name, [floats(e.opts['height']) for e in errors], floats(2 * std))


class Selection:
    """what is selected in a real time plot"""
    def __init__(self, organizer, history):
        self.organizer, self.history = organizer, history
        self.gates = {g: False for g in history.gate_names}
        self.parameters = {p: '' for p in history.parameter_names}
        self.gradients = {p: {g: '' for g in gs} for p, gs in history.gradient_controlled_parameter_names.items()}
        self.groups = {p: '' for p in self.gradients}

    @staticmethod
    def nth(names, i):
        names = sorted(names)
        return names[i % len(names)] if names else None

    def select(self, op):
        tree = self.organizer.parameter
        if op[0] == 'gate':
            name = self.nth(self.gates, op[1])
            tree.child('Gate Voltages').child(name).setValue(op[2])
            self.gates[name] = op[2]
        elif op[0] == 'parameter':
            name = self.nth(self.parameters, op[1])
            tree.child('Parameters').child(name).setValue(op[2])
            self.parameters[name] = op[2]
        else:
            name = self.nth(self.gradients, op[1])
            if name is None:
                return
            node = tree.child('Gradients').child(name)
            if op[0] == 'gradient':
                gate = self.nth(self.gradients[name], op[2])
                node.child(gate).setValue(op[3])
                self.gradients[name][gate] = op[3]
            else:
                node.setValue(op[2])
                if self.groups[name] != op[2]:
                    self.gradients[name] = {g: op[2] for g in self.gradients[name]}
                self.groups[name] = op[2]

    def values(self):
        return [*self.parameters.values(), *(v for g in self.gradients.values() for v in g.values())]

    def any(self):
        return any(self.gates.values()) or any(self.values())

    def bars(self):
        return any('error' in v for v in self.values())

    def check(self):
        check_organizer(self.organizer, self.history, self.gates, self.parameters, self.gradients)


@sub('windows', window_case(), quick=180, thorough=3000, rule='something is selected and an iteration happens while the window is open')
def check_windows(case, ctx):
    app = application()
    windows = []
    with Collector('plotting') as log:
        exp, autotuner, history = produce(case, ctx)
        organizer = gui_module.PlotOrganizer(history=history)
        windows.append(organizer)
        others = []
        if case['other']:
            others = [gui_module.ParameterWidget(history), gui_module.GradientWidget(history)]
            windows += others
        log.check()
        selection = Selection(organizer, history)
        happened = set()

        try:
            for op in case['ops']:
                happened.add(op[0])
                if op[0] != 'iterate':
                    selection.select(op)
                else:
                    for _ in range(op[1]):
                        if not step(autotuner, history):
                            break
                    for window in windows:
                        window.refresh()
                log.check()
                selection.check()
            if others:
                for window in others:
                    window.refresh()
                log.check()
                names = sorted(history.parameter_names)
                axes = others[0].getFigure().axes
                order = list(others[0].parameter_names)
                require(sorted(order) == names, 'parameters of the window', order)
                check_parameter_axes(history, axes, order, True)
                names = sorted(history.gradient_controlled_parameter_names)
                order = [n for n in others[1].parameter_names]
                require(sorted(order) == names, 'gradients of the window', order, names)
                check_gradient_axes(history, others[1].getFigure().axes, order, True)
                ctx.label('parameter and gradient windows')
        finally:
            for window in windows:
                window.close()
                window.deleteLater()
            app.processEvents()
            plt.close('all')
    ctx.nontrivial(selection.any() and 'iterate' in happened)
    ctx.label('bars' if selection.bars() else 'no bars')


KINDS = {'plot': ('spawn_plot_window', gui_module.PlotOrganizer), 'parameters': ('spawn_parameter_window', gui_module.ParameterWidget),
         'gradients': ('spawn_gradient_window', gui_module.GradientWidget), 'raw': ('spawn_evaluator_window', gui_module.EvaluatorWidget),
         'reload': ('spawn_reload_window', gui_module.ReloadWidget)}


@st.composite
def spawned_case(draw):
    case = draw(history_spec())
    case['limit'] = draw(st.sampled_from([1, 2, 0, 6]))
    index = st.integers(0, 9)
    value = st.sampled_from(['plot', 'plot + error', ''])
    select = st.tuples(st.just('select'), index, st.one_of(
        st.tuples(st.just('gate'), index, st.booleans()), st.tuples(st.just('parameter'), index, value),
        st.tuples(st.just('gradients'), index, value), st.tuples(st.just('gradient'), index, index, value)))
    first = st.one_of(st.tuples(st.just('gate'), index, st.just(True)), st.tuples(st.just('parameter'), index, value))
    spawn = st.tuples(st.just('spawn'), st.sampled_from(['plot', 'parameters', 'gradients', 'plot', 'parameters', 'gradients', 'raw', 'reload']),
                      first)
    case['ops'] = draw(st.lists(spawn, min_size=2, max_size=4)) + draw(st.lists(st.one_of(
        spawn, select, select, st.tuples(st.just('close'), index), st.tuples(st.just('step'), st.integers(1, 3)),
        st.tuples(st.just('step'), st.integers(1, 3))), min_size=2, max_size=7)) + [('step', 1)]
    return case


@sub('spawned', spawned_case(), quick=160, thorough=2000, shards=8, rule='a step is done while at least two windows with data are open')
def check_spawned(case, ctx):
    """windows which the main window opened follow the steps of its worker"""
    app = application()
    opened = []                       # (kind, window, selection)
    with Collector('plotting') as log, Collector('vf_p21') as errors:
        exp, autotuner, history = produce(case, ctx)
        steps = []
        append = history.append_autotuner

        def counting(a):
            time.sleep(.005)              # (the windows may be redrawn meanwhile)
            append(a)
            steps.append(a)
        history.append_autotuner = counting
        gui = gui_module.GUI(autotuner, history, logger='vf_p21')

        def top_level():
            return [w for w in app.topLevelWidgets() if getattr(w, 'history', None) is history and w is not gui]

        def check():
            log.check()
            for kind, window, selection in opened:
                require(window.isVisible(), 'a window is not shown', kind)
                if kind == 'plot':
                    selection.check()
                elif kind == 'parameters':
                    names = list(window.parameter_names)
                    require(sorted(names) == sorted(history.parameter_names), 'parameters of the window', names)
                    check_parameter_axes(history, window.getFigure().axes, names, True)
                elif kind == 'gradients':
                    names = list(window.parameter_names)
                    require(sorted(names) == sorted(history.gradient_controlled_parameter_names), 'gradients of the window', names)
                    check_gradient_axes(history, window.getFigure().axes, names, True)
                elif kind == 'raw':
                    texts = sorted(b.text() for b in window.findChildren(QtWidgets.QPushButton))
                    # (those which had been evaluated when it was opened)
                    require(texts == selection, 'buttons of the evaluators', texts, selection)

        try:
            for op in case['ops']:
                if op[0] == 'spawn':
                    name, cls = KINDS[op[1]]
                    getattr(gui, name)()
                    log.check()
                    known = {id(w) for _, w, _ in opened}
                    new = [w for w in top_level() if id(w) not in known]
                    require(len(new) == 1 and type(new[0]) is cls, 'windows which are opened', [type(w).__name__ for w in new])
                    opened.append((op[1], new[0], Selection(new[0], history) if op[1] == 'plot' else sorted(history.evaluator_names)))
                    if op[1] == 'plot':
                        opened[-1][2].select(op[2])
                elif op[0] == 'select':
                    organizers = [s for k, _, s in opened if k == 'plot']
                    if organizers:
                        organizers[op[1] % len(organizers)].select(op[2])
                elif op[0] == 'close':
                    if opened:
                        _, window, selection = opened.pop(op[1] % len(opened))
                        window.close()
                        del window, selection
                        app.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)
                        require(len(top_level()) == len(opened), 'windows after one was closed',
                                [type(w).__name__ for w in top_level()])
                        ctx.label('closed')
                else:
                    for _ in range(op[1]):
                        if autotuner.is_tuning_complete():
                            break
                        before = len(steps)
                        gui.step()
                        end = time.time() + 60
                        while len(steps) == before and not errors.messages and time.time() < end:
                            app.processEvents()
                            time.sleep(.001)
                        if errors.messages:
                            break
                        require(len(steps) == before + 1, 'the step is not recorded')
                        if len(opened) > 1:
                            ctx.nontrivial()
                    if errors.messages:
                        ctx.label('failed iteration')
                        del errors.messages[:]
                eventually(app, check)
            ctx.label('windows %d' % min(len(opened), 4))
        finally:
            for _, window, _ in opened:
                window.close()
            gui.close()
            app.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)
            app.processEvents()
            plt.close('all')


# ------------------------------------------------------------------------------------------------------ raw data

ARGUMENTS = {
    'LoadTime': ['offset', 'height', 'curvature'],
    'InterDotTCByLineScan': ['offset', 'slope', 'height', 'position', 'width'],
    'LeadTunnelTimeByLeadScan': ['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset', 'slope',
                                 'offset_linear', 'length_lin_fall', 'slope_1', 'offset_linear_1', 'length_lin_rise'],
    'LeadTunnelTimePrefitVersion': ['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset']}
FUNCTIONS = {'LoadTime': ev.func_load_time, 'InterDotTCByLineScan': ev.func_inter_dot_coupling,
             'LeadTunnelTimeByLeadScan': ev.func_lead_times_v2, 'LeadTunnelTimePrefitVersion': ev.func_lead_times_v1}
CLASSES = {'LoadTime': ev.NewLoadTime, 'InterDotTCByLineScan': ev.InterDotTCByLineScan,
           'LeadTunnelTimeByLeadScan': ev.LeadTunnelTimeByLeadScan, 'LeadTunnelTimePrefitVersion': ev.LeadTunnelTimePrefitVersion,
           'LeadTransition': ev.LeadTransition, 'SensingDot1D': ev.SensingDot1D, 'SensingDot2D': ev.SensingDot2D}


class Script:
    """Instead of measuring, raw data and results of the evaluators are made up (a new set at every evaluation)."""
    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)
        self.log = []              # name, snapshot
        self.values = []

    def fill(self, evaluator):
        kind = evaluator.kind
        rng = self.rng
        n = rng.randint(5, 12)
        snap = dict(kind=kind)
        if kind in ARGUMENTS:
            x = np.linspace(0, 4e-6, n) if kind.startswith('Lead') else np.linspace(-1, 1, n) + rng.rand()
            y = rng.randn(n)
            if kind == 'InterDotTCByLineScan' and rng.rand() < .5:
                y = rng.randn(rng.randint(2, 4), n)
            evaluator._raw_x_data, evaluator._raw_y_data = x, y
            scale = 1e-6 if kind.startswith('Lead') else 1.

            def arguments():
                return pd.Series(scale * (.5 + rng.rand(len(ARGUMENTS[kind]))), index=ARGUMENTS[kind])
            evaluator._initial_fit_arguments = arguments()
            evaluator._fit_results = arguments()
            snap.update(data=[(x, np.mean(y, 0) if y.ndim == 2 else y)],
                        fit=FUNCTIONS[kind](x, **dict(evaluator._fit_results)),
                        initial=FUNCTIONS[kind](x, **dict(evaluator._initial_fit_arguments)))
        elif kind == 'LeadTransition':
            xs = [np.linspace(-1, 1, n) + rng.rand() for _ in evaluator.parameters]
            ys = [rng.randn(n) for _ in evaluator.parameters]
            evaluator._raw_x_data, evaluator._raw_y_data = xs, ys
            evaluator.transition_positions = pd.Series(rng.rand(len(xs)), index=list(evaluator.parameters))
            snap.update(data=list(zip(xs, ys)), marks=evaluator.transition_positions.tolist())
        elif kind == 'SensingDot1D':
            evaluator._raw_x_data = np.linspace(-1, 1, n) + rng.rand()
            y = rng.randn(n)
            evaluator._raw_y_data = y if rng.rand() < .5 else y.reshape(1, -1)
            evaluator.current_signal, evaluator.optimal_signal, evaluator.optimal_position = rng.rand(3)
            snap.update(data=[(evaluator._raw_x_data, y)], marks=[evaluator.optimal_position])
        else:
            m = rng.randint(3, 6)
            evaluator._raw_x_data = [np.linspace(-1, 1, m) + rng.rand(), np.linspace(-1, 1, n) + rng.rand()]
            evaluator._raw_y_data = rng.randn(m, n)
            evaluator._new_voltages = pd.Series(rng.rand(2), index=['position_SDB1', 'position_SDB2'])
            snap.update(image=evaluator._raw_y_data, axes=evaluator._raw_x_data, marks=[evaluator._new_voltages.iloc[1]],
                        horizontal=evaluator._new_voltages.iloc[0])
        return copy.deepcopy(snap)

    def evaluate(self, evaluator):
        self.log.append((evaluator.name, self.fill(evaluator)))
        values = [self.values.pop(0) if self.values else 1. for _ in evaluator.parameters]
        return pd.Series(values, index=list(evaluator.parameters)), \
            pd.Series(1e-4, index=list(evaluator.parameters))


def make_class(kind):
    base = CLASSES[kind]

    def evaluate(self):
        return self.script.evaluate(self)

    def to_hdf5(self):
        return base.to_hdf5(self)
    return type(base)('Scripted' + kind, (base,), dict(evaluate=evaluate, to_hdf5=to_hdf5, kind=kind))


SCRIPTED = {kind: make_class(kind) for kind in CLASSES}
GROUPS = [['LoadTime'], ['InterDotTCByLineScan'], ['LeadTunnelTimeByLeadScan'], ['LeadTunnelTimePrefitVersion'], ['LeadTransition'],
          ['SensingDot1D'], ['SensingDot2D'], ['AvgInterDotTCByLineScan'], ['AvgLeadTunnelTimeByLeadScan']]


@st.composite
def raw_case(draw):
    kinds = draw(st.lists(st.sampled_from(sorted(CLASSES) + ['AvgInterDotTCByLineScan', 'AvgLeadTunnelTimeByLeadScan']),
                          min_size=1, max_size=4, unique=True))
    # two classes share a name, and parameters
    names, kept = set(), []
    for k in kinds:
        n = set(produced(k))
        if not names & n:
            kept.append(k)
            names |= n
    return dict(kinds=kept, cut=draw(st.integers(0, len(kept))), seed=draw(st.integers(0, 10 ** 6)),
                inside=draw(st.lists(st.booleans(), min_size=6, max_size=6)), steps=draw(st.sampled_from([8, 4, 1, 12, 2])),
                averages=draw(st.integers(1, 3)), subset=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=4, max_size=4))),
                start=draw(st.integers(0, 5)), count=draw(st.sampled_from([None, 1, 2, 3])), order=draw(gen.permutation(4)),
                click=draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 5)), min_size=1, max_size=3)),
                unknown=draw(st.integers(0, 4)) == 0)


def produced(kind):
    kind = kind[3:] if kind.startswith('Avg') else kind
    return {'LoadTime': ['parameter_time_load'], 'InterDotTCByLineScan': ['parameter_tunnel_coupling'],
            'LeadTunnelTimeByLeadScan': ['parameter_time_rise', 'parameter_time_fall'],
            'LeadTunnelTimePrefitVersion': ['parameter_time_rise', 'parameter_time_fall'],
            'LeadTransition': ['position_RFA', 'position_RFB'], 'SensingDot1D': ['position_SDB2', 'current_signal', 'optimal_signal'],
            'SensingDot2D': ['position_SDB1', 'position_SDB2']}[kind]


def check_raw_axes(axes, snap, what):
    """the axes of one evaluator show its data"""
    axes = list(axes)
    if 'image' in snap:
        meshes = [c for c in axes[0].collections if hasattr(c, 'get_coordinates')]
        require(len(meshes) == 1, what + ': number of images', len(meshes))
        require(same(np.asarray(meshes[0].get_array()).ravel(), snap['image'].ravel()), what + ' is not shown as measured')
        coordinates = meshes[0].get_coordinates()
        if coordinates.shape[0] == snap['image'].shape[0] + 1:        # the corners of the pixels
            coordinates = (coordinates[:-1, :-1] + coordinates[1:, 1:]) / 2
        for i, j in ((0, 0), (-1, -1), (0, -1)):
            require(same(coordinates[i, j], [snap['axes'][1][j], snap['axes'][0][i]], 1e-6), what + ': axes of the image')
        require(same(vertical_marks(axes[0]), snap['marks']), what + ': mark', vertical_marks(axes[0]), snap['marks'])
        return
    require(len(axes) >= len(snap['data']), what + ': too few axes', len(axes))
    for i, ((x, y), ax) in enumerate(zip(snap['data'], axes)):
        shown = {c[0]: c for c in curves(ax)}
        lines = [(floats(line.get_xdata()), floats(line.get_ydata())) for line in ax.lines]
        require(any(same(a, x) and same(b, y) for a, b in lines), what + ': the measured data are not shown', lines, x, y)
        if 'marks' in snap:
            require(same(vertical_marks(ax), snap['marks'][i:i + 1]), what + ': mark', vertical_marks(ax), snap['marks'][i:i + 1])
            require(len(lines) == 1, what + ': other data are shown', len(lines))
        else:
            for key in ('fit', 'initial'):
                require(any(same(a, x) and same(b, snap[key], 1e-6) for a, b in lines), what + ': %s is not shown' % key, snap[key], lines)
            require(len(lines) == 3, what + ': number of curves', len(lines))


@sub('raw data', raw_case(), quick=160, thorough=3000, rule='at least two rows with data')
def check_raw(case, ctx):
    app = application()
    script = Script(case['seed'])
    all_gates = ['%s%d' % (g, i) for g in 'AB' for i in range(10)]
    exp = models.ModelExperiment(dict(gates=all_gates, v0=[0.] * 20, params={}, levels=[]))
    evaluators = []
    for kind in case['kinds']:
        averaged = kind.startswith('Avg')
        e = SCRIPTED[kind[3:] if averaged else kind](exp, parameters=tuple(produced(kind)))
        e.script = script
        e.averaged = None
        if averaged:
            e = ev.AveragingEvaluator(e, case['averages'])
        evaluators.append(e)
    ctx.label(*case['kinds'])
    levels = [es for es in (evaluators[:case['cut']], evaluators[case['cut']:]) if es]
    tuners = []
    start = exp.read_gate_voltages()
    for number, es in enumerate(levels):
        names = sorted(p for e in es for p in e.parameters)
        gates = all_gates[10 * number:10 * number + len(names)]
        target = make_target(desired=pd.Series(0., index=names), tolerance=pd.Series(.1, index=names))
        estimators = [FiniteDifferencesGradientEstimator(
            current_position=start[gates].copy(), epsilon=.1, covariance=pd.DataFrame(1e-6 * np.eye(len(gates)), gates, gates),
            current_estimate=pd.Series([1. + (i == j) for j in range(len(gates))], index=gates)) for i, _ in enumerate(names)]
        tuners.append(SubsetTuner(es, gates=gates, last_voltage=start, solver=NewtonSolver(
            target=target, gradient_estimators=estimators, current_position=start[gates])))
    autotuner = Autotuner(exp, tuning_hierarchy=tuners)
    history = History(None, exp)
    rows, inside = [], list(case['inside'])
    for _ in range(case['steps']):
        if autotuner.is_tuning_complete():
            break
        script.values = [.001 if inside and inside.pop(0) else 1.5 + len(rows)] * 12
        script.log = []
        voltages = exp.read_gate_voltages
        autotuner.iterate()
        history.append_autotuner(autotuner)
        if not script.log:
            continue
        if not rows or rows[-1][0] != voltages().to_dict():
            rows.append((voltages().to_dict(), {}))
        for name, snap in script.log:
            rows[-1][1][name] = snap
            rows[-1][1]['Averaging' + name] = snap
    ctx.nontrivial(sum(bool(r[1]) for r in rows) > 1)
    names = sorted(e.name for e in evaluators)
    require(history.number_of_stored_iterations == len(rows), 'rows', history.number_of_stored_iterations, len(rows))
    measurements = {e.name: len(e.measurements) for e in evaluators}
    # figures
    chosen = names
    arguments = {}
    if case['subset'] is not None:
        chosen = pick(case['order'], case['subset'], names)
        arguments['evaluator_names'] = list(chosen)
        if case['unknown']:
            arguments['evaluator_names'] = ['Unknown'] + arguments['evaluator_names']
    first = case['start'] % len(rows)
    last = first + 1 if case['count'] is None else min(len(rows), first + case['count'])
    if case['count'] is not None:
        arguments['end'] = last
    given = dict(arguments)
    try:
        before = copy.deepcopy(arguments)
        figures, axes = history.plot_evaluator_data(start=first, **given)
        require(arguments == before, 'the arguments are changed', arguments, before)
        require(len(figures) == len(axes) == last - first, 'number of figures', len(figures), last - first)
        require(len(plt.get_fignums()) == last - first, 'number of figures of pyplot', plt.get_fignums())
        for i, (fig, ax) in enumerate(zip(figures, axes)):
            row = rows[first + i][1]
            ax = list(np.ravel(ax))
            for name in chosen:
                own = [a for a in ax if a.get_title() in (name, name.replace('Averaging', ''))]
                plotted = [a for a in own if a.lines or a.collections]
                if name in row:
                    require(len(own) == measurements[name], 'number of plots of ' + name, len(own), measurements[name])
                    check_raw_axes(own, row[name], name)
                else:
                    require(not plotted, name + ' is shown without data')
            require(not [a for a in ax if (a.lines or a.collections) and not
                         any(a.get_title() in (n, n.replace('Averaging', '')) for n in chosen)], 'something else is shown')
        plt.close('all')
        # windows
        with Collector('plotting') as log:
            window = gui_module.EvaluatorWidget(history, logger='plotting')
            try:
                buttons = {b.text(): b for b in window.findChildren(QtWidgets.QPushButton)}
                require(set(buttons) == set(history.evaluator_names), 'buttons', sorted(buttons), sorted(history.evaluator_names))
                shown_rows = {}
                for number, k in case['click']:
                    if not buttons:
                        break
                    name = sorted(buttons)[k % len(buttons)]
                    window.tune_run_line.setText(str(number))
                    window.tune_run_line.editingFinished.emit()
                    n = min(number, len(rows) - 1)
                    require(window.tune_run_line.text() == str(n), 'number of the tune run', window.tune_run_line.text(), n)
                    buttons[name].click()
                    log.check()
                    # 0 is the latest tune run
                    row = rows[n - 1][1]
                    drawn = [a for a in window.bottom.getFigure().axes if a.lines or a.collections]
                    if name in row:
                        check_raw_axes(window.bottom.getFigure().axes, row[name], name)
                    else:
                        require(not drawn, name + ' is shown without data in run %d' % n)
                    ctx.label('clicked')
            finally:
                window.close()
                window.deleteLater()
                app.processEvents()
        require(not plt.get_fignums(), 'the window opens further figures', plt.get_fignums())
    finally:
        plt.close('all')
