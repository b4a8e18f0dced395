"""Importing the GUI without IPython, and reading what a window or figure shows."""
import logging
import math
import time
import types

import numpy as np

import IPython

_original = IPython.get_ipython
IPython.get_ipython = lambda: types.SimpleNamespace(magic=lambda *a, **k: None)
import qtune.gui as gui_module                                              # noqa: E402
IPython.get_ipython = _original
from pyqtgraph.Qt import QtCore, QtWidgets                                  # noqa: E402
from vf.core import Violation, require                                                 # noqa: E402


KEEP = []


def application():
    if not KEEP:
        KEEP.append(QtWidgets.QApplication.instance() or QtWidgets.QApplication(['vf']))
        QtCore.qInstallMessageHandler(lambda *a: None)        # what the offscreen platform does not support
    return KEEP[0]


class Collector(logging.Handler):
    """The GUI reports the failures of its windows to a logger."""
    def __init__(self, name):
        super().__init__()
        self.channel = logging.getLogger(name)
        self.messages = []

    def emit(self, record):
        text = record.getMessage()
        if record.exc_info:
            text += ' %s: %s' % (record.exc_info[0].__name__, record.exc_info[1])
        self.messages.append(text)

    def __enter__(self):
        self.channel.addHandler(self)
        self.old = self.channel.propagate, self.channel.level
        self.channel.propagate = False
        self.channel.setLevel(logging.ERROR)
        return self

    def __exit__(self, *exc):
        self.channel.removeHandler(self)
        self.channel.propagate, level = self.old
        self.channel.setLevel(level)

    def check(self):
        require(not self.messages, 'a window reports a failure', *self.messages[:2])


def floats(data):
    return [float(x) for x in np.ma.filled(np.ma.masked_invalid(np.asarray(data, dtype=float)), np.nan)]


def same(a, b, rel=1e-9):
    a, b = floats(a), floats(b)
    return len(a) == len(b) and all((x != x and y != y) or x == y or abs(x - y) <= rel * max(abs(x), abs(y)) + 1e-300
                                    for x, y in zip(a, b))


def bars(container):
    """x -> (lower, upper) of the vertical error bars"""
    result = {}
    for collection in container.lines[2]:
        for segment in collection.get_segments():
            segment = np.asarray(segment, dtype=float)
            if segment.shape == (2, 2) and np.isfinite(segment).all():
                result[float(segment[0, 0])] = sorted(segment[:, 1].tolist())
    return result


def curves(ax):
    """[(label, x, y, error bars or None)] of matplotlib axes, the labels as shown to the user"""
    legend = ax.get_legend()
    texts = [t.get_text() for t in legend.get_texts()] if legend else []
    result, of_container = [], set()
    for container in ax.containers:
        if hasattr(container, 'has_yerr'):
            of_container.add(id(container.lines[0]))
            for cap in container.lines[1]:
                of_container.add(id(cap))
            result.append([str(container.get_label()), floats(container.lines[0].get_xdata()),
                           floats(container.lines[0].get_ydata()), bars(container)])
    plain = [line for line in ax.lines if id(line) not in of_container]
    for i, line in enumerate(plain):
        label = str(line.get_label())
        if label.startswith('_') and len(texts) == len(plain):
            label = texts[i]
        result.append([label, floats(line.get_xdata()), floats(line.get_ydata()), None])
    return result


def check_curve(what, curve, index, values, std=None):
    """the curve shows these values (and error bars)"""
    label, x, y, shown = curve
    # points that do not exist may be left out
    have = {a: b for a, b in zip(x, y) if b == b}
    want = {float(a): float(b) for a, b in zip(index, values) if b == b}
    require(have.keys() == want.keys() and same([have[k] for k in sorted(have)], [want[k] for k in sorted(want)]),
            what + ' is not shown as recorded', have, want)
    require(len([b for b in y if b == b]) == len(have), what + ' is shown twice', x)
    if std is not None:
        errors = {float(a): float(e) for a, b, e in zip(index, values, std) if b == b and e == e}
        require(shown is not None, what + ' has no error bars')
        require(shown.keys() == errors.keys(), 'the error bars of %s are at other points' % what, shown, errors)
        for k, e in errors.items():
            tolerance = 1e-9 * (abs(want[k]) + abs(e))
            require(abs(shown[k][0] - (want[k] - e)) <= tolerance and abs(shown[k][1] - (want[k] + e)) <= tolerance,
                    'error bar of %s at %g' % (what, k), shown[k], want[k], e)


def vertical_marks(ax):
    import matplotlib.collections
    result = []
    for c in ax.collections:
        if isinstance(c, matplotlib.collections.LineCollection):
            for s in c.get_segments():
                s = np.asarray(s, dtype=float)
                if s.shape == (2, 2) and s[0, 0] == s[1, 0]:
                    result.append(float(s[0, 0]))
    return result


def finite(x):
    return x is not None and math.isfinite(x)


TIMEOUT = [5.]


def eventually(app, condition):
    """what a worker reports arrives through the queue of events"""
    end = time.time() + TIMEOUT[0]
    while True:
        app.processEvents()
        try:
            return condition()
        except Violation:
            if time.time() > end:
                TIMEOUT[0] = 1.5           # (a failure is being shrunk)
                raise
        time.sleep(.005)
