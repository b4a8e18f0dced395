"""P17: the worker of the GUI iterates exactly when told and survives errors.

The worker thread is executed under a controlled scheduler: every line of gui.py and every step of the (scripted)
autotuner needs a token from the driving thread, so the positions at which commands arrive are data of the case.
"""
import gc
import logging
import sys
import threading
import time
import types

from hypothesis import strategies as st

import IPython

_shell = types.SimpleNamespace(magic=lambda *a, **k: None)
IPython.get_ipython = lambda: _shell
import qtune.gui as gui_module
from pyqtgraph.Qt import QtWidgets
from qtune.history import History
from vf import models
from vf.core import META, require, sub

META['assumptions'] += ['commands arrive on one thread', 'a pause which arrives while the worker is about to begin an '
                        'iteration may still let this iteration happen', 'exceptions are subclasses of Exception']

REAL_SLEEP = time.sleep
REAL_JOIN = threading.Thread.join
REAL_START = threading.Thread.start
FILE = gui_module.__file__
IDLE = 60            # lines without any sign of tuning after which the worker is regarded as idle
HANG = 30.           # s


class Scheduler:
    def __init__(self):
        self.cond = threading.Condition()
        self.tokens = 0
        self.free = self.dead = False
        self.workers = set()
        self.consumed = 0
        self.driver = threading.get_ident()

    def point(self):
        with self.cond:
            while self.tokens == 0 and not self.free and not self.dead:
                self.cond.wait()
            if self.dead:
                raise SystemExit
            self.tokens = max(0, self.tokens - 1)
            self.consumed += 1
            self.cond.notify_all()

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != FILE:
            return None
        if event == 'line':
            self.point()
        return self.trace

    def alive(self):
        return any(t.is_alive() for t in self.workers)

    def run(self, lines, patience=.05):
        """Let the worker proceed by this number of points; returns False if it is blocked or has ended."""
        with self.cond:
            self.tokens = lines
            self.cond.notify_all()
            last, since = self.tokens, time.time()
            while self.tokens:
                self.cond.wait(.002)
                if self.tokens != last:
                    last, since = self.tokens, time.time()
                elif not self.alive() and time.time() - since > .01 or time.time() - since > patience:
                    self.tokens = 0
                    return False
            return True

    def kill(self):
        with self.cond:
            self.dead = True
            self.cond.notify_all()


class HelperThread(threading.Thread):
    pass


class Failure(Exception):
    pass


class Bench:
    """A GUI together with a scripted autotuner and history."""

    def __init__(self, case):
        self.case = case
        self.sched = Scheduler()
        self.events = []           # (kind, payload)
        self.iterations = self.begun = self.checks = self.appends = 0
        self.errors = []
        self.records = []
        self.location = None
        self.appended = []
        self.finished = []

    # ---- scripted autotuner
    def is_tuning_complete(self):
        self.location = 'complete'
        self.sched.point()
        self.checks += 1
        self.events.append(('check', self.iterations >= self.case['total']))
        self.location = None
        if 'check' in self.case['faults'].get(str(self.checks), ()):
            self.fail('check')
        return self.iterations >= self.case['total']

    def iterate(self):
        self.begun += 1
        self.iterations += 1
        number = self.begun
        self.events.append(('begin', number))
        self.location = 'iterate'
        self.sched.point()
        self.sched.point()
        self.location = None
        if 'iterate' in self.case['faults'].get(str(number), ()):
            self.fail('iterate')
        self.events.append(('end', number))
        self.finished.append(number)

    def append_autotuner(self, tuner):
        require_soft(self, tuner is self.tuner, 'the history gets something else than the autotuner')
        self.appends += 1
        number = self.begun
        self.location = 'append'
        self.sched.point()
        self.location = None
        if 'append' in self.case['faults'].get(str(number), ()):
            self.fail('append')
        self.appended.append(number)

    def fail(self, where):
        error = Failure('%s %d' % (where, len(self.errors)))
        self.errors.append(error)
        self.events.append(('error', where))
        raise error

    # ---- environment
    def __enter__(self):
        sched = self.sched
        logger = logging.getLogger('vf.gui')
        logger.handlers = []
        logger.propagate = False
        logger.setLevel(logging.DEBUG)
        handler = logging.Handler()
        handler.emit = self.records.append
        logger.addHandler(handler)
        self.soft = []

        def sleep(seconds):
            if threading.current_thread() in sched.workers:
                if sched.free:
                    REAL_SLEEP(.0002)
            else:
                REAL_SLEEP(seconds)

        def join(thread, timeout=None):
            if thread not in sched.workers:
                return REAL_JOIN(thread, timeout)
            sys.settrace(None)
            with sched.cond:
                sched.free = True
                sched.cond.notify_all()
            try:
                REAL_JOIN(thread, HANG)
                require(not thread.is_alive(), 'the worker does not stop')
            finally:
                with sched.cond:
                    sched.free = False
                    sched.tokens = 0
        def start(thread):
            if not isinstance(thread, HelperThread):
                sched.workers.add(thread)
            REAL_START(thread)
        time.sleep = sleep
        threading.Thread.join = join
        threading.Thread.start = start
        gc.disable()               # the destructor of a GUI belongs into this thread
        threading.settrace(sched.trace)
        self.app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(['vf'])
        Bench.keep = self.app
        self.tuner = types.SimpleNamespace(is_tuning_complete=self.is_tuning_complete, iterate=self.iterate)
        history = types.SimpleNamespace(append_autotuner=self.append_autotuner)
        self.gui = gui_module.GUI(self.tuner if self.case['tuner'] else None,
                                  history if self.case['history'] else None, logger='vf.gui')
        self.buttons = {b.text(): b for b in self.gui.findChildren(QtWidgets.QPushButton)}
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        threading.settrace(None)
        self.sched.kill()
        for t in list(self.sched.workers):
            REAL_JOIN(t, HANG)
        time.sleep = REAL_SLEEP
        threading.Thread.join = REAL_JOIN
        threading.Thread.start = REAL_START
        gui = self.gui
        try:
            gui._stop = True
            QtWidgets.QMainWindow.close(gui)
            gui.deleteLater()
            self.app.processEvents()
        except RuntimeError:
            pass
        gc.enable()

    def signs(self):
        return self.checks, self.begun, self.appends, len(self.errors), len(self.finished), len(self.records)

    def settle(self):
        """Let the worker run until it does nothing any more."""
        for _ in range(2000):
            before = self.signs()
            going = self.sched.run(IDLE, patience=.3)
            if self.signs() == before and self.location is None:
                self.app.processEvents()
                return
            if not going and self.sched.alive() and self.signs() == before:
                break
        require(False, 'the worker neither pauses nor ends', *self.events[-10:])

    def until(self, location, limit=400):
        """Let the worker run until it enters a method of the autotuner or history; False if it becomes idle before."""
        quiet = 0
        here = self.location, self.begun
        while quiet < IDLE and limit:
            if self.location == location and (self.location, self.begun) != here:
                return True
            before = self.signs(), self.location
            if not self.sched.run(1, patience=.3):
                return False
            limit -= 1
            quiet = quiet + 1 if (self.signs(), self.location) == before else 0
        return False

    def shown(self):
        self.app.processEvents()
        return tuple(self.buttons[name].isEnabled() for name in ('Start', 'Step', 'Pause'))

    def command(self, name):
        if name == 'window':
            QtWidgets.QWidget.close(self.gui)         # what a click on the frame of the window causes
        else:
            getattr(self.gui, 'restart_thread' if name == 'restart' else name)()

    def verify(self):
        require(not self.soft, *(self.soft or ['']))
        if self.case['history']:
            good = [n for n in self.finished if 'append' not in self.case['faults'].get(str(n), ())]
            require(self.appended == good, 'each iteration is appended to the history once', self.appended, good)
        logged = [r.exc_info[1] for r in self.records if r.exc_info and r.levelno >= logging.ERROR]
        require(logged == self.errors, 'errors are logged', logged, self.errors)


def require_soft(bench, condition, message):
    if not condition:
        bench.soft.append(message)


PAUSED, RUNNING = (True, True, False), (False, False, True)

faults = st.dictionaries(st.integers(1, 7).map(str), st.lists(st.sampled_from(['iterate', 'append', 'check']),
                                                               min_size=1, max_size=1), max_size=3)
base = dict(total=st.integers(0, 9), faults=faults, history=st.sampled_from([True, True, True, False]),
            tuner=st.sampled_from([True] * 9 + [False]))
COMMANDS = ['start', 'start', 'step', 'step', 'step', 'pause', 'pause', 'restart', 'close', 'window']


@sub('commands', st.fixed_dictionaries(dict(base, ops=st.lists(
        st.tuples(st.sampled_from(['settle', 'settle', 'iterate', 'append']), st.sampled_from(COMMANDS)),
        min_size=1, max_size=12))), quick=800,
     rule='a command arrives during an iteration, or an error occurs, or the tuning completes')
def commands(case, ctx):
    """Commands arrive while the worker is idle or inside of an iteration: the exact number of iterations is known."""
    faults = case['faults']
    fails = {int(k): v[0] for k, v in faults.items()}
    with Bench(case) as b:
        continuous = pending = False
        closed = False
        begun = checks = 0
        inside = None              # number of the running iteration

        def loop(stop_at=None):
            """The model: what the worker does until it is idle or inside of an iteration."""
            nonlocal continuous, pending, begun, checks, inside
            while True:
                if inside is None:
                    if closed or not (continuous or pending):
                        return
                    pending = False
                    if not case['tuner']:
                        continuous = False
                        continue
                    checks += 1
                    if fails.get(checks) == 'check' or begun >= case['total']:
                        continuous = pending = False
                        continue
                    begun += 1
                    inside = [begun, 'iterate']
                    if stop_at == 'iterate':
                        return
                if inside[1] == 'iterate':
                    if fails.get(inside[0]) == 'iterate':
                        inside = None
                        continuous = pending = False
                        continue
                    if not case['history']:
                        inside = None
                        continue
                    inside[1] = 'append'
                    if stop_at == 'append':
                        return
                if fails.get(inside[0]) == 'append':
                    continuous = pending = False
                inside = None

        for where, command in case['ops']:
            if where == 'settle':
                b.settle()
                loop()
            else:
                reached = b.until(where)
                loop(where)
                require(reached == (inside is not None), 'the worker %s an iteration' %
                        ('begins' if reached else 'does not begin'), case['ops'], where, command, b.events[-8:])
                if inside is not None:
                    ctx.label('during ' + where)
                    ctx.nontrivial()
            require(b.begun == begun, 'number of iterations before ' + command, b.begun, begun, b.events[-8:])
            if inside is None and not closed:
                require(b.shown() == PAUSED, 'the buttons of a paused worker', b.shown(), command)
            if inside is not None and command in ('start', 'step') and fails.get(inside[0]) == inside[1]:
                command = 'pause'      # pressed before the failure and effective after it: not specified
            if inside is not None and command in ('start', 'step') and inside[1] == 'iterate' and \
                    fails.get(inside[0]) == 'append':
                command = 'pause'
            ctx.label('%s %s' % (command, 'running' if inside else 'idle'))
            b.command(command)
            if command in ('start', 'step'):
                if closed:
                    ctx.label('restart of an ended worker')
                    continuous = pending = False
                closed = False
                if command == 'start':
                    continuous = True
                    require(b.shown() == RUNNING, 'the buttons of a running worker', b.shown())
                else:
                    pending = True
            elif command == 'pause':
                continuous = pending = False
                require(b.shown() == PAUSED, 'the buttons after pausing', b.shown())
            else:
                continuous = pending = False
                loop()
                closed = command in ('close', 'window')
                require(b.begun == begun, 'number of iterations after ' + command, b.begun, begun, b.events[-8:])
                require(b.sched.alive() != closed or not b.sched.workers, 'worker after ' + command)
                if not closed:
                    require(b.shown() == PAUSED, 'the buttons after a restart', b.shown())
        b.settle()
        loop()
        require(b.begun == begun, 'number of iterations', b.begun, begun, b.events[-8:])
        if not closed:
            require(b.shown() == PAUSED, 'the buttons of a paused worker', b.shown())
        b.verify()
        if b.errors:
            ctx.label('error')
        ctx.nontrivial(b.errors)
        if begun >= case['total'] and case['tuner']:
            ctx.label('completed')
            ctx.nontrivial(begun)
        # closing
        b.command('close')
        require(not b.sched.alive(), 'the worker survives the closing of the window')
        require(b.begun == begun, 'iterations after closing')


@sub('races', st.fixed_dictionaries(dict(base, total=st.one_of(st.integers(0, 6), st.integers(10, 40)), rounds=st.lists(st.fixed_dictionaries(dict(
        commands=st.lists(st.sampled_from(['start', 'start', 'step', 'step', 'pause', 'restart', 'close', 'window']), min_size=1, max_size=4),
        lines=st.lists(st.one_of(st.integers(0, 3), st.integers(0, 25)), min_size=1, max_size=16))), min_size=1, max_size=4))), quick=800,
     rule='the worker acted on the autotuner before the last command of a round was finished')
def races(case, ctx):
    """Commands are interleaved line by line with the worker: what holds when everything has settled."""
    with Bench(case) as b:
        for number, rnd in enumerate(case['rounds']):
            b.settle()
            start_events = len(b.events)
            position = [0]
            lines = rnd['lines']

            def advance():
                k = lines[position[0] % len(lines)] if position[0] < 200 else 0
                position[0] += 1
                if k and b.sched.alive():
                    b.sched.run(k)

            def trace(frame, event, arg):
                if frame.f_code.co_filename != FILE:
                    return None
                if event == 'line':
                    advance()
                return trace

            windows = []
            for command in rnd['commands']:
                first = len(b.events)
                if b.location is not None:
                    ctx.nontrivial()
                    ctx.label('%s in %s' % (command, b.location))
                sys.settrace(trace)
                try:
                    # a worker may hold a lock: it gets further tokens if the command does not proceed
                    helper = Helper(b.sched)
                    b.command(command)
                finally:
                    sys.settrace(None)
                    helper.stop()
                windows.append((command, first, len(b.events)))
                if len(b.events) > start_events and len(windows) > 1:
                    ctx.nontrivial()
                    ctx.label(command + ' after the worker became active')
                advance()
            b.settle()
            b.verify()
            events = b.events[start_events:]
            steps = [w for w in windows if w[0] == 'step']
            starts = [w for w in windows if w[0] == 'start']
            if not starts:
                require(sum(e[0] == 'begin' for e in events) <= len(steps), 'more iterations than step commands', windows, events)
            for i, (command, first, end) in enumerate(windows):
                limit = next((w[1] for w in windows[i + 1:] if w[0] in ('start', 'step')), None)
                after = [e[0] for e in b.events[end:limit]].count('begin')
                if command in ('pause', 'restart', 'close', 'window'):
                    require(after <= (command == 'pause'), 'iterations after ' + command, after, windows, events)
            command, first, end = windows[-1]
            for name, begin, _ in reversed(windows):
                if name not in ('start', 'step'):
                    break
                first = begin
            if command in ('step', 'start') and case['tuner']:
                # what happens after the command was given
                # an error which occurs in an operation begun before the command may cancel it
                later = b.events[first:]
                problem = any(e[0] == 'error' or e == ('check', True) for e in events)
                if not problem:
                    require(command == 'step', 'a started worker stops without an error or completion', windows, events)
                    require(any(e[0] == 'check' for e in later), 'a step command is lost', windows, events)
            if command not in ('close', 'window'):
                require(b.shown() == PAUSED, 'the buttons of a paused worker', b.shown(), windows)
        # the worker is still usable
        before, done, checks = b.begun, b.iterations >= case['total'], b.checks
        if case['tuner']:
            b.command('step')
            b.settle()
            failed = str(checks + 1) in case['faults'] and 'check' in case['faults'][str(checks + 1)]
            require(b.begun == before + (not done and not failed), 'iterations of a final step', b.begun - before, done)
        b.command('close')
        require(not b.sched.alive(), 'the worker survives the closing of the window')


class Helper:
    """Grants tokens while the driving thread is blocked."""
    def __init__(self, sched):
        self.sched, self.done = sched, False
        self.thread = HelperThread(target=self.work, daemon=True)
        threading.settrace(None)
        self.thread.start()
        threading.settrace(sched.trace)

    def work(self):
        last = None
        while not self.done:
            frame = sys._current_frames().get(self.sched.driver)
            here = (id(frame), frame.f_lasti) if frame is not None else None
            mine = frame is not None and frame.f_code.co_filename == FILE
            if mine and here == last:
                with self.sched.cond:
                    if self.sched.tokens == 0:
                        self.sched.tokens = 1
                        self.sched.cond.notify_all()
            last = here
            REAL_SLEEP(.03)

    def stop(self):
        self.done = True


@st.composite
def session_case(draw):
    spec = draw(models.system(max_levels=2, kinds=('fd', 'kalman', 'selfinit', 'sensing')))
    return dict(spec=spec, clicks=draw(st.lists(st.sampled_from(['Step', 'Step', 'Start']), min_size=1, max_size=12)))


def wait(condition):
    end = time.time() + HANG
    while not condition():
        if time.time() > end:
            return False
        REAL_SLEEP(.001)
    return True


@sub('sessions', session_case(), quick=60, rule='at least three iterations by steps and some by continuous tuning')
def sessions(case, ctx):
    """Clicking through the tuning of a real system has the effect of calling iterate."""
    clicks = case['clicks']
    limit = 25
    results = []
    for with_gui in (False, True):
        exp, tuner = models.build(case['spec'])
        history = History(None, exp)
        history.append_autotuner(tuner)
        calls = [0]
        original = tuner.iterate

        def iterate():
            if calls[0] >= limit:
                raise Failure('end of the test')
            calls[0] += 1
            original()
        tuner.iterate = iterate
        if not with_gui:
            for click in clicks:
                stopped = False
                while not stopped:
                    try:
                        if tuner.is_tuning_complete():
                            break
                        tuner.iterate()
                    except Exception:
                        break
                    history.append_autotuner(tuner)
                    stopped = click == 'Step'
        else:
            app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(['vf'])
            Bench.keep = app
            time.sleep = lambda s: REAL_SLEEP(min(s, .0005))
            gui = gui_module.GUI(tuner, history, logger='vf.session')
            logger = logging.getLogger('vf.session')
            logger.propagate = False
            logger.handlers = [logging.NullHandler()]
            logger.setLevel(logging.CRITICAL)
            buttons = {b.text(): b for b in gui.findChildren(QtWidgets.QPushButton)}
            try:
                for click in clicks:
                    before = calls[0]
                    states = []
                    complete = tuner.is_tuning_complete

                    def check():
                        states.append(complete())
                        return states[-1]
                    tuner.is_tuning_complete = check
                    failed = []
                    logger.handlers[0].handle = lambda r: failed.append(r) if r.levelno >= logging.ERROR else None
                    logger.setLevel(logging.ERROR)
                    rows = []
                    append = type(history).append_autotuner
                    history.append_autotuner = lambda t: (append(history, t), rows.append(t))
                    buttons[click].click()
                    if click == 'Step':
                        done = lambda: failed or states and (states[-1] or rows)
                    else:
                        done = lambda: buttons['Start'].isEnabled()
                    require(wait(done), 'the GUI does not react to a click on ' + click)
                    if click == 'Start':
                        require(failed or states[-1], 'continuous tuning ended without completion or error')
                    del tuner.is_tuning_complete
                    if click == 'Step' and calls[0] - before == 1:
                        ctx.label('step')
                    elif calls[0] > before:
                        ctx.label('continuous')
                    if calls[0] >= 3 and 'step' in ctx.labels and 'continuous' in ctx.labels:
                        ctx.nontrivial()
            finally:
                try:
                    gui.close()
                finally:
                    time.sleep = REAL_SLEEP
            app.processEvents()
        results.append((exp.log, calls[0], history.number_of_stored_iterations,
                        None,
                        {g: list(history.get_gate_values(g)) for g in history.gate_names},
                        {p: list(history.get_parameter_values(p)) for p in history.parameter_names}))
    direct, clicked = results
    require(direct[1] == clicked[1], 'number of iterations', direct[1], clicked[1], clicks)
    require(direct[0] == clicked[0] or repr(direct[0]) == repr(clicked[0]), 'the course of the tuning differs')
    require(direct[2] == clicked[2], 'number of iterations in the history', direct[2], clicked[2])
    require(repr(direct[4:]) == repr(clicked[4:]), 'contents of the history', direct[4:], clicked[4:])
