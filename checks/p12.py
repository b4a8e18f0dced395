"""P12: asynchronous writing and parallel reading lose, mix and delay nothing."""
import copy
import glob
import os
import threading
import time

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from qtune.storage import AsynchronousHDF5Writer, HDF5Serializable, ParallelHDF5Reader, from_hdf5, to_hdf5
from qtune.util import EvaluationError
from vf import gen, models
from vf.core import META, require, sub
from vf.deep import difference

META['assumptions'] += ['writes into one file use different names', 'joining a handful of small writes takes less than 90 s',
                        'of the writes behind a failing one only those accepted after a restart are required to arrive']

RELEASE = dict(event=None, delay=0.)


class Slow(metaclass=HDF5Serializable):
    """Its storage waits until it is released: the schedule in which the writer is late."""
    def __init__(self, payload=None):
        self.payload = payload

    def to_hdf5(self):
        if threading.current_thread() is not threading.main_thread():
            if RELEASE['event'] is not None:
                RELEASE['event'].wait(20)
            elif RELEASE['delay']:
                time.sleep(RELEASE['delay'])
        return dict(payload=self.payload)


class Holder:
    """What is found below the id of a reserved object."""


class Experimental(models.Experiment):
    pass


def with_timeout(func, what, ctx_error='does not return'):
    """Deadlocks: the tiny amount of work is not finished after a very long time without any progress."""
    result = {}

    def target():
        try:
            result['value'] = func()
        except BaseException as exc:
            result['error'] = exc
    thread = threading.Thread(target=target, daemon=True)
    thread.start()
    thread.join(30)
    if thread.is_alive():
        before = time.process_time()
        thread.join(60)
        if thread.is_alive():
            require(time.process_time() - before > 30, what + ' ' + ctx_error)
            thread.join()
    if 'error' in result:
        raise result['error']
    return result.get('value')


number = gen.dec(-5, 5)


@st.composite
def writer_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(['write', 'write', 'write', 'modify', 'modify', 'release', 'join', 'fail', 'restart']))
        ops.append(dict(op=op, obj=draw(st.integers(0, 2)), file=draw(st.integers(0, 2)), value=draw(number),
                        slow=draw(st.booleans())))
    return dict(ops=ops, reserved=draw(st.booleans()), named=draw(st.booleans()), processes=draw(st.integers(0, 7)) == 0)


@sub('writer', writer_case(), quick=640, thorough=16000, rule='an object is modified while its write is pending, or a write fails')
def check_writer(case, ctx):
    directory = ctx.tmp()
    experiment = Experimental()
    # labelled data, arrays and nested containers that are all modified in place
    objects = [dict(series=pd.Series([0., 1.], index=['a', 'b']), array=np.zeros(3), nested=[[0.], dict(x=0.)],
                    experiment=experiment, me=i) for i in range(3)]
    blocking = not case['processes']
    RELEASE['event'] = threading.Event() if blocking else None
    writer = AsynchronousHDF5Writer(reserved={'experiment': experiment} if case['reserved'] else {}, multiprocess=case['processes'])
    if not case['reserved']:
        for o in objects:
            o['experiment'] = None
    ctx.label('processes' if case['processes'] else 'threads')
    expected, optional, pending = {}, {}, []
    stopped, failed, count = False, False, 0
    try:
        for op in case['ops']:
            obj = objects[op['obj']]
            path = os.path.join(directory, 'file_%d.hdf5' % op['file'])
            if op['op'] == 'modify':
                if any(p == op['obj'] for p in pending):
                    ctx.nontrivial()
                    ctx.label('modified while pending')
                obj['series']['a'] = op['value']
                obj['array'][1] = op['value']
                obj['nested'][0].append(op['value'])
                obj['nested'][1]['x'] = op['value']
            elif op['op'] == 'release':
                if blocking:
                    RELEASE['event'].set()
            elif op['op'] in ('write', 'fail'):
                count += 1
                name = 'entry %d' % count
                payload = obj if not op['slow'] else Slow(obj)
                if op['op'] == 'fail':
                    payload = [obj, {1, 2}]            # sets can not be stored
                try:
                    writer.write(payload, path, name)
                except RuntimeError:
                    require(stopped or failed, 'a running writer refuses to write')
                    ctx.label('refused')
                    continue
                require(not stopped, 'a stopped writer accepts a write')
                if op['op'] == 'fail':
                    failed = True
                    ctx.nontrivial()
                    ctx.label('failing write')
                else:
                    pending.append(op['obj'])
                    snapshot = copy.deepcopy({k: v for k, v in obj.items() if k != 'experiment'})
                    (optional if failed else expected)[path, name] = snapshot, op['slow']
            elif op['op'] in ('join', 'restart'):
                if blocking:
                    RELEASE['event'].set()
                with_timeout(writer.join if op['op'] == 'join' else writer.restart, op['op'])
                stopped, failed, pending = op['op'] == 'join', False, []
                check_files(expected, optional, experiment if case['reserved'] else None)
                if blocking and op['op'] == 'restart':
                    RELEASE['event'].clear()
    finally:
        if blocking:
            RELEASE['event'].set()
        with_timeout(writer.join, 'join')
    check_files(expected, optional, experiment if case['reserved'] else None)
    try:
        writer.write(objects[0], os.path.join(directory, 'late.hdf5'), 'late')
    except RuntimeError:
        pass
    else:
        require(False, 'a stopped writer accepts a write')


def check_files(expected, optional, experiment):
    for path in sorted({p for p, _ in list(expected) + list(optional)}):
        if not os.path.exists(path):
            require(not any(p == path for p, _ in expected), 'a file was not written although the writer was joined', path)
            continue
        loaded = from_hdf5(path, {'experiment': experiment})
        for (p, name), (snapshot, slow) in expected.items():
            if p == path:
                require(name in loaded, 'an entry was not written although the writer was joined', name, sorted(loaded))
                compare(loaded[name], snapshot, slow, experiment, name)
        for (p, name), (snapshot, slow) in optional.items():
            if p == path and name in loaded:
                compare(loaded[name], snapshot, slow, experiment, name)


def compare(value, snapshot, slow, experiment, name):
    if slow:
        require(type(value) is Slow, 'another type is loaded', value)
        value = value.payload
    require(value.get('experiment') is experiment, 'the reserved object is not found again', value.get('experiment'))
    value = {k: v for k, v in value.items() if k != 'experiment'}
    diff = difference(snapshot, value, name)
    require(diff is None, 'the stored state is not the one at the time of the call', diff)


# ------------------------------------------------------------------------------------------------------ reader

@st.composite
def reader_case(draw):
    n = draw(st.integers(0, 8))
    return dict(values=[draw(st.lists(number, max_size=3)) for _ in range(n)], order=draw(gen.permutation(n)),
                repeat=draw(st.booleans()), workers=draw(st.sampled_from([None, 1, 2, 5])), processes=draw(st.integers(0, 9)) == 0,
                slow=draw(st.lists(st.integers(0, 7), max_size=3)),
                size=draw(st.lists(st.sampled_from([0, 3000, 30000, 100000]), min_size=n, max_size=n)) if draw(st.booleans()) else [],
                times=draw(gen.permutation(n)), iterator=draw(st.booleans()))


class Late(metaclass=HDF5Serializable):
    """Takes some time to load."""
    def __init__(self, delay, values):
        self.delay, self.values = delay, values
        time.sleep(delay)

    def to_hdf5(self):
        return dict(delay=self.delay, values=self.values)


@sub('reader', reader_case(), quick=240, thorough=4000, rule='at least two files')
def check_reader(case, ctx):
    directory = ctx.tmp()
    files = []
    for i, values in enumerate(case['values']):
        path = os.path.join(directory, '%d.hdf5' % i)
        to_hdf5(path, 'entry', dict(number=i, late=Late(.02 if i in case['slow'] else 0., values),
                                     data=np.arange(case['size'][i] if case['size'] else 0, dtype=float)))
        os.utime(path, (1e9 + case['times'][i], 1e9 + case['times'][i]))        # e.g. a copied directory
        files.append(path)
    files = [files[i] for i in case['order']]
    if case['repeat'] and files:
        files.append(files[0])
    sequential = [from_hdf5(f, {}) for f in files]

    def read():
        with ParallelHDF5Reader(reserved={}, multiprocess=case['processes'], max_workers=case['workers']) as reader:
            return list(reader.read_iter(iter(files) if case['iterator'] else files))

    parallel = with_timeout(read, 'reading')
    ctx.nontrivial(len(files) > 1)
    ctx.label('processes' if case['processes'] else 'threads')
    require(len(parallel) == len(files), 'files get lost', len(parallel), len(files))
    for i, (a, b) in enumerate(zip(sequential, parallel)):
        diff = difference(a, b, 'file %d' % i, identity=False)
        require(diff is None, 'parallel reading differs from sequential reading', diff)


# ------------------------------------------------------------------------------------------------------ autotuner

@st.composite
def saving_case(draw):
    return dict(spec=draw(models.system(failing=True)), limit=draw(st.integers(1, 14)), delay=draw(st.sampled_from([0., 0., .002, .01])),
                restart=draw(gen.maybe(st.integers(0, 10), 3, 1)))


@sub('autotuner', saving_case(), quick=96, thorough=4000, rule='at least four saved iterations')
def check_saving(case, ctx):
    directory = os.path.join(ctx.tmp(), 'store')
    reference = os.path.join(ctx.tmp(), 'reference')
    os.makedirs(reference)
    models.DELAY = case['delay']
    try:
        exp, autotuner = models.build(case['spec'], storage=directory)
        paths = []
        for n in range(case['limit']):
            if autotuner.is_tuning_complete():
                break
            try:
                autotuner.iterate()
            except EvaluationError:
                break
            paths.append(autotuner.last_save_file)
            to_hdf5(os.path.join(reference, '%d.hdf5' % n), 'autotuner', autotuner, reserved={'experiment': exp})
            if case['restart'] == n:
                with_timeout(autotuner.asynchrone_writer.restart, 'restart')
        with_timeout(autotuner.asynchrone_writer.join, 'join')
    finally:
        models.DELAY = 0.
    ctx.nontrivial(len(paths) > 3)
    ctx.label('delayed' if case['delay'] else 'immediate')
    require(len(set(paths)) == len(paths), 'two iterations were saved to the same file', paths)
    require(sorted(paths) == paths, 'the names of the files are not in the order of the iterations', paths)
    found = sorted(glob.glob(os.path.join(directory, '*')))
    require(found == sorted(paths), 'not exactly one file per iteration', found, paths)
    for n, path in enumerate(paths):
        saved = from_hdf5(path, {'experiment': exp})['autotuner']
        state = from_hdf5(os.path.join(reference, '%d.hdf5' % n), {'experiment': exp})['autotuner']
        diff = difference(state, saved, 'autotuner', reserved=(exp,), identity=False)
        require(diff is None, 'the saved state is not the one after the iteration', 'iteration %d' % n, diff)
