"""A stand-in for MATLAB: the few functions of its engine that are used, with MATLAB's semantics (one based inclusive
ranges, column-major arrays)."""
import sys
import types

import numpy as np

if 'matlab.engine' not in sys.modules:
    _matlab, _engine = types.ModuleType('matlab'), types.ModuleType('matlab.engine')
    _matlab.engine = _engine
    sys.modules['matlab'], sys.modules['matlab.engine'] = _matlab, _engine

    class MatlabExecutionError(Exception):
        pass

    class MatlabEngine:
        pass
    _engine.MatlabExecutionError = MatlabExecutionError
    _engine.MatlabEngine = MatlabEngine
    _engine.start_matlab = lambda *args: FakeEngine({})
    _engine.connect_matlab = lambda *args: FakeEngine({})

import qtune.sm as sm
from vf.core import require


class Matrix:
    """A MATLAB array: at least two dimensional."""
    def __init__(self, data, kind):
        data = np.asarray(data)
        self.data = data.reshape((1,) * (2 - data.ndim) + data.shape)
        self.kind = kind


KINDS = dict(double='<f8', single='<f4', int8='i1', uint8='u1', int16='<i2', uint16='<u2', int32='<i4', uint32='<u4',
             int64='<i8', uint64='<u8', logical='?')


class FakeEngine:
    """smset and smget of a sample, conversions."""
    def __init__(self, hardware, resolution=None, order=None):
        self.hardware, self.resolution = dict(hardware), resolution
        self.order = order
        self.calls = []
        self.qtune = self
        self.workspace = {}
        self.reply = None

    # conversions
    def typecast(self, raw, kind):
        if not isinstance(raw, (bytes, bytearray)):
            raise TypeError(type(raw))
        return Matrix(np.frombuffer(bytes(raw), dtype=KINDS[kind]), kind)

    def reshape(self, array, *shape):
        if len(shape) == 1:
            shape = tuple(shape[0])
        if len(shape) < 2 or not all(type(s) is int and s >= 0 for s in shape):
            raise ValueError('size arguments %r' % (shape,))
        if int(np.prod(shape)) != array.data.size:
            raise ValueError('number of elements must not change')
        return Matrix(array.data.reshape(shape, order='F'), array.kind)

    def transpose(self, array):
        if array.data.ndim != 2:
            raise ValueError('transpose of an n-d array')
        return Matrix(array.data.T, array.kind)

    def permute(self, array, order):
        return Matrix(np.transpose(array.data, [int(i) - 1 for i in order]), array.kind)

    # environment
    def feature(self, name):
        return 4711.

    def exist(self, *args):
        return 1.

    def find_qtune(self, **kwargs):
        return sm.matlab_files_path()

    def addpath(self, *args):
        pass

    # gates
    def voltages(self):
        names = list(self.hardware)
        if self.order:
            names = [names[i] for i in self.order if i < len(names)]
        return {n: self.hardware[n] for n in names}

    def read_gate_voltages(self, **kwargs):
        self.calls.append('read')
        return self.voltages()
    read_qqd_gate_voltages = read_gate_voltages

    def set_gates_v_pretuned(self, args, **kwargs):
        require(isinstance(args, dict) and all(type(v) is float for v in args.values()), 'a struct of doubles', args)
        require(set(args) == set(self.hardware), 'fields of the struct', sorted(args), sorted(self.hardware))
        for name, value in args.items():
            self.hardware[name] = value if self.resolution is None else round(value * self.resolution) / self.resolution
        return self.voltages()
    set_qqd_gate_voltages = set_gates_v_pretuned

    def record(self, name, *args):
        self.calls.append((name,) + args)
        return self.reply

    def PythonChargeLineScan(self, args):
        return self.record('line_scan', args)

    def PythonLineScan(self, args):
        return self.record('detune_scan', args)

    def LeadScan(self, args):
        return self.record('lead_scan', args)

    def LoadScan(self, args):
        return self.record('load_scan', args)

    def PythonQPCScan2D(self, args):
        return self.record('2d_scan', args)


def connection(engine):
    sys.modules['matlab.engine'].start_matlab = lambda *args: engine
    return sm.SpecialMeasureMatlab(gui=False)
