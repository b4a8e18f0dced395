"""P18: Python indices and data arrive in MATLAB as the same elements.

MATLAB is not available: a stand-in implements the few functions of its engine that are used, with MATLAB's semantics
(one based inclusive ranges, column-major arrays).
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf.matlab import FakeEngine, Matrix, connection  # before qtune: it needs the stand-in
from qtune import mat2py
from qtune.experiment import Measurement
import qtune.sm as sm
from vf import gen
from vf.core import META, require, sub

META['assumptions'] += ['MATLAB is represented by a stand-in: one based inclusive ranges, column-major arrays, structs as dicts',
                        'indices are in range']


# ------------------------------------------------------------------------------------------------------- indices

def matlab_value(text, n):
    """Value of an arithmetic expression with integers, end, + - * and parentheses."""
    import ast
    tree = ast.parse(text.strip(), mode='eval').body

    def value(node):
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            return node.value
        if isinstance(node, ast.Name) and node.id == 'end':
            return n
        if isinstance(node, ast.BinOp):
            a, b = value(node.left), value(node.right)
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b}[type(node.op).__name__]()
        if isinstance(node, ast.UnaryOp):
            a = value(node.operand)
            return -a if isinstance(node.op, ast.USub) else a
        raise ValueError(text)
    return value(tree)


def split(text, separator):
    parts, depth, last = [], 0, ''
    for c in text:
        depth += c in '([{'
        depth -= c in ')]}'
        if c == separator and depth == 0:
            parts.append(last)
            last = ''
        else:
            last += c
    return parts + [last]


def matlab_elements(text, n):
    """Zero based elements selected by one MATLAB index of a dimension with n elements."""
    parts = split(text.strip(), ':')
    if len(parts) == 1:
        values = [matlab_value(parts[0], n)]
    elif len(parts) == 2 and not parts[0].strip() and not parts[1].strip():
        values = list(range(1, n + 1))
    else:
        first, last = matlab_value(parts[0], n), matlab_value(parts[-1], n)
        step = matlab_value(parts[1], n) if len(parts) == 3 else 1
        values = []
        while step > 0 and first <= last or step < 0 and first >= last:
            values.append(first)
            first += step
    require(all(v == int(v) and 1 <= v <= n for v in values), 'the MATLAB index is out of range', text, n, values)
    return [int(v) - 1 for v in values]


@st.composite
def index_case(draw):
    dims = draw(st.lists(st.integers(1, 7), min_size=1, max_size=3))
    parts = []
    for n in dims:
        if draw(st.integers(0, 2)) == 0:
            parts.append(draw(st.integers(-n, n - 1)))
        else:
            none = st.none()
            parts.append([draw(st.one_of(none, st.integers(-n, n - 1))), draw(st.one_of(none, st.integers(-n, n))),
                          draw(st.one_of(none, st.integers(-4, 4).filter(bool)))])
    return dict(dims=dims, parts=parts, numpy=draw(st.sampled_from([None, None, 'int64', 'int32', 'uint8', 'intp'])))


@sub('index', index_case(), quick=3000, rule='negative numbers, a slice with a step or several dimensions')
def index(case, ctx):
    dims, parts = case['dims'], case['parts']
    kind = case['numpy']

    def integer(i):
        if i is None or kind is None or kind == 'uint8' and i < 0:
            return i
        return np.dtype(kind).type(i)

    py = [slice(*(integer(i) for i in p)) if isinstance(p, list) else integer(p) for p in parts]
    tuple_index = len(py) > 1 or case['dims'][0] % 2 == 0
    text = mat2py.transform_index(tuple(py) if tuple_index else py[0])
    require(isinstance(text, str), 'the index is not translated', py, text)
    texts = split(text, ',')
    require(len(texts) == len(dims), 'number of dimensions', py, text)
    for n, p, t in zip(dims, py, texts):
        chosen = np.arange(n)[p]
        expected = [int(i) for i in chosen] if isinstance(p, slice) else [int(chosen)]
        require(matlab_elements(t, n) == expected, 'selected elements', p, t, 'of %d' % n, matlab_elements(t, n), expected)
        ctx.label('slice' if isinstance(p, slice) else 'integer')
        if isinstance(p, slice):
            if p.step is not None and p.step < 0:
                ctx.label('negative step')
            if not expected:
                ctx.label('empty')
            ctx.nontrivial(p.step not in (None, 1) or any(x is not None and x < 0 for x in (p.start, p.stop)))
        else:
            ctx.nontrivial(p < 0)
    if kind:
        ctx.label('numpy integers')
    ctx.nontrivial(len(dims) > 1)


# ------------------------------------------------------------------------------------------------------- data

EXACT = dict(float64='double', float32='single', bool='logical', int32='int32', uint64='uint64', int64='int64', int16='int16',
             uint8='uint8', int8='int8', uint16='uint16', uint32='uint32')
NONE = ['complex128', 'float16', 'U3', 'M8[s]', '>f8', 'complex64']

array_spec = st.fixed_dictionaries(dict(
    t=st.just('array'), dtype=st.sampled_from(list(EXACT)[:5] * 3 + list(EXACT) + NONE), layout=st.sampled_from(['C', 'C', 'F', 'T', 'step', 'flip']),
    shape=st.lists(st.integers(0, 4), min_size=1, max_size=2),
    raw=st.lists(st.integers(-120, 120), min_size=16, max_size=16)))
scalar_spec = st.fixed_dictionaries(dict(
    t=st.just('scalar'), kind=st.sampled_from(['float', 'int', 'float64', 'float32', 'int64', 'int32', 'uint8', 'bool_', 'str', 'none', 'bytes']),
    value=st.one_of(st.integers(-2 ** 20, 2 ** 20), gen.dec(-5, 5))))
names = st.sampled_from(['x', 'y', 'range', 'a1', 'B'])


def container(children):
    return st.one_of(
        st.fixed_dictionaries(dict(t=st.just('dict'), items=st.dictionaries(names, children, max_size=3))),
        st.fixed_dictionaries(dict(t=st.sampled_from(['list', 'tuple']), items=st.lists(children, max_size=3))),
        st.fixed_dictionaries(dict(t=st.just('series'), index=st.lists(names, max_size=4, unique=True),
                                   dtype=st.sampled_from(['float64', 'int64', 'float32', 'bool']), raw=st.lists(
                st.integers(-100, 100), min_size=4, max_size=4))),
        st.fixed_dictionaries(dict(t=st.just('set'), items=st.lists(gen.dec(-5, 5), max_size=3))))


def make(spec):
    t = spec['t']
    if t == 'array':
        shape = spec['shape']
        n = int(np.prod(shape))
        data = np.array(spec['raw'][:n], dtype=float)
        dtype = spec['dtype']
        if dtype in ('float64', 'float32', 'float16', '>f8', 'complex128', 'complex64'):
            data = (data / 7).astype(dtype)
        elif dtype == 'bool':
            data = data > 0
        elif dtype.startswith('u'):
            data = np.abs(data).astype(dtype)
        else:
            data = data.astype(int).astype(dtype)
        data = data.reshape(shape)
        layout = spec['layout']
        if layout == 'F':
            return np.asfortranarray(data)
        if layout == 'T':
            return np.ascontiguousarray(data.T).T
        if layout == 'step':
            wide = np.repeat(data, 2, axis=-1)
            return wide[..., ::2]
        if layout == 'flip':
            return data[::-1]
        return data
    if t == 'scalar':
        v, k = spec['value'], spec['kind']
        if k == 'float':
            return float(v)
        if k == 'int':
            return int(v)
        if k == 'str':
            return str(v)
        if k == 'none':
            return None
        if k == 'bytes':
            return b'1'
        if k == 'uint8':
            return np.uint8(abs(int(v)) % 256)
        if k == 'bool_':
            return np.bool_(v > 0)
        return getattr(np, k)(v)
    if t == 'dict':
        return {k: make(v) for k, v in spec['items'].items()}
    if t == 'list':
        return [make(v) for v in spec['items']]
    if t == 'tuple':
        return tuple(make(v) for v in spec['items'])
    if t == 'set':
        return set(spec['items'])
    return pd.Series(np.array(spec['raw'][:len(spec['index'])]).astype(spec['dtype']), index=spec['index'], dtype=spec['dtype'])


def acceptable(obj):
    """False: there is no exact equivalent, None: not specified."""
    if isinstance(obj, np.ndarray):
        if str(obj.dtype) not in EXACT:
            return False
        return True if str(obj.dtype) in list(EXACT)[:5] else None
    if isinstance(obj, (bool, str, bytes)) or obj is None:
        return None
    if isinstance(obj, dict):
        obj = list(obj.values())
    if isinstance(obj, (list, tuple, set)):
        results = [acceptable(x) for x in obj]
        return False if False in results else None if None in results else True
    return True


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tolist() == b.tolist()
    if isinstance(a, pd.Series):
        return a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def compare(py, mat, path='obj'):
    if isinstance(py, np.ndarray):
        require(isinstance(mat, Matrix), path + ': an array', type(mat))
        require(mat.kind == EXACT[str(py.dtype)], path + ': class of the array', py.dtype, mat.kind)
        expected = py.reshape((1,) + py.shape) if py.ndim == 1 else py
        require(mat.data.shape == expected.shape, path + ': shape', mat.data.shape, expected.shape)
        require(np.array_equal(mat.data, expected), path + ': elements', mat.data.tolist(), expected.tolist())
    elif isinstance(py, (dict, pd.Series)):
        require(isinstance(mat, dict) and sorted(mat) == sorted(py.keys()), path + ': names', mat, list(py.keys()))
        for k in py.keys():
            compare(py[k], mat[k], path + '.' + k)
    elif isinstance(py, (list, tuple)):
        require(isinstance(mat, (list, tuple)) and len(mat) == len(py), path + ': length', mat, len(py))
        for i, (a, b) in enumerate(zip(py, mat)):
            compare(a, b, '%s[%d]' % (path, i))
    elif isinstance(py, set):
        require(isinstance(mat, (set, list, tuple)) and sorted(mat) == sorted(py), path + ': elements', mat, py)
    else:
        require(type(mat) in (float, int, bool), path + ': a number the engine accepts', type(mat))
        require(mat == py, path + ': value', mat, py)


@sub('data', st.one_of(array_spec, st.recursive(st.one_of(array_spec, scalar_spec), container, max_leaves=6)), quick=3000,
     rule='an array with more than one element in both dimensions or of a non contiguous layout, or a nested container')
def data(case, ctx):
    engine = FakeEngine({})
    obj = make(case)
    before = make(case)
    good = acceptable(obj)
    ctx.label(case['t'], {True: 'accepted', False: 'rejected', None: 'unspecified'}[good])
    try:
        result = connection(engine).to_matlab(obj)
    except Exception as error:
        require(good is not True, 'the conversion fails', repr(error), repr(obj))
        ctx.label('error')
        return
    require(good is not False, 'data without an equivalent are accepted', repr(obj))
    if good is None and not _comparable(obj):
        return
    compare(obj, result)
    require(same(before, obj), 'the data are changed', repr(before), repr(obj))
    if case['t'] == 'array':
        ctx.nontrivial(min(obj.shape) > 1 and obj.ndim > 1 or not obj.flags.c_contiguous)
        if not obj.flags.c_contiguous:
            ctx.label('not contiguous')
    else:
        ctx.nontrivial(case['t'] in ('dict', 'list', 'tuple', 'series') and bool(case.get('items') or case.get('index')))


def _comparable(obj):
    if isinstance(obj, (str, bytes)) or obj is None:
        return False
    if isinstance(obj, np.ndarray):
        return str(obj.dtype) in EXACT
    if isinstance(obj, dict):
        obj = list(obj.values())
    if isinstance(obj, (list, tuple, set)):
        return all(_comparable(x) for x in obj)
    return True


# ------------------------------------------------------------------------------------------------------- gates

@st.composite
def gate_case(draw):
    names = draw(st.permutations(gen.GATES))[:draw(st.integers(1, len(gen.GATES)))]
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['set', 'set', 'set', 'manual', 'read']))
        chosen = draw(st.permutations(names))[:draw(st.integers(0 if kind == 'set' else 1, len(names)))]
        ops.append([kind, list(chosen), draw(gen.lists(gen.dec(-3, 3), len(chosen)))])
    return dict(names=list(names), v0=draw(gen.lists(gen.dec(-3, 3), len(names))), ops=ops,
                order=draw(gen.permutation(len(names))), resolution=draw(st.sampled_from([None, 1000, 16])),
                integers=draw(st.booleans()), qqd=draw(st.booleans()))


@sub('gates', gate_case(), quick=800, rule='a subset of several gates is set')
def gates(case, ctx):
    engine = FakeEngine(dict(zip(case['names'], case['v0'])), case['resolution'], case['order'])
    if case['qqd']:
        from qtune.sm_tune_qqd import SMTuneQQD
        exp = SMTuneQQD(connection(engine))
        ctx.label('qqd')
    else:
        exp = sm.LegacyDQDRefactored(connection(engine))
    model = dict(zip(case['names'], case['v0']))
    listed = exp.gate_voltage_names
    listed = listed() if callable(listed) else listed
    require(sorted(listed) == sorted(case['names']), 'names of the gates', listed)
    for kind, chosen, values in case['ops']:
        if kind == 'manual':
            for n, v in zip(chosen, values):
                engine.hardware[n] = model[n] = v
        elif kind == 'set':
            if case['integers']:
                values = [int(round(v)) for v in values]
            new = pd.Series(values, index=chosen, dtype=int if case['integers'] else float)
            copy = new.copy()
            result = exp.set_gate_voltages(new)
            res = case['resolution']
            for n, v in zip(chosen, values):
                model[n] = float(v)
            if res:
                model = {n: round(v * res) / res for n, v in model.items()}
            require(new.equals(copy), 'the argument is changed')
            require(isinstance(result, pd.Series) and result.astype(float).to_dict() == model, 'returned voltages', result.to_dict(), model)
            ctx.nontrivial(1 < len(chosen) < len(case['names']))
        require(engine.hardware == model, 'voltages of the sample after %s of %s' % (kind, chosen), engine.hardware, model)
        read = exp.read_gate_voltages()
        require(read.to_dict() == model, 'voltages which are read', read.to_dict(), model)
        require(list(read.index) == list(exp.read_gate_voltages().index), 'order of the gates')


# ------------------------------------------------------------------------------------------------------- measurements

@st.composite
def measure_case(draw):
    name = draw(st.sampled_from(['line_scan', 'detune_scan', 'lead_scan', 'load_scan', '2d_scan']))
    if name == '2d_scan':
        options = dict(range=draw(gen.dec(1e-3, 1)), n_points=draw(st.integers(1, 200)))
    else:
        options = {}
        for key in draw(st.permutations(['center', 'range', 'N_points', 'N_average', 'ramptime', 'gate', 'AWGorDecaDAC', 'extra'])):
            if draw(st.booleans()):
                options[key] = draw(st.sampled_from(['RFA', 'B'])) if key in ('gate', 'AWGorDecaDAC') else \
                    draw(st.integers(1, 2000)) if key.startswith('N_') else draw(gen.dec(-1, 1))
    return dict(name=name, options=options, numpy=draw(st.booleans()), shape=draw(st.lists(st.integers(1, 4), min_size=1, max_size=2)),
                reply=draw(gen.lists(gen.dec(-1, 1), 16)))


@sub('measure', measure_case(), quick=400, rule='at least one option')
def measure(case, ctx):
    engine = FakeEngine({'A': 0.})
    exp = sm.LegacyDQDRefactored(connection(engine))
    options = dict(case['options'])
    if case['numpy']:
        for k, v in options.items():
            if isinstance(v, float):
                options[k] = np.float64(v)
            elif isinstance(v, int):
                options[k] = np.int64(v)
    measurement = Measurement(case['name'], **options)
    n = int(np.prod(case['shape']))
    engine.reply = np.array(case['reply'][:n]).reshape(case['shape']).tolist()
    result = exp.measure(measurement)
    require(len(engine.calls) == 1 and engine.calls[0][0] == case['name'], 'called script', engine.calls)
    struct = engine.calls[0][1]
    require(isinstance(struct.get('file_name'), str) and struct['file_name'], 'name of the file')
    sent = {k: v for k, v in struct.items() if k != 'file_name'}
    require(sent == case['options'], 'options which arrive', sent, case['options'])
    for k in ('center', 'range', 'N_points', 'N_average', 'ramptime', 'n_points'):
        if k in sent and case['name'] in ('line_scan', 'detune_scan', '2d_scan'):
            require(type(sent[k]) in (float, int), 'type of the option ' + k, type(sent[k]))
    require(measurement.options == options, 'the options of the measurement are changed')
    require(isinstance(result, np.ndarray) and result.tolist() == engine.reply, 'returned data', result)
    ctx.label(case['name'])
    ctx.nontrivial(options)
    other = Measurement('unknown', **options)
    try:
        exp.measure(other)
    except ValueError:
        return
    require(False, 'an unknown measurement is accepted')
