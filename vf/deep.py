"""Deep comparison of stored and reloaded values."""
import enum

import numpy as np
import pandas as pd

import qtune.storage

PLAIN = (bool, int, float, complex, np.generic)


def is_object(x):
    return type(x).__name__ in qtune.storage.serializables and type(x) not in (dict, list, tuple)


def array_difference(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype:
        return 'dtype %s becomes %s' % (a.dtype, b.dtype)
    if a.shape != b.shape:
        return 'shape %s becomes %s' % (a.shape, b.shape)
    if a.dtype == object:
        if not all(type(x) == type(y) and (x == y) for x, y in zip(a.ravel(), b.ravel())):
            return 'entries differ: %r %r' % (a, b)
        return None
    if np.ascontiguousarray(a).tobytes() != np.ascontiguousarray(b).tobytes():
        return 'entries differ: %r %r' % (a, b)
    return None


def index_difference(a, b):
    if len(a) != len(b) or list(a) != list(b):
        return 'labels %r become %r' % (list(a), list(b))
    return None


def difference(a, b, path='', pairs=None, reserved=(), identity=True):
    """Description of the first difference or None. a is the original, b the loaded object.

    identity: containers and labelled data keep their identity (constructors may copy them), objects always do.
    pairs maps id(a) -> b and ('back', id(b)) -> a for everything that has an identity."""
    pairs = {} if pairs is None else pairs
    for r in reserved:
        if a is r or b is r:
            return None if a is b else path + ': the reserved object is not used'
    if a is None or b is None:
        return None if a is b else '%s: %r becomes %r' % (path, a, b)
    if isinstance(a, PLAIN):
        if not isinstance(b, PLAIN):
            return '%s: %r becomes %r' % (path, a, b)
        diff = array_difference(a, b)
        return None if diff is None else '%s: %s' % (path, diff)
    if isinstance(a, str):
        return None if type(b) is str and a == b else '%s: %r becomes %r' % (path, a, b)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray):
            return '%s: array becomes %r' % (path, b)
        diff = array_difference(a, b)
        return None if diff is None else '%s: %s' % (path, diff)
    if type(a) is not type(b):
        return '%s: %s becomes %s' % (path, type(a).__name__, type(b).__name__)
    # things with an identity
    if (identity or is_object(a)) and not (isinstance(a, tuple) and not a):
        if id(a) in pairs:
            return None if pairs[id(a)][0] is b else path + ': one object is loaded as several'
        if ('back', id(b)) in pairs:
            return path + ': several objects are loaded as one'
        pairs[id(a)] = (b, a)
        pairs['back', id(b)] = a
    if isinstance(a, dict):
        if set(a) != set(b):
            return '%s: keys %s become %s' % (path, sorted(a), sorted(b))
        for k in a:
            diff = difference(a[k], b[k], '%s[%r]' % (path, k), pairs, reserved, identity)
            if diff:
                return diff
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d becomes %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            diff = difference(x, y, '%s[%d]' % (path, i), pairs, reserved, identity)
            if diff:
                return diff
        return None
    if isinstance(a, pd.Series):
        diff = index_difference(a.index, b.index) or array_difference(a.values, b.values)
        return None if diff is None else '%s: %s' % (path, diff)
    if isinstance(a, pd.DataFrame):
        diff = index_difference(a.index, b.index) or index_difference(a.columns, b.columns)
        if diff is None and not a.empty:
            diff = array_difference(a.values, b.values)
        return None if diff is None else '%s: %s' % (path, diff)
    if is_object(a):
        da, db = a.to_hdf5(), b.to_hdf5()
        # temporaries: keep alive, otherwise ids are reused
        pairs.setdefault('alive', []).extend([da, db])
        pairs[id(da)] = (db, da)
        if set(da) != set(db):
            return '%s: arguments %s become %s' % (path, sorted(da), sorted(db))
        for k in da:
            diff = difference(da[k], db[k], '%s.%s' % (path, k), pairs, reserved, identity)
            if diff:
                return diff
        return None
    if isinstance(a, enum.Enum):
        return None if a is b else '%s: %r becomes %r' % (path, a, b)
    return '%s: unexpected type %s' % (path, type(a))
