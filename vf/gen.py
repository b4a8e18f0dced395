"""Strategies shared by the checks. All produce JSON-able data."""
from hypothesis import strategies as st

GATES = ['A', 'B', 'N', 'RFA', 'RFB', 'SA', 'SB', 'T', 'g 1', 'SDB2']
PARAMS = ['t', 'pos', 'time load', 'x', 'x2', 'load', 'lead', 'z']


def dec(lo, hi, digits=3):
    """Decimal numbers of limited precision: well scaled and shrinking towards integers."""
    f = 10 ** digits
    return st.integers(int(round(lo * f)), int(round(hi * f))).map(lambda i: i / f)


def sdec(lo, hi, digits=3):
    """Like dec, of both signs and bounded away from zero."""
    return st.tuples(dec(lo, hi, digits), st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


def lists(elements, n):
    return st.lists(elements, min_size=n, max_size=n)


def names(pool, n):
    """n distinct names in arbitrary order."""
    return st.permutations(pool).map(lambda p: list(p[:n]))


def permutation(n):
    return st.permutations(list(range(n))).map(list)


def matrix(elements, n, m):
    return lists(lists(elements, m), n)


def maybe(strategy, p_none=1, p_some=3):
    return st.integers(0, p_none + p_some - 1).flatmap(lambda i: st.none() if i < p_none else strategy)


def subset(pool, min_size=0):
    return st.lists(st.sampled_from(pool), unique=True, min_size=min_size, max_size=len(pool))
