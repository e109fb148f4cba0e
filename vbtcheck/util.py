"""Shared strategies and comparison helpers."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vbtcheck.core import Violation

NAN = float("nan")
INF = float("inf")

_SPECIAL = {"inf": INF, "-inf": -INF, "nan": NAN}


def fl(x):
    """JSON value -> float (None is NaN)."""
    if x is None:
        return NAN
    if isinstance(x, str):
        return _SPECIAL[x]
    return float(x)


def arr(x, dtype=float):
    """Nested JSON list -> ndarray (None is NaN)."""
    if dtype is float:
        a = np.array(x, dtype=object)
        return np.vectorize(fl, otypes=[float])(a) if a.size else np.array(x, dtype=float)
    return np.array(x, dtype=dtype)


def need(cond, msg, sig=None):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else repr(msg), sig)


def same(a, b, rtol=1e-8, atol=1e-9):
    """Whether two scalars/arrays are equal up to rounding, with NaN equal to NaN and infinities exact."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def need_same(a, b, what, rtol=1e-8, atol=1e-9, sig=None):
    if not same(a, b, rtol, atol):
        raise Violation("%s: got %s, expected %s" % (what, np.asarray(a).tolist(), np.asarray(b).tolist()), sig)


def need_equal_pd(a, b, what, rtol=1e-8, atol=1e-9, check_names=True):
    """Same type, index, columns/name and values."""
    if type(a) is not type(b):
        raise Violation("%s: type %s, expected %s" % (what, type(a), type(b)))
    if isinstance(a, pd.Series):
        need(list(a.index) == list(b.index), "%s: index %s, expected %s" % (what, list(a.index), list(b.index)))
        if check_names:
            need(a.name == b.name, "%s: name %r, expected %r" % (what, a.name, b.name))
    elif isinstance(a, pd.DataFrame):
        need(list(a.index) == list(b.index), "%s: index %s, expected %s" % (what, list(a.index), list(b.index)))
        need(list(a.columns) == list(b.columns),
             "%s: columns %s, expected %s" % (what, list(a.columns), list(b.columns)))
    try:
        av, bv = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        av, bv = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        need(av.shape == bv.shape and all(x == y or (x != x and y != y) for x, y in zip(av.ravel(), bv.ravel())),
             "%s: got %s, expected %s" % (what, av.tolist(), bv.tolist()))
        return
    need_same(av, bv, what, rtol, atol)


# ---------------------------------------------------------------- strategies

def price_st():
    return st.one_of(st.integers(1, 30).map(float), st.integers(50, 4000).map(lambda x: x / 100.0))


def matrix(elem, n, m):
    return st.lists(st.lists(elem, min_size=m, max_size=m), min_size=n, max_size=n)


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def maybe_nan(elem, p_nan=8):
    """One in `p_nan` elements is NaN (None)."""
    return st.integers(0, p_nan - 1).flatmap(lambda k: st.none() if k == p_nan - 1 else elem)


@st.composite
def price_path(draw, n, m, nan=False, lo=5, hi=60):
    """Prices as a small-step walk per column (nested list [n][m])."""
    cols = []
    for _ in range(m):
        p = draw(st.integers(lo * 10, hi * 10))
        col = []
        for _ in range(n):
            p = max(10, p + draw(st.integers(-60, 60)))
            col.append(p / 10.0)
        cols.append(col)
    out = [[cols[j][i] for j in range(m)] for i in range(n)]
    if nan:
        for i in range(n):
            for j in range(m):
                if draw(st.integers(0, 9)) == 9:
                    out[i][j] = None
    return out


def weighted(*pairs):
    """weighted((3, value), (1, value)) -> sampled_from with multiplicities; first value is the simplest."""
    out = []
    for w, v in pairs:
        out += [v] * w
    return st.sampled_from(out)


def idx(n, kind="int", start="2020-01-01"):
    if kind == "int":
        return pd.RangeIndex(n)
    return pd.date_range(start, periods=n, freq="D")


def cols(m, names="abcdefghij"):
    return pd.Index(list(names[:m]))
