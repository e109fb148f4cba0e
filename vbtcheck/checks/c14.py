"""C14: collections of records and mapped values behave like lists of their records.

Oracle: a plain Python list of entries (column, position, id, value) on which every operation is spelled out, and real
record classes whose readable tables are written out by hand."""
import functools
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.base.indexing import IndexingError
from vectorbt.records import MappedArray, Records
from vectorbt.records.decorators import attach_fields, override_field_config

from vbtcheck.checks.c13 import attempt, coherent, uniq
from vbtcheck.core import Facet
from vbtcheck.util import fl, need, need_equal_pd, need_same, price_path, vec, weighted

ASSUMPTIONS = [
    "Selecting columns lists the records column by column in the order of the selection, and within a column in stored order.",
    "Ties: the last ones win among the largest, the first ones among the smallest; missing values rank last in both.",
    "A group is selected at most once, and one group or a Series cannot be indexed further (documented).",
    "Position of the extreme of a column that holds only missing values is an error.",
]

NAN = float("nan")
LABELS = list("abcdef")


# ---------------------------------------------------------------- model

class Model:
    def __init__(self, rows, cols, labels, n):
        self.rows, self.cols, self.labels, self.n = rows, list(cols), labels, n      # rows: (col, idx, id, value)

    def axis(self, group=None):
        """(labels of columns or groups, list of rows of each)."""
        lab = self.labels if group is None else (None if group is False else group)
        if lab is None:
            return list(self.cols), [[r for r in self.rows if r[0] == j] for j in range(len(self.cols))]
        u = uniq(lab)
        return u, [[r for r in self.rows if lab[r[0]] == g] for g in u]

    def but(self, **kw):
        m = Model(self.rows, self.cols, self.labels, self.n)
        m.__dict__.update(kw)
        return m


def lists_same(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) or (isinstance(x, float) and isinstance(y, float) and math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12))
                                    for x, y in zip(a, b))


def agree(ma, mod, what):
    got = [list(map(float, ma.values)), [int(x) for x in ma.col_arr], [int(x) for x in ma.id_arr]]
    exp = [[float(r[3]) for r in mod.rows], [r[0] for r in mod.rows], [r[2] for r in mod.rows]]
    for nm, a, b in zip(("values", "columns", "ids"), got, exp):
        need(lists_same(a, b), "%s: %s %s, expected %s" % (what, nm, a, b))
    need([int(x) for x in ma.idx_arr] == [r[1] for r in mod.rows], "%s: positions %s, expected %s" % (what, ma.idx_arr.tolist(), [r[1] for r in mod.rows]))
    agree_wrapper(ma, mod, what)


def agree_wrapper(ma, mod, what):
    need(len(ma.values) == len(ma) == len(mod.rows), "%s: length" % what)
    need(list(ma.wrapper.columns) == list(mod.cols), "%s: column labels %s, expected %s" % (what, list(ma.wrapper.columns), mod.cols))
    g = ma.wrapper.grouper
    need(g.is_grouped() == (mod.labels is not None), "%s: grouped %s" % (what, g.is_grouped()))
    if mod.labels is not None:
        u = uniq(mod.labels)
        need([int(x) for x in g.get_groups()] == [u.index(x) for x in mod.labels] and list(g.get_columns()) == u,
             "%s: groups %s %s, expected %s" % (what, g.get_groups(), list(g.get_columns()), mod.labels))
    lookups(ma, mod, what)


def lookups(o, mod, what):
    """Internal column lookups against a linear scan."""
    cm = o.col_mapper
    for group in (None, False):
        u, parts = mod.axis(group)
        lab = mod.labels if group is None else None
        code = [r[0] if lab is None else uniq(lab).index(lab[r[0]]) for r in mod.rows]
        need([int(x) for x in cm.get_col_arr(group_by=group)] == code, "%s: column of each record" % what)
        idxs, lens = cm.get_col_map(group_by=group)
        need([int(x) for x in lens] == [len(p) for p in parts], "%s: lengths of the column map %s" % (what, lens))
        need([int(x) for x in idxs] == [i for k in range(len(u)) for i, c in enumerate(code) if c == k], "%s: indices of the column map %s" % (what, idxs))
        rng, e = attempt(lambda: cm.get_col_range(group_by=group))
        if code == sorted(code):
            need(e is None, "%s: column range raised %r" % (what, e))
            exp = [[code.index(k), code.index(k) + len(p)] if p else [-1, -1] for k, p in enumerate(parts)]
            need(rng.tolist() == exp, "%s: column range %s, expected %s" % (what, rng.tolist(), exp))
        else:
            need(isinstance(e, ValueError), "%s: column range of unsorted records: %r" % (what, rng))
    need(bool(o.is_sorted()) == all(a[0] <= b[0] for a, b in zip(mod.rows, mod.rows[1:])), "%s: is_sorted" % what)
    need(bool(o.is_sorted(incl_id=True)) == all((a[0], a[2]) <= (b[0], b[2]) for a, b in zip(mod.rows, mod.rows[1:])), "%s: is_sorted with ids" % what)


def top_ids(part, n, largest):
    """Positions kept in one column."""
    def key(k):
        v = part[k][3]
        nan = v != v
        return (nan, (-v if largest else v) if not nan else 0, -k if largest else k)
    return set(sorted(range(len(part)), key=key)[:max(n, 0)])


@njit
def outer_apply_nb(idxs, col, a, k):
    return a * k + col + len(a)


@njit
def big_mask_nb(inout, idxs, col, a):
    inout[idxs] = a > col


@njit
def spread_nb(col, a):
    return np.nanmax(a) - np.nanmin(a) + col if len(a) > 0 else 0.0


@njit
def ends_nb(col, a):
    if len(a) == 0:
        return np.array([0.0, 0.0, 0.0])
    return np.array([a[0], a[-1], len(a) * 1.0])


@njit
def last_pos_nb(col, a):
    return len(a) - 1


@njit
def end_pos_nb(col, a):
    return np.array([0, len(a) - 1])


# ---------------------------------------------------------------- transformations in sequence

AXIS = st.one_of(st.tuples(st.just("list"), st.lists(st.integers(0, 5), min_size=1, max_size=4)), st.tuples(st.just("one"), st.integers(0, 4)),
                 st.tuples(st.just("slice"), st.integers(0, 2)), st.tuples(st.just("mask"), st.integers(1, 62)))

GROUPS = st.lists(st.sampled_from(["g1", "g2", "g3"]), min_size=6, max_size=6)

OP = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("sel"), by=st.sampled_from(["iloc", "loc", "get"]), ax=AXIS)),
    st.fixed_dictionaries(dict(op=st.just("group"), to=st.one_of(st.none(), GROUPS))),
    st.fixed_dictionaries(dict(op=st.just("sort"), ids=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("mask"), bits=st.integers(1, 2 ** 16 - 1), to=st.one_of(st.none(), GROUPS))),
    st.fixed_dictionaries(dict(op=st.sampled_from(["top", "bottom"]), n=st.integers(0, 4), by=st.sampled_from([None, None, "off", "all"]))),
    st.fixed_dictionaries(dict(op=st.just("apply"), k=st.integers(-2, 2), per=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("math"), f=st.sampled_from(["-x", "abs", "x+2", "3-x", "x*x", "x/arr"]))),
    st.fixed_dictionaries(dict(op=st.just("mapmask"))))


@st.composite
def rows_st(draw, m, n, order=None, max_rows=12):
    k = draw(st.integers(0, max_rows))
    rows = draw(st.lists(st.tuples(st.integers(0, m - 1), st.integers(0, n - 1), st.one_of(st.none(), st.integers(-3, 4), st.integers(-3, 4))),
                         min_size=k, max_size=k))
    order = order or draw(st.sampled_from(["col", "any", "col+id", "rev"]))
    ids = draw(st.permutations(range(k))) if order in ("any", "col") else list(range(k))
    out = [[c, i, d, v] for (c, i, v), d in zip(rows, ids)]
    if order.startswith("col"):
        out.sort(key=lambda r: r[0])
    if order == "rev":
        out.sort(key=lambda r: -r[0])
    if order == "col+id":
        for d, r in enumerate(out):
            r[2] = d
    return out


@st.composite
def base_st(draw, **kw):
    m, n = draw(weighted((1, 1), (3, 3), (2, 4), (1, 6))), draw(st.integers(2, 6))
    return dict(m=m, n=n, rows=draw(rows_st(m, n, **kw)), group=draw(st.one_of(st.none(), GROUPS)), series=draw(weighted((4, False), (1, True))))


@st.composite
def seq_case(draw):
    c = draw(base_st())
    c["ops"] = draw(st.lists(OP, min_size=1, max_size=5))
    return c


def clean_groups(g, m):
    g = g[:m]
    return [x for x in uniq(g) for _ in range(g.count(x))]


def build(case, freq=None):
    m, n = case["m"], case["n"]
    cols = LABELS[:m]
    labels = clean_groups(case["group"], m) if case["group"] else None
    nd = 1 if case["series"] and m == 1 and labels is None else 2
    w = ArrayWrapper(pd.date_range("2020-01-01", periods=n, freq="D"), pd.Index(cols), nd, group_by=labels, freq=freq)
    rows = [(r[0], r[1], r[2], fl(r[3])) for r in case["rows"]]
    return w, Model(rows, cols, labels, n)


def mapped(w, mod, **kw):
    r = mod.rows
    return MappedArray(w, np.array([x[3] for x in r], dtype=float), np.array([x[0] for x in r], dtype=np.int64),
                       id_arr=np.array([x[2] for x in r], dtype=np.int64), idx_arr=np.array([x[1] for x in r], dtype=np.int64), **kw)


def selection(o, mod, by, ax, wrapper):
    """Expected model and the selected object; None if there is nothing to select."""
    u, _ = mod.axis()
    k = len(u)
    kind, x = ax
    if len(set(u)) < k:
        by = "iloc"
    if kind == "list":
        pos = [i % k for i in x]
        if mod.labels is not None:
            pos = uniq(pos)
        key = pos if by == "iloc" else [u[i] for i in pos]
    elif kind == "one":
        pos = [x % k]
        key = pos[0] if by == "iloc" else u[pos[0]]
    elif kind == "slice":
        pos = list(range(x % k, k))
        key = slice(x % k, None) if by == "iloc" else slice(u[x % k], None)
        by = "loc" if by == "get" else by
    else:
        pos = [i for i in range(k) if x >> i & 1]
        key = [bool(x >> i & 1) for i in range(k)]
        by = "loc" if by == "get" else by
        if not pos:
            return None, None
    f = (lambda o: o.iloc[key]) if by == "iloc" else (lambda o: o.loc[key]) if by == "loc" else (lambda o: o[key])
    if mod.labels is None:
        src = [[i] for i in pos]
        labels = None
    else:
        src = [[j for j in range(len(mod.cols)) if mod.labels[j] == u[i]] for i in pos]
        labels = [u[i] for i, s in zip(pos, src) for _ in s]
    flat = [j for s in src for j in s]
    rows = [(p,) + tuple(r[1:]) for p, j in enumerate(flat) for r in mod.rows if r[0] == j]
    return f, mod.but(rows=rows, cols=[mod.cols[j] for j in flat], labels=labels)


def step(ma, mod, op):
    """One operation on the collection and on the model; None if it does not apply."""
    o = op["op"]
    m = len(mod.cols)
    if o == "sel":
        one = ma.wrapper.get_ndim() == 1
        f, mod2 = selection(ma, mod, op["by"], op["ax"], ma.wrapper)
        if f is None:
            return None
        if one:
            r, e = attempt(lambda: f(ma))
            need(isinstance(e, IndexingError), "indexing one column or group: %r" % (e,))
            return None
        return f(ma), mod2
    if o == "group":
        if ma.wrapper.ndim == 1:
            return None
        if op["to"] is None:
            return ma.regroup(False), mod.but(labels=None)
        lab = clean_groups(op["to"], m)
        if lab == mod.labels or len(lab) == 0:
            return None
        return ma.regroup(lab), mod.but(labels=lab)
    if o == "sort":
        key = (lambda r: (r[0], r[2])) if op["ids"] else (lambda r: r[0])
        return ma.sort(incl_id=op["ids"]), mod.but(rows=sorted(mod.rows, key=key))
    if o == "mask":
        mask = np.array([bool(op["bits"] >> (i % 16) & 1) for i in range(len(mod.rows))], dtype=bool)
        rows = [r for r, k in zip(mod.rows, mask) if k]
        if op["to"] and ma.wrapper.ndim == 2:
            lab = clean_groups(op["to"], m)
            return ma.apply_mask(mask, group_by=lab), mod.but(rows=rows, labels=lab)
        return ma.apply_mask(mask), mod.but(rows=rows)
    if o in ("top", "bottom"):
        g = {None: None, "off": False, "all": True}[op["by"]]
        if g is True and ma.wrapper.ndim == 1:
            g = None
        labels = mod.labels if g is None else None if g is False else ["group"] * m
        _, parts = mod.axis(labels if g is True else g)
        ids = set()
        for p in parts:
            ids |= {id(p[k]) for k in top_ids(p, op["n"], o == "top")}
        f = ma.top_n if o == "top" else ma.bottom_n
        got = f(op["n"]) if g is None else f(op["n"], group_by=g)
        return got, mod.but(rows=[r for r in mod.rows if id(r) in ids], labels=labels)
    if o == "apply":
        u, parts = mod.axis(None if op["per"] else False)
        new = {}
        for c, p in enumerate(parts):
            for r in p:
                new[id(r)] = r[3] * op["k"] + c + len(p)
        return ma.apply(outer_apply_nb, op["k"], apply_per_group=op["per"]), mod.but(rows=[r[:3] + (new[id(r)],) for r in mod.rows])
    if o == "math":
        a = np.array([2.0 + i for i in range(len(mod.rows))])
        fs = {"-x": (lambda x: -x, lambda x, i: -x), "abs": (abs, lambda x, i: abs(x)), "x+2": (lambda x: x + 2, lambda x, i: x + 2),
              "3-x": (lambda x: 3 - x, lambda x, i: 3 - x), "x*x": (lambda x: x * x, lambda x, i: x * x), "x/arr": (lambda x: x / a, lambda x, i: x / (2.0 + i))}
        f, g = fs[op["f"]]
        return f(ma), mod.but(rows=[r[:3] + (g(r[3], i),) for i, r in enumerate(mod.rows)])
    u, parts = mod.axis()
    keep = {id(r) for c, p in enumerate(parts) for r in p if r[3] > c}
    mask = ma.map_to_mask(big_mask_nb)
    need([bool(x) for x in mask] == [id(r) in keep for r in mod.rows], "map_to_mask: %s" % mask)
    return ma.apply_mask(mask), mod.but(rows=[r for r in mod.rows if id(r) in keep])


def check_seq(case):
    w, mod = build(case)
    # distinct row objects: model operations identify rows by object
    mod.rows = [tuple(r) for r in mod.rows]
    ma = mapped(w, mod)
    agree(ma, mod, "start")
    first = ma, mod
    changed = 0
    for i, op in enumerate(case["ops"]):
        r = step(ma, mod, op)
        if r is None:
            continue
        ma, mod = r
        mod.rows = [tuple(list(x)) for x in mod.rows]
        agree(ma, mod, "after %s" % (case["ops"][:i + 1],))
        changed += 1
    agree(first[0], first[1], "the original after the operations")
    if len(ma) > 1 and changed:
        other = ma.replace(id_arr=ma.id_arr[::-1].copy())
        r, e = attempt(lambda: ma + other)
        need(e is not None or list(ma.id_arr) == list(ma.id_arr[::-1]), "combining collections with different ids did not raise")
        need((ma > 1).values.tolist() == [x[3] > 1 for x in mod.rows], "comparison")
    return ["nt"] if changed > 1 and len(mod.rows) > 1 and len(mod.cols) > 1 else []


# ---------------------------------------------------------------- reductions

def vals(part):
    return [r[3] for r in part if r[3] == r[3]]


def std(v, ddof):
    if len(v) - ddof <= 0:
        return NAN
    mu = sum(v) / len(v)
    return math.sqrt(sum((x - mu) ** 2 for x in v) / (len(v) - ddof))


def quant(v, q):
    if not v:
        return NAN
    v = sorted(v)
    p = (len(v) - 1) * q
    lo = int(math.floor(p))
    return v[lo] + (v[min(lo + 1, len(v) - 1)] - v[lo]) * (p - lo)


RED = {
    "min": lambda v: min(v) if v else NAN, "max": lambda v: max(v) if v else NAN, "mean": lambda v: sum(v) / len(v) if v else NAN,
    "median": lambda v: quant(v, 0.5), "sum": lambda v: sum(v) if v else 0.0,
}


@st.composite
def reduce_case(draw):
    c = draw(base_st())
    c.update(late=draw(weighted((2, None), (1, "off"), (1, "all"), (1, "list"))), lab2=draw(GROUPS), n=draw(st.integers(2, 5)), k=draw(st.integers(-3, 3)), ddof=draw(st.integers(0, 2)),
             what=draw(st.lists(st.sampled_from(["basic", "basic", "std", "nth", "nth_index", "idx", "describe", "count", "custom", "fill"]), min_size=2, max_size=4)))
    for r in c["rows"]:
        r[1] %= c["n"]
    return c


def wrapped(got, expect, u, single, name, what):
    """A reduction: scalar for a single group/Series, labelled Series otherwise."""
    if single:
        need(np.ndim(got) == 0, "%s: %r is not a scalar" % (what, got))
        a, b = [got], [expect[0]]
    else:
        need(isinstance(got, pd.Series) and list(got.index) == list(u), "%s: index %s, expected %s" % (what, getattr(got, "index", got), u))
        need(got.name == name, "%s: name %r, expected %r" % (what, got.name, name))
        a, b = list(got), expect
    for x, y in zip(a, b):
        ok = (pd.isnull(x) and pd.isnull(y)) or (isinstance(y, (int, float)) and not isinstance(x, pd.Timestamp) and not pd.isnull(x) and math.isclose(float(x), float(y), rel_tol=1e-9, abs_tol=1e-9)) \
            or (not isinstance(y, (int, float)) and x == y)
        need(ok, "%s: %s, expected %s" % (what, a, b))


def late_group(case, mod, w):
    m = len(mod.cols)
    g = case["late"]
    if w.ndim == 1:
        return {}, mod.labels
    if g == "off":
        return dict(group_by=False), None
    if g == "all":
        return dict(group_by=True), ["group"] * m
    if g == "list":
        lab = clean_groups(case["lab2"], m)
        return dict(group_by=tuple(lab)), lab
    return {}, mod.labels


def check_reduce(case):
    w, mod = build(case)
    ma = mapped(w, mod)
    index = w.index
    kw, labels = late_group(case, mod, w)
    u, parts = mod.axis(labels if labels is not None else False)
    if labels is not None and "group_by" in kw and isinstance(kw["group_by"], tuple):
        kw = dict(group_by=pd.Index(labels))
    single = w.ndim == 1 or (labels is not None and len(u) == 1)
    sc = functools.partial(wrapped, u=u, single=single)
    for what in case["what"]:
        if what == "basic":
            for f in ("min", "max", "mean", "median", "sum"):
                sc(getattr(ma, f)(**kw), [RED[f](vals(p)) for p in parts], name=f, what=f)
        elif what == "std":
            sc(ma.std(ddof=case["ddof"], **kw), [std(vals(p), case["ddof"]) for p in parts], name="std", what="std")
            sc(ma.std(**kw), [std(vals(p), 1) for p in parts], name="std", what="std")
        elif what in ("nth", "nth_index"):
            k = case["k"]
            bad = any(p and (k >= len(p) or -k > len(p)) for p in parts)
            r, e = attempt(lambda: getattr(ma, what)(k, **kw))
            need((e is not None) == bad, "%s(%d): %r" % (what, k, e))
            if bad:
                continue
            if what == "nth":
                sc(r, [p[k][3] if p else NAN for p in parts], name="nth", what="nth(%d)" % k)
            else:
                sc(r, [index[p[k][1]] if p else pd.NaT for p in parts], name="nth_index", what="nth_index(%d)" % k)
                r = ma.nth_index(k, to_index=False, **kw)
                sc(r, [p[k][1] if p else -1 for p in parts], name="nth_index", what="nth_index(%d) as positions" % k)
        elif what == "idx":
            for f, best in (("idxmin", min), ("idxmax", max)):
                bad = any(p and not vals(p) for p in parts)
                r, e = attempt(lambda: getattr(ma, f)(**kw))
                need((e is not None) == bad, "%s: %r" % (f, e))
                if bad:
                    continue
                exp = [next(index[q[1]] for q in p if q[3] == best(vals(p))) if p else pd.NaT for p in parts]
                sc(r, exp, name=f, what=f)
        elif what == "describe":
            for kwargs, perc in ((dict(), [0.25, 0.5, 0.75]), (dict(percentiles=[0.1, 0.5]), [0.1, 0.5]), (dict(ddof=case["ddof"]), [0.25, 0.5, 0.75])):
                r = ma.describe(**kwargs, **kw)
                dd = kwargs.get("ddof", 1)
                exp = [[float(len(vals(p))), RED["mean"](vals(p)), std(vals(p), dd), RED["min"](vals(p))] + [quant(vals(p), q) for q in perc] + [RED["max"](vals(p))] for p in parts]
                rows = ["count", "mean", "std", "min"] + ["%d%%" % round(q * 100) for q in perc] + ["max"]
                need(list(r.index) == rows, "describe rows %s" % list(r.index))
                if single:
                    need(isinstance(r, pd.Series), "describe of one column: %s" % type(r))
                    need_same(r.values, exp[0], "describe")
                else:
                    need(list(r.columns) == u, "describe columns %s" % list(r.columns))
                    need_same(r.values.T, exp, "describe")
        elif what == "count":
            sc(ma.count(**kw), [len(p) for p in parts], name="count", what="count")
        elif what == "custom":
            if not any(p and not vals(p) for p in parts):
                sc(ma.reduce(spread_nb, **kw), [max(vals(p)) - min(vals(p)) + c if p else NAN for c, p in enumerate(parts)], name="reduce", what="reduce")
            r = ma.reduce(ends_nb, returns_array=True, fill_value=-5.0, **kw)
            exp = [[p[0][3], p[-1][3], float(len(p))] if p else [-5.0] * 3 for p in parts]
            need_same(np.asarray(r, dtype=float).reshape(3, -1).T, exp, "reduce to arrays")
            r = ma.reduce(last_pos_nb, returns_idx=True, **kw)
            sc(r, [index[p[-1][1]] if p else pd.NaT for p in parts], name="reduce", what="reduce to positions")
            r = ma.reduce(end_pos_nb, returns_idx=True, returns_array=True, to_index=False, **kw)
            exp = [[p[0][1], p[-1][1]] if p else [-1, -1] for p in parts]
            need_same(np.asarray(r, dtype=float).reshape(2, -1).T, exp, "reduce to arrays of positions")
        else:
            sc(ma.sum(fill_value=-9.0, **kw), [sum(vals(p)) if p else -9.0 for p in parts], name="sum", what="sum with a fill value")
            sc(ma.mean(fill_value=-9.0, wrap_kwargs=dict(name_or_index="avg"), **kw), [RED["mean"](vals(p)) if p else -9.0 for p in parts], name="avg", what="mean with a fill value")
    return ["nt"] if sum(bool(p) for p in parts) > 1 and max(map(len, parts)) > 2 else []


# ---------------------------------------------------------------- back to tables, value counts, mappings

@st.composite
def table_case(draw):
    c = draw(base_st(max_rows=8))
    if draw(st.booleans()):                                            # distinct positions
        seen, rows = set(), []
        for r in c["rows"]:
            if (r[0], r[1]) not in seen:
                seen.add((r[0], r[1]))
                rows.append(r)
        c["rows"] = rows
    c.update(late=draw(weighted((2, None), (1, "off"), (1, "all"), (1, "list"))), lab2=draw(GROUPS), fill=draw(st.sampled_from([None, 0.0, -7.5])),
             normalize=draw(st.booleans()), sort_uniques=draw(weighted((3, True), (1, False))), sort=draw(st.booleans()), ascending=draw(st.booleans()),
             dropna=draw(st.booleans()), mapping=draw(st.sampled_from([None, "own", "given", "enum"])), all_keys=draw(st.booleans()), other_idx=draw(st.booleans()))
    return c


MAP = {-3.0: "m3", -2.0: "m2", -1.0: "m1", 0.0: "zero", 1.0: "one", 2.0: "two", 3.0: "three", 4.0: "four", 9.0: "nine"}


def check_table(case):
    w, mod = build(case)
    kw, labels = late_group(case, mod, w)
    if "group_by" in kw and isinstance(kw["group_by"], tuple):
        kw = dict(group_by=pd.Index(labels))
    own = dict(mapping=MAP) if case["mapping"] == "own" else {}
    ma = mapped(w, mod, **own)
    u, parts = mod.axis(labels if labels is not None else False)
    single = w.ndim == 1 or (labels is not None and len(u) == 1)
    fill = NAN if case["fill"] is None else case["fill"]
    fkw = {} if case["fill"] is None else dict(fill_value=fill)
    # expand by position
    k = len(u)
    posn = [[r[1] for r in p] for p in parts]
    ikw = {}
    if case["other_idx"]:
        shift = [(i + 1) % w.shape[0] for i in range(w.shape[0])]
        ikw = dict(idx_arr=np.array([shift[r[1]] for r in mod.rows], dtype=np.int64))
        posn = [[shift[i] for i in p] for p in posn]
    ok = all(len(set(p)) == len(p) for p in posn)
    need(bool(ma.is_expandable(**ikw, **kw)) == ok, "is_expandable: %s" % ma.is_expandable(**ikw, **kw))
    r, e = attempt(lambda: ma.to_pd(**fkw, **ikw, **kw))
    if not ok:
        need(isinstance(e, ValueError), "several values per position: %r" % (e,))
    else:
        need(e is None, "to_pd raised %r" % e)
        exp = np.full((len(w.index), k), fill)
        for j, p in enumerate(parts):
            for q, i in zip(p, posn[j]):
                exp[i, j] = q[3]
        e2 = pd.Series(exp[:, 0], index=w.index, name=u[0]) if single else pd.DataFrame(exp, index=w.index, columns=u)
        need_equal_pd(r, e2, "to_pd")
        if not ikw and not np.isnan(exp).any() and not single and len(mod.rows):
            back = r.stack()
            need(len(back) == exp.size, "stacked table")
    # stack regardless of position
    r = ma.to_pd(ignore_index=True, **fkw, **kw)
    h = max(map(len, parts)) if parts else 0
    exp = np.full((h, k), fill)
    for j, p in enumerate(parts):
        for i, q in enumerate(p):
            exp[i, j] = q[3]
    if w.ndim == 1:
        exp = np.array([q[3] for q in mod.rows], dtype=float)[:, None]
    e2 = pd.Series(exp[:, 0], index=range(len(exp)), name=u[0]) if single else pd.DataFrame(exp, index=range(len(exp)), columns=u)
    need_equal_pd(r, e2, "to_pd(ignore_index)")
    # value counts
    vkw = dict(normalize=case["normalize"], sort_uniques=case["sort_uniques"], sort=case["sort"], ascending=case["ascending"], dropna=case["dropna"],
               incl_all_keys=case["all_keys"])
    mp = None
    if case["mapping"] == "given":
        vkw["mapping"] = mp = MAP
    elif case["mapping"] == "own":
        mp = MAP
    r = ma.value_counts(**vkw, **kw)
    seen = []
    for q in mod.rows:
        key = "nan" if q[3] != q[3] else q[3] + 0.0
        if key not in seen:
            seen.append(key)
    if case["all_keys"] and mp:
        seen += [x for x in mp if x not in seen]
    if case["dropna"]:
        seen = [x for x in seen if x != "nan"]
    if case["sort_uniques"]:
        seen.sort(key=lambda x: (x == "nan", 0 if x == "nan" else x))
    cnt = {x: [sum(1 for q in p if (q[3] != q[3] if x == "nan" else q[3] == x)) for p in parts] for x in seen}
    tot = sum(sum(v) for v in cnt.values())
    if case["sort"]:
        seen.sort(key=lambda x: sum(cnt[x]) if case["ascending"] else -sum(cnt[x]))
    exp_index = [(NAN if x == "nan" else x) if mp is None else (MAP[x] if x != "nan" else NAN) for x in seen]
    gi = list(r.index)
    need(len(gi) == len(exp_index) and all((pd.isnull(a) and pd.isnull(b)) or a == b for a, b in zip(gi, exp_index)), "value_counts index %s, expected %s" % (gi, exp_index))
    gv = np.asarray(r, dtype=float).reshape(len(seen), k)
    if seen and (tot or not case["normalize"]):
        need_same(gv, [[c / tot if case["normalize"] else c for c in cnt[x]] for x in seen], "value_counts (%s)" % {a: b for a, b in vkw.items() if a != "mapping"})
    if not single:
        need(list(r.columns) == u, "value_counts columns")
    # mappings
    if case["mapping"] in ("own", "given"):
        r = ma.apply_mapping() if case["mapping"] == "own" else ma.apply_mapping(MAP)
        got = list(r.values)
        exp = [NAN if q[3] != q[3] else MAP[q[3] + 0.0] for q in mod.rows]
        need(all((pd.isnull(a) and pd.isnull(b)) or a == b for a, b in zip(got, exp)) and len(got) == len(exp), "apply_mapping: %s, expected %s" % (got, exp))
        need(list(r.col_arr) == [q[0] for q in mod.rows], "apply_mapping columns")
    pos = ma.replace(mapped_arr=np.array([q[1] for q in mod.rows], dtype=np.int64))
    need(list(pos.to_index()) == [w.index[q[1]] for q in mod.rows], "to_index")
    return ["nt"] if len(mod.rows) > 3 and sum(bool(p) for p in parts) > 1 else []


# ---------------------------------------------------------------- records

REC = np.dtype([("id", np.int64), ("col", np.int64), ("idx", np.int64), ("amount", np.float64), ("kind", np.int64), ("hidden", np.int64)])


@attach_fields()
@override_field_config(dict(dtype=REC, settings=dict(
    id=dict(title="Rec Id"), amount=dict(title="Amount"), kind=dict(title="Kind", mapping={0: "buy", 1: "sell", -1: None}), hidden=dict(ignore=True))))
class Recs(Records):
    @property
    def field_config(self):
        return self._field_config


@njit
def double_nb(r, k):
    return r.amount * k + r.idx


@njit
def rank_nb(recs, k):
    out = np.empty(len(recs), dtype=np.float64)
    for i in range(len(recs)):
        out[i] = recs["amount"][i] - recs["amount"][0] + k * len(recs)
    return out


@st.composite
def recs_case(draw):
    c = draw(base_st())
    c["ops"] = draw(st.lists(OP.filter(lambda o: o["op"] in ("sel", "group", "sort", "mask")), min_size=0, max_size=4))
    c.update(k=draw(st.integers(-2, 2)), per=draw(st.booleans()), late=draw(weighted((2, None), (1, "off"), (1, "all"))), lab2=draw(GROUPS))
    return c


def recs_agree(o, mod, what):
    v = o.values
    got = [(int(r["col"]), int(r["idx"]), int(r["id"]), float(r["amount"]), int(r["kind"])) for r in v]
    exp = [(r[0], r[1], r[2], r[3], r[2] % 2) for r in mod.rows]
    need(len(got) == len(exp) and all(lists_same(a, b) for a, b in zip(got, exp)), "%s: %s, expected %s" % (what, got, exp))
    agree_wrapper(o, mod, what)


def check_recs(case):
    w, mod = build(case)
    a = np.zeros(len(mod.rows), dtype=REC)
    for i, r in enumerate(mod.rows):
        a[i] = (r[2], r[0], r[1], r[3], r[2] % 2, 5)
    o = Recs(w, a)
    recs_agree(o, mod, "start")
    mod.rows = [tuple(r) for r in mod.rows]
    first, changed = (o, mod), 0
    for i, op in enumerate(case["ops"]):
        r = step(o, mod, op)
        if r is None:
            continue
        o, mod = r
        mod.rows = [tuple(list(x)) for x in mod.rows]
        recs_agree(o, mod, "after %s" % (case["ops"][:i + 1],))
        changed += 1
    recs_agree(first[0], first[1], "the original after the operations")
    rows = mod.rows
    ww = o.wrapper
    # mapping to values
    agree(o.map_field("amount"), mod, "map_field")
    agree(o.get_map_field("amount"), mod, "get_map_field")
    agree(o.amount, mod, "attached field")
    need_same(o.get_field_arr("amount"), [r[3] for r in rows], "get_field_arr")
    agree(o.map_array(np.array([7.0 + i for i in range(len(rows))])), mod.but(rows=[r[:3] + (7.0 + i,) for i, r in enumerate(rows)]), "map_array")
    r, e = attempt(lambda: o.map_array(np.zeros(len(rows) + 1)))
    need(e is not None, "map_array of a wrong length did not raise")
    k = case["k"]
    agree(o.map(double_nb, k), mod.but(rows=[r[:3] + (r[3] * k + r[1],) for r in rows]), "map")
    u, parts = mod.axis(None if case["per"] else False)
    new = {}
    for p in parts:
        for q in p:
            new[id(q)] = q[3] - p[0][3] + k * len(p)
    agree(o.apply(rank_nb, k, apply_per_group=case["per"]), mod.but(rows=[r[:3] + (new[id(r)],) for r in rows]), "apply")
    kw, labels = late_group(case, mod, ww)
    u, parts = mod.axis(labels if labels is not None else False)
    wrapped(o.count(**kw), [len(p) for p in parts], u, ww.get_ndim(**kw) == 1, "count", "count")
    # readable
    t = o.records_readable
    need(list(t.columns) == ["Rec Id", "Column", "Timestamp", "Amount", "Kind"], "readable columns %s" % list(t.columns))
    exp = [(r[2], mod.cols[r[0]], ww.index[r[1]], r[3], "sell" if r[2] % 2 else "buy") for r in rows]
    got = [tuple(x) for x in t.itertuples(index=False)]
    need(len(got) == len(exp) and all(lists_same(list(x), list(y)) for x, y in zip(got, exp)), "readable %s, expected %s" % (got, exp))
    need([str(x) for x in o.get_apply_mapping_arr("kind")] == [x[4] for x in exp], "get_apply_mapping_arr")
    need(list(o.get_map_field_to_index("idx")) == [x[2] for x in exp], "get_map_field_to_index")
    need(list(o.records.columns) == list(REC.names) and len(o.records) == len(rows), "records as a frame")
    need([float(x) for x in o.recarray.idx] == [r[1] for r in rows], "recarray")
    need(len(o.values) == 0 or np.shares_memory(first[0].values, a), "records are not kept as given")
    return ["nt"] if changed and len(rows) > 2 and len(mod.cols) > 1 else []


# ---------------------------------------------------------------- readable tables of the real collections

SIDE, DIRECTION, TSTAT, RSTAT = {0: "Buy", 1: "Sell"}, {0: "Long", 1: "Short"}, {0: "Open", 1: "Closed"}, {0: "Open", 1: "Closed"}
DSTAT = {0: "Active", 1: "Recovered"}
TRADE = [("id", "%s Id", None), ("col", "Column", "C"), ("size", "Size", None), ("entry_idx", "Entry Timestamp", "T"), ("entry_price", "Avg Entry Price", None),
         ("entry_fees", "Entry Fees", None), ("exit_idx", "Exit Timestamp", "T"), ("exit_price", "Avg Exit Price", None), ("exit_fees", "Exit Fees", None),
         ("pnl", "PnL", None), ("return", "Return", None), ("direction", "Direction", DIRECTION), ("status", "Status", TSTAT)]
LOGMAP = {"idx": ("Timestamp", "T"), "col": ("Column", "C"), "req_size_type": ("Request Size Type", {0: "Amount", 1: "Value", 2: "Percent", 3: "TargetAmount", 4: "TargetValue", 5: "TargetPercent"}),
          "req_direction": ("Request Direction", {0: "LongOnly", 1: "ShortOnly", 2: "Both"}), "res_side": ("Result Side", {0: "Buy", 1: "Sell", -1: None}),
          "res_status": ("Result Status", {0: "Filled", 1: "Ignored", 2: "Rejected", -1: None}),
          "res_status_info": ("Result Status Info", {0: "SizeNaN", 1: "PriceNaN", 2: "ValPriceNaN", 3: "ValueNaN", 4: "ValueZeroNeg", 5: "SizeZero", 6: "NoCashShort", 7: "NoCashLong",
                                                     8: "NoOpenPosition", 9: "MaxSizeExceeded", 10: "RandomEvent", 11: "CantCoverFees", 12: "MinSizeNotReached", 13: "PartialFill", -1: None})}
TABLES = {
    "orders": [("id", "Order Id", None), ("col", "Column", "C"), ("idx", "Timestamp", "T"), ("size", "Size", None), ("price", "Price", None), ("fees", "Fees", None), ("side", "Side", SIDE)],
    "entry_trades": [(a, b.replace("%s", "Entry Trade"), c) for a, b, c in TRADE] + [("parent_id", "Position Id", None)],
    "exit_trades": [(a, b.replace("%s", "Exit Trade"), c) for a, b, c in TRADE] + [("parent_id", "Position Id", None)],
    "positions": [(a, b.replace("%s", "Position"), c) for a, b, c in TRADE],
    "drawdowns": [("id", "Drawdown Id", None), ("col", "Column", "C"), ("peak_idx", "Peak Timestamp", "T"), ("start_idx", "Start Timestamp", "T"), ("valley_idx", "Valley Timestamp", "T"),
                  ("end_idx", "End Timestamp", "T"), ("peak_val", "Peak Value", None), ("valley_val", "Valley Value", None), ("end_val", "End Value", None), ("status", "Status", DSTAT)],
    "ranges": [("id", "Range Id", None), ("col", "Column", "C"), ("start_idx", "Start Timestamp", "T"), ("end_idx", "End Timestamp", "T"), ("status", "Status", RSTAT)],
}


@st.composite
def readable_case(draw):
    n, m = draw(st.integers(3, 7)), draw(st.integers(1, 3))
    return dict(n=n, m=m, price=draw(price_path(n, m)), size=draw(vec(vec(st.sampled_from([0, 1, 2, -1, -3, 1000]), m), n)), pick=draw(st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True)),
                ik=draw(st.sampled_from(["dates", "ints"])), group=draw(st.booleans()), which=draw(st.sampled_from(sorted(TABLES) + ["logs", "logs"])), direction=draw(st.integers(0, 2)))


def check_readable(case):
    n, m = case["n"], case["m"]
    index = pd.date_range("2021-03-01", periods=n, freq="D") if case["ik"] == "dates" else pd.Index([5 * i + 2 for i in range(n)])
    cols = LABELS[:m]
    close = pd.DataFrame(np.array(case["price"], dtype=float), index=index, columns=cols)
    kw = dict(group_by=True) if case["group"] else {}
    pf = vbt.Portfolio.from_orders(close, np.array(case["size"], dtype=float), fees=0.01, log=True, freq="1D", init_cash=100.0, direction=["longonly", "shortonly", "both"][case["direction"]], **kw)
    which = case["which"]
    o = close.vbt(freq="1D").drawdowns if which == "drawdowns" else (close > close.mean().mean()).vbt(freq="1D").ranges if which == "ranges" else getattr(pf, which)
    if which == "ranges":
        o = vbt.Ranges.from_ts((close > close.mean().mean()), freq="1D")
    picked = [i for i in case["pick"] if i < m]
    if picked and m > 1 and not (case["group"] and which not in ("drawdowns", "ranges")):
        o = o.iloc[picked]
        cols = [cols[i] for i in picked]
    t = o.records_readable
    v = o.values
    if which == "logs":
        need(len(t.columns) == len(v.dtype.names) and list(t.columns)[:4] == ["Log Id", "Group", "Column", "Timestamp"], "readable log columns")
        spec = [(f, LOGMAP[f][0], LOGMAP[f][1]) if f in LOGMAP else (f, None, None) for f in v.dtype.names]
        spec = [(f, title if title else t.columns[i], mp) for i, (f, title, mp) in enumerate(spec)]
        for (f, title, _), c in zip(spec, t.columns):
            need(title == c, "log field %s is titled %r, expected %r" % (f, c, title))
            short = f.replace("req_", "request_").replace("res_", "result_") if f.startswith(("req_", "res_")) else f
            words = short.replace("_", " ").title()
            need(c in (words, {"Col": "Column", "Idx": "Timestamp", "Id": "Log Id", "Request Reject Prob": "Request Rejection Prob", "Request Raise Reject": "Request Raise Rejection"}.get(words, words)),
                 "log field %s is titled %r" % (f, c))
    else:
        spec = TABLES[which]
        need(list(t.columns) == [x[1] for x in spec], "%s: readable columns %s" % (which, list(t.columns)))
    need(len(t) == len(v), "%s: readable rows" % which)
    for f, title, mp in spec:
        raw = v[f]
        got = list(t[title])
        if mp == "C":
            exp = [cols[x] for x in raw]
        elif mp == "T":
            exp = [index[x] for x in raw]
        elif mp is None:
            exp = [float(x) for x in raw]
            got = [float(x) for x in got]
        else:
            exp = [mp[int(x)] for x in raw]
        need(all((pd.isnull(a) and pd.isnull(b)) or a == b for a, b in zip(got, exp)), "%s: %s reads %s, expected %s" % (which, title, got, exp))
    return ["nt", which] if len(v) > 1 else []


FACETS = [
    Facet("sequence", lambda: seq_case(), check_seq, 1600, 60000, "at least two operations on several records in several columns", shards=2),
    Facet("reduce", lambda: reduce_case(), check_reduce, 900, 40000, "several non-empty columns or groups, one with more than two values", shards=2),
    Facet("table", lambda: table_case(), check_table, 1200, 40000, "more than three values in several columns or groups", shards=1),
    Facet("records", lambda: recs_case(), check_recs, 800, 30000, "transformed records of several columns", shards=2),
    Facet("readable", lambda: readable_case(), check_readable, 300, 8000, "several records", shards=1),
]
