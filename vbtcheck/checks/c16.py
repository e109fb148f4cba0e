"""C16: an indicator run over many parameters equals one run per parameter.

Oracle: every indicator's function has a scalar twin working on one column (a list of floats) and one parameter combination; the expected
frame is assembled from it column by column. All values are small integers or quarters, so results are exact."""
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.indicators.factory import Default

from vbtcheck.core import Facet
from vbtcheck.util import need, need_same, weighted

ASSUMPTIONS = [
    "Column order: all input columns for the first parameter combination, then for the next one; with per_column one combination per column.",
    "A parameter passed as Default (or left at its default) is hidden from the labels unless hide_default is False.",
    "Levels of the input columns may be simplified by stacking (unnamed single or range levels); parameter levels are always named.",
]


# ---------------------------------------------------------------- functions under test and their twins

CALLS = []


def py2(a, b, p, q):
    CALLS.append((float(np.max(p)), float(np.max(q))))
    return np.cumsum(a, axis=0) * p + b, a - q * b


def ref2(a, b, p, q):
    o1, s = [], 0.0
    for x, y in zip(a, b):
        s += x
        o1.append(s * p + y)
    return o1, [x - q * y for x, y in zip(a, b)]


@njit
def nb1(a, p):
    out = np.empty_like(a)
    for j in range(a.shape[1]):
        s = 0.0
        for i in range(a.shape[0]):
            s += a[i, j]
            out[i, j] = s * p
    return out


@njit
def nbio(a, io, p, q):
    out = np.empty_like(a)
    for j in range(a.shape[1]):
        s = 0.0
        for i in range(a.shape[0]):
            s += a[i, j] * q
            io[i, j] = io[i, j] + s
            out[i, j] = a[i, j] * p
    return out


def pyio(a, io1, io2, p):
    io1[:] = io1 * p + a
    io2[:] = a - p
    return a * p


def pyio0(a, io1):
    io1[:] = a * 2.0


def parr(a, p, q):
    return a * p + q


def pcache(a, p, lookup):
    return lookup[float(p)] + a * 0.0


def cache_sum(a, ps):
    return {float(p): np.cumsum(a, axis=0) * p for p in ps}


def noin(input_shape, p):
    return np.full(input_shape, p, dtype=float) + np.arange(input_shape[0]).reshape((-1, 1) if len(input_shape) == 2 else (-1,))


def custom1(a, ps, scale=1.0):
    return np.hstack([np.cumsum(a, axis=0) * p * scale for p in ps])


def ptuple(a, p, q):
    return a * p[0] + p[1] + q


def flagged(a, p):
    return a > p, np.where(a > p, 1, np.where(a < p, 0, -1))


def column_aware(col, a, p):
    return a * p + col * 1000.0


F = vbt.IndicatorFactory
ENUM = {1: "up", 0: "down", -1: "same"}
IND = dict(
    py2=F(class_name="Py2", short_name="py2", input_names=["a", "b"], param_names=["p", "q"], output_names=["o1", "o2"]).from_apply_func(py2, q=2.0),
    nb1=F(class_name="Nb1", short_name="nb1", input_names=["a"], param_names=["p"], output_names=["o1"]).from_apply_func(nb1),
    nbio=F(class_name="Nbio", short_name="nbio", input_names=["a"], in_output_names=["io"], param_names=["p", "q"], output_names=["o1"]).from_apply_func(
        nbio, numba_loop=True, io=0.0, q=1.0, in_output_settings=dict(io=dict(dtype=np.float64))),
    pyio=F(class_name="Pyio", short_name="pyio", input_names=["a"], in_output_names=["io1", "io2"], param_names=["p"], output_names=["o1"]).from_apply_func(pyio),
    pyio0=F(class_name="Pyio0", short_name="pyio0", input_names=["a"], in_output_names=["io1"]).from_apply_func(pyio0),
    parr=F(class_name="Parr", short_name="parr", input_names=["a"], param_names=["p", "q"], output_names=["o1"], prepend_name=False).from_apply_func(parr, q=0.0),
    pcache=F(class_name="Pcache", short_name="pcache", input_names=["a"], param_names=["p"], output_names=["o1"]).from_apply_func(pcache, cache_func=cache_sum),
    noin=F(class_name="Noin", short_name="noin", param_names=["p"], output_names=["o1"]).from_apply_func(noin, require_input_shape=True),
    custom1=F(class_name="Custom1", short_name="cust", input_names=["a"], param_names=["p"], output_names=["o1"]).from_custom_func(custom1),
    ptuple=F(class_name="Ptuple", short_name="ptup", input_names=["a"], param_names=["p", "q"], output_names=["o1"]).from_apply_func(
        ptuple, param_settings=dict(p=dict(is_tuple=True), q=dict(dtype={"one": 1.0, "two": 2.0, "ten": 10.0}))),
    flagged=F(class_name="Flagged", short_name="flag", input_names=["a"], param_names=["p"], output_names=["up", "state"],
              attr_settings=dict(up=dict(dtype=np.bool_), state=dict(dtype=ENUM)),
              custom_output_props=dict(twice=lambda self: self.a * 2.0)).from_apply_func(flagged),
    colaware=F(class_name="ColAware", short_name="cola", input_names=["a"], param_names=["p"], output_names=["o1"]).from_apply_func(
        column_aware, per_column=True, pass_col=True),
)


# ---------------------------------------------------------------- cases

PV = weighted((2, 1.0), (2, 2.0), (2, 3.0), (1, 5.0), (1, 0.0), (1, -1.0))


@st.composite
def params(draw, m, per_column, first=None):
    """A scalar or a list of parameter values; `first` is the length to match."""
    if per_column:
        k = draw(st.sampled_from([0, 1, m]))
    elif first:
        k = draw(st.sampled_from([0, 1, first]))
    else:
        k = draw(weighted((1, 0), (1, 1), (2, 2), (3, 3), (1, 4)))
    if k == 0:
        return draw(PV)
    return [draw(PV) for _ in range(k)]


@st.composite
def table(draw):
    n = draw(st.integers(1, 5))
    m = draw(weighted((1, 1), (3, 2), (2, 3)))
    rows = [[float(draw(st.integers(-9, 9))) for _ in range(m)] for _ in range(n)]
    labels = draw(st.sampled_from(["named", "plain", "multi", "range", "text"]))
    return dict(n=n, m=m, rows=rows, labels=labels, series=m == 1 and draw(st.booleans()), np=draw(st.integers(0, 5)) == 0)


def cols_of(t):
    m = t["m"]
    if t["labels"] == "named":
        return pd.Index(["x", "y", "z"][:m], name="asset")
    if t["labels"] == "multi":
        return pd.MultiIndex.from_tuples([("u", "x"), ("u", "y"), ("v", "x")][:m], names=["grp", "asset"])
    if t["labels"] == "text":
        return pd.Index(["x", "y", "z"][:m])
    if t["labels"] == "plain":
        return pd.Index([7, 5, 6][:m], name="asset")
    return pd.RangeIndex(m)


def build(t, rows=None):
    x = np.array(t["rows"] if rows is None else rows, dtype=float).reshape(t["n"], t["m"])
    if t["np"]:
        return x[:, 0] if t["series"] else x
    idx = pd.date_range("2021-03-01", periods=t["n"], freq="D", name="date")
    if t["series"]:
        c = cols_of(t)
        return pd.Series(x[:, 0], index=idx, name=c[0])
    return pd.DataFrame(x, index=idx, columns=cols_of(t))


def is_list(p):
    return isinstance(p, list)


def combos(ps, product, m=None, to_n=None):
    ls = [p if is_list(p) else [p] for p in ps]
    if product and len(ls) > 1:
        ls = [list(t) for t in zip(*itertools.product(*ls))]
    k = to_n if to_n is not None else max(len(l) for l in ls)
    ls = [l * k if len(l) == 1 else l for l in ls]
    return list(zip(*ls))


def columns_of(x, t):
    """Columns of an input after broadcasting: list of lists of floats."""
    y = np.asarray(x, dtype=float)
    if y.ndim == 1:
        y = y[:, None]
    y = np.broadcast_to(y, (t["n"], t["m"]))
    return [list(map(float, y[:, j])) for j in range(t["m"])]


def to_cols(obj):
    y = np.asarray(obj)
    return y[:, None] if y.ndim == 1 else y


def check_frame(name, obj, want_cols, tol=False):
    got = to_cols(obj)
    want = np.array(want_cols, dtype=float).T if len(want_cols) else np.empty((0, 0))
    need(got.shape == want.shape, f"{name}: shape {got.shape}, expected {want.shape}", sig=f"{name}-shape")
    ok = np.isclose(got.astype(float), want, rtol=1e-12, atol=1e-12, equal_nan=True)
    need(bool(ok.all()), f"{name}: {got.tolist()} expected {want.tolist()}", sig=name)


def check_labels(wrapper, t, names, shown, combs, per_column):
    """Levels of shown parameters, in order, followed by the levels of the input columns."""
    columns, m = wrapper.columns, t["m"]
    cin = pd.RangeIndex(m) if t["np"] else cols_of(t)
    pos = [(c, j) for c in range(len(combs)) for j in range(m)] if not per_column else [(j, j) for j in range(m)]
    if not shown:
        # all hidden: the labels are those of the input columns
        if t["series"] and not t["np"]:
            return pos
        need(list(columns) == list(cin), f"labels {list(columns)} expected {list(cin)}", sig="labels-hidden")
        return pos
    lv_names = list(columns.names)
    need(lv_names[:len(shown)] == [names[i] for i in shown], f"levels {lv_names}, parameters {[names[i] for i in shown]}", sig="level-names")
    for k, i in enumerate(shown):
        got = list(columns.get_level_values(k))
        want = [f"tuple_{c}" if isinstance(combs[c][i], tuple) else combs[c][i] for c, _ in pos]
        need(len(got) == len(want) and all(a == b for a, b in zip(got, want)), f"level {names[i]}: {got} expected {want}", sig="level-values")
    if not t["np"] and not t["series"]:
        for ln in cin.names:
            if ln is not None:
                need(ln in lv_names, f"level {ln} is missing in {lv_names}", sig="level-missing")
                got, want = list(columns.get_level_values(ln)), [cin.get_level_values(ln)[j] for _, j in pos]
                need(got == want, f"level {ln}: {got} expected {want}", sig="level-values-input")
        if cin.names == [None] and m > 1 and t["labels"] == "text":
            got, want = list(columns.get_level_values(-1)), [cin[j] for _, j in pos]
            need(got == want, f"last level: {got} expected {want}", sig="level-values-input")
    return pos


# ---------------------------------------------------------------- facet: run

@st.composite
def s_run(draw):
    t = draw(table())
    kind = draw(weighted(*[(w, k) for k, w in dict(py2=5, nb1=2, nbio=2, pyio=3, pyio0=1, parr=3, pcache=2, noin=1, custom1=2, ptuple=2, flagged=2, colaware=1).items()]))
    per_column = kind == "colaware" or (kind not in ("noin",) and draw(st.integers(0, 4)) == 0)
    product = not per_column and draw(st.integers(0, 2)) == 0
    c = dict(t=t, kind=kind, per_column=per_column, product=product, run_unique=draw(st.booleans()), hide_default=draw(st.booleans()),
             short=draw(st.sampled_from([None, "zz"])), raw=draw(st.integers(0, 3)) == 0, keep_pd=draw(st.integers(0, 5)) == 0)
    c["p"] = draw(params(t["m"], per_column))
    first = len(c["p"]) if is_list(c["p"]) and len(c["p"]) > 1 and not product else None
    c["q"] = draw(params(t["m"], per_column, first or (0 if product else None)))
    c["q_mode"] = draw(st.sampled_from(["given", "given", "default", "omit"]))
    c["hide"] = draw(st.sampled_from([None, [], ["p"], ["q"], ["p", "q"]]))
    c["b"] = draw(st.sampled_from(["same", "col", "row", "scalar", "ref"]))
    c["brows"] = [[float(draw(st.integers(-5, 5))) for _ in range(t["m"])] for _ in range(t["n"])]
    c["io"] = draw(st.sampled_from(["none", "frame", "scalar", "one", "two"]))
    c["pm"] = draw(st.sampled_from(["scalar", "rows", "cols", "full"]))
    c["scalar_pm"] = draw(st.booleans())
    return c


def second(c):
    t = c["t"]
    if c["b"] == "same":
        return build(t, c["brows"])
    x = np.array(c["brows"], dtype=float).reshape(t["n"], t["m"])
    if c["b"] == "col" or t["series"] and c["b"] == "row":
        return x[:, 0] if t["series"] else x[:, [0]]
    if c["b"] == "row":
        return x[[0], :]
    return float(x[0, 0])


def check_run(c):
    t, kind, pc = c["t"], c["kind"], c["per_column"]
    ind, m = IND[kind], t["m"]
    A = build(t)
    acols = columns_of(A, t)
    before = np.array(A, copy=True)
    kw, outs, io = {}, {}, {}
    two = kind in ("py2", "nbio", "parr", "ptuple")
    ps = [c["p"], c["q"]] if two else [c["p"]]
    names = ["p", "q"][:len(ps)]
    hidden = set()
    q_default = {"py2": 2.0, "nbio": 1.0, "parr": 0.0}.get(kind)
    q_arg, has_q = None, False
    if two and kind != "ptuple":
        if c["q_mode"] == "omit":
            ps[1] = q_default
            if c["hide_default"]:
                hidden.add(1)
        else:
            has_q = True
            q_arg = Default(ps[1]) if c["q_mode"] == "default" else ps[1]
            if c["q_mode"] == "default" and c["hide_default"]:
                hidden.add(1)
    to_n = m if pc else None
    prefix = None
    if kind == "pyio0":
        combs = [()] * (m if pc else 1)
    elif kind == "ptuple":
        p_in = [(x, x + 1.0) for x in c["p"]] if is_list(c["p"]) else (c["p"], 4.0)
        lab = {1.0: "one", 2.0: "two"}
        qs = c["q"] if is_list(c["q"]) else [c["q"]]
        q_in = [lab.get(x, "ten") for x in qs]
        q_val = [{"one": 1.0, "two": 2.0, "ten": 10.0}[x] for x in q_in]
        if not is_list(c["q"]):
            q_in, q_val = q_in[0], q_val[0]
        ps = [p_in, q_val]
        combs = combos(ps, c["product"], to_n=to_n)
    else:
        combs = combos(ps, c["product"], to_n=to_n)
    if c["hide"] is not None:
        kw["hide_params"] = [h for h in c["hide"] if h in names]
        hidden |= {names.index(h) for h in c["hide"] if h in names}
    kw.update(run_unique=c["run_unique"], hide_default=c["hide_default"], silence_warnings=True)
    if kind != "pyio0":
        kw["param_product"] = c["product"]
    if pc:
        kw["per_column"] = True
    if c["short"]:
        kw["short_name"] = c["short"]
    pos = [(cc, j) for cc in range(len(combs)) for j in range(m)] if not pc else [(j, j) for j in range(m)]
    keep_pd = c["keep_pd"] and kind in ("py2", "pyio", "pyio0", "ptuple")
    if keep_pd:
        kw["keep_pd"] = True
    unlabeled = False

    # call and expectation per kind
    if kind == "py2":
        B = second(c)
        bcols = columns_of(B, t) if c["b"] != "ref" else acols
        args = [A, "a" if c["b"] == "ref" else B, c["p"]]
        if has_q:
            args.append(q_arg)
        r = [ref2(acols[j], bcols[j], *combs[k]) for k, j in pos]
        outs = dict(o1=[x[0] for x in r], o2=[x[1] for x in r], a=[acols[j] for _, j in pos], b=[bcols[j] for _, j in pos])
    elif kind == "nb1":
        args = [A, c["p"]]
        outs = dict(o1=[[x * combs[k][0] for x in itertools.accumulate(acols[j])] for k, j in pos], a=[acols[j] for _, j in pos])
    elif kind == "nbio":
        args = [A, c["p"]]
        if has_q:
            kw["q"] = q_arg
        init = 0.0
        iocols = [[0.0] * t["n"] for _ in range(m)]
        if c["io"] in ("frame", "one", "two"):
            io_in = build(t, c["brows"])
            iocols = columns_of(io_in, t)
            kw["io"] = io_in
        elif c["io"] == "scalar":
            kw["io"] = 7.0
            iocols = [[7.0] * t["n"] for _ in range(m)]
        outs = dict(o1=[[x * combs[k][0] for x in acols[j]] for k, j in pos],
                    io=[[y + s for y, s in zip(iocols[j], itertools.accumulate(x * combs[k][1] for x in acols[j]))] for k, j in pos])
    elif kind == "pyio":
        args = [A, c["p"]]
        io_in = build(t, c["brows"])
        if c["io"] == "one":
            kw["io1"] = io_in
        else:
            # both, in place of an unknown start
            kw["io1"] = 3.0 if c["io"] == "scalar" else io_in
            if c["io"] == "two":
                kw["io2"] = 1.0
        iocols = columns_of(3.0 if c["io"] == "scalar" else io_in, t)
        outs = dict(o1=[[x * combs[k][0] for x in acols[j]] for k, j in pos],
                    io1=[[y * combs[k][0] + x for x, y in zip(acols[j], iocols[j])] for k, j in pos],
                    io2=[[x - combs[k][0] for x in acols[j]] for k, j in pos])
    elif kind == "pyio0":
        args = [A]
        names, unlabeled = [], True
        kw.pop("run_unique")
        kw.pop("hide_params", None)
        if c["io"] == "frame":
            kw["io1"] = "a"
        outs = dict(io1=[[2.0 * x for x in acols[j]] for _, j in pos])
    elif kind == "parr":
        # p: array-like, broadcast against the input
        x = np.array(c["brows"], dtype=float).reshape(t["n"], m)
        pm = "scalar" if pc else c["pm"]
        kset = {"rows": 0, "cols": 1, "full": True}.get(pm)
        if pm == "scalar" or (pm == "cols" and c["t"]["series"]):
            args = [A, c["p"]]
            pvals = None
        else:
            base = {"rows": x[:, 0], "cols": x[0, :], "full": x[0, :] if not t["series"] else x[:, 0]}[pm]
            lst = c["p"] if is_list(c["p"]) else [c["p"]]
            p_in = [base + v for v in lst[:-1]] + [lst[-1]] if c["scalar_pm"] else [base + v for v in lst]
            full = []
            for v in p_in:
                v = np.asarray(v, dtype=float)
                if v.ndim == 1 and pm == "rows":
                    v = v[:, None]
                elif v.ndim == 1 and pm == "full" and t["series"]:
                    v = v[:, None]
                full.append(np.broadcast_to(v, (t["n"], m)))
            kw["param_settings"] = dict(p=dict(is_array_like=True, bc_to_input=kset))
            if pm == "rows":
                # a vector of rows cannot act on the 2-dim input directly: pass it as a full array of one column
                p_in = [np.asarray(v)[:, None] if np.ndim(v) and not t["series"] else v for v in p_in]
                kw["param_settings"]["p"]["bc_to_input"] = True
            if pm == "cols":
                kw["param_settings"]["p"]["per_column"] = True
            args = [A, p_in if (len(p_in) > 1 or is_list(c["p"])) else p_in[0]]
            combs = combos([list(range(len(p_in))), ps[1]], c["product"], to_n=to_n)
            pos = [(cc, j) for cc in range(len(combs)) for j in range(m)]
            pvals = full
        if has_q:
            kw["q"] = q_arg
        if pvals is None:
            outs = dict(o1=[[x * combs[k][0] + combs[k][1] for x in acols[j]] for k, j in pos])
        else:
            outs = dict(o1=[[x * pvals[combs[k][0]][i, j] + combs[k][1] for i, x in enumerate(acols[j])] for k, j in pos])
            if pm == "cols":
                # one label per column
                labs = [[float(pvals[combs[k][0]][0, j]) for k, j in pos], [combs[k][1] for k, j in pos]]
            else:
                labs = None
    elif kind == "pcache":
        args = [A, c["p"]]
        outs = dict(o1=[[x * combs[k][0] for x in itertools.accumulate(acols[j])] for k, j in pos])
        if c["raw"]:
            cache = ind.run(*args, return_cache=True, **{k: v for k, v in kw.items() if k not in ("hide_params", "hide_default", "short_name", "run_unique")})
            kw["use_cache"] = cache
    elif kind == "noin":
        shape = (t["n"],) if t["series"] else (t["n"], m)
        args = [shape, c["p"]]
        if not t["np"] and not t["series"]:
            kw.update(input_columns=cols_of(t))
        outs = dict(o1=[[combs[k][0] + i for i in range(t["n"])] for k, j in pos])
    elif kind == "custom1":
        args = [A, c["p"]]
        if c["scalar_pm"]:
            kw["scale"] = 3.0
        outs = dict(o1=[[x * combs[k][0] * (3.0 if c["scalar_pm"] else 1.0) for x in itertools.accumulate(acols[j])] for k, j in pos])
    elif kind == "ptuple":
        args = [A, p_in, q_in]
        outs = dict(o1=[[x * combs[k][0][0] + combs[k][0][1] + combs[k][1] for x in acols[j]] for k, j in pos])
    elif kind == "flagged":
        args = [A, c["p"]]
        outs = dict(up=[[x > combs[k][0] for x in acols[j]] for k, j in pos],
                    state=[[1 if x > combs[k][0] else 0 if x < combs[k][0] else -1 for x in acols[j]] for k, j in pos],
                    twice=[[2.0 * x for x in acols[j]] for _, j in pos])
    else:
        args = [A, c["p"]]
        kw.pop("per_column")
        outs = dict(o1=[[x * combs[k][0] + 1000.0 * j for x in acols[j]] for k, j in pos])

    shown = [i for i in range(len(names)) if i not in hidden]
    if not shown and names and len(combs) > 1 and not pc:
        return []  # nothing left to tell the columns apart: refused by design
    del CALLS[:]
    res = ind.run(*args, **kw)
    calls = list(CALLS)
    need(np.array_equal(np.asarray(A), before), "an input was changed by running the indicator", sig="input-changed")

    # labels
    if kind == "parr":
        prefix = ""
    else:
        prefix = (c["short"] or SHORT[kind]) + "_"
    full_names = [prefix + x for x in names]
    if kind == "parr" and "param_settings" in kw:
        if labs is not None:
            lv = list(res.wrapper.columns.names)
            need(lv[:len(shown)] == [full_names[i] for i in shown], f"levels {lv}", sig="level-names")
            for k, i in enumerate(shown):
                got = list(res.wrapper.columns.get_level_values(k))
                need(got == labs[i], f"level {full_names[i]}: {got} expected {labs[i]}", sig="level-values")
    elif not unlabeled:
        tt = dict(t, np=t["np"] or (kind == "noin" and t["series"]))
        check_labels(res.wrapper, tt, full_names, shown, combs, pc)
    for name, want in outs.items():
        check_frame(name, getattr(res, name), want)
        need(getattr(res, name).shape[0] == t["n"], f"{name}: rows", sig="rows")
    if not t["np"] and kind != "noin":
        need(res.wrapper.index.equals(A.index), "index changed", sig="index")
    for i, nm in enumerate(names):
        if kind == "parr" and "param_settings" in kw and i == 0:
            continue
        got = list(getattr(res, f"{nm}_list"))
        need(got == [x[i] for x in combs], f"{nm}_list {got} expected {[x[i] for x in combs]}", sig="param-list")
    if kind == "py2" and not pc:
        seen = list(dict.fromkeys(combs)) if c["run_unique"] else combs
        need(calls == [tuple(map(float, x)) for x in seen], f"function called with {calls}, expected {seen}", sig="calls")
    if kind == "flagged":
        got = to_cols(res.state_readable).T.tolist()
        need(got == [[ENUM[int(v)] for v in col] for col in outs["state"]], f"readable state {got}", sig="readable")
        need(res.up.dtypes.iloc[0] == bool if res.up.ndim == 2 else res.up.dtype == bool, "boolean output lost its type", sig="bool-dtype")

    # the same run through raw outputs
    if c["raw"] and kind in ("py2", "nb1", "nbio", "custom1") and not pc:
        rk = {k: v for k, v in kw.items() if k not in ("short_name", "hide_params")}
        raw = ind.run(*args, return_raw=True, **rk)
        res2 = ind.run(*args, use_raw=raw, **kw)
        need(res2.wrapper.columns.equals(res.wrapper.columns), "labels differ when raw outputs are reused", sig="raw-labels")
        for name in ind.output_names + ind.in_output_names:
            need_same(np.asarray(getattr(res2, name)), np.asarray(getattr(res, name)), f"{name} from raw outputs", sig="raw")
    return (["nt"] if len(combs) >= 2 and m >= 2 else []) + [kind] + ["per_column"] * pc + ["product"] * c["product"]


SHORT = dict(py2="py2", nb1="nb1", nbio="nbio", pyio="pyio", pyio0="pyio0", parr="parr", pcache="pcache", noin="noin", custom1="cust", ptuple="ptup",
             flagged="flag", colaware="cola")


# ---------------------------------------------------------------- facet: combs

@st.composite
def s_combs(draw):
    t = draw(table())
    pc = draw(st.integers(0, 5)) == 0
    product = not pc and draw(st.integers(0, 2)) == 0
    fn = draw(st.sampled_from(["combinations", "combinations", "permutations", "product", "combinations_with_replacement"]))
    k = draw(st.integers(1, 3))
    p = [draw(PV) for _ in range(k)]
    q = draw(PV) if draw(st.booleans()) or pc else [draw(PV) for _ in range(draw(st.sampled_from([1, k, k])) if not product else draw(st.integers(1, 2)))]
    return dict(t=t, per_column=pc, product=product, fn=fn, r=draw(st.sampled_from([1, 2, 2, 3])), p=p, q=q, q_mode=draw(st.sampled_from(["given", "default", "omit"])),
                unique=draw(st.booleans()), hide_default=draw(st.booleans()), hide=draw(st.sampled_from([None, [], ["p"]])), names=draw(st.booleans()),
                kind=draw(st.sampled_from(["py2", "py2", "nbio", "parr"])), brows=[[float(draw(st.integers(-5, 5))) for _ in range(t["m"])] for _ in range(t["n"])],
                again=draw(st.booleans()), use_kw=draw(st.booleans()), arr=draw(st.booleans()))


def check_combs(c):
    t, kind, pc = c["t"], c["kind"], c["per_column"]
    ind, m = IND[kind], t["m"]
    A, B = build(t), build(t, c["brows"])
    acols, bcols = columns_of(A, t), columns_of(B, t)
    q_default = {"py2": 2.0, "nbio": 1.0, "parr": 0.0}[kind]
    q = q_default if c["q_mode"] == "omit" else c["q"]
    arrays = kind == "parr" and c["arr"] and not pc
    p = c["p"]
    ids = list(range(len(p))) if arrays else p
    tuples = combos([ids, q], c["product"])
    fn = getattr(itertools, c["fn"])
    groups = list(fn(tuples, repeat=c["r"]) if c["fn"] == "product" else fn(tuples, c["r"]))
    kw = dict(r=c["r"], param_product=c["product"], comb_func=fn, run_unique=c["unique"], hide_default=c["hide_default"], silence_warnings=True)
    hide = None if c["hide"] is None else list(c["hide"])
    if hide is not None:
        kw["hide_params"] = hide
    if pc:
        kw["per_column"] = True
    shorts = [f"s{i}" for i in range(c["r"])] if c["names"] else [f"{SHORT[kind]}_{i + 1}" for i in range(c["r"])]
    if c["names"]:
        kw["short_names"] = shorts
    if arrays:
        base = np.array(c["brows"], dtype=float).reshape(t["n"], m)
        p_in = [(base[:, 0] if t["series"] else base) * v for v in p]
        kw["param_settings"] = dict(p=dict(is_array_like=True, bc_to_input=True))
    else:
        p_in = p
    args = [A, B, p_in] if kind == "py2" else [A, p_in]
    if c["q_mode"] != "omit":
        kw["q"] = Default(q) if c["q_mode"] == "default" else q
    hidden = set()
    if c["hide_default"] and c["q_mode"] in ("default", "omit"):
        hidden.add(1)
    if c["hide"]:
        hidden.add(0)
    if pc and len(groups) not in (1, m):
        return []
    if not groups or (len(hidden) == 2 and len(groups) > 1 and not pc):
        return []
    insts = ind.run_combs(*args, **kw)
    if hide is not None:
        need(hide == c["hide"], f"hide_params passed by the caller became {hide}", sig="hide-mutated")
    need(len(insts) == c["r"], f"{len(insts)} instances instead of {c['r']}", sig="n-instances")
    for i, inst in enumerate(insts):
        combs = [g[i] for g in groups]
        if pc and len(combs) == 1:
            combs = combs * m
        pos = [(k, j) for k in range(len(combs)) for j in range(m)] if not pc else [(j, j) for j in range(m)]
        full = [shorts[i] + "_p", shorts[i] + "_q"] if kind != "parr" else ["p", "q"]
        shown = [x for x in (0, 1) if x not in hidden]
        if not arrays:
            check_labels(inst.wrapper, t, full, shown, combs, pc)
        if kind == "py2":
            r = [ref2(acols[j], bcols[j], *combs[k]) for k, j in pos]
            check_frame("o1", inst.o1, [x[0] for x in r])
            check_frame("o2", inst.o2, [x[1] for x in r])
            check_frame("b", inst.b, [bcols[j] for _, j in pos])
        elif kind == "nbio":
            check_frame("o1", inst.o1, [[x * combs[k][0] for x in acols[j]] for k, j in pos])
            check_frame("io", inst.io, [list(itertools.accumulate(x * combs[k][1] for x in acols[j])) for k, j in pos])
        else:
            val = lambda k, i_, j: c["brows"][i_][j] * p[combs[k][0]] if arrays else combs[k][0]
            check_frame("o1", inst.o1, [[x * val(k, i_, j) + combs[k][1] for i_, x in enumerate(acols[j])] for k, j in pos])
    if c["again"]:
        # running combinations must not influence a later run
        r = ind.run(*args[:-1], p[0], q=q_default)
        pre = "" if kind == "parr" else SHORT[kind] + "_"
        need(list(r.wrapper.columns.names)[:2] == [pre + "p", pre + "q"], f"levels of a later run: {list(r.wrapper.columns.names)}", sig="later-run")
    return (["nt"] if len(groups) >= 2 else []) + [kind, c["fn"]] + ["per_column"] * pc


# ---------------------------------------------------------------- facet: select

@st.composite
def s_select(draw):
    t = draw(table())
    t["np"], t["n"] = False, max(t["n"], 2)
    while len(t["rows"]) < t["n"]:
        t["rows"].append([x + 1.0 for x in t["rows"][-1]])
    k = draw(st.integers(1, 4))
    c = dict(t=t, hide=draw(st.sampled_from([None, None, "q", "p"])), p=[draw(PV) for _ in range(k)], q=[draw(PV) for _ in range(k)], qbool=draw(st.integers(0, 3)) == 0,
             kind=draw(st.sampled_from(["py2", "py2", "nbio", "flagged", "ptuple"])),
             brows=[[float(draw(st.integers(-5, 5))) for _ in range(t["m"])] for _ in range(t["n"])], io=draw(st.booleans()))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops.append((draw(st.sampled_from(["p", "p", "q", "tuple", "plist", "qlist", "tlist", "rows", "iloc", "cols", "col", "rowcol", "mask"])),
                    [draw(st.integers(0, 11)) for _ in range(4)]))
    c["ops"] = ops
    return c


def check_select(c):
    t, kind = c["t"], c["kind"]
    A = build(t)
    ind = IND[kind]
    two = kind in ("py2", "nbio", "ptuple")
    qv = [bool(x > 1.0) for x in c["q"]] if c["qbool"] else c["q"]
    if kind == "py2":
        res = ind.run(A, build(t, c["brows"]), c["p"], qv, hide_params=[c["hide"]] if c["hide"] else None)
        attrs = ["a", "b", "o1", "o2"]
    elif kind == "nbio":
        res = ind.run(A, c["p"], q=c["q"], io=build(t, c["brows"]) if c["io"] else 0.0)
        attrs = ["a", "io", "o1"]
    elif kind == "ptuple":
        res = ind.run(A, [(x, 1.0) for x in c["p"]], ["one"] * len(c["p"]))
        attrs = ["a", "o1"]
    else:
        res = ind.run(A, c["p"])
        attrs = ["a", "up", "state", "twice"]
    full = {x: to_cols(getattr(res, x)) for x in attrs}
    if kind == "py2":
        c = dict(c, q=qv)
    m = t["m"]
    # a tuple parameter is identified by its position
    combs = list(zip([f"tuple_{i}" for i in range(len(c["p"]))] if kind == "ptuple" else c["p"], c["q"] if kind != "ptuple" else [1.0] * len(c["p"])))
    colmap = [(combs[k], j) for k in range(len(combs)) for j in range(m)]
    short = SHORT[kind]
    lev = [short + "_p", short + "_q"]
    rows, cols = list(range(t["n"])), list(range(len(colmap)))
    labels_full = res.wrapper.columns
    cur, applied, dim1 = res, 0, False
    for op, v in c["ops"]:
        if op in ("q", "qlist", "tuple", "tlist") and not two:
            continue
        is1 = cur.wrapper.ndim == 1
        if is1 and op not in ("rows",):
            continue
        if op == "rows":
            lo = v[0] % len(rows)
            hi = lo + 2 + v[1] % 4
            sel = list(range(lo, min(hi, len(rows))))
            if len(sel) < 2:
                continue
            cur, rows = (cur.iloc[lo:hi] if v[2] % 2 or is1 else cur.loc[cur.wrapper.index[sel[0]]:cur.wrapper.index[sel[-1]]]), [rows[i] for i in sel]
        elif op in ("p", "q", "tuple"):
            key = colmap[cols[v[0] % len(cols)]][0]
            key_ = {"p": key[0], "q": key[1], "tuple": key}[op]
            loc = getattr(cur, {"p": "p_loc", "q": "q_loc", "tuple": "tuple_loc"}[op])
            keep = [x for x in cols if {"p": colmap[x][0][0], "q": colmap[x][0][1], "tuple": colmap[x][0]}[op] == key_]
            cur, cols = loc[key_], keep
        elif op in ("plist", "qlist", "tlist"):
            ii = {"plist": 0, "qlist": 1}.get(op)
            get = (lambda x: colmap[x][0]) if ii is None else (lambda x: colmap[x][0][ii])
            keys = list(dict.fromkeys(get(cols[u % len(cols)]) for u in v[:1 + v[3] % 3]))
            loc = getattr(cur, {"plist": "p_loc", "qlist": "q_loc", "tlist": "tuple_loc"}[op])
            cur, cols = loc[keys], [x for k_ in keys for x in cols if get(x) == k_]
        elif op == "iloc":
            sel = list(dict.fromkeys(u % len(cols) for u in v[:1 + v[3] % 4]))
            cur, cols = cur.iloc[:, sel], [cols[i] for i in sel]
        elif op == "rowcol":
            if len(rows) < 3:
                continue
            sel = list(dict.fromkeys(u % len(cols) for u in v[:1 + v[3] % 4]))
            cur, cols, rows = cur.iloc[1:, sel], [cols[i] for i in sel], rows[1:]
        elif op == "mask":
            mask = [bool((u + i) % 2) for i, u in enumerate((v * 12)[:len(cols)])]
            if not any(mask):
                continue
            cur, cols = cur.loc[:, np.array(mask)], [x for x, b in zip(cols, mask) if b]
        elif op == "cols":
            lo = v[0] % len(cols)
            cur, cols = cur.iloc[:, lo:], cols[lo:]
        else:
            i = v[0] % len(cols)
            cur, cols = cur.iloc[:, i], [cols[i]]
        applied += 1
        need(cur.wrapper.shape_2d == (len(rows), len(cols)), f"after {op}: shape {cur.wrapper.shape_2d}, expected {(len(rows), len(cols))}", sig=f"select-{op}-shape")
        for x in attrs:
            got = to_cols(getattr(cur, x))
            want = full[x][rows, :][:, cols]
            need(got.shape == want.shape and bool(np.array_equal(got, want)), f"after {op}: {x} = {got.tolist()} expected {want.tolist()}", sig=f"select-{x}")
        need(list(cur.wrapper.index) == [A.index[i] for i in rows], f"after {op}: index {list(cur.wrapper.index)}", sig="select-index")
        pm = list(cur._p_mapper)
        need(len(pm) == len(cols) and all(a == colmap[x][0][0] for a, x in zip(pm, cols)), f"after {op}: parameters {pm}", sig="select-mapper")
        if two and kind != "ptuple":
            qm = list(cur._q_mapper)
            need(len(qm) == len(cols) and all(a == colmap[x][0][1] for a, x in zip(qm, cols)), f"after {op}: parameters {qm}", sig="select-mapper")
        if cur.wrapper.ndim == 2:
            for ln in cur.wrapper.columns.names:
                if ln is not None and ln in labels_full.names:
                    got, want = list(cur.wrapper.columns.get_level_values(ln)), [labels_full.get_level_values(ln)[x] for x in cols]
                    need(got == want, f"after {op}: level {ln} {got} expected {want}", sig="select-labels")
            if op in ("p", "q") and isinstance(cur.wrapper.columns, pd.MultiIndex):
                need(lev[0 if op == "p" else 1] not in cur.wrapper.columns.names, f"level of the selected {op} is still there", sig="select-drop")
    return (["nt"] if applied >= 2 and len(combs) >= 2 else []) + [kind] + [o for o, _ in c["ops"]]


# ---------------------------------------------------------------- facet: compare

@st.composite
def s_compare(draw):
    t = draw(table())
    t["np"] = False
    c = dict(t=t, p=[draw(PV) for _ in range(draw(st.integers(1, 3)))], attr=draw(st.sampled_from(["o1", "o2", "a"])),
             fn=draw(st.sampled_from(["above", "below", "equal", "crossed_above", "crossed_below"])),
             other=draw(st.sampled_from(["scalar", "list", "array", "frame", "self", "inst", "insts", "col"])), x=[float(draw(st.integers(-9, 9))) for _ in range(3)],
             brows=[[float(draw(st.integers(-5, 5))) for _ in range(t["m"])] for _ in range(t["n"])], wait=draw(st.integers(0, 2)), level=draw(st.booleans()),
             logic=draw(st.sampled_from([None, "and", "or", "xor"])), p2=draw(PV))
    return c


def cross(x, y, wait):
    """Crossing above: the bar on which x has been above y for `wait` more bars, given that x was below y some time before."""
    out, below, run = [], False, 0
    for a, b in zip(x, y):
        below |= a < b
        run = run + 1 if a > b else 0
        out.append(below and run == wait + 1)
    return out


def check_compare(c):
    t = c["t"]
    m, n = t["m"], t["n"]
    A, B = build(t), build(t, c["brows"])
    if c["logic"]:
        ind = IND["flagged"]
        res, oth = ind.run(A, c["p"]), ind.run(A, c["p2"])
        x, y = to_cols(res.up), to_cols(oth.up)
        other = {"scalar": c["x"][0] > 0, "list": [c["x"][0] > 0, c["x"][1] > 0]}.get(c["other"])
        y = np.tile(y, (1, x.shape[1] // y.shape[1]))
        f = {"and": np.logical_and, "or": np.logical_or, "xor": np.logical_xor}[c["logic"]]
        if other is None:
            same = ind.run(A, [c["p2"]] * len(c["p"]))
            got = getattr(res, "up_" + c["logic"])(same.up.values)
            want = f(x, y)
        elif isinstance(other, bool):
            got, want = getattr(res, "up_" + c["logic"])(other), f(x, other)
        else:
            if other[0] == other[1]:
                other = [True, False]
            got, want = getattr(res, "up_" + c["logic"])(other), np.hstack([f(x, o) for o in other])
        g = to_cols(got)
        need(g.shape == want.shape and bool(np.array_equal(g, want)), f"{c['logic']}: {g.tolist()} expected {want.tolist()}", sig="logic")
        return (["nt"] if len(c["p"]) >= 2 else []) + ["logic"]
    ind = IND["py2"]
    res = ind.run(A, B, c["p"], 2.0)
    x = to_cols(getattr(res, c["attr"])).astype(float)
    k = c["other"]
    lists = None
    if k == "scalar":
        other, ys = c["x"][0], [np.full(x.shape, c["x"][0])]
    elif k == "list":
        vals = list(dict.fromkeys(c["x"]))
        other, ys, lists = vals, [np.full(x.shape, v) for v in vals], vals
    elif k == "array":
        arr = np.array([[float((i * 7 + j * 5) % 11 - 5) for j in range(x.shape[1])] for i in range(n)])
        other, ys = (arr if not (getattr(res, c["attr"]).ndim == 1) else arr[:, 0]), [arr]
    elif k == "col":
        col = np.array([[float((i * 7) % 11 - 5)] for i in range(n)])
        other, ys = (col if getattr(res, c["attr"]).ndim == 2 else col[:, 0]), [np.broadcast_to(col, x.shape)]
    elif k == "frame":
        other = getattr(res, c["attr"]) * -1.0
        ys = [-x]
    elif k == "self":
        other, ys = getattr(res, "a"), [to_cols(res.a).astype(float)]
    else:
        sec = ind.run(A, B, [v + 1.0 for v in c["p"]], 2.0, short_name="py2")
        other = sec
        ys = [to_cols(getattr(sec, c["attr"])).astype(float)]
        if not np.array_equal(sec.wrapper.columns, res.wrapper.columns):
            other = getattr(sec, c["attr"]).values
        if k == "insts":
            other, ys = [other, res], [ys[0], x]
            lists = "any"
    kw = {}
    if c["fn"].startswith("crossed"):
        kw["wait"] = c["wait"]
    if c["level"]:
        kw["level_name"] = "mylevel"
    got = getattr(res, f"{c['attr']}_{c['fn']}")(other, **kw)
    want = []
    for y in ys:
        if c["fn"] == "crossed_above":
            want.append(np.array([cross(x[:, j], y[:, j], c["wait"]) for j in range(x.shape[1])]).T.reshape(x.shape))
        elif c["fn"] == "crossed_below":
            want.append(np.array([cross(y[:, j], x[:, j], c["wait"]) for j in range(x.shape[1])]).T.reshape(x.shape))
        else:
            want.append({"above": x > y, "below": x < y, "equal": x == y}[c["fn"]])
    want = np.hstack(want)
    g = to_cols(got)
    need(g.shape == want.shape and bool(np.array_equal(g, want)), f"{c['attr']}_{c['fn']}({k}): {g.tolist()} expected {want.tolist()}", sig=f"compare-{c['fn']}")
    need(got.index.equals(A.index), "index changed", sig="compare-index")
    if lists is not None and len(ys) > 1:
        names = list(got.columns.names)
        lname = "mylevel" if c["level"] else f"py2_{c['attr']}_{c['fn']}"
        need(names[0] == lname, f"first level {names[0]!r}, expected {lname!r}", sig="compare-level")
        if isinstance(lists, list):
            gotv, wantv = list(got.columns.get_level_values(0)), [v for v in lists for _ in range(x.shape[1])]
            need(gotv == wantv, f"first level {gotv} expected {wantv}", sig="compare-level-values")
        if getattr(res, c["attr"]).ndim == 1:
            return ["nt"] if n >= 3 else []  # a Series keeps its label but not the level names
        need("py2_p" in names, f"parameter level lost: {names}", sig="compare-levels")
        gotp, wantp = list(got.columns.get_level_values("py2_p")), list(res.wrapper.columns.get_level_values("py2_p")) * len(ys)
        if k == "list":
            need(gotp == wantp, f"parameter level {gotp} expected {wantp}", sig="compare-levels")
    elif lists is None and k in ("scalar", "array", "col", "frame"):
        obj = getattr(res, c["attr"])
        if obj.ndim == 2:
            need(got.columns.equals(obj.columns), f"columns {got.columns} expected {obj.columns}", sig="compare-columns")
    return (["nt"] if len(c["p"]) >= 2 and n >= 3 else []) + [k, c["fn"]]


FACETS = [
    Facet("run", s_run, check_run, 500, 8000, "several parameter combinations over several input columns", shards=3, tshards=4),
    Facet("combs", s_combs, check_combs, 250, 4000, "several combinations of parameter tuples", shards=2, tshards=2),
    Facet("select", s_select, check_select, 300, 5000, "at least two selections applied to several combinations", shards=2, tshards=2),
    Facet("compare", s_compare, check_compare, 300, 5000, "several parameters over at least three rows", shards=1, tshards=2),
]
