"""C09: drawdown and range records describe the series exactly."""
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.generic.enums import range_dt
from vectorbt.generic.ranges import Ranges

from vbtcheck import pfgen as G
from vbtcheck.core import Facet
from vbtcheck.util import NAN, arr, fl, matrix, need, weighted

ASSUMPTIONS = ["An active drawdown whose last values are missing ends at the last bar with the last known value."]


def labels(case):
    n, m = case["n"], case["m"]
    index = pd.date_range("2020-01-01", periods=n, freq="D") if case["dates"] else pd.RangeIndex(n)
    return index, pd.Index(list("abcdefgh"[:m]))


def obj_of(case, values):
    index, columns = labels(case)
    if case["series"]:
        return pd.Series(values[:, 0], index=index, name="a")
    return pd.DataFrame(values, index=index, columns=columns)


def dd_ref(col):
    """Drawdowns of one column (list with NaN)."""
    n = len(col)
    pts = [(i, v) for i, v in enumerate(col) if not math.isnan(v)]
    out = []
    k = 1
    while k < len(pts):
        peak = max(v for _, v in pts[:k])
        if pts[k][1] >= peak:
            k += 1
            continue
        b = k
        while b + 1 < len(pts) and pts[b + 1][1] < peak:
            b += 1
        run = pts[k:b + 1]
        low = min(v for _, v in run)
        vi = next(i for i, v in run if v == low)
        active = b + 1 == len(pts)
        out.append(dict(peak_idx=pts[k - 1][0], start_idx=pts[k - 1][0] + 1, valley_idx=vi,
                        end_idx=n - 1 if active else pts[b + 1][0], peak_val=peak, valley_val=low,
                        end_val=run[-1][1] if active else pts[b + 1][1], status=0 if active else 1))
        k = b + 1
    return out


def cmp_recs(got, want, fields, what):
    need(len(got) == len(want), "%s: %s, expected %s" % (what, got.tolist(), want))
    need(got["id"].tolist() == list(range(len(want))), "%s: ids %s" % (what, got["id"].tolist()))
    for f in fields:
        g, w = got[f].astype(float), np.array([r[f] for r in want], dtype=float)
        need(bool(np.all(np.isclose(g, w, rtol=1e-12, atol=0, equal_nan=True))),
             "%s: field %s is %s, expected %s" % (what, f, g.tolist(), w.tolist()))


def td(x, step):
    """Timedelta results in units of bars."""
    x = np.atleast_1d(np.asarray(x))
    if x.dtype.kind == "m" or x.dtype == object:
        return np.array([NAN if pd.isnull(v) else pd.Timedelta(v) / step for v in x])
    return x.astype(float)


def chk(got, want, what):
    g, w = np.atleast_1d(np.asarray(got, float)), np.asarray(want, float)
    with np.errstate(all="ignore"):
        ok = g.shape == w.shape and np.isclose(g, w, rtol=1e-7, atol=1e-9, equal_nan=True).all()
    need(bool(ok), "%s: got %s, expected %s" % (what, g.tolist(), w.tolist()))


def groups_of(case, lens, m):
    lens = lens or [1] * m
    out, k = [], 0
    for x in lens:
        out.append(list(range(k, k + x)))
        k += x
    return out


def check_range_views(rg, want, case, n, m, what, group_lens, group_by, check_norm=True):
    """Duration, mask and coverage of range-like records."""
    step = pd.Timedelta("1D")
    index = labels(case)[0]
    kw = dict(group_by=group_by)
    dur = [r["end_idx"] - r["start_idx"] + (1 if r["status"] == 0 else 0) for r in want]
    need(rg.duration.values.tolist() == dur, "%s.duration %s, expected %s" % (what, rg.duration.values.tolist(), dur))
    grps = groups_of(case, group_lens, m)

    def per(f):
        return [f([(r, d) for r, d in zip(want, dur) if r["col"] in g]) for g in grps]

    chk(td(rg.avg_duration(**kw), step), per(lambda x: np.mean([d for _, d in x]) if x else NAN), what + ".avg_duration")
    chk(td(rg.max_duration(**kw), step), per(lambda x: max(d for _, d in x) if x else NAN), what + ".max_duration")
    chk(rg.count(**kw), per(len), what + ".count")

    def cover(x):
        c = np.zeros(n, dtype=int)
        for r, d in x:
            c[r["start_idx"]:r["start_idx"] + d] += 1
        return c

    mask = np.stack([cover([(r, d) for r, d in zip(want, dur) if r["col"] in g]) > 0 for g in grps], axis=1)
    got = rg.to_mask(**kw)
    need(list(got.index) == list(index), what + ".to_mask index")
    g = np.asarray(got)
    need(g.dtype == bool and g.reshape(mask.shape).tolist() == mask.tolist(), "%s.to_mask: %s, expected %s" % (
        what, g.tolist(), mask.tolist()))
    chk(rg.coverage(normalize=False, **kw), per(lambda x: (cover(x) > 0).sum() if x else NAN), what + ".coverage")
    chk(rg.coverage(normalize=False, overlapping=True, **kw), per(lambda x: (cover(x) > 1).sum() if x else NAN),
        what + ".coverage(overlapping)")
    if group_lens is None:
        chk(rg.coverage(**kw), per(lambda x: (cover(x) > 0).mean() if x else NAN), what + ".coverage(normalize)")

        def ov(x):
            if not x:
                return NAN
            c = cover(x)
            return (c > 1).sum() / (c > 0).sum() if (c > 0).any() else NAN
        chk(rg.coverage(overlapping=True, **kw), per(ov), what + ".coverage(overlapping, normalize)")


def check_drawdowns(case):
    n, m = case["n"], case["m"]
    vals = arr(case["v"])
    ts = obj_of(case, vals)
    before = vals.copy()
    gb = pd.Index(G.group_by_of(case["group"])) if case["group"] else None
    wk = dict(freq="1D")
    if gb is not None:
        wk["group_by"] = gb
    if case["accessor"]:
        dd = ts.vbt.get_drawdowns(wrapper_kwargs=wk) if gb is not None else ts.vbt(freq="1D").drawdowns
    else:
        dd = Drawdowns.from_ts(ts, wrapper_kwargs=wk)
    want = []
    for j in range(m):
        for r in dd_ref(vals[:, j].tolist()):
            want.append(dict(r, col=j))
    F = ["col", "peak_idx", "start_idx", "valley_idx", "end_idx", "peak_val", "valley_val", "end_val", "status"]
    cmp_recs(dd.values, want, F, "drawdowns")
    act = [r for r in want if r["status"] == 0]
    rec = [r for r in want if r["status"] == 1]
    need(dd.active.values["id"].tolist() == [k for k, r in enumerate(want) if r["status"] == 0], "active view")
    need(dd.recovered.values["id"].tolist() == [k for k, r in enumerate(want) if r["status"] == 1], "recovered view")
    per_rec = dict(
        drawdown=[(r["valley_val"] - r["peak_val"]) / r["peak_val"] for r in want],
        recovery_return=[(r["end_val"] - r["valley_val"]) / r["valley_val"] for r in want],
        decline_duration=[r["valley_idx"] - r["start_idx"] + 1 for r in want],
        recovery_duration=[r["end_idx"] - r["valley_idx"] for r in want])
    per_rec["recovery_duration_ratio"] = [a / b for a, b in zip(per_rec["recovery_duration"], per_rec["decline_duration"])]
    for k, w in per_rec.items():
        chk(getattr(dd, k).values, w, k)
    step = pd.Timedelta("1D")
    for lens, g in [(None, False)] + ([(case["group"], None)] if case["group"] else []):
        grps = groups_of(case, lens, m)
        kw = dict(group_by=g)

        def per(key, f):
            return [(lambda x: f(x) if x else NAN)([v for v, r in zip(per_rec[key], want) if r["col"] in gg]) for gg in grps]
        chk(dd.avg_drawdown(**kw), per("drawdown", np.mean), "avg_drawdown")
        chk(dd.max_drawdown(**kw), per("drawdown", min), "max_drawdown")
        chk(dd.avg_recovery_return(**kw), per("recovery_return", np.mean), "avg_recovery_return")
        chk(dd.max_recovery_return(**kw), per("recovery_return", max), "max_recovery_return")
        check_range_views(dd, want, case, n, m, "drawdowns", lens, g)
    last = [next((r for r in reversed(act) if r["col"] == j), None) for j in range(m)]

    def cur(f):
        return [NAN if r is None else f(r) for r in last]
    kw = dict(group_by=False)
    chk(dd.active_drawdown(**kw), cur(lambda r: (r["end_val"] - r["peak_val"]) / r["peak_val"]), "active_drawdown")
    chk(dd.active_recovery(**kw), cur(lambda r: (r["end_val"] - r["valley_val"]) / (r["peak_val"] - r["valley_val"])),
        "active_recovery")
    chk(dd.active_recovery_return(**kw), cur(lambda r: (r["end_val"] - r["valley_val"]) / r["valley_val"]),
        "active_recovery_return")
    chk(td(dd.active_duration(**kw), step), cur(lambda r: r["end_idx"] - r["start_idx"] + 1), "active_duration")
    chk(td(dd.active_recovery_duration(**kw), step), cur(lambda r: r["end_idx"] - r["valley_idx"]),
        "active_recovery_duration")
    need(np.array_equal(before, arr(case["v"]), equal_nan=True) and np.array_equal(
        np.asarray(ts, float).reshape(vals.shape), before, equal_nan=True), "the series was modified")
    out = []
    if len(want) >= 2:
        out.append("nt")
    if act and rec:
        out.append("active+recovered")
    if np.isnan(vals).any():
        out.append("nan")
    return out


@st.composite
def drawdowns_st(draw):
    n = draw(st.sampled_from([6, 8, 4, 3, 2, 1, 12, 15]))
    m = draw(st.sampled_from([2, 1, 3]))
    elem = st.integers(1, draw(st.sampled_from([3, 5, 20]))).map(float)
    if draw(st.booleans()):
        elem = st.one_of(elem, elem, elem, st.none())
    if draw(st.integers(0, 4)) == 0:
        elem = st.one_of(elem, st.sampled_from([2.5, 1e-3, 1e9, 7.125]))
    return dict(n=n, m=m, v=draw(matrix(elem, n, m)), series=m == 1 and draw(st.booleans()), dates=draw(st.booleans()),
                group=draw(G.groups_st(m)) if draw(st.integers(0, 2)) == 0 else None, accessor=draw(st.booleans()))


def check_ranges(case):
    n, m = case["n"], case["m"]
    kind = case["kind"]
    raw = case["v"]
    gap = case["gap"]
    if kind == "bool":
        vals = np.array(raw, dtype=bool)
        is_gap = lambda v: v == (False if gap is None else bool(gap))
        kw = {} if gap is None else dict(gap_value=bool(gap))
    elif kind == "int":
        vals = np.array(raw, dtype=np.int64)
        is_gap = lambda v: v == (-1 if gap is None else gap)
        kw = {} if gap is None else dict(gap_value=int(gap))
    else:
        vals = arr(raw)
        is_gap = (lambda v: math.isnan(v)) if gap is None else (lambda v: v == gap)
        kw = {} if gap is None else dict(gap_value=float(gap))
    ts = obj_of(case, vals)
    gb = pd.Index(G.group_by_of(case["group"])) if case["group"] else None
    wk = dict(freq="1D")
    if gb is not None:
        wk["group_by"] = gb
    if case["accessor"]:
        rg = ts.vbt.get_ranges(wrapper_kwargs=wk, **kw)
    else:
        rg = Ranges.from_ts(ts, wrapper_kwargs=wk, **kw)
    want = []
    for j in range(m):
        i = 0
        while i < n:
            if is_gap(vals[i, j]):
                i += 1
                continue
            e = i
            while e + 1 < n and not is_gap(vals[e + 1, j]):
                e += 1
            if e == n - 1:
                want.append(dict(col=j, start_idx=i, end_idx=n - 1, status=0))
            else:
                want.append(dict(col=j, start_idx=i, end_idx=e + 1, status=1))
            i = e + 1
    cmp_recs(rg.values, want, ["col", "start_idx", "end_idx", "status"], "ranges(%s)" % kind)
    need(rg.open.values["id"].tolist() == [k for k, r in enumerate(want) if r["status"] == 0], "open view")
    need(rg.closed.values["id"].tolist() == [k for k, r in enumerate(want) if r["status"] == 1], "closed view")
    for lens, g in [(None, False)] + ([(case["group"], None)] if case["group"] else []):
        check_range_views(rg, want, case, n, m, "ranges", lens, g)
    inv = np.array([[not is_gap(vals[i, j]) for j in range(m)] for i in range(n)])
    need(np.asarray(rg.to_mask(group_by=False)).reshape(n, m).tolist() == inv.tolist(), "mask is not the input")
    return (["nt"] if len(want) >= 2 else []) + [kind]


@st.composite
def ranges_st(draw):
    n = draw(st.sampled_from([5, 8, 3, 2, 1, 12]))
    m = draw(st.sampled_from([2, 1, 3]))
    kind = draw(st.sampled_from(["bool", "float", "int"]))
    if kind == "bool":
        elem, gaps = st.booleans(), [None, None, True]
    elif kind == "int":
        elem, gaps = st.sampled_from([-1, 0, 1, 5, -2]), [None, None, 0, 5]
    else:
        elem, gaps = st.sampled_from([None, 1.0, 0.0, -1.0, 2.5]), [None, None, 0.0, 2.5]
    return dict(n=n, m=m, kind=kind, v=draw(matrix(elem, n, m)), gap=draw(st.sampled_from(gaps)),
                series=m == 1 and draw(st.booleans()), dates=draw(st.booleans()),
                group=draw(G.groups_st(m)) if draw(st.integers(0, 2)) == 0 else None, accessor=draw(st.booleans()))


def check_overlaps(case):
    """Arbitrary (overlapping, unsorted) range records."""
    n, m = case["n"], case["m"]
    index, columns = labels(case)
    want = [dict(col=r[0], start_idx=r[1], end_idx=min(n - 1, r[1] + r[2]), status=r[3]) for r in case["recs"]]
    recs = np.zeros(len(want), dtype=range_dt)
    for k, r in enumerate(want):
        recs[k] = (k, r["col"], r["start_idx"], r["end_idx"], r["status"])
    w = ArrayWrapper(index, columns, 1 if case["series"] else 2, freq="1D",
                     **(dict(group_by=pd.Index(G.group_by_of(case["group"]))) if case["group"] else {}))
    rg = Ranges(w, recs)
    for lens, g in [(None, False)] + ([(case["group"], None)] if case["group"] else []):
        check_range_views(rg, want, case, n, m, "ranges", lens, g)
    return ["nt"] if len(want) >= 2 else []


@st.composite
def overlaps_st(draw):
    n = draw(st.sampled_from([5, 8, 3, 12]))
    m = draw(st.sampled_from([2, 1, 3]))
    rec = st.tuples(st.integers(0, m - 1), st.integers(0, n - 1), st.integers(1, n), st.integers(0, 1)).map(list)
    return dict(n=n, m=m, recs=draw(st.lists(rec, max_size=8)), series=m == 1 and draw(st.booleans()),
                dates=draw(st.booleans()), group=draw(G.groups_st(m)) if draw(st.integers(0, 2)) == 0 else None)


FACETS = [
    Facet("drawdowns", drawdowns_st, check_drawdowns, quick=700, thorough=40000, shards=4, rule="at least two drawdowns"),
    Facet("ranges", ranges_st, check_ranges, quick=400, thorough=20000, shards=2, rule="at least two ranges"),
    Facet("overlaps", overlaps_st, check_overlaps, quick=300, thorough=10000, shards=1, rule="at least two ranges"),
]
