"""C11: fast array operations equal their pandas counterparts.

Oracle: pandas / numpy per column, or an explicit loop over windows, groups and bins. Every operation runs on the frame
and, per column, on the Series; inputs must come out untouched and labels kept."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt

from vbtcheck.core import Facet
from vbtcheck.util import arr, fl, matrix, need, need_equal_pd, need_same, vec, weighted

ASSUMPTIONS = [
    "Values are finite or NaN. Running sums lose precision the way pandas' do; differences below 1e-7 are accepted.",
    "Numba callbacks are compiled once per facet; the callbacks themselves are fixed, the data vary.",
    "The exponentially weighted deviation has pandas' default (unbiased) form whatever ddof is given: pandas offers none.",
    "With a single group, results are a scalar or Series by design.",
    "Window functions over all columns at once (on_matrix) are checked on NaN-free data: their minimum period has no pandas counterpart.",
]


def index_of(case):
    n, k = case["n"], case["index"]
    if k == "dates":
        return pd.date_range("2020-01-01", periods=n, freq="D")
    if k == "named":
        return pd.Index([10 * (i + 1) for i in range(n)], name="bar")
    return pd.RangeIndex(n)


def columns_of(case):
    m = case["m"]
    if case["cols"] == "multi":
        return pd.MultiIndex.from_arrays([list("aabb")[:m], list(range(m))], names=["p", "q"])
    return pd.Index(list("abcd")[:m], name="sym" if case["cols"] == "named" else None)


def frame_of(case, key="x"):
    v = arr(case[key])
    if case.get("dtype") == "int":
        v = v.astype(np.int64)
    if case.get("forder"):
        v = np.asfortranarray(v)
    return pd.DataFrame(v, index=index_of(case), columns=columns_of(case))


def cmp(got, exp, what, rtol=1e-7, atol=1e-7):
    need_equal_pd(got, exp, what, rtol, atol)
    if isinstance(exp, pd.DataFrame):
        need(list(got.columns.names) == list(exp.columns.names), "%s: column level names %s" % (what, got.columns.names))
    if isinstance(exp, (pd.Series, pd.DataFrame)):
        need(list(got.index.names) == list(exp.index.names), "%s: index names %s, expected %s"
             % (what, got.index.names, exp.index.names))


def both(case, ops, exp, label, frame=None, rtol=1e-7, atol=1e-7):
    """`ops(obj)` -> {name: result}; `exp(frame)` -> {name: expected frame}. Checks the frame and a Series."""
    df = frame_of(case) if frame is None else frame
    keep = df.copy()
    got, want = ops(df), exp(df.copy())
    need(df.equals(keep), "%s: the input frame was modified" % label)
    for k in want:
        cmp(got[k], want[k], "%s.%s (frame)" % (label, k), rtol, atol)
    j = case["col"] % case["m"]
    s = pd.Series(df.iloc[:, j].values.copy(), index=df.index, name=df.columns[j])
    keep_s = s.copy()
    got = ops(s)
    need(s.equals(keep_s), "%s: the input Series was modified" % label)
    for k in want:
        w = want[k].iloc[:, j]
        w = pd.Series(w.values, index=w.index, name=s.name)
        cmp(got[k], w, "%s.%s (Series)" % (label, k), rtol, atol)
    x = df.values
    return ["nt"] if x.dtype == float and np.isnan(x).any() and len(df) > 2 else []


def bools(x):
    return x.astype(bool)


# ---------------------------------------------------------------- elementwise

def check_elem(case):
    k, fv = case["shift"], fl(case["fill"])

    def ops(o):
        v = o.vbt
        return dict(fshift=v.fshift(k, fill_value=fv), bshift=v.bshift(k, fill_value=fv), fshift1=v.fshift(1),
                    diff=v.diff(k), pct=v.pct_change(k), ffill=v.ffill(), bfill=v.bfill(), fillna=v.fillna(fv),
                    cumsum=v.cumsum(), cumprod=v.cumprod())

    def exp(d):
        def sh(d, k):
            o = d.astype(float).shift(k)
            for j in range(d.shape[1]):
                if k > 0:
                    o.iloc[:k, j] = fv
                else:
                    o.iloc[k:, j] = fv
            return o
        return dict(fshift=sh(d, k), bshift=sh(d, -k), fshift1=d.astype(float).shift(1), diff=d.diff(k),
                    pct=d / d.shift(k) - 1, ffill=d.ffill(), bfill=d.bfill(), fillna=d.fillna(fv),
                    cumsum=d.fillna(0).cumsum(), cumprod=d.fillna(1).cumprod())
    return both(case, ops, exp, "elementwise")


def check_windows(case):
    w, mp, dd = case["window"], case["minp"], case["ddof"]
    span, adj = case["span"], case["adjust"]
    emp = min(mp, span) if mp is not None else 1
    mpe = 1 if mp is None else case["minp_exp"]

    def ops(o):
        v = o.vbt
        return dict(rolling_min=v.rolling_min(w, minp=mp), rolling_max=v.rolling_max(w, minp=mp),
                    rolling_mean=v.rolling_mean(w, minp=mp), rolling_std=v.rolling_std(w, minp=mp, ddof=dd),
                    expanding_min=v.expanding_min(minp=mpe), expanding_max=v.expanding_max(minp=mpe),
                    expanding_mean=v.expanding_mean(minp=mpe), expanding_std=v.expanding_std(minp=mpe, ddof=dd),
                    ewm_mean=v.ewm_mean(span, minp=emp, adjust=adj),
                    ewm_std=v.ewm_std(span, minp=emp, adjust=adj, ddof=dd))

    def exp(d):
        r, e = d.rolling(w, min_periods=mp), d.expanding(min_periods=mpe)
        m = d.ewm(span=span, min_periods=emp, adjust=adj)
        return dict(rolling_min=r.min(), rolling_max=r.max(), rolling_mean=r.mean(), rolling_std=r.std(ddof=dd),
                    expanding_min=e.min(), expanding_max=e.max(), expanding_mean=e.mean(), expanding_std=e.std(ddof=dd),
                    ewm_mean=m.mean(), ewm_std=ewm_std_ref(d, span, emp, adj, dd))
    return both(case, ops, exp, "windows", rtol=1e-6, atol=1e-6)


def ewm_std_ref(d, span, minp, adjust, ddof):
    return d.ewm(span=span, min_periods=minp, adjust=adjust).std()


# ---------------------------------------------------------------- reductions

def col_reduce(name, d, ddof):
    if name == "std":
        return d.std(ddof=ddof)
    if name == "product":
        return d.prod()
    return getattr(d, name)()


def check_reduce(case):
    df = frame_of(case)
    keep = df.copy()
    dd = case["ddof"]
    m = case["m"]
    names = ["min", "max", "mean", "median", "std", "sum", "count", "idxmin", "idxmax", "product"]
    for nm in names:
        kw = dict(ddof=dd) if nm == "std" else {}
        got = getattr(df.vbt, nm)(**kw)
        exp = []
        for j in range(m):
            s = df.iloc[:, j].dropna()
            if nm == "std":
                exp.append(s.std(ddof=dd) if len(s) > dd else np.nan)
            elif nm == "product":
                exp.append(s.prod())
            elif len(s) == 0:
                exp.append({"sum": 0.0, "count": 0}.get(nm, np.nan))
            else:
                exp.append(getattr(s, nm)())
        need(list(got.index) == list(df.columns) and got.name == nm, "%s: labels %s name %s" % (nm, list(got.index), got.name))
        for j in range(m):
            a, b = got.iloc[j], exp[j]
            if nm.startswith("idx"):
                need((a == b) or (pd.isnull(a) and pd.isnull(b)), "%s column %d: %s, expected %s" % (nm, j, a, b))
            else:
                need_same(np.array([a], dtype=float), np.array([b], dtype=float), "%s column %d" % (nm, j), 1e-9, 1e-9)
            s = pd.Series(df.iloc[:, j].values, index=df.index, name="s")
            c = getattr(s.vbt, nm)(**kw)
            need((c == a) or (pd.isnull(c) and pd.isnull(a)) or abs(c - a) < 1e-9, "%s of a Series: %s, frame %s" % (nm, c, a))
        # grouped: over all values of the group
        groups = case["groups"][:m]
        if nm == "product":
            continue
        if nm.startswith("idx"):
            if any(df.loc[:, [g == h for h in groups]].isna().all(axis=None) for g in groups):
                continue
            kw = dict(order=case["order"])
        if nm == "median" and df.isna().all().any():
            pass
        gb = np.array(groups)
        got = getattr(df.vbt, nm)(group_by=gb, **kw)
        labels = list(dict.fromkeys(groups))
        if len(labels) == 1:
            got = pd.Series([got], index=labels)
        need(list(got.index) == labels, "%s grouped labels %s" % (nm, list(got.index)))
        for g in labels:
            sub = df.iloc[:, [j for j in range(m) if groups[j] == g]]
            flat = sub.values.ravel(order=case["order"] if nm.startswith("idx") else "C")
            ok = ~np.isnan(flat.astype(float))
            if nm.startswith("idx"):
                lab = np.repeat(np.arange(len(df)), sub.shape[1]) if case["order"] == "C" else \
                    np.tile(np.arange(len(df)), sub.shape[1])
                f = np.where(ok, flat, np.inf if nm == "idxmin" else -np.inf)
                pos = lab[np.argmin(f) if nm == "idxmin" else np.argmax(f)]
                need(got[g] == df.index[pos], "grouped %s (%s order): %s, expected %s"
                     % (nm, case["order"], got[g], df.index[pos]))
                continue
            s = pd.Series(flat[ok])
            if nm == "std":
                e = s.std(ddof=dd) if len(s) > dd else np.nan
            elif len(s) == 0:
                e = {"sum": 0.0, "count": 0}.get(nm, np.nan)
            else:
                e = getattr(s, nm)()
            need_same(np.array([got[g]], dtype=float), np.array([e], dtype=float), "grouped %s" % nm, 1e-9, 1e-9)
    need(df.equals(keep), "reductions modified the input")
    return ["nt"] if df.isna().values.any() else []


def check_describe(case):
    df = frame_of(case)
    pc = case["pct"]
    dd = case["ddof"]
    keep = df.copy()
    m = case["m"]

    def verify(got, values, what):
        s = pd.Series(values).dropna()
        rows = list(got.index)
        need(rows[0] == "count" and rows[-1] == "max" and rows[1:4] == ["mean", "std", "min"], "%s rows %s" % (what, rows))
        want = pc if pc is not None else [0.25, 0.5, 0.75]
        labs = [r for r in rows if r.endswith("%")]
        for p in want:
            need("%g%%" % (p * 100) in labs, "%s: percentile %s missing in %s" % (what, p, labs))
        exp = []
        for r in rows:
            if r == "count":
                exp.append(float(len(s)))
            elif len(s) == 0:
                exp.append(np.nan)
            elif r == "std":
                exp.append(s.std(ddof=dd) if len(s) > dd else np.nan)
            elif r.endswith("%"):
                exp.append(s.quantile(float(r[:-1]) / 100))
            else:
                exp.append(getattr(s, r)())
        need_same(np.asarray(got, dtype=float), np.array(exp), "%s %s" % (what, rows), 1e-8, 1e-8)

    got = df.vbt.describe(percentiles=pc, ddof=dd)
    need(list(got.columns) == list(df.columns), "describe columns %s" % list(got.columns))
    for j in range(m):
        verify(got.iloc[:, j], df.iloc[:, j].values, "describe column %d" % j)
    s = pd.Series(df.iloc[:, 0].values, index=df.index, name="s")
    verify(s.vbt.describe(percentiles=pc, ddof=dd), s.values, "describe Series")
    groups = case["groups"][:m]
    got = df.vbt.describe(percentiles=pc, ddof=dd, group_by=np.array(groups))
    labels = list(dict.fromkeys(groups))
    if len(labels) == 1:
        got = pd.DataFrame({labels[0]: got})
    need(list(got.columns) == labels, "describe groups %s" % list(got.columns))
    for g in labels:
        sub = df.iloc[:, [j for j in range(m) if groups[j] == g]]
        verify(got[g], sub.values.ravel(), "describe group %s" % g)
    need(df.equals(keep), "describe modified the input")
    return ["nt"] if df.isna().values.any() else []


def check_value_counts(case):
    df = frame_of(case)
    m = case["m"]
    keep = df.copy()
    groups = case["groups"][:m] if case["grouped"] else list(range(m))
    labels = list(dict.fromkeys(groups))
    flat = df.values.ravel()
    order = []
    for v in flat:
        key = "nan" if v != v else float(v)
        if key not in order:
            order.append(key)
    cnt = {u: [0] * len(labels) for u in order}
    for j in range(m):
        for v in df.iloc[:, j].values:
            cnt["nan" if v != v else float(v)][labels.index(groups[j])] += 1
    mapping = {float(k): "v%g" % k for k in (1, 2, 3)} if case["mapping"] else None
    if mapping and case["all_keys"]:
        for k in mapping:
            if k not in order:
                order.append(k)
                cnt[k] = [0] * len(labels)
    if mapping:
        mapping[4.0] = "v4"
        mapping[5.0] = "v5"
        if case["all_keys"]:
            for k in (4.0, 5.0):
                if k not in order:
                    order.append(k)
                    cnt[k] = [0] * len(labels)
    if case["dropna"]:
        order = [u for u in order if u != "nan"]
    if case["sort_uniques"]:
        order.sort(key=lambda u: (u == "nan", 0 if u == "nan" else u))
    total = sum(sum(cnt[u]) for u in order)
    if case["sort"]:
        order.sort(key=lambda u: sum(cnt[u]) * (1 if case["ascending"] else -1))
    kw = dict(normalize=case["normalize"], sort_uniques=case["sort_uniques"], sort=case["sort"],
              ascending=case["ascending"], dropna=case["dropna"])
    if mapping:
        kw.update(mapping=mapping, incl_all_keys=case["all_keys"])
    if not order:
        return ["empty"]
    got = df.vbt.value_counts(group_by=np.array(groups) if case["grouped"] else None, **kw)
    g2 = got.to_frame() if isinstance(got, pd.Series) else got
    exp = np.array([cnt[u] for u in order], dtype=float)
    if case["normalize"]:
        exp = exp / total
    names = [mapping.get(u, np.nan) if mapping else u for u in order]
    for a, b in zip(g2.index, names):
        isn = b == "nan" or b != b
        need((isn and pd.isnull(a)) or a == b, "value_counts index %s, expected %s" % (list(g2.index), names))
    need_same(g2.values.astype(float), exp, "value_counts of %s" % names)
    need(list(g2.columns) == (labels if case["grouped"] else list(df.columns)), "value_counts columns %s" % list(g2.columns))
    j = case["col"] % m
    s = pd.Series(df.iloc[:, j].values, index=df.index, name="s")
    got = s.vbt.value_counts(sort_uniques=case["sort_uniques"], dropna=case["dropna"])
    for u, c in zip(got.index, got.values):
        e = s.isna().sum() if pd.isnull(u) else (s == u).sum()
        need(c == e, "value_counts of a Series: %s -> %s, expected %s" % (u, c, e))
    need(got.sum() == (s.count() if case["dropna"] else len(s)), "value_counts of a Series: total %s" % got.sum())
    need(df.equals(keep), "value_counts modified the input")
    return ["nt"] if len(order) > 2 else []


# ---------------------------------------------------------------- functions over windows, groups, bins

@njit
def win_nb(i, col, a, k):
    return a[-1] * k - a[0] + 100.0 * i + 1000.0 * col + len(a)


@njit
def winm_nb(i, a, k):
    return a[-1] * k - a[0] + 100.0 * i + len(a)


@njit
def grp_nb(idxs, col, a):
    return idxs[0] * 100.0 + 1000.0 * col + len(a) + np.nansum(a)


@njit
def grpm_nb(idxs, a):
    return idxs[-1] * 100.0 + a.shape[0] + a[0] - a[-1]


@njit
def map_nb(i, col, x, k):
    return x * k + i * 10.0 + col * 100.0


@njit
def filt_nb(i, col, x):
    return x > 2.0 and (i + col) % 3 != 0


@njit
def col_nb(col, a):
    return a * 2.0 + col


@njit
def row_nb(i, a):
    return a * 2.0 + i


@njit
def red_nb(col, a, k):
    return np.nansum(a) * k + col


@njit
def red_arr_nb(col, a):
    o = np.empty(2, dtype=np.float64)
    o[0] = np.nansum(a)
    o[1] = a[0] + col * 100.0
    return o


@njit
def red_idx_nb(col, a):
    return np.argmax(np.where(np.isnan(a), -1e9, a)) if a.shape[0] % 2 or not np.all(np.isnan(a)) else -1


@njit
def gred_nb(group, a):
    return a[0, -1] + 100.0 * group + a.shape[1]


@njit
def gred_arr_nb(group, a):
    o = np.empty(3, dtype=np.float64)
    o[0] = a[0, 0]
    o[1] = a[-1, -1]
    o[2] = group * 10.0 + a.shape[1]
    return o


@njit
def fred_nb(group, a):
    s = 0.0
    for i in range(a.shape[0]):
        if not np.isnan(a[i]):
            s += a[i] * (i + 1)
    return s + group


@njit
def fred_arr_nb(group, a):
    o = np.empty(2, dtype=np.float64)
    o[0] = a[1] if a.shape[0] > 1 else -1.0
    o[1] = a[-1] + group
    return o


@njit
def sq_nb(i, group, a):
    return np.nansum(a) + 10.0 * i + 1000.0 * group


def apply_windows(d, w, mp, k, fn, nobs):
    n, m = d.shape
    out = np.full((n, m), np.nan)
    for j in range(m):
        for i in range(n):
            win = d[max(0, i + 1 - w):i + 1, j]
            if np.sum(~np.isnan(win)) >= mp:
                out[i, j] = fn(i, j, win, k)
    return out


def check_apply(case):
    w, mp, k = case["window"], case["minp"], float(case["k"])
    mp_eff = w if mp is None else mp
    mpe = 1 if mp is None else mp
    clean = not any(x is None for r in case["x"] for x in r)

    def ops(o):
        v = o.vbt
        out = dict(rolling=v.rolling_apply(w, win_nb, k, minp=mp), expanding=v.expanding_apply(win_nb, k, minp=mpe),
                   applymap=v.applymap(map_nb, k), filter=v.filter(filt_nb), axis0=v.apply_along_axis(col_nb))
        return out

    def exp(d):
        a = d.values
        wrap = lambda x: pd.DataFrame(x, index=d.index, columns=d.columns)
        n, m = a.shape
        am, fi = np.full((n, m), np.nan), a.copy()
        for i in range(n):
            for j in range(m):
                if not np.isnan(a[i, j]):
                    am[i, j] = a[i, j] * k + i * 10.0 + j * 100.0
                    if not (a[i, j] > 2.0 and (i + j) % 3 != 0):
                        fi[i, j] = np.nan
        f = win_nb.py_func
        return dict(rolling=wrap(apply_windows(a, w, mp_eff, k, f, None)),
                    expanding=wrap(apply_windows(a, n, mpe, k, f, None)), applymap=wrap(am), filter=wrap(fi),
                    axis0=wrap(a * 2.0 + np.arange(m)[None, :]))
    # a column alone is column 0, so the Series is compared with the one-column frame
    df = frame_of(case)
    keep = df.copy()
    got, want = ops(df), exp(df)
    for q in want:
        cmp(got[q], want[q], "%s (frame)" % q)
    j = case["col"] % case["m"]
    s = pd.Series(df.iloc[:, j].values, index=df.index, name="s")
    one = exp(s.to_frame())
    got = ops(s)
    for q in one:
        cmp(got[q], one[q].iloc[:, 0], "%s (Series)" % q)
    row = df.vbt.apply_along_axis(row_nb, axis=1)
    cmp(row, pd.DataFrame(df.values * 2.0 + np.arange(len(df))[:, None], index=df.index, columns=df.columns), "axis1")
    if clean:
        n = len(df)
        for name, g, ww, mm in (("rolling", df.vbt.rolling_apply(w, winm_nb, k, minp=mp, on_matrix=True), w, mp_eff),
                                ("expanding", df.vbt.expanding_apply(winm_nb, k, minp=mpe, on_matrix=True), n, mpe)):
            e = np.full(df.shape, np.nan)
            for i in range(n):
                win = df.values[max(0, i + 1 - ww):i + 1]
                if len(win) >= mm:
                    e[i] = winm_nb.py_func(i, win, k)
            cmp(g, pd.DataFrame(e, index=df.index, columns=df.columns), "%s on matrix" % name)
    need(df.equals(keep), "an apply function modified the input")
    return ["nt"] if len(df) > 2 else []


def check_groupby(case):
    df = frame_of(case)
    n, m = df.shape
    keep = df.copy()
    by = [case["by"][i % len(case["by"])] for i in range(n)]
    keys = sorted(set(by))
    got = df.vbt.groupby_apply(np.array(by), grp_nb)
    gotm = df.vbt.groupby_apply(np.array(by), grpm_nb, on_matrix=True)
    e, em = [], []
    for g in keys:
        ix = np.array([i for i in range(n) if by[i] == g])
        e.append([grp_nb.py_func(ix, j, df.values[ix, j]) for j in range(m)])
        em.append(grpm_nb.py_func(ix, df.values[ix]))
    cmp(got, pd.DataFrame(np.array(e), index=keys, columns=df.columns), "groupby_apply")
    cmp(gotm, pd.DataFrame(np.array(em), index=keys, columns=df.columns), "groupby_apply on matrix")
    s = pd.Series(df.iloc[:, 0].values, index=df.index, name="s")
    cmp(s.vbt.groupby_apply(np.array(by), grp_nb), pd.Series([r[0] for r in e], index=keys, name="s"), "groupby_apply Series")
    # resampling over irregular dates
    dates = pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(hours=int(h)) for h in np.cumsum(case["gaps"][:n])])
    d2 = pd.DataFrame(df.values, index=dates, columns=df.columns)
    freq = case["freq"]
    got = d2.vbt.resample_apply(freq, grp_nb)
    gotm = d2.vbt.resample_apply(freq, grpm_nb, on_matrix=True)
    bins = d2.resample(freq).asfreq().index
    step = pd.Timedelta(freq if freq[0].isdigit() else "1" + freq)
    e = np.full((len(bins), m), np.nan)
    em = e.copy()
    for b, t in enumerate(bins):
        ix = np.flatnonzero((dates >= t) & (dates < t + step))
        if len(ix):
            e[b] = [grp_nb.py_func(ix, j, df.values[ix, j]) for j in range(m)]
            em[b] = grpm_nb.py_func(ix, df.values[ix])
    need(np.isin(dates.floor(step), bins).all(), "harness: bins")
    cmp(got, pd.DataFrame(e, index=bins, columns=df.columns), "resample_apply")
    cmp(gotm, pd.DataFrame(em, index=bins, columns=df.columns), "resample_apply on matrix")
    s = d2.iloc[:, 0]
    cmp(s.vbt.resample_apply(freq, grp_nb), pd.Series(e[:, 0], index=bins, name=s.name), "resample_apply Series")
    need(df.equals(keep), "groupby modified the input")
    return ["nt"] if len(keys) > 1 and np.isnan(e).any() else []


def check_reduce_fn(case):
    df = frame_of(case)
    n, m = df.shape
    a = df.values
    k = float(case["k"])
    keep = df.copy()
    need_equal_pd(df.vbt.reduce(red_nb, k), pd.Series([red_nb.py_func(j, a[:, j], k) for j in range(m)], index=df.columns,
                                            name="reduce"), "reduce")
    need_equal_pd(df.vbt.reduce(red_arr_nb, returns_array=True),
        pd.DataFrame(np.array([red_arr_nb.py_func(j, a[:, j]) for j in range(m)]).T, columns=df.columns), "reduce to array")
    need_equal_pd(df.vbt.apply_and_reduce(col_nb, red_nb, reduce_args=(k,)),
        pd.Series([red_nb.py_func(j, col_nb.py_func(j, a[:, j]), k) for j in range(m)], index=df.columns,
                  name="apply_and_reduce"), "apply_and_reduce")
    # groups
    groups = case["groups"][:m]
    gb = np.array(groups)
    labels = list(dict.fromkeys(groups))
    subs = [a[:, [j for j in range(m) if groups[j] == g]] for g in labels]
    gi = pd.Index(labels, name="group")

    def cmp(got, exp, what):
        if len(labels) == 1 and exp.shape[-1] == 1:
            got = pd.Series([got], index=gi, name="reduce") if np.ndim(got) == 0 else pd.DataFrame(
                got.values[:, None], index=got.index, columns=gi)
            if isinstance(exp, pd.DataFrame) and not isinstance(got, pd.DataFrame):
                got = got.to_frame()
        need_equal_pd(got, exp, what)
    cmp(df.vbt.reduce(gred_nb, group_by=gb), pd.Series([gred_nb.py_func(i, s) for i, s in enumerate(subs)], index=gi,
                                                       name="reduce"), "grouped reduce")
    cmp(df.vbt.reduce(gred_arr_nb, group_by=gb, returns_array=True),
        pd.DataFrame(np.array([gred_arr_nb.py_func(i, s) for i, s in enumerate(subs)]).T, columns=gi), "grouped reduce to array")
    for order in ("C", "F"):
        fl_ = [np.ascontiguousarray(s.ravel(order=order)) for s in subs]
        cmp(df.vbt.reduce(fred_nb, group_by=gb, flatten=True, order=order),
            pd.Series([fred_nb.py_func(i, s) for i, s in enumerate(fl_)], index=gi, name="reduce"), "flat reduce " + order)
        cmp(df.vbt.reduce(fred_arr_nb, group_by=gb, flatten=True, order=order, returns_array=True),
            pd.DataFrame(np.array([fred_arr_nb.py_func(i, s) for i, s in enumerate(fl_)]).T, columns=gi),
            "flat reduce to array " + order)
    sq = df.vbt.squeeze_grouped(sq_nb, group_by=gb)
    e = np.array([[sq_nb.py_func(i, g, s[i]) for g, s in enumerate(subs)] for i in range(n)])
    cmp(sq, pd.DataFrame(e, index=df.index, columns=gi), "squeeze_grouped")
    L = max(s.shape[1] for s in subs)
    for order in ("C", "F"):
        e = np.full((n * L, len(labels)), np.nan)
        for g, s in enumerate(subs):
            for q in range(s.shape[1]):
                for i in range(n):
                    e[i * L + q if order == "C" else q * n + i, g] = s[i, q]
        ix = df.index.repeat(L) if order == "C" else df.index[list(range(n)) * L]
        if case["index"] == "range":
            ix = range(n * L)  # a default index stays a default index
        got = df.vbt.flatten_grouped(group_by=gb, order=order)
        if isinstance(got, pd.Series):
            got = pd.DataFrame(got.values[:, None], index=got.index, columns=gi)
        need(list(got.index) == list(ix) and list(got.columns) == labels, "flatten_grouped %s labels" % order)
        need_same(got.values, e, "flatten_grouped " + order)
    need(df.equals(keep), "reduce modified the input")
    return ["nt"] if len(labels) < m else []


# ---------------------------------------------------------------- crossovers and the rest

def check_cross(case):
    x, y = frame_of(case), frame_of(case, "y")
    wait = case["wait"]
    kx, ky = x.copy(), y.copy()

    def ref(a, b):
        n, m = a.shape
        out = np.zeros((n, m), dtype=bool)
        for j in range(m):
            for i in range(n):
                # exactly wait+1 consecutive bars above, ending here, and below at some time since the last NaN
                k = i
                while k >= 0 and a[k, j] > b[k, j]:
                    k -= 1
                below = False
                q = k
                while q >= 0 and a[q, j] == a[q, j] and b[q, j] == b[q, j]:
                    below = below or a[q, j] < b[q, j]
                    q -= 1
                out[i, j] = i - k == wait + 1 and below
        return out
    a, b = x.values, y.values
    wrap = lambda v: pd.DataFrame(v, index=x.index, columns=x.columns)
    cmp(x.vbt.crossed_above(y, wait=wait), wrap(ref(a, b)), "crossed_above")
    cmp(x.vbt.crossed_below(y, wait=wait), wrap(ref(b, a)), "crossed_below")
    c = fl(case["level"])
    cmp(x.vbt.crossed_above(c, wait=wait), wrap(ref(a, np.full_like(a, c))), "crossed_above a number")
    j = case["col"] % case["m"]
    s, t = x.iloc[:, j], y.iloc[:, j].rename(x.columns[j])
    s = pd.Series(s.values, index=s.index, name="q")
    t = pd.Series(t.values, index=t.index, name="q")
    cmp(s.vbt.crossed_below(t, wait=wait), pd.Series(ref(b, a)[:, j], index=s.index, name="q"), "crossed_below Series")
    need(x.equals(kx) and y.equals(ky), "crossover modified its input")
    return ["nt"] if ref(a, b).any() else []


def check_misc(case):
    def ops(o):
        v = o.vbt
        return dict(drawdown=v.drawdown(), to_returns=v.to_returns(), rebase=v.rebase(fl(case["base"])))

    def exp(d):
        f = d.ffill().bfill()
        return dict(drawdown=d / d.cummax().ffill() - 1, to_returns=returns_ref(d), rebase=f / f.iloc[0] * fl(case["base"]))

    def returns_ref(d):
        return d / d.shift(1) - 1
    labels = both(case, ops, exp, "misc", frame=frame_of(case))
    df = frame_of(case).ffill().bfill()
    a = df.values
    if not np.isnan(a).any():
        rng, mx = a.max(axis=0) - a.min(axis=0), np.abs(a).max(axis=0)
        sd = a.std(axis=0)
        q = np.percentile(a, [25, 50, 75], axis=0)
        iqr = q[2] - q[0]
        one = lambda v: np.where(np.abs(v) < 1e-12, 1.0, v)
        wrap = lambda v: pd.DataFrame(v, index=df.index, columns=df.columns)
        # (numerically constant columns are scaled by one)
        cmp(df.vbt.minmax_scale(), wrap((a - a.min(axis=0)) / one(rng)), "minmax_scale")
        cmp(df.vbt.maxabs_scale(), wrap(a / one(mx)), "maxabs_scale")
        cmp(df.vbt.scale(), wrap((a - a.mean(axis=0)) / one(sd)), "scale")
        cmp(df.vbt.zscore(), wrap((a - a.mean(axis=0)) / one(sd)), "zscore")
        cmp(df.vbt.robust_scale(), wrap((a - q[1]) / one(iqr)), "robust_scale")
        cmp(df.vbt.binarize(threshold=3.0), wrap((a > 3.0).astype(float)), "binarize")
        cmp(df.vbt.normalize(), wrap(a / np.sqrt((a ** 2).sum(axis=1, keepdims=True))), "normalize")
        s = pd.Series(a[:, 0], index=df.index, name="s")
        cmp(s.vbt.zscore(), pd.Series(((a[:, 0] - a[:, 0].mean()) / one(sd[:1])[0]), index=df.index, name="s"), "zscore Series")
    sh = frame_of(case).vbt.shuffle(seed=case["k"])
    sh2 = frame_of(case).vbt.shuffle(seed=case["k"])
    need(sh.equals(sh2), "shuffle with a seed is not reproducible")
    for j in range(case["m"]):
        need_same(np.sort(sh.values[:, j]), np.sort(frame_of(case).values[:, j]), "shuffle keeps the values")
    need(list(sh.index) == list(index_of(case)), "shuffle index")
    return labels


# ---------------------------------------------------------------- generation

def val(nan):
    e = st.one_of(st.integers(1, 5).map(float), st.integers(10, 900).map(lambda q: q / 100.0), st.integers(-3, 3).map(float))
    return st.one_of(e, e, e, st.none()) if nan else e


@st.composite
def base(draw, elem=None, nan=True, max_n=14, ints=False, two=False):
    n = draw(st.sampled_from([k for k in (5, 8, 3, 14, 2, 1) if k <= max_n]))
    m = draw(st.sampled_from([2, 3, 1, 4]))
    nn = nan and draw(weighted((3, True), (1, False)))
    e = elem(nn) if elem else val(nn)
    case = dict(n=n, m=m, x=draw(matrix(e, n, m)), index=draw(st.sampled_from(["dates", "named", "range"])),
                cols=draw(st.sampled_from(["plain", "named", "multi"])), col=draw(st.integers(0, 3)),
                shift=draw(st.integers(1, 5)), fill=draw(st.sampled_from([-1.0, 7.5, 0.0])),
                window=draw(st.integers(1, 6)), ddof=draw(st.sampled_from([0, 1])), span=draw(st.integers(1, 6)),
                adjust=draw(st.booleans()), minp_exp=draw(st.integers(1, 5)), k=draw(st.integers(1, 4)),
                groups=sorted(draw(vec(st.integers(0, 2), 4))), order=draw(st.sampled_from(["C", "F"])),
                wait=draw(st.integers(0, 3)), level=draw(st.sampled_from([2.0, 3.0])))
    case["minp"] = draw(st.one_of(st.none(), st.integers(1, case["window"])))
    if two:
        case["y"] = draw(matrix(e, n, m))
    return case


def small(nan):
    e = st.integers(1, 4).map(float)
    return st.one_of(e, e, e, st.none()) if nan else e


def pos(nan):
    e = st.integers(100, 900).map(lambda q: q / 100.0)
    return st.one_of(e, e, e, st.none()) if nan else e


@st.composite
def describe_st(draw):
    c = draw(base())
    c["pct"] = draw(st.sampled_from([None, [0.1, 0.9], [0.25], [0.5], [0.05, 0.5, 0.95]]))
    return c


@st.composite
def counts_st(draw):
    c = draw(base(small))
    for k in ("normalize", "sort_uniques", "sort", "ascending", "dropna", "mapping", "all_keys", "grouped"):
        c[k] = draw(st.booleans())
    return c


@st.composite
def groupby_st(draw):
    c = draw(base())
    c["by"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=5))
    c["gaps"] = draw(vec(st.sampled_from([1, 2, 5, 7, 12, 25, 60]), 14))
    c["freq"] = draw(st.sampled_from(["1D", "12h", "2h"]))
    return c


@st.composite
def misc_st(draw):
    c = draw(base(pos))
    c["base"] = draw(st.sampled_from([1.0, 100.0]))
    return c


NAN_RULE = "at least three rows with some NaN"
FACETS = [
    Facet("elementwise", lambda: base(), check_elem, quick=250, thorough=15000, rule=NAN_RULE),
    Facet("windows", lambda: base(), check_windows, quick=250, thorough=15000, rule=NAN_RULE),
    Facet("reductions", lambda: base(), check_reduce, quick=80, thorough=5000, rule="some NaN"),
    Facet("describe", describe_st, check_describe, quick=100, thorough=5000, rule="some NaN"),
    Facet("value-counts", counts_st, check_value_counts, quick=200, thorough=8000, rule="more than two distinct values"),
    Facet("apply", lambda: base(), check_apply, quick=120, thorough=8000, rule="more than two rows"),
    Facet("groupby", groupby_st, check_groupby, quick=80, thorough=5000, rule="several groups and an empty bin"),
    Facet("reduce-fn", lambda: base(), check_reduce_fn, quick=100, thorough=6000, rule="a group of several columns"),
    Facet("crossover", lambda: base(small, two=True), check_cross, quick=250, thorough=10000, rule="something crossed"),
    Facet("misc", misc_st, check_misc, quick=100, thorough=5000, rule=NAN_RULE),
]
