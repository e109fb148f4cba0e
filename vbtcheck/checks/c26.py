"""C26: figures show exactly the data of the object they are made from."""
import math
import warnings

import numpy as np
import pandas as pd
import plotly.graph_objects as go
from hypothesis import strategies as st
from statistics import NormalDist

import vectorbt as vbt
from vectorbt.generic import plotting
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.generic.ranges import Ranges

from vbtcheck.core import Facet, Violation
from vbtcheck.util import NAN, arr, fl, matrix, maybe_nan, need, price_path, same, vec, weighted

ASSUMPTIONS = ["Figures are built without widgets and without a template (neither carries data).",
               "Marker sizes, colours (volume bars excepted), hover texts and layout sizes are not judged."]


def setup():
    if vbt.settings.plotting["use_widgets"]:
        vbt.settings.plotting["use_widgets"] = False
        lay = dict(vbt.settings.plotting["layout"])
        vbt.settings.plotting["layout"] = dict(width=lay["width"], height=lay["height"])
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------- reading figures

def num(v):
    """Trace values as floats."""
    if v is None:
        return np.zeros(0)
    return np.array([NAN if x is None else float(x) for x in np.asarray(v, dtype=object).ravel()]).reshape(np.shape(v))


def lab(x):
    """Axis labels as a list of comparable plain values."""
    if x is None:
        return None
    out = []
    for v in x:
        if isinstance(v, (np.datetime64, pd.Timestamp)) or hasattr(v, "isoformat"):
            out.append(("t", pd.Timestamp(v).value))
        elif isinstance(v, (str, np.str_)):
            out.append(("s", str(v)))
        else:
            out.append(("n", float(v)))
    return out


def need_lab(got, want, what):
    g, w = lab(got), lab(want)
    need(g == w, "%s: labels %s, expected %s" % (what, g, w))


def need_num(got, want, what):
    g, w = num(got), np.asarray(want, dtype=float)
    need(g.shape == w.shape and same(g, w, rtol=1e-9, atol=1e-9),
         "%s: values %s, expected %s" % (what, g.tolist(), w.tolist()))


def need_xy(tr, x, y, what):
    need_lab(tr.x, x, what + " x")
    need_num(tr.y, y, what + " y")


def named(fig):
    """Visible traces by name."""
    out = {}
    for t in fig.data:
        if t.name is not None:
            need(t.name not in out, "trace %s appears twice" % t.name)
            out[t.name] = t
    return out


def rects(fig):
    return [s for s in fig.layout.shapes if s.type == "rect"]


def hlines(fig):
    return [float(s.y0) for s in fig.layout.shapes if s.type == "line" and s.y0 == s.y1]


def need_hline(fig, y, what):
    need(any(same(v, y) for v in hlines(fig)), "%s: horizontal lines at %s, expected %s" % (what, hlines(fig), y))


INDEX = st.sampled_from(["date", "int", "str", "off"])


def index_of(kind, n):
    if kind == "date":
        return pd.date_range("2020-01-01", periods=n, freq="D")
    if kind == "str":
        return pd.Index(["r%d" % i for i in range(n)])
    if kind == "off":
        return pd.Index([10 + 3 * i for i in range(n)])
    return pd.RangeIndex(n)


VAL = st.one_of(st.integers(-5, 9).map(float), st.integers(-500, 900).map(lambda x: x / 100.0))


# ---------------------------------------------------------------- trace updaters

def quant(d, q):
    """Linear-interpolation quantile."""
    d = sorted(d)
    pos = q * (len(d) - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(d) - 1)
    return d[lo] + (d[hi] - d[lo]) * (pos - lo)


def dist_ref(col, case):
    d = [v for v in col if not (case["remove_nan"] and math.isnan(v))]
    lo = quant(d, case["from_q"]) if case["from_q"] is not None else -math.inf
    hi = quant(d, case["to_q"]) if case["to_q"] is not None else math.inf
    eps = 1e-12
    if any(abs(v - b) < 1e-9 and v != b for v in d for b in (lo, hi) if not math.isinf(b)):
        return None
    return [v for v in d if (math.isnan(v) and case["from_q"] is None and case["to_q"] is None)
            or lo - eps <= v <= hi + eps]


def check_widgets(case):
    setup()
    kind = case["kind"]
    labels = []
    fig = None
    pre = 0
    if case["into"]:
        fig = vbt.make_figure()
        fig.add_trace(go.Scatter(x=[1, 2], y=[7.0, 8.0], name="pre"))
        pre = 1

    def check_pre(f):
        if pre:
            need(f is fig, "%s: a new figure was made although one was passed" % kind)
            need(f.data[0].name == "pre" and list(f.data[0].y) == [7.0, 8.0], "%s: changed a trace of the passed figure" % kind)

    if kind == "gauge":
        vals = [fl(v) for v in case["vals"]]
        rng = None if case["range"] is None else (min(case["range"]), max(case["range"]))
        g = plotting.Gauge(value=vals[0] if case["initial"] else None, label="lbl", value_range=rng, fig=fig)
        hist = []
        for k, v in enumerate(vals):
            if k > 0 or not case["initial"]:
                g.update(v)
            hist.append(v)
            t = g.traces[0]
            need(t.value == v, "gauge shows %s after updates %s" % (t.value, hist))
            need(t.delta.reference == (hist[-2] if len(hist) > 1 else None), "gauge delta reference %s after %s" % (t.delta.reference, hist))
            allv = hist + (list(rng) if rng else [])
            need(tuple(g.value_range) == (min(allv), max(allv)), "gauge range %s after %s from %s" % (g.value_range, hist, rng))
            need(tuple(t.gauge.axis.range) == (min(allv), max(allv)), "gauge axis range %s" % (t.gauge.axis.range,))
        need(t.title.text == "lbl", "gauge label")
        check_pre(g.fig)
        need(len(g.fig.data) == pre + 1, "gauge: %d traces" % len(g.fig.data))
        return ["nt"] if len(vals) > 1 else []

    n, m = case["n"], case["m"]
    datas = [arr(d) for d in case["datas"]]
    names = None if case["names"] is None else ["t%d" % j if case["names"] == "str" else j + 5 for j in range(m)]
    index = index_of(case["index"], n) if case["labels"] else None
    one = case["one"] and m == 1
    wrap = (lambda d: d[:, 0]) if one else (lambda d: d)
    if kind in ("bar", "scatter", "hist", "box"):
        kw = {}
        if kind in ("bar", "scatter"):
            kw["x_labels"] = index
        else:
            kw = dict(horizontal=case["horizontal"], remove_nan=case["remove_nan"], from_quantile=case["from_q"], to_quantile=case["to_q"])
        if case["tk"] == "dict":
            kw["trace_kwargs"] = dict(opacity=0.5)
        elif case["tk"] == "list":
            kw["trace_kwargs"] = [dict(name="over%d" % j) if j % 2 == 0 else None for j in range(m)]
        cls = dict(bar=plotting.Bar, scatter=plotting.Scatter, hist=plotting.Histogram, box=plotting.Box)[kind]
        late = case["late"] and names is not None
        tn = names[0] if one and names is not None and case["names"] == "str" else names
        obj = cls(data=None if late else wrap(datas[0]), trace_names=names if not late else tn, fig=fig, **kw)
        check_pre(obj.fig)
        need(len(obj.traces) == m and len(obj.fig.data) == m + pre, "%s: %d traces of %d" % (kind, len(obj.traces), len(obj.fig.data)))
        for step, d in enumerate(datas):
            if step > 0 or late:
                obj.update(wrap(d))
            for j in range(m):
                t = obj.fig.data[pre + j]
                what = "%s trace %d after %d updates" % (kind, j, step)
                want_name = "over%d" % j if case["tk"] == "list" and j % 2 == 0 else None if names is None else str(names[j])
                need(t.name == want_name, "%s: name %r, expected %r" % (what, t.name, want_name))
                if case["tk"] == "dict":
                    need(t.opacity == 0.5, "%s: trace_kwargs ignored" % what)
                if kind in ("bar", "scatter"):
                    need_num(t.y, d[:, j], what)
                    need_lab(t.x, index, what)
                else:
                    want = dist_ref(d[:, j].tolist(), case)
                    if want is None:
                        continue
                    horiz = case["horizontal"]
                    on_x = (not horiz) if kind == "hist" else horiz
                    need_num(t.x if on_x else t.y, want, what)
                    need((t.y if on_x else t.x) is None, "%s: both axes carry data" % what)
        check_pre(obj.fig)
        labels.append("nt")
    elif kind == "heatmap":
        ix, iy = (["c%d" % j for j in range(m)] if case["labels"] else None), index
        if case["labels"] and case["tuples"]:
            ix = pd.MultiIndex.from_tuples([("p", j) for j in range(m)])
        late = case["late"] and ix is not None
        obj = plotting.Heatmap(data=None if late else datas[0], x_labels=ix, y_labels=iy, is_x_category=case["horizontal"],
                               is_y_category=case["remove_nan"], fig=fig)
        check_pre(obj.fig)
        for step, d in enumerate(datas):
            if step > 0 or late:
                obj.update(d)
            t = obj.fig.data[pre]
            need_num(t.z, d, "heatmap after %d updates" % step)
            need_lab(t.x, None if ix is None else [str(v) for v in ix] if case["tuples"] else ix, "heatmap x")
            need_lab(t.y, iy, "heatmap y")
        need((obj.fig.layout.xaxis.type == "category") == case["horizontal"], "heatmap x category flag")
        need((obj.fig.layout.yaxis.type == "category") == case["remove_nan"], "heatmap y category flag")
        labels.append("nt")
    else:
        shape = (n, m, 2)
        datas = [np.stack([d, d * 2 + 1], axis=2) for d in datas]
        sets = [None, None, None]
        for a in range(3):
            if case["axes"][a] == "str":
                sets[a] = ["%s%d" % ("uvw"[a], k) for k in range(shape[a])]
            elif case["axes"][a] == "num":
                sets[a] = [10 * a + 3 * k for k in range(shape[a])]
        late = case["late"] and all(s is not None for s in sets)
        obj = plotting.Volume(data=None if late else datas[0], x_labels=sets[0], y_labels=sets[1], z_labels=sets[2], fig=fig)
        check_pre(obj.fig)
        for step, d in enumerate(datas):
            if step > 0 or late:
                obj.update(d)
            read_volume(obj.fig, obj.fig.data[pre], [list(range(k)) if s is None else s for s, k in zip(sets, shape)], d, "volume")
        labels.append("nt" if sum(a == "str" for a in case["axes"]) >= 2 else "plain")
    return labels


def read_volume(fig, t, sets, d, what):
    """Every cell appears once, at the coordinates of its labels."""
    scene = fig.layout.scene
    back = []
    for ax, coords, s in zip("xyz", (t.x, t.y, t.z), sets):
        axis = scene[ax + "axis"]
        if isinstance(s[0], str):
            need(axis.ticktext is not None and axis.tickvals is not None and axis.tickmode == "array",
                 "%s: the %s axis has no tick text" % (what, ax))
            tick = dict(zip([float(v) for v in axis.tickvals], [str(v) for v in axis.ticktext]))
            need(sorted(tick.values()) == sorted(s), "%s: %s tick text %s, expected %s" % (what, ax, tick, s))
            back.append([tick[float(v)] for v in coords])
        else:
            back.append([float(v) for v in coords])
    val = num(t.value)
    got = {}
    for k in zip(*back, range(len(val))):
        need(k[:3] not in got, "%s: cell %s twice" % (what, k[:3]))
        got[k[:3]] = val[k[3]]
    need(len(got) == d.size, "%s: %d cells of %d" % (what, len(got), d.size))
    for i, a in enumerate(sets[0]):
        for j, b in enumerate(sets[1]):
            for k, c in enumerate(sets[2]):
                need((a, b, c) in got and same(got[(a, b, c)], d[i, j, k]),
                     "%s: cell %s shows %s, expected %s" % (what, (a, b, c), got.get((a, b, c)), d[i, j, k]))


@st.composite
def widgets_st(draw):
    kind = draw(st.sampled_from(["bar", "scatter", "hist", "box", "heatmap", "volume", "gauge", "volume", "hist"]))
    if kind == "gauge":
        return dict(kind=kind, vals=draw(st.lists(VAL, min_size=1, max_size=4)), initial=draw(st.booleans()),
                    range=draw(st.one_of(st.none(), st.lists(VAL, min_size=2, max_size=2))), into=False)
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    elem = VAL if kind in ("hist", "box") and draw(st.booleans()) else maybe_nan(VAL, 6)
    datas = draw(st.lists(matrix(elem, n, m), min_size=1, max_size=3))
    if kind in ("hist", "box"):
        # at least one known value per column
        for d in datas:
            for j in range(m):
                if all(r[j] is None for r in d):
                    d[0][j] = 1.0
    qs = st.sampled_from([None, None, 0.0, 0.25, 0.5])
    rn = draw(weighted((3, True), (1, False)))
    fq, tq = draw(qs), draw(st.sampled_from([None, None, 1.0, 0.75, 0.5]))
    if kind in ("hist", "box") and any(v is None for d in datas for r in d for v in r) and (fq is not None or tq is not None):
        rn = True
    return dict(kind=kind, n=n, m=m, datas=datas, names=draw(st.sampled_from([None, "str", "int"])), labels=draw(st.booleans()),
                index=draw(INDEX), one=draw(st.booleans()), horizontal=draw(st.booleans()), remove_nan=rn, from_q=fq, to_q=tq,
                tk=draw(st.sampled_from([None, "dict", "list"])), late=draw(st.booleans()), tuples=draw(st.booleans()),
                axes=draw(vec(st.sampled_from([None, "str", "num", "str"]), 3)), into=draw(st.booleans()))


# ---------------------------------------------------------------- accessors

def check_acc(case):
    setup()
    n, m = case["n"], case["m"]
    a = arr(case["data"])
    index = index_of(case["index"], n)
    columns = pd.Index(list("abc"[:m]))
    if case["series"]:
        obj = pd.Series(a[:, 0], index=index, name=case["name"])
        names = [None if case["name"] is None else str(case["name"])]
        a = a[:, :1]
    else:
        obj = pd.DataFrame(a, index=index, columns=columns)
        names = list(columns)
    kind = case["kind"]
    m = a.shape[1]
    if kind in ("plot", "lineplot", "scatterplot", "barplot"):
        kw = {}
        if case["names"]:
            names = ["x%d" % j for j in range(m)]
            kw["trace_names"] = names
        xl = index
        if case["labels"]:
            xl = ["L%d" % i for i in range(n)]
            kw["x_labels"] = xl
        out = getattr(obj.vbt, kind)(return_fig=case["ret"], **kw)
        fig = out if case["ret"] else out.fig
        need(len(fig.data) == m, "%s: %d traces" % (kind, len(fig.data)))
        for j, t in enumerate(fig.data):
            need(t.name == names[j], "%s: trace %d is named %r, expected %r" % (kind, j, t.name, names[j]))
            need(t.type == ("bar" if kind == "barplot" else "scatter"), "%s: trace type %s" % (kind, t.type))
            if kind in ("lineplot", "scatterplot"):
                need(t.mode == ("lines" if kind == "lineplot" else "markers"), "%s: mode %s" % (kind, t.mode))
            need_xy(t, xl, a[:, j], "%s trace %d" % (kind, j))
        return ["nt"] if n > 1 else []
    if kind in ("histplot", "boxplot"):
        kw = {}
        parts = [[j] for j in range(m)]
        if case["group"] and not case["series"]:
            lens, k, parts = case["glens"], 0, []
            gb = []
            for g, ln in enumerate(lens):
                parts.append(list(range(k, k + ln)))
                gb += ["g%d" % g] * ln
                k += ln
            kw["group_by"] = pd.Index(gb, name="grp")
            names = ["g%d" % g for g in range(len(lens))]
        out = getattr(obj.vbt, kind)(return_fig=case["ret"], **kw)
        if case["ret"]:
            need(not isinstance(out, plotting.TraceUpdater), "%s: no figure returned" % kind)
        else:
            need(isinstance(out, plotting.Histogram if kind == "histplot" else plotting.Box), "%s: return_fig=False returned %s" % (kind, type(out)))
        fig = out if case["ret"] else out.fig
        need(len(fig.data) == len(parts), "%s: %d traces" % (kind, len(fig.data)))
        for g, t in enumerate(fig.data):
            need(t.name == names[g], "%s: trace %d is named %r, expected %r" % (kind, g, t.name, names[g]))
            want = sorted(v for j in parts[g] for v in a[:, j] if not math.isnan(v))
            need_num(np.sort(num(t.x if kind == "histplot" else t.y)), want, "%s trace %d" % (kind, g))
        return ["nt"] if n > 1 else []
    if kind == "ts_heatmap":
        t = obj.vbt.ts_heatmap().data[0]
        ys = ["0" if c is None else c for c in names]
        need_lab(t.x, index, "ts_heatmap x")
        if case["series"] and case["name"] is None:
            need(len(t.y) == 1, "ts_heatmap y")
        else:
            need([str(v) for v in t.y] == ys[::-1], "ts_heatmap y")
        need_num(t.z, a.T[::-1], "ts_heatmap")
        return ["nt"] if n > 1 else []
    if kind == "heatmap":
        t = obj.vbt.heatmap().data[0]
        if not (case["series"] and case["name"] is None):
            need([str(v) for v in t.x] == names, "heatmap x")
        need_lab(t.y, index, "heatmap y")
        need_num(t.z, a, "heatmap")
        return ["nt"] if n > 1 else []
    if kind == "qqplot":
        col = np.array([v if not math.isnan(v) else 1.5 for v in a[:, 0]] + [0.25, 7.5])
        sr = pd.Series(col)
        fig = sr.vbt.qqplot(plot_line=case["labels"])
        k = len(col)
        p = [(i - 0.3175) / (k + 0.365) for i in range(1, k + 1)]
        p[-1] = 0.5 ** (1.0 / k)
        p[0] = 1 - p[-1]
        need_num(num(fig.data[0].x), [NormalDist().inv_cdf(q) for q in p], "qqplot x")
        need_num(num(fig.data[0].y), sorted(col), "qqplot y")
        if case["labels"]:
            s = fig.layout.shapes[0]
            x = np.array([NormalDist().inv_cdf(q) for q in p])
            b = float(((x - x.mean()) * (np.sort(col) - col.mean())).sum() / ((x - x.mean()) ** 2).sum())
            c = float(col.mean() - b * x.mean())
            need(same([s.x0, s.x1, s.y0, s.y1], [x[0], x[-1], c + b * x[0], c + b * x[-1]], rtol=1e-6, atol=1e-6),
                 "qqplot line %s" % [s.x0, s.y0, s.x1, s.y1])
        return ["nt"]
    # overlay_with_heatmap
    sr = pd.Series(a[:, 0], index=index, name="a")
    other = pd.Series(arr(case["other"]), index=index, name="o")
    fig = sr.vbt.overlay_with_heatmap(other)
    hm = [t for t in fig.data if t.type == "heatmap"]
    ln = [t for t in fig.data if t.type == "scatter"]
    need(len(hm) == 1 and len(ln) == 1, "overlay_with_heatmap: traces %s" % [t.type for t in fig.data])
    need_num(hm[0].z, [other.tolist()], "overlay heatmap")
    need_lab(hm[0].x, index, "overlay heatmap x")
    need_xy(ln[0], index, a[:, 0], "overlay line")
    need(ln[0].yaxis == "y2", "overlay line is on axis %s" % ln[0].yaxis)
    return ["nt"] if n > 1 else []


@st.composite
def acc_st(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    glens, k = [], m
    while k:
        g = draw(st.integers(1, k))
        glens.append(g)
        k -= g
    return dict(n=n, m=m, data=draw(matrix(maybe_nan(VAL, 6), n, m)), index=draw(INDEX), series=draw(weighted((1, True), (2, False))),
                name=draw(st.sampled_from(["a", None, 3])), names=draw(st.booleans()), labels=draw(st.booleans()),
                ret=draw(st.booleans()), group=draw(st.booleans()), glens=glens, other=draw(vec(VAL, n)),
                kind=draw(st.sampled_from(["plot", "lineplot", "scatterplot", "barplot", "histplot", "boxplot", "ts_heatmap", "heatmap",
                                           "qqplot", "overlay", "histplot", "boxplot"])))


def need_against(fig, index, main, other, what, main_name=None):
    """Areas above and below, the two lines."""
    main, other = np.asarray(main, float), np.asarray(other, float)
    pos, neg = main > other, main < other
    want = [np.where(msk, main, other) for msk in (pos, neg) if msk.any()]
    fills = [i for i, t in enumerate(fig.data) if getattr(t, "fill", None) == "tonexty"]
    need(len(fills) == len(want), "%s: %d filled areas, expected %d" % (what, len(fills), len(want)))
    for i, w in zip(fills, want):
        need_xy(fig.data[i], index, w, what + " filled area")
        need_xy(fig.data[i - 1], index, other, what + " edge of the filled area")
    lines = [t for i, t in enumerate(fig.data) if i not in fills and i + 1 not in fills]
    if main_name is not None:
        lines = [t for t in lines if t.name == main_name] + [t for t in lines if t.name != main_name]
    need(len(lines) >= 2, "%s: lines missing" % what)
    need_xy(lines[0], index, main, what + " line")
    need_xy(lines[1], index, other, what + " reference line")


def check_against(case):
    setup()
    n = case["n"]
    index = index_of(case["index"], n)
    if case["int"]:
        main = pd.Series([0 if v is None else int(v) for v in case["data"]], index=index, name="m")
    else:
        main = pd.Series(arr(case["data"]), index=index, name="m")
    labels = []
    if case["mode"] == "against":
        other = fl(case["scalar"]) if case["scalar"] is not None else pd.Series(arr(case["other"]), index=index, name="o")
        if case["scalar"] is not None and case["int_scalar"]:
            other = int(other)
        before = main.copy()
        fig = main.vbt.plot_against(other, other_trace_kwargs="hidden" if case["hidden"] else None)
        need(main.equals(before), "plot_against changed its input")
        oth = np.full(n, float(other)) if case["scalar"] is not None else other.values
        need_against(fig, index, main.values, oth, "plot_against")
        need(fig.data[-2].name == "m", "plot_against: name %r" % fig.data[-2].name)
        if ((main.values > oth).any() and (main.values < oth).any()):
            labels.append("nt")
        return labels
    rets = pd.Series(arr(case["data"]) / 20, index=index, name="m")
    bench = pd.Series(arr(case["other"]) / 20, index=index, name="b") if case["bench"] else None
    sv = case["start"]
    fig = rets.vbt.returns(freq="D").plot_cumulative(benchmark_rets=bench, start_value=sv, fill_to_benchmark=case["fill"])
    cum = lambda r: np.cumprod(1 + np.where(np.isnan(r), 0, r)) * (sv if sv != 0 else 1) - (1 if sv == 0 else 0)
    main = cum(rets.values)
    ref = np.full(n, float(sv))
    if bench is not None:
        t = named(fig)
        need("Benchmark" in t, "plot_cumulative: no benchmark in %s" % list(t))
        need_xy(t["Benchmark"], index, cum(bench.values), "plot_cumulative benchmark")
        if case["fill"]:
            ref = cum(bench.values)
        fig = go.Figure(data=[x for x in fig.data if x.name != "Benchmark" or x.opacity == 0], layout=fig.layout)
    need_against(fig, index, main, ref, "plot_cumulative", main_name="m")
    need_hline(fig, sv, "plot_cumulative")
    return ["nt"] if n > 1 else []


@st.composite
def against_st(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, data=draw(vec(maybe_nan(VAL, 8), n)), other=draw(vec(maybe_nan(VAL, 8), n)), index=draw(INDEX), int=draw(st.booleans()),
                mode=draw(st.sampled_from(["against", "against", "cumulative"])),
                scalar=draw(st.one_of(st.none(), VAL)), int_scalar=draw(st.booleans()), hidden=draw(st.booleans()),
                bench=draw(st.booleans()), start=draw(st.sampled_from([1, 0, 100])), fill=draw(st.booleans()))


# ---------------------------------------------------------------- heatmaps and volumes of index levels

LV = {"str": ["p", "q", "r"], "num": [10, 20, 35]}


def check_levels(case):
    setup()
    kinds, names = case["kinds"], case["names"]
    keys = [tuple(LV[k][v] for k, v in zip(kinds, t)) for t in case["keys"]]
    vals = [fl(v) for v in case["vals"]]
    k = len(kinds)
    mi = pd.MultiIndex.from_tuples(keys, names=names)
    sr = pd.Series(vals, index=mi, name="v")
    order = case["order"]          # positions of x, y (, z) (, slider)
    ref = lambda p: names[p] if case["by_name"] and names[p] is not None else p
    kw = {}
    dims = case["dims"]
    explicit = k != dims or case["explicit"]
    slider = order[dims] if case["slider"] else None
    if case["slider"]:
        kw["slider_level"] = ref(slider)
    ax = order[:dims] if explicit else [p for p in range(k) if p != slider][:dims]
    if explicit:
        for nm, p in zip(("x_level", "y_level", "z_level"), ax):
            kw[nm] = ref(p)
    used = set(ax) | ({slider} if slider is not None else set())
    if len(used) < k:
        return []
    if dims == 2:
        sym = case["symmetric"] and kinds[ax[0]] == kinds[ax[1]]
        if sym:
            kw["symmetric"] = True
        steps = {}
        for key, v in zip(keys, vals):
            s = key[slider] if slider is not None else None
            d = steps.setdefault(s, {})
            x, y = key[ax[0]], key[ax[1]]
            if sym and (y, x) in d and x != y:
                return []
            d[(x, y)] = v
        fig = sr.vbt.heatmap(**kw)
        if slider is not None:
            names_ = sorted(steps)
            need([t.name for t in fig.data] == [str(s) for s in names_], "heatmap slider traces %s, expected %s" % ([t.name for t in fig.data], names_))
            need([bool(t.visible) for t in fig.data] == [i == 0 for i in range(len(names_))], "heatmap slider visibility")
            st_ = fig.layout.sliders[0].steps
            need([s.label for s in st_] == [str(s) for s in names_], "heatmap slider labels")
            for i, s in enumerate(st_):
                need(list(s.args[0]["visible"]) == [j == i for j in range(len(names_))], "heatmap slider step %d shows %s" % (i, s.args[0]))
        for t, s in zip(fig.data, sorted(steps) if slider is not None else [None]):
            cells = dict(steps[s])
            if sym:
                cells.update({(y, x): v for (x, y), v in steps[s].items()})
            xs, ys = list(t.x), list(t.y)
            wx, wy = sorted({x for x, _ in cells}), sorted({y for _, y in cells})
            if sym:
                wx = wy = sorted(set(wx) | set(wy))
            need_lab(xs, wx, "heatmap step %s x" % s)
            need_lab(ys, wy, "heatmap step %s y" % s)
            z = num(t.z)
            for i, y in enumerate(wy):
                for j, x in enumerate(wx):
                    w = cells.get((x, y), NAN)
                    need(same(z[i][j], w), "heatmap step %s shows %s at x=%s y=%s, expected %s" % (s, z[i][j], x, y, w))
        return ["nt"] if len(keys) >= 3 else []
    # volume: complete grid
    sets = [sorted({key[p] for key in keys}) for p in ax]
    groups = sorted({key[slider] for key in keys}) if slider is not None else [None]
    full = dict(zip(keys, vals))
    idx, new = [], []
    rng = 0
    for s in groups:
        for x in sets[0]:
            for y in sets[1]:
                for z in sets[2]:
                    key = [None] * k
                    for p, v in zip(ax, (x, y, z)):
                        key[p] = v
                    if slider is not None:
                        key[slider] = s
                    idx.append(tuple(key))
                    new.append(full.get(tuple(key), 100.0 + rng))
                    rng += 1
    perm = sorted(range(len(idx)), key=lambda i: (i * 7919) % 101)
    full = dict(zip(idx, new))
    sr = pd.Series([new[i] for i in perm], index=pd.MultiIndex.from_tuples([idx[i] for i in perm], names=names), name="v")
    if case["symmetric"]:
        kw["fillna"] = -3.0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = sr.vbt.volume(**kw)
    need(len(fig.data) == len(groups), "volume: %d traces" % len(fig.data))
    for i, (s, t) in enumerate(zip(groups, fig.data)):
        d = np.empty([len(a) for a in sets])
        for key, v in full.items():
            if slider is None or key[slider] == s:
                d[tuple(a.index(key[p]) for a, p in zip(sets, ax))] = v
        if case["symmetric"]:
            d = np.where(np.isnan(d), -3.0, d)
        read_volume(fig, t, sets, d, "volume step %s" % s)
        if slider is not None:
            need(t.name == str(s) and bool(t.visible) == (i == 0), "volume slider trace %d" % i)
            need(list(fig.layout.sliders[0].steps[i].args[0]["visible"]) == [j == i for j in range(len(groups))], "volume slider step %d" % i)
    return ["nt"] if len(idx) >= 4 else []


@st.composite
def levels_st(draw):
    dims = draw(st.sampled_from([2, 2, 3]))
    slider = draw(st.booleans())
    k = dims + slider
    kinds = [draw(st.sampled_from(["str", "num"])) for _ in range(k)]
    keys = draw(st.lists(st.tuples(*[st.integers(0, 2)] * k), min_size=2, max_size=8, unique=True).map(lambda x: [list(t) for t in x]))
    return dict(dims=dims, slider=slider, kinds=kinds, names=["l%d" % i for i in range(k)] if draw(weighted((3, True), (1, False))) else [None] * k,
                keys=keys, vals=draw(vec(maybe_nan(VAL, 9), len(keys))), order=list(draw(st.permutations(range(k)))),
                by_name=draw(st.booleans()), explicit=draw(st.booleans()), symmetric=draw(weighted((1, True), (2, False))))


# ---------------------------------------------------------------- portfolios

def build_pf(case):
    n, m = case["n"], case["m"]
    index = pd.date_range("2020-01-01", periods=n, freq="D") if case["dates"] else pd.RangeIndex(n)
    close = pd.DataFrame(arr(case["close"]), index=index, columns=pd.Index(list("abc"[:m]), name="sym"))
    size = pd.DataFrame(arr(case["size"]), index=index, columns=close.columns)
    kw = {}
    if case["group"]:
        kw["group_by"] = pd.Index(["g%d" % g for g in case["group"]])
        kw["cash_sharing"] = case["cs"]
    return vbt.Portfolio.from_orders(close, size, fees=case["fees"], fixed_fees=case["fixed"], init_cash=case["cash"], freq="D", **kw), index


@st.composite
def pf_st(draw, group=True, m=None):
    n = draw(st.sampled_from([6, 4, 8, 3]))
    m = m or draw(st.sampled_from([2, 3]))
    sz = st.sampled_from([0, 0, 1, 2, -1, -2, 3, -3, 0.5])
    g = None
    if group and draw(st.booleans()):
        g = sorted(draw(vec(st.integers(0, 1), m)))
    return dict(n=n, m=m, close=draw(price_path(n, m)), size=[[float(v) for v in r] for r in draw(matrix(sz, n, m))],
                fees=draw(st.sampled_from([0.0, 0.01])), fixed=draw(st.sampled_from([0.0, 0.5])), cash=draw(st.sampled_from([1000.0, 100.0])),
                group=g, cs=draw(st.booleans()), dates=draw(st.booleans()), col=draw(st.integers(0, m - 1)))


def ids(t):
    return [int(float(np.atleast_1d(r)[0])) for r in t.customdata]


def need_markers(traces, name, rows, index, xf, yf, what, cols=()):
    """The trace `name` shows exactly these records."""
    if not rows:
        need(name not in traces, "%s: trace %s although there is nothing to show" % (what, name))
        return
    need(name in traces, "%s: no trace %s in %s" % (what, name, list(traces)))
    t = traces[name]
    need_xy(t, [index[int(r[xf])] for r in rows], [float(r[yf]) if isinstance(yf, str) else yf(r) for r in rows], "%s %s" % (what, name))
    need(ids(t) == [int(r["id"]) for r in rows], "%s %s: ids %s" % (what, name, ids(t)))
    for pos, f in cols:
        got = [float(np.atleast_1d(r)[pos]) for r in t.customdata]
        need(same(got, [float(r[f]) for r in rows]), "%s %s: %s shown as %s, expected %s" % (what, name, f, got, [float(r[f]) for r in rows]))


def need_zones(fig, rows, index, color, what, x0="entry_idx", x1="exit_idx", y0="entry_price", y1="exit_price"):
    got = [s for s in rects(fig) if s.fillcolor == color]
    need(len(got) == len(rows), "%s: %d %s zones, expected %d" % (what, len(got), color, len(rows)))
    for s, r in zip(got, rows):
        need_lab([s.x0, s.x1], [index[int(r[x0])], index[int(r[x1])]], "%s %s zone" % (what, color))
        if y0:
            need(same([s.y0, s.y1], [r[y0], r[y1]]), "%s %s zone from %s to %s, expected %s to %s" % (what, color, s.y0, s.y1, r[y0], r[y1]))


def check_pf_records(case):
    setup()
    pf, index = build_pf(case)
    c = case["col"]
    col = "abc"[c]
    kind = case["kind"]
    close = arr(case["close"])[:, c]
    kw = dict(column=col)
    if kind == "orders":
        recs = [r for r in pf.orders.values if r["col"] == c]
        obj = pf.orders
        fig = pf.plot_orders(**kw) if case["direct"] else obj.regroup(False).plot(**kw)
        t = named(fig)
        need_xy(t["Close"], index, close, "orders close")
        need(set(t) <= {"Close", "Buy", "Sell"}, "orders: traces %s" % list(t))
        for nm, side in (("Buy", 0), ("Sell", 1)):
            need_markers(t, nm, [r for r in recs if r["side"] == side], index, "idx", "price", "orders", [(1, "size"), (2, "fees")])
        return ["nt"] if len({int(r["side"]) for r in recs}) == 2 else []
    typ = case["type"]
    obj = dict(entry=pf.entry_trades, exit=pf.exit_trades, pos=pf.positions)[typ]
    recs = [r for r in obj.values if r["col"] == c]
    closed = lambda r: r["status"] == 1
    off = 0 if typ == "pos" else 1
    if kind == "pnl":
        pct = case["pct"]
        if case["direct"] and typ == "pos":
            fig = pf.plot_position_pnl(pct_scale=pct, **kw)
        elif case["direct"] and typ == "exit":
            fig = pf.plot_trade_pnl(pct_scale=pct, **kw)
        else:
            fig = obj.regroup(False).plot_pnl(pct_scale=pct, **kw)
        t = named(fig)
        need(set(t) <= {"Closed - Profit", "Closed - Loss", "Open"}, "plot_pnl: traces %s" % list(t))
        y = "return" if pct else "pnl"
        extra = [(off + 1, "pnl"), (off + 2, "return")]
        need_markers(t, "Closed - Profit", [r for r in recs if closed(r) and r["pnl"] > 0], index, "exit_idx", y, "plot_pnl", extra)
        need_markers(t, "Closed - Loss", [r for r in recs if closed(r) and r["pnl"] < 0], index, "exit_idx", y, "plot_pnl", extra)
        need_markers(t, "Open", [r for r in recs if not closed(r) and r["pnl"] != 0], index, "exit_idx", y, "plot_pnl", extra)
        need_hline(fig, 0, "plot_pnl")
        return ["nt"] if len(recs) >= 2 else []
    if case["direct"] and typ == "pos":
        fig = pf.plot_positions(plot_zones=case["zones"], **kw)
    elif case["direct"] and typ == "exit":
        fig = pf.plot_trades(plot_zones=case["zones"], **kw)
    else:
        fig = obj.regroup(False).plot(plot_zones=case["zones"], **kw)
    t = named(fig)
    need(set(t) <= {"Close", "Entry", "Exit", "Exit - Profit", "Exit - Loss", "Active"}, "trades: traces %s" % list(t))
    need_xy(t["Close"], index, close, "trades close")
    need_markers(t, "Entry", recs, index, "entry_idx", "entry_price", "trades", [(off + 1, "size"), (off + 2, "entry_fees")])
    extra = [(off + 1, "size"), (off + 2, "exit_fees"), (off + 3, "pnl"), (off + 4, "return")]
    need_markers(t, "Exit", [r for r in recs if closed(r) and r["pnl"] == 0], index, "exit_idx", "exit_price", "trades", extra)
    need_markers(t, "Exit - Profit", [r for r in recs if closed(r) and r["pnl"] > 0], index, "exit_idx", "exit_price", "trades", extra)
    need_markers(t, "Exit - Loss", [r for r in recs if closed(r) and r["pnl"] < 0], index, "exit_idx", "exit_price", "trades", extra)
    need_markers(t, "Active", [r for r in recs if not closed(r)], index, "exit_idx", "exit_price", "trades", extra)
    for r, cd in zip(recs, t["Entry"].customdata if recs else []):
        need(str(cd[off + 3]) == ("Long", "Short")[int(r["direction"])], "trades: direction shown as %s" % cd[off + 3])
    z = case["zones"]
    need_zones(fig, [r for r in recs if r["pnl"] > 0] if z else [], index, "green", "trades")
    need_zones(fig, [r for r in recs if r["pnl"] < 0] if z else [], index, "red", "trades")
    return ["nt"] if len(recs) >= 2 else []


@st.composite
def pf_records_st(draw):
    case = draw(pf_st())
    case.update(kind=draw(st.sampled_from(["orders", "trades", "pnl", "trades"])), type=draw(st.sampled_from(["exit", "entry", "pos"])),
                direct=draw(st.booleans()), pct=draw(st.booleans()), zones=draw(weighted((3, True), (1, False))))
    return case


SERIES = ["asset_flow", "cash_flow", "assets", "cash", "asset_value", "value", "cum_returns", "underwater", "gross_exposure", "net_exposure"]
UNGROUPED = ("asset_flow", "assets")
TRACE = dict(asset_flow="Assets", cash_flow="Cash", assets="Assets", cash="Cash", asset_value="Asset Value", value="Value",
             cum_returns="Value", underwater="Drawdown", gross_exposure="Exposure", net_exposure="Exposure")


def pick(obj, key):
    if isinstance(obj, pd.DataFrame):
        return obj[key]
    return obj


def series_expect(pf, kind, g, key, case):
    """The plotted series, its reference level or None."""
    kw = {} if kind in UNGROUPED else dict(group_by=g)
    if kind in ("asset_flow", "assets", "asset_value", "gross_exposure"):
        kw["direction"] = case["direction"]
    if kind in ("cash_flow", "cash"):
        kw["free"] = case["free"]
    name = dict(cum_returns="returns", underwater="drawdown").get(kind, kind)
    if kind == "cum_returns" and case["free"]:
        name = "asset_returns"
    y = pick(getattr(pf, name)(**kw), key).values
    level = dict(assets=0, asset_value=0, gross_exposure=1, net_exposure=0).get(kind)
    if kind in ("cash", "value"):
        ic = pf.get_init_cash(group_by=g)
        level = float(ic[key]) if isinstance(ic, pd.Series) else float(ic)
    return y, level


def check_pf_series(case):
    setup()
    pf, index = build_pf(case)
    kind = case["kind"]
    c = case["col"]
    grouped = case["group"] is not None
    g = None
    if grouped and case["ungroup"] and not case["cs"]:
        g = False
    by_group = grouped and g is None and kind not in UNGROUPED
    key = "g%d" % case["group"][c] if by_group else "abc"[c]
    column = key
    if by_group and len(set(case["group"])) == 1:
        column = None
    elif case["by_pos"]:
        column = sorted(set(case["group"])).index(case["group"][c]) if by_group else c
    kw = {} if kind in UNGROUPED else dict(group_by=g)
    if kind in ("asset_flow", "assets", "asset_value", "gross_exposure"):
        kw["direction"] = case["direction"]
    if kind in ("cash_flow", "cash"):
        kw["free"] = case["free"]
    if kind == "cum_returns":
        kw["use_asset_returns"] = case["free"]
    fig = getattr(pf, "plot_" + kind)(column=column, **kw)
    y, level = series_expect(pf, kind, g, key, case)
    t = [x for x in fig.data if x.name == TRACE[kind]]
    need(len(t) == 1, "plot_%s: traces %s" % (kind, [x.name for x in fig.data]))
    if kind == "cum_returns":
        cum = lambda r: np.cumprod(1 + np.where(np.isnan(r), 0, r))
        b = [x for x in fig.data if x.name == "Benchmark"]
        need(len(b) == 1, "plot_cum_returns: no benchmark")
        need_xy(b[0], index, cum(pick(pf.benchmark_returns(group_by=g), key).values), "plot_cum_returns benchmark")
        y = cum(y)
        need_hline(fig, 1, "plot_cum_returns")
    need_xy(t[0], index, y, "plot_%s of %s" % (kind, key))
    if level is not None:
        need_against(fig, index, y, np.full(len(index), level), "plot_%s of %s" % (kind, key), main_name=TRACE[kind])
        need_hline(fig, level, "plot_%s" % kind)
    elif kind != "cum_returns":
        need_hline(fig, 0, "plot_%s" % kind)
    return ["nt"] if len(set(np.round(np.nan_to_num(y), 9).tolist())) > 1 else []


@st.composite
def pf_series_st(draw):
    case = draw(pf_st())
    case.update(kind=draw(st.sampled_from(SERIES)), by_pos=draw(st.booleans()), ungroup=draw(st.booleans()), direction=draw(st.sampled_from(["both", "longonly", "shortonly"])),
                free=draw(st.booleans()))
    return case


def sig_of(t):
    """What a trace shows, apart from where."""
    d = t.to_plotly_json()
    for k in ("xaxis", "yaxis", "showlegend", "legendgroup", "uid"):
        d.pop(k, None)
    return repr(sorted((k, plain(v)) for k, v in d.items()))


def plain(v):
    if isinstance(v, dict):
        return sorted((k, plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple, np.ndarray, pd.Series, pd.Index)):
        return [plain(x) for x in np.asarray(v).tolist()] if len(v) else []
    if isinstance(v, float):
        return round(v, 10) if v == v else "nan"
    return v


ALL = ["orders", "trades", "trade_pnl"] + SERIES[:7] + ["drawdowns", "underwater", "gross_exposure", "net_exposure"]


def direct_fig(pf, name, key, g):
    if name == "orders":
        return pf.orders.regroup(g).plot(column=key)
    if name == "trades":
        return pf.trades.regroup(g).plot(column=key)
    if name == "trade_pnl":
        return pf.trades.regroup(g).plot_pnl(column=key)
    kw = {} if name in UNGROUPED else dict(group_by=g)
    return getattr(pf, "plot_" + name)(column=key, **kw)


def shape_of(s):
    one = lambda v: round(float(v), 9) if isinstance(v, (int, float, np.number)) else str(v)
    return (s.type, one(s.y0), one(s.y1)) + ((one(s.x0), one(s.x1)) if s.type == "rect" else ())


def axes_of(fig, t):
    return (t.xaxis or "x")[1:], (t.yaxis or "y")[1:]


def check_subplots(case):
    """Each requested subplot, in order and in its own cell, shows what its own plotting method shows."""
    setup()
    pf, index = build_pf(case)
    c = case["col"]
    grouped = case["group"] is not None and not (case["ungroup"] and not case["cs"])
    g = False if case["group"] is not None and not grouped else None
    key = "g%d" % case["group"][c] if grouped else "abc"[c]
    if grouped and len(set(case["group"])) == 1:
        key = None
    names = [ALL[i] for i in case["names"]]
    sett = {}
    kw = {}
    if case["titled"] and len(set(names)) == len(names):
        sett = {names[-1]: dict(title="Renamed")}
    if case["tag"] is not None:
        kw["tags"] = case["tag"]
    noted = []
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fig = pf.plots(subplots=names if not case["single"] else names[0], column=key, group_by=g, show_titles=True,
                       subplot_settings={k: v for k, v in sett.items() if not case["single"] or k == names[0]}, **kw)
    if case["single"]:
        names = names[:1]
    noted = [str(x.message) for x in w]
    shown = list(names)
    if case["tag"] is not None:
        shown = [x for x in shown if case["tag"] in pf.subplots[x]["tags"]]
    if grouped:
        hidden = [x for x in shown if x in ("orders", "trades", "trade_pnl", "asset_flow", "assets")]
        need(all(any("'%s" % h in msg or h in msg for msg in noted) for h in hidden), "no warning about %s: %s" % (hidden, noted))
        shown = [x for x in shown if x not in hidden]
    if not shown:
        need(fig is None, "plots: a figure without subplots")
        return []
    titles = [a.text for a in fig.layout.annotations]
    want_titles = [("Renamed" if x in sett and (not case["single"] or x == names[0]) else pf.subplots[x]["title"]) for x in shown]
    need(titles == want_titles, "plots: titles %s, expected %s" % (titles, want_titles))
    cells = {}
    for t in fig.data:
        cells.setdefault(axes_of(fig, t), []).append(t)
    need(all(a[0] == a[1] for a in cells), "plots: axes %s" % list(cells))
    doms = []
    for i, x in enumerate(shown):
        suf = "" if i == 0 else str(i + 1)
        d = direct_fig(pf, x, key, g)
        got, want = [sig_of(t) for t in cells.pop((suf, suf), [])], [sig_of(t) for t in d.data]
        need(got == want, "plots: subplot %d (%s) shows %s, expected %s" % (i, x, got, want))
        yr = "y" + suf
        gs = [shape_of(s) for s in fig.layout.shapes if (s.xref if x == "drawdowns" and s.type == "rect" else s.yref) == (("x" + suf) if x == "drawdowns" and s.type == "rect" else yr)]
        ws = [shape_of(s) for s in d.layout.shapes]
        if x != "drawdowns":
            need(gs == ws, "plots: subplot %d (%s) has shapes %s, expected %s" % (i, x, gs, ws))
        doms.append(tuple(fig.layout["yaxis" + suf].domain or (0, 1)))
    need(not cells, "plots: traces outside of the subplots: %s" % list(cells))
    need(all(doms[i][0] >= doms[i + 1][1] - 1e-9 for i in range(len(doms) - 1)), "plots: rows overlap or are out of order: %s" % doms)
    legends = [(t.name, t.showlegend) for t in fig.data]
    return ["nt"] if len(shown) >= 2 else []


@st.composite
def subplots_st(draw):
    case = draw(pf_st(m=2, group=draw(st.integers(0, 2)) == 2))
    case.update(names=draw(st.lists(st.integers(0, len(ALL) - 1), min_size=2, max_size=4)), ungroup=draw(st.booleans()),
                titled=draw(st.booleans()), tag=draw(st.sampled_from([None, None, None, "value", "assets", "trades"])),
                single=draw(weighted((5, False), (1, True))))
    return case


# ---------------------------------------------------------------- ranges, drawdowns, indicators, signals, OHLCV, data

def check_ranges(case):
    setup()
    n, m = case["n"], 2
    index = index_of("date" if case["dates"] else "int", n)
    columns = pd.Index(list("ab"))
    a = arr(case["data"])
    ts = pd.DataFrame(a, index=index, columns=columns)
    c = case["col"]
    top = case["top"]
    if case["kind"] == "drawdowns":
        dd = ts.vbt.get_drawdowns(wrapper_kwargs=dict(freq="D"))
        fig = dd.plot(column="ab"[c], top_n=top, plot_zones=case["zones"])
        recs = [r for r in dd.values if r["col"] == c]
        depth = {int(r["id"]): r["valley_val"] / r["peak_val"] - 1 for r in recs}
        if top is not None and len(recs) > top:
            ds = sorted(depth.values())
            if ds[top] - ds[top - 1] < 1e-9:
                return []
            keep = sorted(recs, key=lambda r: depth[int(r["id"])])[:top]
            recs = [r for r in recs if any(k["id"] == r["id"] for k in keep)]
        t = named(fig)
        need_xy(t.pop("b" if c else "a"), index, a[:, c], "drawdowns series")
        need(set(t) <= {"Peak", "Valley", "Recovery/Peak", "Active"}, "drawdowns: traces %s" % list(t))
        # a peak that is the recovery of the drawdown shown before it has that marker already
        peaks = [r for k, r in enumerate(recs) if k == 0 or r["peak_idx"] != recs[k - 1]["end_idx"]]
        need_markers(t, "Peak", peaks, index, "peak_idx", "peak_val", "drawdowns")
        rec_ = [r for r in recs if r["status"] == 1]
        act = [r for r in recs if r["status"] == 0]
        need_markers(t, "Valley", rec_, index, "valley_idx", "valley_val", "drawdowns")
        need_markers(t, "Recovery/Peak", rec_, index, "end_idx", "end_val", "drawdowns")
        need_markers(t, "Active", act, index, "end_idx", "end_val", "drawdowns")
        if rec_:
            need(same([float(r[1]) for r in t["Valley"].customdata], [depth[int(r["id"])] for r in rec_]), "drawdowns: depth shown as %s" % t["Valley"].customdata)
            need(same([float(r[1]) for r in t["Recovery/Peak"].customdata], [r["end_val"] / r["valley_val"] - 1 for r in rec_]), "drawdowns: recovery return")
        z = case["zones"]
        need_zones(fig, rec_ if z else [], index, "red", "drawdowns", "peak_idx", "valley_idx", None)
        need_zones(fig, rec_ if z else [], index, "green", "drawdowns", "valley_idx", "end_idx", None)
        need_zones(fig, act if z else [], index, "orange", "drawdowns", "peak_idx", "end_idx", None)
        return ["nt"] if len(recs) >= 2 else []
    mask = a > 20
    rg = pd.DataFrame(mask, index=index, columns=columns).vbt.signals.partition_ranges(wrapper_kwargs=dict(freq="D")) \
        if case["kind"] == "signal_ranges" else ts.where(mask, np.nan).vbt.get_ranges(wrapper_kwargs=dict(freq="D"))
    fig = rg.plot(column="ab"[c], top_n=top, plot_zones=case["zones"])
    recs = [r for r in rg.values if r["col"] == c]
    dur = {int(r["id"]): int(r["end_idx"]) - int(r["start_idx"]) + (1 if r["status"] == 0 else 0) for r in recs}
    if top is not None and len(recs) > top:
        ds = sorted(dur.values(), reverse=True)
        if ds[top] == ds[top - 1]:
            return []
        recs = [r for r in recs if dur[int(r["id"])] >= ds[top - 1]]
    t = named(fig)
    t.pop("b" if c else "a", None)
    shown = rg.ts is not None
    if shown:
        src = rg.ts.values[:, c].astype(float)
        y0, y1 = (lambda r: src[int(r["start_idx"])]), (lambda r: src[int(r["end_idx"])])
    else:
        y0 = y1 = lambda r: 0.0
    need(set(t) <= {"Start", "Closed", "Open"}, "ranges: traces %s" % list(t))
    need_markers(t, "Start", recs, index, "start_idx", y0, "ranges")
    need_markers(t, "Closed", [r for r in recs if r["status"] == 1], index, "end_idx", y1, "ranges")
    need_markers(t, "Open", [r for r in recs if r["status"] == 0], index, "end_idx", y1, "ranges")
    z = case["zones"]
    need_zones(fig, [r for r in recs if r["status"] == 1] if z else [], index, "teal", "ranges", "start_idx", "end_idx", None)
    need_zones(fig, [r for r in recs if r["status"] == 0] if z else [], index, "orange", "ranges", "start_idx", "end_idx", None)
    return ["nt"] if len(recs) >= 2 else []


@st.composite
def walk_st(draw, n):
    """Two columns that go up and down a lot."""
    return draw(matrix(st.one_of(st.integers(15, 25).map(float), st.integers(100, 300).map(lambda x: x / 10.0)), n, 2))


@st.composite
def ranges_st(draw):
    n = draw(st.sampled_from([12, 10, 16]))
    return dict(n=n, data=draw(walk_st(n)), dates=draw(st.booleans()), col=draw(st.integers(0, 1)),
                top=draw(st.sampled_from([5, 1, 2, None])), zones=draw(weighted((3, True), (1, False))),
                kind=draw(st.sampled_from(["drawdowns", "drawdowns", "ranges", "signal_ranges"])))


IND = {"MA": [("Close", "close"), ("MA", "ma")], "MSTD": [("MSTD", "mstd")],
       "BBANDS": [("Close", "close"), ("Lower Band", "lower"), ("Upper Band", "upper"), ("Middle Band", "middle")],
       "RSI": [("RSI", "rsi")], "STOCH": [("%K", "percent_k"), ("%D", "percent_d")],
       "MACD": [("MACD", "macd"), ("Signal", "signal"), ("Histogram", "hist")], "ATR": [("TR", "tr"), ("ATR", "atr")], "OBV": [("OBV", "obv")]}


def check_misc(case):
    setup()
    n = case["n"]
    index = index_of("date" if case["dates"] else "int", n)
    close = pd.DataFrame(arr(case["close"]), index=index, columns=pd.Index(["a", "b"], name="sym"))
    high, low = close + arr(case["up"]), close - arr(case["down"])
    opn = (high + low) / 2
    if case["flat"]:
        opn.iloc[::2] = close.iloc[::2]
    vol = close * 0 + np.arange(1, n + 1)[:, None] * 10.0
    c = case["col"]
    kind = case["kind"]
    if kind == "indicator":
        name = case["ind"]
        cls = getattr(vbt, name)
        w = case["w"]
        if name in ("MA", "MSTD", "RSI", "BBANDS"):
            ind = cls.run(close, window=[w, w + 1])
            key = (w + (c == 0), "ab"[c]) if name != "BBANDS" else None
        elif name == "STOCH":
            ind = cls.run(high, low, close, k_window=w, d_window=2)
            key = None
        elif name == "MACD":
            ind = cls.run(close, fast_window=w, slow_window=w + 1, signal_window=2)
            key = None
        elif name == "ATR":
            ind = cls.run(high, low, close, window=w)
            key = None
        else:
            ind = cls.run(close, vol)
            key = None
        cols = ind.wrapper.columns
        pos = (c + 2 * case["flat"]) % len(cols)
        fig = ind.plot(column=cols[pos])
        t = named(fig)
        need(set(t) == {x for x, _ in IND[name]}, "%s.plot: traces %s" % (name, list(t)))
        for nm, attr in IND[name]:
            need_xy(t[nm], index, np.asarray(getattr(ind, attr), float).reshape(n, -1)[:, pos], "%s.plot %s" % (name, nm))
        return ["nt"]
    if kind == "ohlcv":
        df = pd.DataFrame({"Open": opn.iloc[:, c], "High": high.iloc[:, c], "Low": low.iloc[:, c], "Close": close.iloc[:, c],
                           "Volume": vol.iloc[:, c]}, index=index)
        show = case["show"]
        fig = df.vbt.ohlcv.plot(plot_type=case["ptype"], show_volume=show)
        t = named(fig)
        nm = dict(ohlc="OHLC", candlestick="Candlestick").get((case["ptype"] or vbt.settings.ohlcv["plot_type"]).lower())
        need(set(t) == ({nm, "Volume"} if show is not False else {nm}), "ohlcv.plot: traces %s" % list(t))
        need(t[nm].type == nm.lower(), "ohlcv.plot: trace type %s" % t[nm].type)
        need_lab(t[nm].x, index, "ohlcv x")
        for f in ("open", "high", "low", "close"):
            need_num(t[nm][f], df[f.capitalize()].values, "ohlcv " + f)
        if show is not False:
            need_xy(t["Volume"], index, df["Volume"].values, "ohlcv volume")
            cs = vbt.settings.plotting["color_schema"]
            want = [cs["increasing"] if a > b else cs["decreasing"] if a < b else cs["gray"] for a, b in zip(df["Close"], df["Open"])]
            need(list(t["Volume"].marker.color) == want, "ohlcv: volume colours %s, expected %s" % (list(t["Volume"].marker.color), want))
            need((t["Volume"].yaxis, t[nm].yaxis) == ("y2", "y"), "ohlcv: volume is drawn on %s" % t["Volume"].yaxis)
        return ["nt"]
    if kind == "signals":
        sig = pd.DataFrame(arr(case["up"]) > 1.0, index=index, columns=close.columns)
        ss = sig.iloc[:, c]
        fig = ss.vbt.signals.plot()
        need_xy(fig.data[0], index, ss.values.astype(float), "signals.plot")
        y = close.iloc[:, c] if case["flat"] else None
        for meth, nm in (("plot_as_markers", None), ("plot_as_entry_markers", "Entry"), ("plot_as_exit_markers", "Exit")):
            f = getattr(ss.vbt.signals, meth)(y=y)
            tr = f.data[0]
            hit = np.flatnonzero(ss.values)
            need_xy(tr, [index[i] for i in hit], close.values[hit, c] if case["flat"] else np.ones(len(hit)), meth)
            need(tr.mode == "markers", "%s: mode %s" % (meth, tr.mode))
            if nm:
                need(tr.name == nm, "%s: name %s" % (meth, tr.name))
        return ["nt"] if ss.any() else []
    if kind == "stops":
        ent = pd.DataFrame(arr(case["up"]) > 1.0, index=index, columns=close.columns)
        cls = vbt.OHLCSTCX if case["flat"] else vbt.OHLCSTX
        run = cls.run(ent, opn, high, low, close, sl_stop=0.05, tp_stop=0.1)
        k = run.wrapper.columns[c]
        one = run[k]
        fig = one.plot(plot_type=case["ptype"])
        t = named(fig)
        en = one.new_entries if case["flat"] else one.entries
        en_name = "New Entry" if case["flat"] else "Entry"
        ei, xi = np.flatnonzero(en.values), np.flatnonzero(one.exits.values)
        need_xy(t[en_name], [index[i] for i in ei], opn.values[ei, c], "OHLCSTX entries")
        need_xy(t["Exit"], [index[i] for i in xi], one.stop_price.values[xi], "OHLCSTX exits")
        nm = dict(ohlc="OHLC", candlestick="Candlestick").get((case["ptype"] or vbt.settings.ohlcv["plot_type"]).lower())
        for f, o in (("open", opn), ("high", high), ("low", low), ("close", close)):
            need_num(t[nm][f], o.values[:, c], "OHLCSTX " + f)
        if len(xi):
            types = list(one.stop_type_readable.values)
            got = list(t["Exit"].customdata)
            need(got == [types[i] for i in xi], "OHLCSTX: the exits at rows %s are labelled %s, expected %s" % (xi.tolist(), got, [types[i] for i in xi]))
        return ["nt"] if len(xi) else []
    # data
    data = vbt.Data.from_data({"S1": close["a"].rename("v"), "S2": close["b"].rename("v")}, download_kwargs={}) if not case["flat"] else \
        vbt.Data.from_data({"S1": pd.DataFrame({"a": close["a"], "h": high["a"]}), "S2": pd.DataFrame({"a": close["b"], "h": high["b"]})}, download_kwargs={})
    base = case["base"]
    if case["flat"]:
        fig = data.plot(column="ah"[c], base=base)
        want = {"S1": (close, high)[c]["a"], "S2": (close, high)[c]["b"]}
    else:
        fig = data.plot(base=base)
        want = {"S1": close["a"], "S2": close["b"]}
    t = named(fig)
    need(set(t) == {"S1", "S2"}, "data.plot: traces %s" % list(t))
    for s, v in want.items():
        v = v.values
        need_xy(t[s], data.wrapper.index, v if base is None else v / v[0] * base, "data.plot %s" % s)
    return ["nt"]


@st.composite
def misc_st(draw):
    n = draw(st.sampled_from([6, 8]))
    half = st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0, 3.0])
    return dict(n=n, close=draw(price_path(n, 2, lo=15, hi=40)), up=draw(matrix(half, n, 2)), down=draw(matrix(half, n, 2)),
                flat=draw(st.booleans()), dates=draw(st.booleans()), col=draw(st.integers(0, 1)),
                kind=draw(st.sampled_from(["indicator", "indicator", "ohlcv", "signals", "stops", "stops", "data"])),
                ind=draw(st.sampled_from(sorted(IND))), w=draw(st.sampled_from([2, 3])), show=draw(st.sampled_from([None, True, False])),
                ptype=draw(st.sampled_from([None, "ohlc", "Candlestick"])), base=draw(st.sampled_from([None, 100.0, 1.0])))


FACETS = [
    Facet("widgets", widgets_st, check_widgets, quick=450, thorough=15000, shards=2, rule="data of more than one cell, or several updates"),
    Facet("accessors", acc_st, check_acc, quick=350, thorough=10000, shards=2, rule="more than one row"),
    Facet("against", against_st, check_against, quick=200, thorough=6000, shards=1, rule="the series lies on both sides of the other"),
    Facet("levels", levels_st, check_levels, quick=350, thorough=10000, shards=1, rule="at least three cells"),
    Facet("pf_records", pf_records_st, check_pf_records, quick=300, thorough=10000, shards=2, rule="at least two records"),
    Facet("pf_series", pf_series_st, check_pf_series, quick=250, thorough=8000, shards=2, rule="the series is not constant"),
    Facet("subplots", subplots_st, check_subplots, quick=100, thorough=4000, shards=2, rule="at least two subplots"),
    Facet("ranges", ranges_st, check_ranges, quick=250, thorough=8000, shards=1, rule="at least two records"),
    Facet("misc", misc_st, check_misc, quick=300, thorough=8000, shards=1, rule="anything to show"),
]
