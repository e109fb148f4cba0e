"""C10: return metrics equal their textbook definitions.

Oracle: one independent Python/NumPy definition per metric, applied to each generated column
(or to each trailing window for the rolling variants, or to the portfolio's own return series)."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import norm

from vbtcheck.core import Facet, Violation
from vbtcheck.util import (NAN, arr, need, need_equal_pd, need_same, price_path, same, weighted, cols, matrix)

ASSUMPTIONS = [
    "a missing return contributes no growth but still counts as elapsed time when annualizing",
    "drawdown is measured from the running maximum of the cumulative growth at the bars themselves "
    "(the implicit starting value 1 is not a peak)",
    "degenerate denominators (|denominator| < 1e-9) are not compared: the implementation documents no value for them",
    "omega uses the per-bar threshold (1 + required)^(1/ann) - 1; all other metrics subtract the risk-free or "
    "required return per bar",
]

TINY = 1e-9
SKIP = object()


# ---------------------------------------------------------------- definitions (x, b: 1-dim arrays with NaN)

def growth(x):
    g = 1.0
    for v in x:
        if not np.isnan(v):
            g *= 1.0 + v
    return g


def d_total(x, o):
    return growth(x) - 1


def d_annualized(x, o):
    if len(x) == 0:
        return NAN
    with np.errstate(all="ignore"):
        return float(np.power(np.float64(growth(x)), o["ann"] / len(x)) - 1)


def clean(x):
    return x[~np.isnan(x)]


def d_std(x, ddof):
    c = clean(x)
    if len(c) - ddof <= 0:
        return NAN
    m = math.fsum(c) / len(c)
    return math.sqrt(math.fsum((v - m) ** 2 for v in c) / (len(c) - ddof))


def d_mean(x):
    c = clean(x)
    return math.fsum(c) / len(c) if len(c) else NAN


def ratio(a, b, scale=1.0):
    if np.isnan(a) or np.isnan(b):
        return NAN
    if abs(b) < TINY:
        return SKIP
    return a / b * scale


def d_volatility(x, o):
    return d_std(x, o["ddof"]) * o["ann"] ** (1 / o["levy_alpha"]) if len(x) >= 2 else NAN


def d_sharpe(x, o):
    if len(x) < 2:
        return NAN
    e = x - o["risk_free"]
    return ratio(d_mean(e), d_std(e, o["ddof"]), math.sqrt(o["ann"]))


def d_downside(x, o):
    c = clean(x)
    if len(c) == 0:
        return NAN
    return math.sqrt(math.fsum(min(0.0, v - o["required_return"]) ** 2 for v in c) / len(c)) * math.sqrt(o["ann"])


def d_sortino(x, o):
    if len(x) < 2:
        return NAN
    return ratio(d_mean(x - o["required_return"]) * o["ann"], d_downside(x, o))


def dd_series(x):
    out, g, peak = [], 1.0, None
    for v in x:
        if not np.isnan(v):
            g *= 1 + v
        peak = g if peak is None else max(peak, g)
        out.append(g / peak - 1 if peak != 0 else NAN)
    return np.array(out)


def d_max_drawdown(x, o):
    d = dd_series(x)
    return NAN if len(d) == 0 or np.isnan(d).any() else float(d.min())


def d_calmar(x, o):
    mdd = d_max_drawdown(x, o)
    if np.isnan(mdd):
        return NAN
    return ratio(d_annualized(x, o), abs(mdd))


def d_omega(x, o):
    thr = (1 + o["required_return"]) ** (1 / o["ann"]) - 1
    e = clean(x) - o["risk_free"] - thr
    up = math.fsum(v for v in e if v > 0)
    down = -math.fsum(v for v in e if v < 0)
    return ratio(up, down)


def quantile(c, q):
    c = sorted(c)
    k = (len(c) - 1) * q
    i = int(math.floor(k))
    if i + 1 >= len(c):
        return c[-1]
    return c[i] + (c[i + 1] - c[i]) * (k - i)


def d_tail(x, o):
    c = clean(x)
    if len(c) == 0:
        return NAN
    return ratio(abs(quantile(c, 0.95)), abs(quantile(c, 0.05)))


def d_common_sense(x, o):
    t = d_tail(x, o)
    return t if t is SKIP else t * (1 + d_annualized(x, o))


def d_var(x, o):
    c = clean(x)
    return quantile(c, o["cutoff"]) if len(c) else NAN


def d_cvar(x, o):
    c = clean(x)
    if len(c) == 0:
        return NAN
    k = (len(c) - 1) * o["cutoff"]
    if abs(k - round(k)) < 1e-9 and k != 0:
        return SKIP  # rounding decides whether one more value belongs to the tail
    worst = sorted(c)[:int(k) + 1]
    return math.fsum(worst) / len(worst)


def d_information(x, b, o):
    if len(x) < 2:
        return NAN
    a = x - b
    return ratio(d_mean(a), d_std(a, o["ddof"]))


def d_beta(x, b, o):
    if len(x) < 2:
        return NAN
    bb = np.where(np.isnan(x), NAN, b)
    mb = d_mean(bb)
    cov = d_mean((bb - mb) * x)
    var = d_mean((bb - mb) ** 2)
    return ratio(cov, var)


def d_alpha(x, b, o):
    if len(x) < 2:
        return NAN
    beta = d_beta(x, b, o)
    if beta is SKIP:
        return SKIP
    m = d_mean((x - o["risk_free"]) - beta * (b - o["risk_free"]))
    with np.errstate(all="ignore"):
        return float(np.power(np.float64(m + 1), o["ann"]) - 1)


def d_capture(x, b, o):
    return ratio(d_annualized(x, o), d_annualized(b, o))


def d_up(x, b, o):
    k = b > 0
    return d_capture(x[k], b[k], o) if k.any() else NAN


def d_down(x, b, o):
    k = b < 0
    return d_capture(x[k], b[k], o) if k.any() else NAN


# name -> (definition, uses benchmark, options accepted by the method)
METRICS = {
    "total": (d_total, False, ()),
    "annualized": (d_annualized, False, ()),
    "annualized_volatility": (d_volatility, False, ("levy_alpha", "ddof")),
    "calmar_ratio": (d_calmar, False, ()),
    "omega_ratio": (d_omega, False, ("risk_free", "required_return")),
    "sharpe_ratio": (d_sharpe, False, ("risk_free", "ddof")),
    "downside_risk": (d_downside, False, ("required_return",)),
    "sortino_ratio": (d_sortino, False, ("required_return",)),
    "tail_ratio": (d_tail, False, ()),
    "common_sense_ratio": (d_common_sense, False, ()),
    "value_at_risk": (d_var, False, ("cutoff",)),
    "cond_value_at_risk": (d_cvar, False, ("cutoff",)),
    "max_drawdown": (d_max_drawdown, False, ()),
    "information_ratio": (d_information, True, ("ddof",)),
    "beta": (d_beta, True, ()),
    "alpha": (d_alpha, True, ("risk_free",)),
    "capture": (d_capture, True, ()),
    "up_capture": (d_up, True, ()),
    "down_capture": (d_down, True, ()),
}
DEFAULTS = dict(start_value=0.0, window=10, minp=None, ddof=1, risk_free=0.0, levy_alpha=2.0, required_return=0.0,
                cutoff=0.05)


def expect(name, x, b, o):
    f, bm, _ = METRICS[name]
    with np.errstate(all="ignore"):
        return f(x, b, o) if bm else f(x, o)


def cmp(name, got, exp, where):
    if exp is SKIP:
        return 0
    got, exp = float(got), float(exp)
    if not same(got, exp, rtol=1e-6, atol=1e-9):
        if abs(exp) > 1e200 and (math.isinf(got) or abs(got) > 1e200):
            return 0
        raise Violation("%s %s: got %r, expected %r" % (name, where, got, exp))
    return 0 if math.isnan(exp) else 1


# ---------------------------------------------------------------- construction

FREQS = {"1D": pd.Timedelta(days=1), "1h": pd.Timedelta(hours=1), "7D": pd.Timedelta(days=7),
         "30min": pd.Timedelta(minutes=30)}


def build(case):
    r = arr(case["r"])
    n, m = r.shape
    start = pd.Timestamp("2020-03-01") + pd.Timedelta(minutes=case.get("shift", 0))
    f = FREQS[case["freq"]]
    index = pd.DatetimeIndex([start + f * i for i in range(n)])
    df = pd.DataFrame(r, index=index, columns=cols(m))
    b = None
    if case.get("b") is not None:
        b = arr(case["b"])
    return r, df, b


def accessor(case, obj, bm):
    import vectorbt as vbt  # noqa
    kw = {}
    if case.get("defaults"):
        kw["defaults"] = dict(case["defaults"])
    if case.get("year"):
        kw["year_freq"] = case["year"]
    if bm is not None:
        kw["benchmark_rets"] = bm
    return obj.vbt.returns(freq=case["freq"], **kw)


def opts(case, over=None):
    o = dict(DEFAULTS)
    o.update(case.get("defaults") or {})
    o.update(over or {})
    year = pd.Timedelta(case.get("year") or "365 days")
    o["ann"] = year / FREQS[case["freq"]]
    return o


def bench_of(case, b, n, m):
    """What is passed as benchmark and the full matrix it stands for."""
    if b is None:
        return None, None
    kind = case["bkind"]
    if kind == "full":
        return b, b
    if kind == "one":
        full = np.repeat(b[:, [0]], m, axis=1)
        return pd.Series(b[:, 0]), full
    raise AssertionError(kind)


def check_metrics(case):
    r, df, b = build(case)
    n, m = r.shape
    bm_arg, bm = bench_of(case, b, n, m)
    as_series = case["series"] and m == 1
    obj = df.iloc[:, 0] if as_series else df
    if bm_arg is not None:
        if isinstance(bm_arg, pd.Series):
            bm_arg = pd.Series(bm_arg.values, index=df.index, name="bench")
        elif as_series:
            bm_arg = pd.Series(bm_arg[:, 0], index=df.index, name=obj.name)
        else:
            bm_arg = pd.DataFrame(bm_arg, index=df.index, columns=df.columns)
    bm_ctor = bm_arg if case["bctor"] else None
    acc = accessor(case, obj, bm_ctor)
    need_same(acc.ann_factor, opts(case)["ann"], "ann_factor")
    nt = 0
    for name, (f, uses_b, names) in METRICS.items():
        if uses_b and bm is None:
            continue
        over = {k: v for k, v in case["over"].items() if k in names}
        kw = dict(over)
        if uses_b and not case["bctor"]:
            kw["benchmark_rets"] = bm_arg
        o = opts(case, over)
        got = getattr(acc, name)(**kw)
        exp = [expect(name, r[:, j], None if bm is None else bm[:, j], o) for j in range(m)]
        if as_series:
            need(np.ndim(got) == 0, "%s of a Series is %r" % (name, type(got)))
            got = [got]
        else:
            need(isinstance(got, pd.Series) and list(got.index) == list(df.columns), "%s: labels %r" % (name, got))
            got = got.values
        for j in range(m):
            nt += cmp(name, got[j], exp[j], "column %d options %s" % (j, {k: o[k] for k in names + ("ann",)}))
    # series-valued
    sv = case["start"]
    exp = np.empty_like(r)
    for j in range(m):
        g = 1.0
        for i in range(n):
            if not np.isnan(r[i, j]):
                g *= 1 + r[i, j]
            exp[i, j] = g - 1 if sv == 0 else g * sv
    shaped = (lambda a: pd.Series(a[:, 0], index=df.index, name=obj.name)) if as_series else (
        lambda a: pd.DataFrame(a, index=df.index, columns=df.columns))
    need_equal_pd(acc.cumulative(start_value=sv), shaped(exp), "cumulative(start_value=%r)" % sv)
    if not case.get("defaults"):
        need_equal_pd(acc.cumulative(), shaped(np.array([[growth(r[:i + 1, j]) - 1 for j in range(m)]
                                                         for i in range(n)])), "cumulative()")
    dd = np.column_stack([dd_series(r[:, j]) for j in range(m)])
    need_equal_pd(acc.drawdown(), shaped(dd), "drawdown")
    return (["nt"] if nt >= 8 else []) + ["series" if as_series else "frame"] + (["nan"] if np.isnan(r).any() else [])


def check_dsr(case):
    r, df, _ = build(case)
    n, m = r.shape
    acc = accessor(case, df, None)
    labels = []
    # deflated Sharpe ratio
    o = opts(case, {k: v for k, v in case["over"].items() if k == "risk_free"})
    sh = [expect("sharpe_ratio", r[:, j], None, o) for j in range(m)]
    if all(s is not SKIP and not np.isnan(s) for s in sh) and (m > o["ddof"] or case["dsr"]):
        kw = {"risk_free": o["risk_free"]}
        if case["dsr"]:
            kw.update(var_sharpe=case["dsr"][0], nb_trials=case["dsr"][1])
            var, trials = case["dsr"]
        else:
            mean = math.fsum(sh) / m
            var, trials = (math.fsum((s - mean) ** 2 for s in sh) / (m - o["ddof"]) if m > o["ddof"] else NAN), m
        got = np.atleast_1d(acc.deflated_sharpe_ratio(**kw))
        vs = var / o["ann"]
        e = 0.5772156649015329
        sr0 = math.sqrt(vs) * ((1 - e) * norm.ppf(1 - 1 / trials) + e * norm.ppf(1 - 1 / (trials * math.e)))
        for j in range(m):
            x = np.where(np.isnan(r[:, j]), 0.0, r[:, j])
            mu = x.mean()
            m2 = ((x - mu) ** 2).mean()
            if m2 < 1e-12:
                continue
            sk = ((x - mu) ** 3).mean() / m2 ** 1.5
            ku = ((x - mu) ** 4).mean() / m2 ** 2
            s = sh[j] / math.sqrt(o["ann"])

            def dsr(k):
                den = 1 - sk * s + (k - 1) / 4 * s ** 2
                if abs(den) < 1e-6:
                    return SKIP
                return NAN if den < 0 else float(norm.cdf((s - sr0) * math.sqrt(n - 1) / math.sqrt(den)))
            e1, e2 = dsr(ku), dsr(ku - 3)
            if e1 is SKIP or e2 is SKIP:
                continue
            labels.append("nt")
            if not same(got[j], e1, rtol=1e-6):
                raise Violation("deflated_sharpe_ratio column %d: got %r, expected %r" % (j, got[j], e1),
                                "deflated-sharpe-excess-kurtosis" if same(got[j], e2, rtol=1e-6) else None)
    return labels


def ret_st(p_nan):
    base = weighted((10, "g"), (2, "z"), (1, "x"))

    def el(k):
        if k == "g":
            return st.integers(-300, 300).map(lambda v: v / 1000)
        if k == "z":
            return st.just(0.0)
        return st.integers(-100, 200).map(lambda v: v / 100)
    e = base.flatmap(el)
    if not p_nan:
        return e
    return st.integers(0, 6).flatmap(lambda k: st.none() if k == 6 else e)


@st.composite
def common_st(draw, max_n=12, max_m=3, bench=True):
    n = draw(st.integers(1, max_n))
    m = draw(st.integers(1, max_m))
    nan = draw(weighted((2, False), (1, True)))
    case = dict(
        r=draw(matrix(ret_st(nan), n, m)),
        freq=draw(weighted((4, "1D"), (2, "1h"), (1, "7D"), (1, "30min"))),
        year=draw(weighted((2, None), (1, "252 days"), (1, "365 days 06:00:00"), (1, "30 days"))),
        shift=draw(st.sampled_from([0, 90, 1435])),
        b=None, bkind="full",
    )
    if bench:
        case["bkind"] = draw(weighted((2, "full"), (1, "one")))
        case["b"] = draw(matrix(ret_st(draw(weighted((4, False), (1, True)))), n, m if case["bkind"] == "full" else 1))
        if draw(st.integers(0, 3)) == 0:
            # correlated benchmark
            case["b"] = [[None if v is None else round(v * 0.5 + 0.01 * (i % 2), 6) for v in row]
                         for i, row in enumerate(case["r"])]
            case["bkind"] = "full"
    return case


@st.composite
def over_st(draw):
    o = {}
    if draw(st.booleans()):
        o["risk_free"] = draw(st.integers(-20, 40)) / 1000
    if draw(st.booleans()):
        o["required_return"] = draw(st.integers(-50, 200)) / 1000
    if draw(st.booleans()):
        o["ddof"] = draw(st.integers(0, 2))
    if draw(st.booleans()):
        o["levy_alpha"] = draw(st.sampled_from([1.0, 1.5, 2.0, 3.0]))
    if draw(st.booleans()):
        o["cutoff"] = draw(st.sampled_from([0.01, 0.13, 0.3, 0.55, 0.9]))
    return o


@st.composite
def metrics_st(draw):
    case = draw(common_st())
    case["over"] = draw(over_st())
    case["defaults"] = draw(over_st()) if draw(st.booleans()) else None
    case["series"] = draw(st.booleans())
    case["bctor"] = draw(st.booleans())
    case["start"] = draw(st.sampled_from([0.0, 1.0, 100.0]))
    case["dsr"] = draw(st.one_of(st.none(), st.tuples(st.integers(1, 400).map(lambda v: v / 100),
                                                      st.integers(2, 30)).map(list)))
    return case


# ---------------------------------------------------------------- rolling

def check_rolling(case):
    r, df, b = build(case)
    n, m = r.shape
    _, bm = bench_of(case, b, n, m)
    name = case["metric"]
    f, uses_b, names = METRICS[name]
    bdf = pd.DataFrame(bm, index=df.index, columns=df.columns)
    acc = accessor(case, df, bdf)
    over = {k: v for k, v in case["over"].items() if k in names}
    kw = dict(over)
    if case["window"] is not None:
        kw["window"] = case["window"]
    if case["minp"] is not None:
        kw["minp"] = case["minp"]
    o = opts(case, over)
    window = case["window"] if case["window"] is not None else o["window"]
    minp = case["minp"] if case["minp"] is not None else o["minp"]
    if minp is None:
        minp = window
    got = getattr(acc, "rolling_" + name)(**kw)
    need(isinstance(got, pd.DataFrame) and got.index.equals(df.index) and list(got.columns) == list(df.columns),
         "rolling_%s labels" % name)
    got = got.values
    nt = 0
    for j in range(m):
        for i in range(n):
            lo = max(0, i + 1 - window)
            x = r[lo:i + 1, j]
            exp = NAN
            if np.sum(~np.isnan(x)) >= minp:
                exp = expect(name, x, bm[lo:i + 1, j], o)
            if exp is SKIP:
                continue
            k = cmp("rolling_" + name, got[i, j], exp, "bar %d column %d window %d minp %d" % (i, j, window, minp))
            if k and lo > 0:
                nt += 1
    return (["nt"] if nt else []) + [name]


def rolling_st(names):
    @st.composite
    def s(draw):
        case = draw(common_st(max_n=10, max_m=2))
        case["metric"] = draw(st.sampled_from(names))
        case["over"] = draw(over_st())
        case["defaults"] = None
        if draw(st.integers(0, 2)) == 0:
            case["defaults"] = draw(over_st())
            case["defaults"]["window"] = draw(st.integers(1, 6))
        n = len(case["r"])
        case["window"] = draw(st.one_of(st.none(), st.integers(1, n + 1)))
        w = case["window"] or (case["defaults"] or {}).get("window") or 10
        case["minp"] = draw(st.one_of(st.none(), st.integers(1, min(4, w))))
        return case
    return s


R1 = ["total", "annualized", "annualized_volatility", "max_drawdown"]
R2 = ["calmar_ratio", "omega_ratio", "sharpe_ratio", "tail_ratio", "common_sense_ratio"]
R3 = ["downside_risk", "sortino_ratio", "value_at_risk", "cond_value_at_risk"]
R4 = ["information_ratio", "beta", "alpha"]
R5 = ["capture", "up_capture", "down_capture"]


# ---------------------------------------------------------------- accessor plumbing

def check_acc(case):
    from vectorbt.returns.accessors import ReturnsAccessor
    v = arr(case["v"])
    n, m = v.shape
    minutes = np.cumsum(case["steps"])
    index = pd.DatetimeIndex([pd.Timestamp("2019-12-30 10:00") + pd.Timedelta(minutes=int(x)) for x in minutes])
    df = pd.DataFrame(v, index=index, columns=cols(m))
    labels = []
    # from_value
    if case["init"] is None:
        init, kw = [NAN] * m, {}
    else:
        init, kw = [case["init"]] * m, dict(init_value=case["init"])
    if isinstance(case["init"], list):
        init = arr(case["init"])[:m]
        kw = dict(init_value=init)
    acc = ReturnsAccessor.from_value(df, freq="1h", **kw)
    exp = np.empty((n, m))
    for j in range(m):
        p = init[j]
        for i in range(n):
            q = v[i, j]
            if p == 0:
                exp[i, j] = 0.0 if q == 0 else (NAN if np.isnan(q) else math.copysign(math.inf, q))
            else:
                exp[i, j] = (q - p) / p * (-1 if p < 0 else 1)
            p = q
    need_equal_pd(acc.obj, pd.DataFrame(exp, index=index, columns=df.columns), "returns from value")
    if np.isinf(exp).any():
        return ["inf"]
    rets = acc.obj
    # per-day and per-year totals
    for what in ("daily", "annual"):
        if what == "daily":
            size = pd.Timedelta(days=1)
            got = acc.daily()
        else:
            size = pd.Timedelta(case["year"])
            got = rets.vbt.returns(freq="1h", year_freq=case["year"]).annual()
        if size == pd.Timedelta(hours=1):
            continue
        t0 = index[0].normalize()
        k = np.array([(t - t0) // size for t in index])
        need(isinstance(got, pd.DataFrame) and list(got.columns) == list(df.columns), "%s labels" % what)
        need([pd.Timestamp(t) for t in got.index] == [t0 + size * x for x in range(k[-1] + 1)],
             "%s returns: bins %s" % (what, list(got.index)))
        e = np.full((k[-1] + 1, m), NAN)
        for x in set(k):
            e[x] = [growth(exp[k == x, j]) - 1 for j in range(m)]
        need_same(got.values, e, "%s returns" % what)
        if len(set(k)) > 1:
            labels.append("nt")
        if len(set(k)) < k[-1] + 1:
            labels.append("gap")
    # column selection keeps the benchmark aligned
    b = pd.DataFrame(np.round(np.nan_to_num(exp[::-1]) * 0.3 + 0.01, 6), index=index, columns=df.columns)
    full = rets.vbt.returns(freq="1h", benchmark_rets=b, year_freq=case["year"], defaults=dict(risk_free=0.001))
    sel = [c for c in case["sel"] if c < m]
    if sel and (n > 1 or len(sel) > 1):
        sub = full[[df.columns[c] for c in sel]]
        for name in ("beta", "total", "sharpe_ratio"):
            need_same(getattr(sub, name)().values, getattr(full, name)().values[sel], "%s after selection" % name)
        if n == 1:  # selecting a single element is rejected by design
            return labels
        one = full[df.columns[sel[0]]]
        need_same(one.beta(), full.beta().values[sel[0]], "beta of one column")
    # drawdown records describe the cumulative growth
    dds = full.drawdowns
    cum = np.array([[growth(exp[:i + 1, j]) for j in range(m)] for i in range(n)])
    need_same(dds.ts.values, cum, "series behind drawdowns")
    md = dds.max_drawdown().values
    for j in range(m):
        if (cum[:, j] <= 0).any():
            continue
        e = d_max_drawdown(exp[:, j], {})
        need_same(md[j] if not np.isnan(md[j]) else 0.0, e, "max drawdown of records vs returns column %d" % j)
    return labels


@st.composite
def acc_st(draw):
    n = draw(st.integers(1, 10))
    m = draw(st.integers(1, 3))
    el = weighted((12, 0), (1, 1), (1, 2), (1, 3))

    def val():
        k = draw(el)
        if k == 0:
            return draw(st.integers(50, 200)) / 10
        return [None, 0.0, -draw(st.integers(1, 50)) / 10][k - 1]
    clean_ = draw(st.booleans())
    v = [[draw(st.integers(50, 200)) / 10 if clean_ else val() for _ in range(m)] for _ in range(n)]
    return dict(v=v, steps=draw(st.lists(st.sampled_from([60, 60, 60, 300, 700, 1440, 4000, 20000]),
                                         min_size=n, max_size=n)),
                init=draw(st.one_of(st.none(), st.sampled_from([10.0, 12.5]),
                                    st.lists(st.sampled_from([8.0, 10.0, 0.0]), min_size=m, max_size=m))),
                year=draw(st.sampled_from(["365 days", "10 days", "36 hours"])),
                sel=draw(st.lists(st.integers(0, m - 1), max_size=3, unique=True)))


# ---------------------------------------------------------------- portfolio level

PF = {
    "total_return": None, "annualized_return": "annualized", "annualized_volatility": "annualized_volatility",
    "calmar_ratio": "calmar_ratio", "omega_ratio": "omega_ratio", "sharpe_ratio": "sharpe_ratio",
    "downside_risk": "downside_risk", "sortino_ratio": "sortino_ratio", "information_ratio": "information_ratio",
    "beta": "beta", "alpha": "alpha", "tail_ratio": "tail_ratio", "value_at_risk": "value_at_risk",
    "cond_value_at_risk": "cond_value_at_risk", "capture": "capture", "up_capture": "up_capture",
    "down_capture": "down_capture", "max_drawdown": "max_drawdown",
}


def check_pf(case):
    import vectorbt as vbt
    close = arr(case["close"])
    n, m = close.shape
    index = pd.date_range("2020-01-01", periods=n, freq="D")
    close = pd.DataFrame(close, index=index, columns=cols(m))
    size = pd.DataFrame(arr(case["size"]), index=index, columns=cols(m))
    gb = case["group"]
    if gb is not None:
        gb = gb[:m]
    pf = vbt.Portfolio.from_orders(close, size, init_cash=1000.0, fees=0.01, freq=case["freq"],
                                   group_by=gb, cash_sharing=case["share"] and gb is not None)
    ungroup = case["ungroup"] and gb is not None
    kw = {}
    if ungroup:
        kw["group_by"] = False
    rets = pf.asset_returns(**kw) if case["asset"] else pf.returns(**kw)
    scalar = isinstance(rets, pd.Series)
    two = (lambda a: np.asarray(a, dtype=float).reshape(n, -1))
    value = two(pf.value(**kw))
    labels = [rets.name] if scalar else list(rets.columns)
    R = two(rets)
    g = R.shape[1]
    # the return series itself
    if not case["asset"]:
        ic = np.asarray(pf.get_init_cash(**kw), dtype=float)
        prev = np.vstack([np.broadcast_to(ic, (g,)), value[:-1]])
        need_same(R, (value - prev) / prev, "portfolio returns vs value")
    if not np.isfinite(R).all():
        return ["inf"]
    mkw = dict(kw)
    if case["asset"]:
        mkw["use_asset_returns"] = True
    if case["year"]:
        mkw["year_freq"] = case["year"]
    if case["mfreq"]:
        mkw["freq"] = case["mfreq"]
    if case["bench"] is not None:
        b = arr(case["bench"])[:, :1]
        mkw["benchmark_rets"] = pd.Series(b[:, 0], index=index)
        B = np.repeat(b, g, axis=1)
    else:
        bv = two(pf.benchmark_value(**kw))
        ic = np.asarray(pf.get_init_cash(**kw), dtype=float)
        prev = np.vstack([np.broadcast_to(ic, (g,)), bv[:-1]])
        B = (bv - prev) / prev
        need_same(two(pf.benchmark_returns(**kw)), B, "benchmark returns vs benchmark value")
    o = dict(DEFAULTS)
    over = case["over"]
    f = FREQS[case["mfreq"] or case["freq"]]
    o["ann"] = pd.Timedelta(case["year"] or "365 days") / f
    nt = 0
    for name, src in PF.items():
        if src is None:
            continue
        names = METRICS[src][2]
        ov = {k: v for k, v in over.items() if k in names}
        oo = dict(o)
        oo.update(ov)
        got = getattr(pf, name)(**ov, **mkw)
        if scalar:
            need(np.ndim(got) == 0, "%s of one group is %r" % (name, type(got)))
            got = [got]
        else:
            need(list(got.index) == labels, "%s labels" % name)
            got = got.values
        for j in range(g):
            nt += cmp("pf." + name, got[j], expect(src, R[:, j], B[:, j], oo), "column/group %d" % j)
    got = pf.cumulative_returns(**mkw)
    exp = np.array([[growth(R[:i + 1, j]) - 1 for j in range(g)] for i in range(n)])
    need_same(two(got), exp, "cumulative returns")
    need(([got.name] if scalar else list(got.columns)) == labels, "cumulative returns labels")
    need_same(two(pf.drawdown(**mkw)), np.column_stack([dd_series(R[:, j]) for j in range(g)]), "drawdown")
    if not case["asset"]:
        need_same(np.atleast_1d(pf.total_return(**kw)), exp[-1], "total return vs cumulative returns")
    return ["nt"] if nt > 8 else []


@st.composite
def pf_st(draw):
    n = draw(st.integers(2, 8))
    m = draw(st.integers(1, 3))
    size = draw(matrix(st.one_of(st.just(0.0), st.integers(-20, 20).map(float)), n, m))
    return dict(close=draw(price_path(n, m)), size=size,
                group=draw(weighted((1, None), (1, [0, 0, 1]), (1, [0, 0, 0]))),
                share=draw(st.booleans()), ungroup=draw(weighted((2, False), (1, True))),
                freq=draw(st.sampled_from(["1D", "1h"])), mfreq=draw(weighted((2, None), (1, "7D"))),
                year=draw(weighted((2, None), (1, "252 days"))),
                asset=draw(weighted((3, False), (1, True))),
                bench=draw(st.one_of(st.none(), matrix(ret_st(False), n, 1))),
                over=draw(over_st()))


def _roll(name, names, quick):
    return Facet(name, rolling_st(names), check_rolling, quick=quick, thorough=quick * 25,
                 rule="at least one finite value at a bar whose window no longer reaches the first bar")


FACETS = [
    Facet("metrics", metrics_st, check_metrics, quick=240, thorough=6000, shards=1,
          rule="at least 8 finite metric values compared"),
    Facet("deflated-sharpe", metrics_st, check_dsr, quick=80, thorough=2500, shards=1,
          rule="the deflated ratio is defined for some column"),
    _roll("rolling-growth", R1, 120),
    _roll("rolling-ratio", R2, 120),
    _roll("rolling-tail", R3, 120),
    _roll("rolling-bench", R4, 100),
    _roll("rolling-capture", R5, 100),
    Facet("accessor", acc_st, check_acc, quick=120, thorough=2500,
          rule="resampled returns have more than one bin"),
    Facet("portfolio", pf_st, check_pf, quick=60, thorough=1500,
          rule="more than 8 finite portfolio-level metric values compared"),
]
