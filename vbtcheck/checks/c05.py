"""C05: nothing computed for a bar depends on later bars.

Oracle: metamorphic. Every computation runs on the data and again with everything after a random bar either replaced by
another random future or cut off; outputs up to that bar must be the same to the last bit or rounding."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.portfolio.enums import RejectedOrderError

from vbtcheck import pfgen as G
from vbtcheck.core import Facet
from vbtcheck.util import arr, fl, matrix, need, need_same, price_path, vec, weighted
from vbtcheck.checks import c02, c03, c06

ASSUMPTIONS = [
    "Automatic initial cash is defined by the whole order history and is excluded, as is filling leading NaN closes backwards.",
    "Random generators are not part of the property (a random choice among all bars is documented to use all bars).",
    "Numbers are compared with relative tolerance 1e-9.",
]
RT, AT = 1e-9, 1e-10


def prefix(x, t):
    return np.asarray(x)[:t + 1]


def same_prefix(a, b, t, what):
    a, b = prefix(a, t), prefix(b, t)
    if a.dtype == bool:
        need(a.shape == b.shape and (a == b).all(), "%s up to bar %d: %s, with another future %s"
             % (what, t, a.tolist(), b.tolist()))
        return
    need_same(a.astype(float), b.astype(float), "%s up to bar %d with another future" % (what, t), RT, AT)


# ---------------------------------------------------------------- a case's future

@st.composite
def future(draw, case):
    n = case["n"]
    case["cut"] = draw(st.integers(0, max(0, n - 2)))
    case["mode"] = draw(weighted((3, "replace"), (1, "truncate")))
    case["rows"] = draw(vec(st.integers(0, n - 1), n))
    case["scale"] = draw(st.sampled_from([1.0, 0.5, 2.0, 1.1, 10.0, 0.01]))
    return case


def alt_rows(v, case, scale=None):
    """The nested list `v` with its rows after the cut replaced by other rows (scaled, if prices), or cut off."""
    t = case["cut"]
    out = list(v[:t + 1])
    if case["mode"] == "truncate":
        return out
    for i in range(t + 1, len(v)):
        r = v[case["rows"][i] % len(v)]
        if scale is not None:
            r = [None if x is None else x * scale for x in r] if isinstance(r, list) else \
                (None if r is None else r * scale)
        out.append(r)
    return out


def alt_arg(a, case):
    if a["form"] in ("col", "series", "full", "frame"):
        return dict(form=a["form"], v=alt_rows(a["v"], case))
    return a


def alt_case(case):
    out = dict(case)
    for k in ("close", "open", "high", "low"):
        if case.get(k) is not None:
            out[k] = alt_rows(case[k], case, case["scale"])
    if out.get("seq") is not None:
        out["seq"] = alt_rows(case["seq"], case)
    out["args"] = {k: alt_arg(a, case) for k, a in case["args"].items()}
    out["val_price"] = alt_arg(case["val_price"], case)
    for k in ("entries", "exits", "short_entries", "short_exits"):
        if case.get(k) is not None:
            out[k] = alt_rows(case[k], case) if isinstance(case[k], list) else alt_arg(case[k], case)
    if case["mode"] == "truncate":
        out["n"] = case["cut"] + 1
    return out


SERIES = ["assets", "asset_flow", "cash_flow", "cash", "asset_value", "gross_exposure", "net_exposure", "value",
          "returns", "asset_returns", "benchmark_value", "benchmark_returns", "drawdown", "cumulative_returns",
          "position_mask"]


def ended(r, field, t):
    v = r.values
    return v[(v[field] <= t) & (v["status"] == 1)]


def cmp_recs(a, b, what, skip=()):
    need(len(a) == len(b), "%s: %d records, with another future %d" % (what, len(a), len(b)))
    for f in a.dtype.names:
        if f not in skip:
            need_same(a[f].astype(float), b[f].astype(float), "%s.%s with another future" % (what, f), RT, AT)


def upto(v, t):
    return v[v["idx"] <= t]


def check_sim(kind):
    def check(case):
        n, t = case["n"], case["cut"]
        try:
            pf = c06.run(case, kind)
        except (RejectedOrderError, ValueError, ZeroDivisionError):
            return ["raise"]
        alt = alt_case(case)
        try:
            other = c06.run(alt, kind)
        except (RejectedOrderError, ValueError, ZeroDivisionError):
            return ["raise-alt"]
        n2 = alt["n"]
        skip = ("id", "order_id", "parent_id", "entry_order_id")
        for k in ("orders", "logs"):
            cmp_recs(upto(getattr(pf, k).values, t), upto(getattr(other, k).values, t), k, skip)
        for k in ("entry_trades", "exit_trades", "positions"):
            cmp_recs(ended(getattr(pf, k), "exit_idx", t), ended(getattr(other, k), "exit_idx", t), "closed " + k, skip)
        cmp_recs(ended(pf.drawdowns, "end_idx", t), ended(other.drawdowns, "end_idx", t), "recovered drawdowns",
                 ("id",))
        for k in case["series"] if kind == "signals" else SERIES:
            same_prefix(c06.two(c06.call(pf, k), n), c06.two(c06.call(other, k), n2), t, k)
        done = len(upto(pf.order_records, t))
        return (["nt"] if done and len(pf.order_records) > done else []) + [case["mode"]]
    return check


@st.composite
def sim_orders(draw):
    case = draw(c06.orders_case().filter(lambda c: c["n"] > 1))
    case["close"][0] = [7.5 if x is None else x for x in case["close"][0]]
    return draw(future(case))


@st.composite
def sim_signals(draw, kind="dir"):
    case = draw(c03.sig_case(kind))
    for k in ("close", "open", "high", "low"):
        if case.get(k) is not None:
            case[k][0] = [7.5 if x is None else x for x in case[k][0]]
    case = c06.trim(case)
    case = draw(future(case))
    case["series"] = ["cash", "value", "assets", "returns"]
    return case


@st.composite
def sim_func(draw, row_wise=None):
    case = draw(c06.func_case(draw(st.booleans()) if row_wise is None else row_wise)())
    return draw(future(case))


# ---------------------------------------------------------------- arrays

def frame(v, n):
    return pd.DataFrame(v, index=pd.date_range("2020-01-01", periods=n, freq="D"), columns=list("abcd")[:v.shape[1]])


@njit
def win_nb(i, col, a):
    return a[-1] - a[0] + len(a)


@njit
def mat_nb(i, a):
    return a[-1] + a[0] * len(a)


def P(case):
    return case["p"]


def rolling(d, p):
    x = d["x"]
    w, mp, dd = p["window"], p["minp"], p["ddof"]
    v = x.vbt
    return dict(
        rolling_min=v.rolling_min(w, minp=mp), rolling_max=v.rolling_max(w, minp=mp),
        rolling_mean=v.rolling_mean(w, minp=mp), rolling_std=v.rolling_std(w, minp=mp, ddof=dd),
        expanding_min=v.expanding_min(minp=mp), expanding_max=v.expanding_max(minp=mp),
        expanding_mean=v.expanding_mean(minp=mp), expanding_std=v.expanding_std(minp=mp, ddof=dd),
        ewm_mean=v.ewm_mean(p["span"], minp=min(mp, p["span"]), adjust=p["adjust"]),
        ewm_std=v.ewm_std(p["span"], minp=min(mp, p["span"]), adjust=p["adjust"], ddof=dd),
    )


def transforms(d, p):
    x, y = d["x"], d["y"]
    v = x.vbt
    k = p["shift"]
    out = dict(
        fshift=v.fshift(k), diff=v.diff(k), pct_change=v.pct_change(k), ffill=v.ffill(), cumsum=v.cumsum(),
        cumprod=v.cumprod(), drawdown=v.drawdown(), to_returns=v.to_returns(), rebase=v.rebase(100.0),
        fillna=v.fillna(-1.0),
        crossed_above=v.crossed_above(y, wait=p["wait"]), crossed_below=v.crossed_below(y, wait=p["wait"]),
        rolling_apply=v.rolling_apply(p["window"], win_nb, minp=p["minp"]),
        expanding_apply=v.expanding_apply(win_nb, minp=p["minp"]),
    )
    return out


def transform_records(d, t):
    return dict(drawdowns=ended(d["x"].vbt.drawdowns, "end_idx", t), ranges=ended(d["x"].vbt.ranges, "end_idx", t))


def frame_of(ind, name):
    return getattr(ind, name)


def indicators_a(d, p):
    c = d["x"]
    w, w2, e, a = p["window"], p["window2"], p["ewm"], p["adjust"]
    ma = vbt.MA.run(c, w, ewm=e, adjust=a)
    slow = vbt.MA.run(c, w + w2, ewm=e, adjust=a)
    bb = vbt.BBANDS.run(c, w, ewm=e, adjust=a, alpha=1.5, ddof=p["ddof"])
    return dict(ma=ma.ma, above=ma.ma_above(slow), crossed=ma.ma_crossed_above(slow), below=ma.ma_crossed_below(slow),
                mstd=vbt.MSTD.run(c, w, ewm=e, adjust=a, ddof=p["ddof"]).mstd,
                upper=bb.upper, lower=bb.lower, middle=bb.middle, percent_b=bb.percent_b, bandwidth=bb.bandwidth,
                rsi=vbt.RSI.run(c, w, ewm=e, adjust=a).rsi)


def indicators_b(d, p):
    c, h, l, vol = d["x"], d["high"], d["low"], d["vol"]
    w, w2, e, a = p["window"], p["window2"], p["ewm"], p["adjust"]
    s = vbt.STOCH.run(h, l, c, k_window=w, d_window=w2, d_ewm=e, adjust=a)
    m = vbt.MACD.run(c, fast_window=w, slow_window=w + 1, signal_window=w2, macd_ewm=e, signal_ewm=not e, adjust=a)
    at = vbt.ATR.run(h, l, c, window=w, ewm=e, adjust=a)
    return dict(k=s.percent_k, d=s.percent_d, macd=m.macd, signal=m.signal, hist=m.hist, tr=at.tr, atr=at.atr,
                obv=vbt.OBV.run(c, vol).obv)


def ret_acc(d, p, bench=True):
    return d["r"].vbt.returns(benchmark_rets=d["b"], freq="1D", year_freq="365 days")


def returns_a(d, p):
    a = ret_acc(d, p)
    kw = dict(window=p["window"], minp=p["minp"])
    return dict(cumulative=a.cumulative(start_value=p["start"]), drawdown=a.drawdown(),
                rolling_total=a.rolling_total(**kw), rolling_annualized=a.rolling_annualized(**kw),
                rolling_vol=a.rolling_annualized_volatility(ddof=p["ddof"], **kw),
                rolling_calmar=a.rolling_calmar_ratio(**kw), rolling_omega=a.rolling_omega_ratio(**kw),
                rolling_sharpe=a.rolling_sharpe_ratio(ddof=p["ddof"], **kw),
                rolling_downside=a.rolling_downside_risk(**kw), rolling_sortino=a.rolling_sortino_ratio(**kw))


def returns_b(d, p):
    a = ret_acc(d, p)
    kw = dict(window=p["window"], minp=p["minp"])
    return dict(info=a.rolling_information_ratio(ddof=p["ddof"], **kw), beta=a.rolling_beta(**kw),
                alpha=a.rolling_alpha(**kw), tail=a.rolling_tail_ratio(**kw),
                common=a.rolling_common_sense_ratio(**kw), var=a.rolling_value_at_risk(**kw),
                cvar=a.rolling_cond_value_at_risk(**kw), capture=a.rolling_capture(**kw),
                up=a.rolling_up_capture(**kw), down=a.rolling_down_capture(**kw), mdd=a.rolling_max_drawdown(**kw))


def signals_a(d, p):
    s, o, r = d["s"], d["o"], d["reset"]
    v = s.vbt.signals
    rb = r if p["reset"] else None
    kw = dict(reset_by=rb, after_false=p["after_false"])
    c1, c2 = v.clean(o, entry_first=p["entry_first"])
    return dict(pos_rank=v.pos_rank(allow_gaps=p["gaps"], **kw), part=v.partition_pos_rank(**kw),
                first=v.first(**kw), nth=v.nth(1, **kw), from_nth=v.from_nth(1, **kw), clean=v.clean(),
                clean_en=c1, clean_ex=c2, fshift=v.fshift(p["shift"]))


def signal_records(d, t):
    s = d["s"].vbt.signals
    out = dict(between=ended(s.between_ranges(), "end_idx", t),
               partition=ended(s.partition_ranges(), "end_idx", t - 1),
               between_other=ended(s.between_ranges(other=d["o"]), "end_idx", t),
               between_parts=ended(s.between_partition_ranges(), "end_idx", t))
    return out


def stops_a(d, p):
    s, c = d["s"], d["x"]
    v = s.vbt.signals
    stop, trail = p["stop"], p["trail"]
    out = {}
    if p["chain"]:
        out["new"], out["ex"] = v.generate_stop_exits(c, stop, trailing=trail, entry_wait=p["ewait"],
                                                      exit_wait=p["xwait"], pick_first=p["pick_first"], chain=True)
    else:
        out["ex"] = v.generate_stop_exits(c, stop, trailing=trail, exit_wait=p["xwait"], until_next=p["until_next"],
                                          skip_until_exit=p["skip"], pick_first=p["pick_first"])
    return out


def stops_b(d, p):
    s, c = d["s"], d["x"]
    v = s.vbt.signals
    od = {}
    kw = dict(high=d["high"], low=d["low"], close=c, out_dict=od, sl_stop=abs(p["stop"]), sl_trail=p["trail"],
              tp_stop=p["tp"], reverse=p["reverse"], is_open_safe=p["open_safe"], exit_wait=p["xwait"],
              pick_first=p["pick_first"])
    out = {}
    if p["chain"]:
        out["new"], out["ex"] = v.generate_ohlc_stop_exits(d["open"], entry_wait=p["ewait"], chain=True, **kw)
    else:
        out["ex"] = v.generate_ohlc_stop_exits(d["open"], until_next=p["until_next"], skip_until_exit=p["skip"], **kw)
    out["stop_price"], out["stop_type"] = od["stop_price"], od["stop_type"]
    return out


def data_of(case, raw):
    n = len(raw["x"])
    d = {}
    for k in ("x", "y", "vol", "r", "b"):
        if k in raw:
            d[k] = frame(arr(raw[k]), n)
    if "span" in raw:
        e = arr(raw["span"])
        x = d["x"].values
        d["open"] = frame(np.ascontiguousarray(x - e + e.mean(axis=1, keepdims=True) * 0), n)
        d["high"] = frame(np.maximum(x, d["open"].values) + e / 2, n)
        d["low"] = frame(np.minimum(x, d["open"].values) - e / 2, n)
    for k in ("s", "o", "reset"):
        if k in raw:
            d[k] = frame(arr(raw[k], bool), n)
    return d


def check_arrays(fn, recs=None):
    def check(case):
        t = case["cut"]
        raw = case["data"]
        alt = {k: alt_rows(v, case, case["scale"] if k in ("x", "y", "r", "b") else None) for k, v in raw.items()}
        d1, d2 = data_of(case, raw), data_of(case, alt)
        a, b = fn(d1, case["p"]), fn(d2, case["p"])
        diff = False
        for k in a:
            x, y = np.asarray(a[k]), np.asarray(b[k])
            need(x.shape[0] == case["n"], "%s: %d rows for %d bars" % (k, x.shape[0], case["n"]))
            same_prefix(x, y, t, k)
            diff = diff or x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype == float)
        if recs is not None:
            ra, rb = recs(d1, t), recs(d2, t)
            for k in ra:
                cmp_recs(ra[k], rb[k], k, ("id",))
        return (["nt"] if diff else []) + [case["mode"]]
    return check


@st.composite
def arrays(draw, kinds, nan=True):
    n = draw(st.sampled_from([8, 12, 5, 3, 2, 16]))
    m = draw(st.sampled_from([2, 1, 3]))
    nn = nan and draw(st.booleans())
    data = {}
    for k in kinds:
        if k in ("x", "y"):
            v = draw(price_path(n, m, nan=nn and k == "x"))
        elif k in ("r", "b"):
            v = draw(matrix(st.one_of(st.integers(-30, 30).map(lambda q: q / 100.0),
                                      st.sampled_from([0.0, 0.0] + ([None] if nn else []))), n, m))
        elif k == "vol":
            v = draw(matrix(st.integers(0, 50).map(float), n, m))
        elif k == "span":
            v = draw(matrix(st.integers(0, 20).map(lambda q: q / 10.0), n, m))
        else:
            v = draw(matrix(weighted((2, False), (1, True)) if k != "s" else st.booleans(), n, m))
        data[k] = v
    w = draw(st.integers(1, 5))
    p = dict(window=w, minp=draw(st.sampled_from([None, 1, w])) if "r" in kinds else draw(st.integers(1, w)),
             ddof=draw(st.sampled_from([0, 1])), span=draw(st.integers(1, 5)), adjust=draw(st.booleans()),
             ewm=draw(st.booleans()), window2=draw(st.integers(1, 4)), shift=draw(st.integers(1, 4)),
             wait=draw(st.integers(0, 2)), start=draw(st.sampled_from([0.0, 1.0, 100.0])),
             gaps=draw(st.booleans()), reset=draw(st.booleans()), after_false=draw(st.booleans()),
             entry_first=draw(st.booleans()), stop=draw(st.sampled_from([-0.1, -0.05, 0.1, 0.05, -0.2])),
             tp=draw(st.sampled_from([0.1, 0.05, None])), trail=draw(st.booleans()), reverse=draw(st.booleans()),
             open_safe=draw(st.booleans()), ewait=draw(st.integers(1, 2)), xwait=draw(st.integers(0, 2)),
             until_next=draw(st.booleans()), skip=draw(st.booleans()), pick_first=draw(st.booleans()),
             chain=draw(st.booleans()))
    if p["ewait"] == 0 and p["xwait"] == 0:
        p["xwait"] = 1
    p["tp"] = float("nan") if p["tp"] is None else p["tp"]
    if p["tp"] != p["tp"]:
        p["tp"] = 0.3
    return draw(future(dict(n=n, m=m, data=data, p=p)))


NT = "outputs after the cut differ, so the future mattered"
FACETS = [
    Facet("sim-orders", sim_orders, check_sim("orders"), quick=80, thorough=3000, rule="orders on both sides of the cut"),
    Facet("sim-signals", sim_signals, check_sim("signals"), quick=150, thorough=5000,
          rule="orders on both sides of the cut"),
    Facet("sim-signals-ls", lambda: sim_signals("ls"), check_sim("signals"), quick=120, thorough=5000,
          rule="orders on both sides of the cut"),
    Facet("sim-func", sim_func, check_sim("func"), quick=60, thorough=2000, rule="orders on both sides of the cut"),
    Facet("rolling", lambda: arrays(["x"]), check_arrays(rolling), quick=200, thorough=8000, rule=NT),
    Facet("transforms", lambda: arrays(["x", "y"]), check_arrays(transforms, transform_records), quick=150,
          thorough=6000, rule=NT),
    Facet("indicators-a", lambda: arrays(["x"]), check_arrays(indicators_a), quick=60, thorough=3000, rule=NT),
    Facet("indicators-b", lambda: arrays(["x", "vol", "span"]), check_arrays(indicators_b), quick=60, thorough=3000,
          rule=NT),
    Facet("returns-a", lambda: arrays(["r", "b", "x"]), check_arrays(returns_a), quick=60, thorough=3000, rule=NT),
    Facet("returns-b", lambda: arrays(["r", "b", "x"]), check_arrays(returns_b), quick=60, thorough=3000, rule=NT),
    Facet("signals", lambda: arrays(["s", "o", "reset", "x"]), check_arrays(signals_a, signal_records), quick=120,
          thorough=6000, rule=NT),
    Facet("stops", lambda: arrays(["s", "x"], nan=False), check_arrays(stops_a), quick=120, thorough=6000, rule=NT),
    Facet("ohlc-stops", lambda: arrays(["s", "x", "span"], nan=False), check_arrays(stops_b), quick=120, thorough=6000,
          rule=NT),
]
