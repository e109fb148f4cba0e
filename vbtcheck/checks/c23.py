"""C23: statistics tables agree with the individual metrics.

Oracle: for each class an independent table of metrics (title, tags, needed information, how the value follows from the object's public
attributes), an independent evaluation of tag expressions, of the layering of settings, of selection and aggregation; the table the object
prints is compared with it cell by cell. Metrics of custom shape are checked against their own definition."""
import functools
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.generic.ranges import Ranges
from vectorbt.records.base import Records
from vectorbt.records.mapped_array import MappedArray
from vectorbt.utils.template import RepEval, RepFunc, Sub, Rep

from vbtcheck.core import Facet, Violation
from vbtcheck.util import NAN, need, weighted

ASSUMPTIONS = [
    "Global settings other than the ones a case sets are the library's defaults.",
    "Calculation functions of custom metrics do not modify what they receive.",
]
DAY = pd.Timedelta("1D")


# ---------------------------------------------------------------- the engine of the oracle

class M:
    """One metric: fn(object, settings) -> scalar, Series over columns, or dict of those."""

    def __init__(self, title, fn, tags=(), dur=False, agg=True, needs=(), force=None):
        self.title, self.fn, self.tags, self.dur, self.agg = title, fn, tags, dur, agg
        self.needs, self.force = needs, force or {}


def tag_str(t):
    if isinstance(t, str):
        return t
    if t[0] == "not":
        return "not (%s)" % tag_str(t[1])
    return "(%s) %s (%s)" % (tag_str(t[1]), t[0], tag_str(t[2]))


def tag_ok(t, have):
    if isinstance(t, str):
        return t in have
    if t[0] == "not":
        return not tag_ok(t[1], have)
    a, b = tag_ok(t[1], have), tag_ok(t[2], have)
    return (a and b) if t[0] == "and" else (a or b)


def scale_dur(v, freq):
    if isinstance(v, dict):
        return {k: scale_dur(x, freq) for k, x in v.items()}
    if isinstance(v, pd.Series):
        return pd.Series([scale_dur(x, freq) for x in v.tolist()], index=v.index, dtype="timedelta64[ns]")
    if v is pd.NA or v != v:
        return pd.NaT
    return pd.to_timedelta(float(v) * freq)


AGGS = {"mean": np.mean, "max": np.max, "min": np.min, "sum": np.sum, "first": lambda x: x.iloc[0], "count": len,
        "part": functools.partial(np.max, axis=0), None: None}


def agg_name(a):
    f = AGGS[a]
    return "agg_func_" + getattr(f, "__name__", None) if hasattr(f, "__name__") else None


def same_cell(a, b):
    if a is b:
        return True
    na, nb = (x is None or x is pd.NA or (np.ndim(x) == 0 and not isinstance(x, str) and bool(pd.isnull(x))) for x in (a, b))
    if na or nb:
        return bool(na and nb)
    if isinstance(a, pd.Timedelta) or isinstance(b, pd.Timedelta):
        return isinstance(a, pd.Timedelta) and isinstance(b, pd.Timedelta) and abs(a - b) <= pd.Timedelta("2us")
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        return bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-9))
    return type(a) is type(b) and a == b or (not isinstance(a, (str, pd.Timestamp)) and not isinstance(b, (str, pd.Timestamp)) and bool(a == b))


def build(objs, spec, case):
    """The expected table: (rows, kind, name/index, warnings). objs(freq, mapping..) gives the effective object for settings."""
    rows, warned = [], []
    names = [m if isinstance(m, str) else m["name"] for m in case["metrics"]] if case["metrics"] is not None else list(spec)
    seen = {}
    final = []
    for i, n in enumerate(names):
        if names.count(n) > 1:
            k = seen.get(n, -1) + 1
            seen[n] = k
            final.append((n + "_" + str(k), n))
        else:
            final.append((n, n))
    return final


def col_value(v, case, eff, m_agg):
    """One cell out of a metric's value: ('val', x) or ('drop',) or ('series', s)."""
    if not isinstance(v, pd.Series):
        return "val", v
    if eff["column"] is not None:
        c = eff["column"]
        if c in v.index:
            return "val", v.iloc[list(v.index).index(c)]
        if not isinstance(c, int):
            raise KeyError(c)
        return "val", v.iloc[c]
    if m_agg and eff["agg"] is not None and case["agg"] is not None:
        return "val", AGGS[eff["agg"]](v)
    if not m_agg and case["agg"] is not None:
        return "drop", None
    return "series", v


def expect(resolve, spec, case, defaults):
    """Rows expected from a call, as a list of (title, kind, value), plus the names dropped for a lack of information."""
    rows, dropped, unselected = [], [], []
    for shown, base in build(None, spec, case):
        m = spec[base] if base in spec else EXTRA[base]
        over = case["mset"].get(shown, {})
        s = {**defaults, **case["settings"], **m.force, **{k: v for k, v in over.items() if k not in ("column", "title", "agg")}}
        eff = dict(column=over.get("column", case["column"]), agg=over.get("agg", case["agg"]))
        tags = m.tags(s) if callable(m.tags) else m.tags
        if case["tags"] is not None and not any(tag_ok(t, tags) for t in case["tags"]):
            unselected.append(shown)
            continue
        o = resolve(s)
        lack = [n for n in m.needs if not NEEDS[n](o, s)]
        if lack:
            dropped.append((shown, lack))
            continue
        v = m.fn(o, s)
        if m.dur and o.wrapper.freq is not None and s.get("to_timedelta") is not False:
            v = scale_dur(v, o.wrapper.freq)
        title = over.get("title", m.title(s) if callable(m.title) else m.title)
        m_agg = m.agg if "agg" not in over else over["agg"] is not None
        for t, x in ([(title + ": " + str(k), x) for k, x in v.items()] if isinstance(v, dict) else [(title, v)]):
            kind, x = col_value(x, case, eff, m_agg)
            if kind != "drop":
                rows.append((t, kind, x))
    return rows, dropped, unselected


SILENT = {"mapping", "no mapping", "other"}
NEEDS = {
    "freq": lambda o, s: o.wrapper.freq is not None,
    "year_freq": lambda o, s: (s["year_freq"] if "year_freq" in s else o.year_freq) is not None,
    "bench": lambda o, s: s.get("benchmark_rets", o.benchmark_rets) is not None,
    "ungrouped": lambda o, s: not o.wrapper.grouper.is_grouped(),
    "mapping": lambda o, s: s.get("mapping", o.mapping) is not None,
    "no mapping": lambda o, s: s.get("mapping", o.mapping) is None,
    "other": lambda o, s: s.get("other") is not None,
}


def call(obj, case, **kw):
    args = {}
    if case["metrics"] is not None:
        ms = [(m, dict(EXTRA_DEF[m])) if m in EXTRA_DEF else m for m in case["metrics"]]
        args["metrics"] = ms[0] if len(ms) == 1 and case.get("bare") else ms
    if case["tags"] is not None:
        ts = [tag_str(t) for t in case["tags"]]
        args["tags"] = ts[0] if len(ts) == 1 and case.get("bare") else ts
    if case["column"] is not None:
        args["column"] = case["column"]
    if case["group_by"] is not None:
        args["group_by"] = case["group_by"]
    if case["agg"] != "mean":
        args["agg_func"] = AGGS[case["agg"]]
    if case["settings"]:
        args["settings"] = dict(case["settings"])
    if case["mset"]:
        args["metric_settings"] = {k: {("agg_func" if n == "agg" else n): (AGGS[x] if n == "agg" else x) for n, x in v.items()}
                                   for k, v in case["mset"].items()}
    if case.get("silence"):
        args["silence_warnings"] = True
    args.update(kw)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        out = obj.stats(**args)
    return out, [str(w.message) for w in log if issubclass(w.category, UserWarning)]


def compare(obj, case, resolve, spec, defaults, ndim, columns, name, what):
    """Run the call and the oracle and compare everything. ndim, columns, name describe the object after grouping."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rows, dropped, unselected = expect(resolve, spec, case, defaults)
        err = None
    except Exception as e:
        err, rows, dropped, unselected = e, [], [], []
    try:
        got, log = call(obj, case)
    except Exception as e:
        if err is None:
            need(False, "%s: stats() raised %s: %s although every metric can be computed (%s)" % (what, type(e).__name__, str(e)[:200], desc(case)))
        need(type(e) is type(err), "%s: stats() raised %s (%s), the metric itself %s (%s)" % (what, type(e).__name__, e, type(err).__name__, err))
        return ["refused"]
    if err is not None:
        need(False, "%s: stats() returned a table although a metric raises %s: %s (%s)" % (what, type(err).__name__, err, desc(case)))
    labs = []
    quiet = case.get("silence")
    own = {k: v["silence_warnings"] for k, v in case["mset"].items() if "silence_warnings" in v}
    for shown, lack in dropped:
        told = any(("'%s' " % shown) in w for w in log)
        if own.get(shown, quiet):
            need(not told, "%s: metric %s is silenced but its drop was announced (%s)" % (what, shown, log))
        elif any(n not in SILENT for n in lack):
            need(told, "%s: metric %s was dropped without a warning (%s)" % (what, shown, log))
    if quiet and all(own.values()):
        need(not log, "%s: warnings were to be silenced but came: %s" % (what, log))
    if not rows and len(dropped) + len(unselected) == len(build(None, spec, case)):
        need(got is None, "%s: no metric is left but stats() returned %r" % (what, got))
        need(quiet or any("No metrics" in w for w in log), "%s: nothing was said about the missing metrics" % what)
        return ["empty"]
    exp = {}
    for t, kind, v in rows:
        if t in exp:
            labs.append("dup")
        exp[t] = (kind, v)
    info = desc(case)
    if ndim == 1 or case["column"] is not None or case["agg"] is not None:
        need(isinstance(got, pd.Series), "%s: a Series was expected, got %s (%s)" % (what, type(got).__name__, info))
        need(got.index.tolist() == list(exp), "%s: rows are %s, expected %s (%s)" % (what, got.index.tolist(), list(exp), info))
        want = name if ndim == 1 else case["column"] if case["column"] is not None else agg_name(case["agg"])
        if want is not None or ndim == 1:
            need(got.name == want or (got.name is None and want is None), "%s: the table is named %r, expected %r (%s)" % (what, got.name, want, info))
        for (t, (kind, v)), g in zip(exp.items(), got.tolist()):
            need(kind == "val", "%s: oracle has a series for %r" % (what, t))
            need(same_cell(g, v), "%s: %r is %r, expected %r (%s)" % (what, t, g, v, info), sig="%s:%s" % (what, t))
    else:
        need(isinstance(got, pd.DataFrame), "%s: a DataFrame was expected, got %s (%s)" % (what, type(got).__name__, info))
        need(got.columns.tolist() == list(exp), "%s: rows are %s, expected %s (%s)" % (what, got.columns.tolist(), list(exp), info))
        need(got.index.equals(columns) and got.index.names == columns.names, "%s: the table is labelled %s, expected %s" % (what, got.index, columns))
        for t, (kind, v) in exp.items():
            for j, g in enumerate(got[t].tolist()):
                x = v.iloc[j] if kind == "series" else v
                need(same_cell(g, x), "%s: %r of %r is %r, expected %r (%s)" % (what, t, columns[j], g, x, info), sig="%s:%s" % (what, t))
    return labs + ["nt"] * bool(len(exp) > 1 or case["mset"] or case["settings"]) + ["dropped"] * bool(dropped)


def desc(case):
    return {k: case[k] for k in ("metrics", "tags", "column", "group_by", "agg", "settings", "mset") if case.get(k)}


@st.composite
def s_call(draw, names, tags, columns, groups, settings, msets, agg=("mean", "mean", "max", "min", "first", None, None, "sum", "part"), extra=()):
    """columns: group_by -> candidate labels; settings/msets: name -> candidate values."""
    metrics = draw(weighted((2, None), (5, "some")))
    if metrics is not None:
        metrics = draw(st.lists(st.sampled_from(names + list(extra) * 3), min_size=1, max_size=5))
    leaf = st.sampled_from(tags)
    expr = st.recursive(leaf, lambda c: st.one_of(st.tuples(st.just("not"), c), st.tuples(st.sampled_from(["and", "or"]), c, c)), max_leaves=4)
    tg = draw(weighted((3, None), (1, "some")))
    if tg is not None:
        tg = draw(st.lists(expr, min_size=1, max_size=2))
    g = draw(st.sampled_from(groups))
    col = draw(weighted((2, None), (1, "some")))
    if col is not None:
        cc = columns(g)
        col = draw(st.sampled_from(cc)) if cc else None
    used = metrics if metrics is not None else names
    final = [f for f, _ in build(None, None, dict(metrics=used))]

    def some(d, p):
        out = {}
        for k, vs in d.items():
            if draw(st.integers(0, p)) == 0:
                out[k] = draw(st.sampled_from(vs))
        return out
    sett = some(settings, 2) if draw(st.booleans()) else {}
    mset = {}
    if draw(st.booleans()):
        for n in draw(st.lists(st.sampled_from(final), min_size=1, max_size=3, unique=True)):
            mset[n] = some(msets, 2)
    return dict(metrics=metrics, tags=tg, group_by=g, column=col, agg=draw(st.sampled_from(list(agg))), settings=sett, mset=mset,
                silence=draw(st.integers(0, 3)) == 0, bare=draw(st.booleans()))


WRAP = {
    "start": M("Start", lambda o, s: o.wrapper.index[0], ["wrapper"]),
    "end": M("End", lambda o, s: o.wrapper.index[-1], ["wrapper"]),
    "period": M("Period", lambda o, s: len(o.wrapper.index), ["wrapper"], dur=True),
}


def pct(v):
    return v * 100


def unitless(f):
    """Call a method for a raw number of steps."""
    return f(wrap_kwargs=dict(to_timedelta=False))


# ---------------------------------------------------------------- facet: portfolio

N, C = 6, 3
LABELS = {None: ["a", "b", "c"], False: ["a", "b", "c"]}


def open_tags(*extra):
    return lambda s: ["portfolio", "trades"] + (["open", "closed"] if s["incl_open"] else ["closed"]) + list(extra)


def trades_of(o, s):
    t = s.get("trades_type_forgotten", s["trades_type"])
    if isinstance(t, str):
        t = {"entrytrades": 0, "exittrades": 1, "positions": 2}[t.replace("_", "").lower()]
    tr = [o.get_entry_trades, o.get_exit_trades, o.get_positions][t]()
    return tr if s["incl_open"] else tr.closed


def racc(o, s):
    return o.get_returns_acc(year_freq=s["year_freq"], use_asset_returns=s["use_asset_returns"])


def rkw(s, *names):
    return {n: s[n] for n in names if n in s}


PF = dict(WRAP)
PF.update({
    "start_value": M("Start Value", lambda o, s: o.get_init_cash(), ["portfolio"]),
    "end_value": M("End Value", lambda o, s: o.final_value(), ["portfolio"]),
    "total_return": M("Total Return [%]", lambda o, s: pct(o.total_return()), ["portfolio"]),
    "benchmark_return": M("Benchmark Return [%]", lambda o, s: pct((o.benchmark_returns() + 1).prod() - 1), ["portfolio"]),
    "max_gross_exposure": M("Max Gross Exposure [%]", lambda o, s: pct(o.gross_exposure().max()), ["portfolio"]),
    "total_fees_paid": M("Total Fees Paid", lambda o, s: o.get_orders().fees.sum(), ["portfolio", "orders"]),
    "max_dd": M("Max Drawdown [%]", lambda o, s: -pct(o.get_drawdowns().max_drawdown()), ["portfolio", "drawdowns"]),
    "max_dd_duration": M("Max Drawdown Duration", lambda o, s: unitless(o.get_drawdowns().max_duration), ["portfolio", "drawdowns", "duration"], dur=True),
    "total_trades": M("Total Trades", lambda o, s: trades_of(o, s).count(), ["portfolio", "trades"], force=dict(incl_open=True)),
    "total_closed_trades": M("Total Closed Trades", lambda o, s: trades_of(o, s).closed.count(), ["portfolio", "trades", "closed"]),
    "total_open_trades": M("Total Open Trades", lambda o, s: trades_of(o, s).open.count(), ["portfolio", "trades", "open"], force=dict(incl_open=True)),
    "open_trade_pnl": M("Open Trade PnL", lambda o, s: trades_of(o, s).open.pnl.sum(), ["portfolio", "trades", "open"], force=dict(incl_open=True)),
    "win_rate": M("Win Rate [%]", lambda o, s: pct(trades_of(o, s).win_rate()), open_tags()),
    "best_trade": M("Best Trade [%]", lambda o, s: pct(trades_of(o, s).returns.max()), open_tags()),
    "worst_trade": M("Worst Trade [%]", lambda o, s: pct(trades_of(o, s).returns.min()), open_tags()),
    "avg_winning_trade": M("Avg Winning Trade [%]", lambda o, s: pct(trades_of(o, s).winning.returns.mean()), open_tags("winning")),
    "avg_losing_trade": M("Avg Losing Trade [%]", lambda o, s: pct(trades_of(o, s).losing.returns.mean()), open_tags("losing")),
    "avg_winning_trade_duration": M("Avg Winning Trade Duration", lambda o, s: trades_of(o, s).winning.duration.mean(), open_tags("winning", "duration"), dur=True),
    "avg_losing_trade_duration": M("Avg Losing Trade Duration", lambda o, s: trades_of(o, s).losing.duration.mean(), open_tags("losing", "duration"), dur=True),
    "profit_factor": M("Profit Factor", lambda o, s: trades_of(o, s).profit_factor(), open_tags()),
    "expectancy": M("Expectancy", lambda o, s: trades_of(o, s).expectancy(), open_tags()),
    "sharpe_ratio": M("Sharpe Ratio", lambda o, s: racc(o, s).sharpe_ratio(**rkw(s, "risk_free")), ["portfolio", "returns"], needs=["freq", "year_freq"]),
    "calmar_ratio": M("Calmar Ratio", lambda o, s: racc(o, s).calmar_ratio(), ["portfolio", "returns"], needs=["freq", "year_freq"]),
    "omega_ratio": M("Omega Ratio", lambda o, s: racc(o, s).omega_ratio(**rkw(s, "risk_free", "required_return")), ["portfolio", "returns"], needs=["freq", "year_freq"]),
    "sortino_ratio": M("Sortino Ratio", lambda o, s: racc(o, s).sortino_ratio(**rkw(s, "required_return")), ["portfolio", "returns"], needs=["freq", "year_freq"]),
})
PF_TAGS = ["portfolio", "orders", "trades", "open", "closed", "winning", "losing", "duration", "drawdowns", "returns", "wrapper", "nosuch"]
PF_SET = {"incl_open": [True, False], "use_asset_returns": [True], "trades_type": ["entry_trades", "EntryTrades", "exit_trades", "positions", 0, 1, 2],
          "required_return": [0.01], "risk_free": [0.002], "freq": ["2D", "12h"], "year_freq": ["252 days", None], "to_timedelta": [False, True]}
PF_MSET = {"incl_open": [True, False], "use_asset_returns": [True, False], "trades_type": ["entry_trades", "exit_trades", 2, "positions"],
           "title": ["My title"], "column": ["same"], "agg": ["max", "sum", None], "freq": ["3D"], "silence_warnings": [True, False],
           "year_freq": ["252 days"], "required_return": [0.02], "risk_free": [0.001], "to_timedelta": [False]}

EXTRA_DEF = {
    "ret_sum": dict(title="Sum", calc_func="returns.sum", tags=["portfolio", "returns"]),
    "ret_max": dict(title="Top", calc_func=lambda returns: returns.max(), resolve_returns=True, tags=["portfolio", "returns"]),
    "asset_sum": dict(title="Asset Sum", calc_func="returns.sum", use_asset_returns=True, tags=["portfolio", "returns"]),
    "pnl_open": dict(title="Any PnL", calc_func="trades.pnl.sum", incl_open=True, tags=["portfolio", "trades"]),
    "pnl_any": dict(title="PnL", calc_func=lambda trades: trades.pnl.sum(), resolve_trades=True, tags=["portfolio", "trades"]),
    "bought": dict(title="Bought", calc_func="buy_count", resolve_calc_func=True, tags=["portfolio", "orders"]),
}
EXTRA_DEF["bought"]["calc_func"] = "orders.buy.count"


def rets_of(o, s):
    return o.asset_returns() if s["use_asset_returns"] else o.returns()


EXTRA = {
    "ret_sum": M("Sum", lambda o, s: rets_of(o, s).sum(), ["portfolio", "returns"]),
    "ret_max": M("Top", lambda o, s: rets_of(o, s).max(), ["portfolio", "returns"]),
    "asset_sum": M("Asset Sum", lambda o, s: rets_of(o, s).sum(), ["portfolio", "returns"], force=dict(use_asset_returns=True)),
    "pnl_open": M("Any PnL", lambda o, s: trades_of(o, s).pnl.sum(), ["portfolio", "trades"], force=dict(incl_open=True)),
    "pnl_any": M("PnL", lambda o, s: trades_of(o, s).pnl.sum(), ["portfolio", "trades"]),
    "bought": M("Bought", lambda o, s: o.get_orders().buy.count(), ["portfolio", "orders"]),
}
TAKES = {"sharpe_ratio": ["risk_free"], "omega_ratio": ["risk_free", "required_return"], "sortino_ratio": ["required_return"]}


@st.composite
def s_data(draw):
    cell = weighted((3, 0), (3, 1), (3, -1), (1, 2), (1, -2))
    return dict(price=draw(st.lists(st.lists(st.integers(4, 40), min_size=C, max_size=C), min_size=N, max_size=N)),
                nanp=draw(weighted((4, None), (1, [0, 0]), (1, [2, 1]))),
                size=draw(st.lists(st.lists(cell, min_size=C, max_size=C), min_size=N, max_size=N)),
                fees=draw(st.sampled_from([0.0, 0.01])), cash=draw(st.sampled_from([100.0, 15.0])),
                group=draw(st.sampled_from([None, None, "list", "share"])), one=draw(st.integers(0, 3)) == 0,
                index=draw(weighted((3, "D"), (1, "int"), (1, "fixed"))), ttype=draw(st.sampled_from([None, None, "entry_trades", "positions"])))


def labels_for(data):
    """group_by -> labels that can be selected."""
    def f(g):
        if data["one"]:
            return []
        if g is None:
            g = [0, 0, 1] if data["group"] else False
        if g is False:
            return ["a", "b", "c", 0, 2]
        if g is True:
            return []
        return sorted(set(g))
    return f


@st.composite
def s_pf(draw):
    data = draw(s_data())
    c = draw(s_call(list(PF), PF_TAGS, labels_for(data), [None, None, None, False, True, [0, 1, 1], [5, 6, 6]], PF_SET, PF_MSET,
                    extra=list(EXTRA_DEF)))
    fix_column(draw, c, labels_for(data))
    for n, v in c["mset"].items():
        # a setting of one metric is handed to its function, so it has to be one the function knows
        for k in ("required_return", "risk_free"):
            if k in v and k not in TAKES.get(n.rstrip("_0123456789"), ()):
                del v[k]
    return dict(data=data, call=c)


def fix_column(draw, c, labels):
    for v in c["mset"].values():
        if "column" in v:
            cc = labels(c["group_by"])
            if cc and not (c["agg"] is None and c["column"] is None and False):
                v["column"] = draw(st.sampled_from(cc))
            else:
                del v["column"]


def make_pf(d):
    price = np.array(d["price"], dtype=float)
    if d["nanp"] is not None:
        price[tuple(d["nanp"])] = NAN
    index = pd.RangeIndex(N) if d["index"] == "int" else pd.date_range("2020-01-01", periods=N)
    close = pd.DataFrame(price, index=index, columns=pd.Index(["a", "b", "c"], name="k"))
    size = pd.DataFrame(np.array(d["size"], dtype=float), index=index, columns=close.columns)
    group = dict(group_by=[0, 0, 1], cash_sharing=d["group"] == "share") if d["group"] else {}
    if d["one"]:
        close, size, group = close["b"], size["b"], {}
    kw = {} if d["ttype"] is None else dict(trades_type=d["ttype"])
    return vbt.Portfolio.from_orders(close, size, fees=d["fees"], init_cash=d["cash"], log=True,
                                     freq="2D" if d["index"] == "fixed" else None, **group, **kw)


def with_freq(obj, s):
    if s.get("freq") is not None:
        return obj.replace(wrapper=obj.wrapper.replace(freq=s["freq"]))
    return obj


def regroup(obj, g):
    return obj if g is None else obj.regroup(g)


def shape_of(wrapper):
    """ndim, columns and name of the object after grouping, as its wrapper and its arguments say."""
    cols = wrapper.get_columns()
    return wrapper.get_ndim(), cols, wrapper.get_name()


def untie(case):
    """JSON turns tuples into lists: tag expressions."""
    if case["tags"] is not None:
        def t(x):
            return x if isinstance(x, str) else tuple(t(y) for y in x)
        case["tags"] = [t(x) for x in case["tags"]]
    return case


def run(obj, case, spec, defaults, what, resolve=None):
    case = untie(dict(case))
    try:
        target = regroup(obj, case["group_by"])
    except Exception:
        return ["ungroupable"]
    ndim, cols, name = shape_of(target.wrapper)
    return compare(obj, case, resolve or (lambda s: with_freq(target, s)), spec, defaults, ndim, cols, name, what)


def check_pf(case):
    d, c = case["data"], dict(case["call"])
    if d["one"] and isinstance(c["group_by"], list):
        c["group_by"] = None
    pf = make_pf(d)
    # a separate object answers the oracle's questions, so that nothing is shared through caches
    ref = make_pf(d)
    try:
        target = regroup(ref, c["group_by"])
    except Exception:
        return ["ungroupable"]
    defaults = dict(incl_open=False, use_asset_returns=False, trades_type=pf.trades_type, year_freq="365 days")
    case = untie(dict(c))
    ndim, cols, name = shape_of(target.wrapper)

    def go(dflt):
        return compare(pf, case, lambda s: with_freq(target, s), PF, dflt, ndim, cols, name, "portfolio")
    try:
        return go(defaults)
    except Violation as e:
        if "trades_type" not in case["settings"] and not any("trades_type" in v for v in case["mset"].values()):
            raise
        # known finding: get_trades() exists, so the trade type a table is asked for is forgotten; with that, all the rest has to match
        go(dict(defaults, trades_type_forgotten=pf.trades_type))
        raise Violation(str(e), "stats-trades-type-ignored")


# ---------------------------------------------------------------- facet: records

def srows(frame, key=str):
    """Rows of a per-column frame (or a Series for one column) as a dict."""
    return {k: frame.iloc[i] for i, k in enumerate(frame.index)}


def incl(o, s):
    return o if s["incl_open"] else o.closed


def incl_dd(o, s):
    return o if s["incl_active"] else o.recovered


def t_tags(*extra):
    return lambda s: ["trades"] + (["open", "closed"] if s["incl_open"] else ["closed"]) + list(extra)


def d_tags(*extra):
    return lambda s: (["drawdowns"] if s["incl_active"] else ["drawdowns", "recovered"]) + list(extra)


def cover(o, overlapping):
    return o.coverage(overlapping=overlapping, normalize=False)


COVER = {
    "coverage": M("Coverage", lambda o, s: cover(o, False), ["ranges", "coverage"], dur=True),
    "overlap_coverage": M("Overlap Coverage", lambda o, s: cover(o, True), ["ranges", "coverage"], dur=True),
}
COUNT = {"total_records": M("Total Records", lambda o, s: o.count(), ["records"])}

TRADES = dict(WRAP)
TRADES.update({
    "first_trade_start": M("First Trade Start", lambda o, s: o.entry_idx.nth(0, wrap_kwargs=dict(to_index=True)), ["trades", "index"]),
    "last_trade_end": M("Last Trade End", lambda o, s: o.exit_idx.nth(-1, wrap_kwargs=dict(to_index=True)), ["trades", "index"]),
    **COVER, **COUNT,
    "total_long_trades": M("Total Long Trades", lambda o, s: o.long.count(), ["trades", "long"]),
    "total_short_trades": M("Total Short Trades", lambda o, s: o.short.count(), ["trades", "short"]),
    "total_closed_trades": M("Total Closed Trades", lambda o, s: o.closed.count(), ["trades", "closed"]),
    "total_open_trades": M("Total Open Trades", lambda o, s: o.open.count(), ["trades", "open"]),
    "open_trade_pnl": M("Open Trade PnL", lambda o, s: o.open.pnl.sum(), ["trades", "open"]),
    "win_rate": M("Win Rate [%]", lambda o, s: pct(o.closed.win_rate()), t_tags()),
    "winning_streak": M("Max Win Streak", lambda o, s: incl(o, s).winning_streak.max(wrap_kwargs=dict(dtype=pd.Int64Dtype())), t_tags("streak")),
    "losing_streak": M("Max Loss Streak", lambda o, s: incl(o, s).losing_streak.max(wrap_kwargs=dict(dtype=pd.Int64Dtype())), t_tags("streak")),
    "best_trade": M("Best Trade [%]", lambda o, s: pct(incl(o, s).returns.max()), t_tags()),
    "worst_trade": M("Worst Trade [%]", lambda o, s: pct(incl(o, s).returns.min()), t_tags()),
    "avg_winning_trade": M("Avg Winning Trade [%]", lambda o, s: pct(incl(o, s).winning.returns.mean()), t_tags("winning")),
    "avg_losing_trade": M("Avg Losing Trade [%]", lambda o, s: pct(incl(o, s).losing.returns.mean()), t_tags("losing")),
    "avg_winning_trade_duration": M("Avg Winning Trade Duration", lambda o, s: incl(o, s).winning.duration.mean(), t_tags("winning", "duration"), dur=True),
    "avg_losing_trade_duration": M("Avg Losing Trade Duration", lambda o, s: incl(o, s).losing.duration.mean(), t_tags("losing", "duration"), dur=True),
    "profit_factor": M("Profit Factor", lambda o, s: incl(o, s).profit_factor(), t_tags()),
    "expectancy": M("Expectancy", lambda o, s: incl(o, s).expectancy(), t_tags()),
    "sqn": M("SQN", lambda o, s: incl(o, s).sqn(), t_tags()),
})
ORDERS = dict(WRAP)
ORDERS.update({
    **COUNT,
    "total_buy_orders": M("Total Buy Orders", lambda o, s: o.buy.count(), ["orders", "buy"]),
    "total_sell_orders": M("Total Sell Orders", lambda o, s: o.sell.count(), ["orders", "sell"]),
    "min_size": M("Min Size", lambda o, s: o.size.min(), ["orders", "size"]),
    "max_size": M("Max Size", lambda o, s: o.size.max(), ["orders", "size"]),
    "avg_size": M("Avg Size", lambda o, s: o.size.mean(), ["orders", "size"]),
    "avg_buy_size": M("Avg Buy Size", lambda o, s: o.buy.size.mean(), ["orders", "buy", "size"]),
    "avg_sell_size": M("Avg Sell Size", lambda o, s: o.sell.size.mean(), ["orders", "sell", "size"]),
    "avg_buy_price": M("Avg Buy Price", lambda o, s: o.buy.price.mean(), ["orders", "buy", "price"]),
    "avg_sell_price": M("Avg Sell Price", lambda o, s: o.sell.price.mean(), ["orders", "sell", "price"]),
    "total_fees": M("Total Fees", lambda o, s: o.fees.sum(), ["orders", "fees"]),
    "min_fees": M("Min Fees", lambda o, s: o.fees.min(), ["orders", "fees"]),
    "max_fees": M("Max Fees", lambda o, s: o.fees.max(), ["orders", "fees"]),
    "avg_fees": M("Avg Fees", lambda o, s: o.fees.mean(), ["orders", "fees"]),
    "avg_buy_fees": M("Avg Buy Fees", lambda o, s: o.buy.fees.mean(), ["orders", "buy", "fees"]),
    "avg_sell_fees": M("Avg Sell Fees", lambda o, s: o.sell.fees.mean(), ["orders", "sell", "fees"]),
})
LOGS = dict(WRAP)
LOGS.update({
    **COUNT,
    "res_status_counts": M("Status Counts", lambda o, s: srows(o.res_status.value_counts(incl_all_keys=True)), ["logs", "res_status", "value_counts"]),
    "res_status_info_counts": M("Status Info Counts", lambda o, s: srows(o.res_status_info.value_counts()), ["logs", "res_status_info", "value_counts"]),
})
DRAWDOWNS = dict(WRAP)
DRAWDOWNS.update({
    "coverage": M("Coverage [%]", lambda o, s: pct(o.coverage()), ["ranges", "duration"]),
    **COUNT,
    "total_recovered": M("Total Recovered Drawdowns", lambda o, s: o.recovered.count(), ["drawdowns"]),
    "total_active": M("Total Active Drawdowns", lambda o, s: o.active.count(), ["drawdowns"]),
    "active_dd": M("Active Drawdown [%]", lambda o, s: -pct(o.active_drawdown()), ["drawdowns", "active"], needs=["ungrouped"]),
    "active_duration": M("Active Duration", lambda o, s: unitless(o.active_duration), ["drawdowns", "active", "duration"], needs=["ungrouped"], dur=True),
    "active_recovery": M("Active Recovery [%]", lambda o, s: pct(o.active_recovery()), ["drawdowns", "active"], needs=["ungrouped"]),
    "active_recovery_return": M("Active Recovery Return [%]", lambda o, s: pct(o.active_recovery_return()), ["drawdowns", "active"], needs=["ungrouped"]),
    "active_recovery_duration": M("Active Recovery Duration", lambda o, s: unitless(o.active_recovery_duration), ["drawdowns", "active", "duration"], needs=["ungrouped"], dur=True),
    "max_dd": M("Max Drawdown [%]", lambda o, s: -pct(incl_dd(o, s).max_drawdown()), d_tags()),
    "avg_dd": M("Avg Drawdown [%]", lambda o, s: -pct(incl_dd(o, s).avg_drawdown()), d_tags()),
    "max_dd_duration": M("Max Drawdown Duration", lambda o, s: unitless(incl_dd(o, s).max_duration), d_tags("duration"), dur=True),
    "avg_dd_duration": M("Avg Drawdown Duration", lambda o, s: unitless(incl_dd(o, s).avg_duration), d_tags("duration"), dur=True),
    "max_return": M("Max Recovery Return [%]", lambda o, s: pct(o.recovered.recovery_return.max()), ["drawdowns", "recovered"]),
    "avg_return": M("Avg Recovery Return [%]", lambda o, s: pct(o.recovered.recovery_return.mean()), ["drawdowns", "recovered"]),
    "max_recovery_duration": M("Max Recovery Duration", lambda o, s: o.recovered.recovery_duration.max(), ["drawdowns", "recovered", "duration"], dur=True),
    "avg_recovery_duration": M("Avg Recovery Duration", lambda o, s: o.recovered.recovery_duration.mean(), ["drawdowns", "recovered", "duration"], dur=True),
    "recovery_duration_ratio": M("Avg Recovery Duration Ratio", lambda o, s: o.recovered.recovery_duration_ratio.mean(), ["drawdowns", "recovered"]),
})
DESCRIBE = {"Min": "min", "Median": "50%", "Max": "max", "Mean": "mean", "Std": "std"}
RANGES = dict(WRAP)
RANGES.update({
    **COVER, **COUNT,
    "duration": M("Duration", lambda o, s: {k: o.duration.describe().loc[v] for k, v in DESCRIBE.items()}, ["ranges", "duration"], dur=True),
})
RECORDS = dict(WRAP)
RECORDS.update({"count": M("Count", lambda o, s: o.count(), ["records"])})


def basic(kind, n):
    """Metrics that objects with and without a mapping have."""
    t = [kind, "describe"]
    return {
        **WRAP,
        "count": M("Count", lambda o, s: o.count(), n["count"][0], needs=n["count"][1]),
        "mean": M("Mean", lambda o, s: o.mean(), t, needs=["no mapping"]),
        "std": M("Std", lambda o, s: o.std(), t, needs=["no mapping"]),
        "min": M("Min", lambda o, s: o.min(), t, needs=["no mapping"]),
        "median": M("Median", lambda o, s: o.median(), t, needs=["no mapping"]),
        "max": M("Max", lambda o, s: o.max(), t, needs=["no mapping"]),
        "idx_min": M("Min Index", lambda o, s: o.idxmin(), [kind, "index"], agg=False, needs=["no mapping"]),
        "idx_max": M("Max Index", lambda o, s: o.idxmax(), [kind, "index"], agg=False, needs=["no mapping"]),
        "value_counts": M("Value Counts", lambda o, s: srows(o.value_counts(**rkw(s, "incl_all_keys"))), [kind, "value_counts"], needs=["mapping"]),
    }


MAPPED = basic("mapped_array", {"count": (["mapped_array"], [])})
REC_SPECS = {"entry_trades": TRADES, "exit_trades": TRADES, "positions": TRADES, "orders": ORDERS, "logs": LOGS, "drawdowns": DRAWDOWNS, "ranges": RANGES,
             "records": RECORDS, "size": MAPPED, "pnl": MAPPED, "side": MAPPED, "direction": MAPPED}
REC_TAGS = {"trades": ["trades", "open", "closed", "winning", "losing", "streak", "duration", "long", "short", "index", "coverage", "records", "wrapper"],
            "orders": ["orders", "buy", "sell", "size", "fees", "price", "records", "wrapper"],
            "logs": ["logs", "res_status", "value_counts", "records"],
            "drawdowns": ["drawdowns", "active", "recovered", "duration", "ranges", "records", "wrapper"],
            "ranges": ["ranges", "coverage", "duration", "records", "wrapper"], "records": ["records", "wrapper"],
            "mapped": ["mapped_array", "describe", "index", "value_counts", "wrapper"]}


def rec_class(kind):
    return {"entry_trades": "trades", "exit_trades": "trades", "positions": "trades"}.get(
        kind, "mapped" if kind in ("size", "pnl", "side", "direction") else kind)


@st.composite
def s_rec(draw):
    data = draw(s_data())
    kind = draw(st.sampled_from(list(REC_SPECS)))
    c = rec_class(kind)
    sett = {"freq": ["2D", "12h"], "to_timedelta": [False]}
    mset = {"title": ["My title"], "column": ["same"], "agg": ["max", "sum", None], "silence_warnings": [True, False], "freq": ["3D"]}
    if c == "trades":
        sett["incl_open"] = [True, False]
        mset["incl_open"] = [True, False]
    if c == "drawdowns":
        sett["incl_active"] = [True, False]
        mset["incl_active"] = [True, False]
    if c == "mapped":
        sett["incl_all_keys"] = [True]
    cc = draw(s_call(list(REC_SPECS[kind]), REC_TAGS[c] + ["nosuch"], labels_for(data), [None, None, None, False, True, [0, 1, 1], [5, 6, 6]], sett, mset))
    fix_column(draw, cc, labels_for(data))
    return dict(data=data, kind=kind, call=cc)


def rec_obj(pf, kind):
    if kind in ("entry_trades", "exit_trades", "positions", "orders", "logs", "drawdowns"):
        return getattr(pf, kind)
    if kind == "ranges":
        t = pf.entry_trades
        return Ranges(t.wrapper, np.array([tuple(r[n] for n in ("id", "col", "entry_idx", "exit_idx", "status")) for r in t.values],
                                          dtype=vbt.generic.enums.range_dt) if len(t.values) else np.empty(0, dtype=vbt.generic.enums.range_dt), ts=None)
    if kind == "records":
        return Records(pf.orders.wrapper, pf.orders.values)
    return getattr(pf.positions if kind in ("pnl", "direction") else pf.orders, kind)


def check_rec(case):
    d, c, kind = case["data"], dict(case["call"]), case["kind"]
    if d["one"] and isinstance(c["group_by"], list):
        c["group_by"] = None
    obj, ref = rec_obj(make_pf(d), kind), rec_obj(make_pf(d), kind)
    labs = both(obj, ref, c, REC_SPECS[kind], dict(incl_open=False, incl_active=False, incl_all_keys=False), kind)
    return labs + [kind] * bool("nt" in labs)


def both(obj, ref, c, spec, defaults, what, resolve=None):
    """Compare obj.stats with the oracle computed on a separate, equal object."""
    case = untie(dict(c))
    try:
        target = regroup(ref, case["group_by"])
    except Exception:
        return ["ungroupable"]
    ndim, cols, name = shape_of(target.wrapper)
    return compare(obj, case, lambda s: (resolve or with_freq)(target, s), spec, defaults, ndim, cols, name, what)


# ---------------------------------------------------------------- facet: accessors

GENERIC = basic("generic", {"count": (["generic", "describe"], ["no mapping"])})


def bench_of(s, o):
    b = s.get("benchmark_rets", o.benchmark_rets)
    return b


RETURNS = {k: M(m.title, m.fn, m.tags, m.dur) for k, m in WRAP.items()}
RT = ["returns"]
FQ = ["ungrouped", "freq", "year_freq"]
RETURNS.update({
    "total_return": M("Total Return [%]", lambda o, s: pct(o.total()), RT, needs=["ungrouped"]),
    "benchmark_return": M("Benchmark Return [%]", lambda o, s: pct((bench_of(s, o) + 1).prod() - 1), RT, needs=["ungrouped", "bench"]),
    "ann_return": M("Annualized Return [%]", lambda o, s: pct(o.annualized()), RT, needs=FQ),
    "ann_volatility": M("Annualized Volatility [%]", lambda o, s: pct(o.annualized_volatility(**rkw(s, "levy_alpha", "ddof"))), RT, needs=FQ),
    "max_dd": M("Max Drawdown [%]", lambda o, s: -pct(o.drawdowns.max_drawdown()), ["returns", "drawdowns"], needs=["ungrouped"]),
    "max_dd_duration": M("Max Drawdown Duration", lambda o, s: unitless(o.drawdowns.max_duration), ["returns", "drawdowns", "duration"], needs=["ungrouped"], dur=True),
    "sharpe_ratio": M("Sharpe Ratio", lambda o, s: o.sharpe_ratio(**rkw(s, "risk_free", "ddof")), RT, needs=FQ),
    "calmar_ratio": M("Calmar Ratio", lambda o, s: o.calmar_ratio(), RT, needs=FQ),
    "omega_ratio": M("Omega Ratio", lambda o, s: o.omega_ratio(**rkw(s, "risk_free", "required_return")), RT, needs=FQ),
    "sortino_ratio": M("Sortino Ratio", lambda o, s: o.sortino_ratio(**rkw(s, "required_return")), RT, needs=FQ),
    "skew": M("Skew", lambda o, s: o.obj.skew(), RT, needs=["ungrouped"]),
    "kurtosis": M("Kurtosis", lambda o, s: o.obj.kurtosis(), RT, needs=["ungrouped"]),
    "tail_ratio": M("Tail Ratio", lambda o, s: o.tail_ratio(), RT, needs=["ungrouped"]),
    "common_sense_ratio": M("Common Sense Ratio", lambda o, s: o.common_sense_ratio(), RT, needs=FQ),
    "value_at_risk": M("Value at Risk", lambda o, s: o.value_at_risk(**rkw(s, "cutoff")), RT, needs=["ungrouped"]),
    "alpha": M("Alpha", lambda o, s: o.alpha(benchmark_rets=bench_of(s, o), **rkw(s, "risk_free")), RT, needs=FQ + ["bench"]),
    "beta": M("Beta", lambda o, s: o.beta(benchmark_rets=bench_of(s, o)), RT, needs=["ungrouped", "bench"]),
})


def spread(r):
    d = r.duration
    return {"Min": d.min(), "Max": d.max(), "Mean": d.mean(), "Std": d.std(ddof=1)}


def sig_tags(s):
    return ["signals", "distance"] + (["other"] if s.get("other") is not None else [])


def dist_title(s):
    return "Distance" if s.get("other") is None else "Distance %s %s" % ("<-" if s["from_other"] else "->", s["other_name"])


def regrouped_acc(o, pd_obj):
    return pd_obj.vbt.signals(wrapper=o.wrapper) if False else type(o)(pd_obj, wrapper=o.wrapper)


SIGNALS = dict(WRAP)
SIGNALS.update({
    "total": M("Total", lambda o, s: o.total(), ["signals"]),
    "rate": M("Rate [%]", lambda o, s: pct(o.rate()), ["signals"]),
    "total_overlapping": M("Total Overlapping", lambda o, s: regrouped_acc(o, o.obj & s["other"]).total(), ["signals", "other"], needs=["other"]),
    "overlapping_rate": M("Overlapping Rate [%]", lambda o, s: pct(regrouped_acc(o, o.obj & s["other"]).total() / regrouped_acc(o, o.obj | s["other"]).total()),
                          ["signals", "other"], needs=["other"]),
    "first_index": M("First Index", lambda o, s: o.nth_index(0), ["signals", "index"]),
    "last_index": M("Last Index", lambda o, s: o.nth_index(-1), ["signals", "index"]),
    "norm_avg_index": M("Norm Avg Index [-1, 1]", lambda o, s: o.norm_avg_index(), ["signals", "index"]),
    "distance": M(dist_title, lambda o, s: spread(o.between_ranges(other=s.get("other"), from_other=s["from_other"])), sig_tags, dur=True),
    "total_partitions": M("Total Partitions", lambda o, s: o.total_partitions(), ["signals", "partitions"]),
    "partition_rate": M("Partition Rate [%]", lambda o, s: pct(o.partition_ranges().count() / o.total()), ["signals", "partitions"]),
    "partition_len": M("Partition Length", lambda o, s: spread(o.partition_ranges()), ["signals", "partitions", "distance"], dur=True),
    "partition_distance": M("Partition Distance", lambda o, s: spread(o.between_partition_ranges()), ["signals", "partitions", "distance"], dur=True),
})
DATA = dict(WRAP)
DATA.update({
    "total_symbols": M("Total Symbols", lambda o, s: len(o.symbols), ["data"]),
    "null_counts": M("Null Counts", lambda o, s: {k: type(o.wrapper.wrap(np.zeros(o.wrapper.shape), group_by=False).vbt)(
        v.isnull(), wrapper=o.wrapper).sum() for k, v in o.data.items()}, ["data"]),
})
OHLCV = dict(WRAP)


def flat(o, cols):
    names = {c.lower(): i for i, c in enumerate(o.obj.columns)}
    return o.obj.iloc[:, [names[c] for c in cols]].values.astype(float).ravel()


def ends(x):
    x = x[~np.isnan(x)]
    return (x[0], x[-1]) if len(x) else (NAN, NAN)


for _n, _t, _c in (("price", "Price", ["open", "high", "low", "close"]), ("volume", "Volume", ["volume"])):
    _tags = ["ohlcv", "ohlc" if _n == "price" else "volume"]
    OHLCV.update({
        "first_" + _n: M("First " + _t, lambda o, s, c=_c: ends(flat(o, c))[0], _tags),
        "lowest_" + _n: M("Lowest " + _t, lambda o, s, c=_c: flat(o, c).min(), _tags),
        "highest_" + _n: M("Highest " + _t, lambda o, s, c=_c: flat(o, c).max(), _tags),
        "last_" + _n: M("Last " + _t, lambda o, s, c=_c: ends(flat(o, c))[1], _tags),
    })

ACC_SPECS = {"generic": GENERIC, "mapped_generic": GENERIC, "returns": RETURNS, "signals": SIGNALS, "data": DATA, "ohlcv": OHLCV}
ACC_TAGS = {"generic": ["generic", "describe", "index", "value_counts", "wrapper"], "mapped_generic": ["generic", "value_counts", "wrapper"],
            "returns": ["returns", "drawdowns", "duration", "wrapper"], "signals": ["signals", "other", "distance", "partitions", "index", "wrapper"],
            "data": ["data", "wrapper"], "ohlcv": ["ohlcv", "ohlc", "volume", "wrapper"]}


@st.composite
def s_acc(draw):
    kind = draw(st.sampled_from(list(ACC_SPECS)))
    cell = st.integers(0, 5) if kind != "mapped_generic" else st.integers(0, 2)
    d = dict(kind=kind, x=draw(st.lists(st.lists(cell, min_size=C, max_size=C), min_size=N, max_size=N)),
             y=draw(st.lists(st.lists(st.integers(0, 5), min_size=C, max_size=C), min_size=N, max_size=N)),
             nan=draw(st.booleans()), group=draw(st.sampled_from([None, None, None, [0, 0, 1]])), one=draw(st.integers(0, 3)) == 0,
             index=draw(weighted((3, "D"), (1, "int"), (1, "fixed"))), bench=draw(st.booleans()),
             yf=draw(st.sampled_from([None, None, "100 days"])), dflt=draw(st.sampled_from([{}, {}, {"risk_free": 0.003}, {"cutoff": 0.3}, {"required_return": 0.02}])))
    if kind in ("ohlcv",):
        d["one"], d["group"] = False, None
    sett = {"freq": ["2D", "12h"], "to_timedelta": [False]}
    mset = {"title": ["My title"], "column": ["same"], "agg": ["max", "sum", None], "silence_warnings": [True, False], "freq": ["3D"]}
    if kind == "returns":
        sett.update(year_freq=["252 days"], benchmark_rets=["@other"], risk_free=[0.002], required_return=[0.01], cutoff=[0.4], ddof=[0], levy_alpha=[1.5])
        mset.update(year_freq=["90 days"])
    if kind == "signals":
        sett.update(other=["@other"], from_other=[True], other_name=["X"])
    if kind in ("generic", "mapped_generic"):
        sett.update(mapping=["@map"], incl_all_keys=[True])
    groups = [None, None, None, False, True, [0, 1, 1], [5, 6, 6]] if kind != "ohlcv" else [None]
    lab = labels_for(dict(one=d["one"] or kind == "ohlcv", group=d["group"]))
    c = draw(s_call(list(ACC_SPECS[kind]), ACC_TAGS[kind] + ["nosuch"], lab, groups, sett, mset))
    fix_column(draw, c, lab)
    return dict(d=d, call=c)


MAPS = {"main": {0: "zero", 1: "one", 2: "two", 3: "three", 4: "four", 5: "five"}, "alt": {0: "A", 1: "B", 2: "C", 3: "D", 4: "E", 5: "F", 6: "G"}}


def acc_obj(d):
    index = pd.RangeIndex(N) if d["index"] == "int" else pd.date_range("2020-01-01", periods=N)
    kw = dict(freq="2D") if d["index"] == "fixed" else {}
    cols = pd.Index(["a", "b", "c"], name="k")
    x = pd.DataFrame(np.array(d["x"], dtype=float), index=index, columns=cols)
    y = pd.DataFrame(np.array(d["y"], dtype=float), index=index, columns=cols)
    if d["one"]:
        x, y = x["b"], y["b"]
    g = None if d["one"] else d["group"]
    kind = d["kind"]
    if kind == "generic":
        return (x.where(x != 5) if d["nan"] else x).vbt(group_by=g, **kw), None
    if kind == "mapped_generic":
        return (x.astype(int)).vbt(mapping=MAPS["main"], group_by=g, **kw), None
    if kind == "returns":
        r = (x - 2.3) / 50
        b = (y - 2.4) / 60
        r = r.where(x != 5) if d["nan"] else r
        k2 = dict(kw, defaults=dict(d["dflt"]))
        if d["bench"]:
            k2["benchmark_rets"] = b
        if d["yf"]:
            k2["year_freq"] = d["yf"]
        if g is not None:
            k2["group_by"] = g
        return r.vbt.returns(**k2), (b * 0.7)
    if kind == "signals":
        return (x > 2).vbt.signals(group_by=g, **kw), y > 2
    if kind == "data":
        data = {"S1": x.where(x != 5) if d["nan"] else x, "S2": y.where(y > 1)}
        data = vbt.Data.from_data(data, download_kwargs={})
        if kw:
            data = data.replace(wrapper=data.wrapper.replace(**kw))
        return (data if g is None else data.regroup(g)), None
    base = np.array(d["x"], dtype=float)
    o = np.column_stack([base, np.array(d["y"], dtype=float)])[:, :5] + 1
    if d["nan"]:
        o[o == 6] = NAN
    names = ["Open", "High", "Low", "Close", "Volume"] if not d["bench"] else ["volume", "close", "Low", "OPEN", "high"]
    return pd.DataFrame(o, index=index, columns=names).vbt.ohlcv(**kw), None


def acc_resolve(target, s):
    o = with_freq(target, s)
    if s.get("mapping") is not None:
        o = o.replace(mapping=s["mapping"])
    if s.get("year_freq") is not None and hasattr(o, "year_freq"):
        o = o.replace(year_freq=s["year_freq"])
    return o


def check_acc(case):
    d, c = case["d"], dict(case["call"])
    if d["one"] and isinstance(c["group_by"], list):
        c["group_by"] = None
    kind = d["kind"]
    if kind == "data" and d["one"] and c["group_by"] is True:
        c["group_by"] = None
    obj, other = acc_obj(d)
    ref, _ = acc_obj(d)
    c["settings"] = {k: (other if v == "@other" else MAPS["alt"] if v == "@map" else v) if isinstance(v, str) else v for k, v in c["settings"].items()}
    defaults = dict(incl_all_keys=False, from_other=False, other_name="Other", **(d["dflt"] if kind == "returns" else {}))
    labs = both(obj, ref, c, ACC_SPECS[kind], defaults, kind, acc_resolve)
    return labs + [kind] * bool("nt" in labs)


# ---------------------------------------------------------------- facet: builder

FORMS = ["path", "objpath", "argpath", "self", "self_group", "resolve", "raw", "dict", "arg", "eval", "flow", "retarr", "boom"]
BOOM = (KeyError, ZeroDivisionError, RuntimeError)


@st.composite
def s_builder(draw):
    x = draw(st.lists(st.lists(st.integers(-3, 6), min_size=C, max_size=C), min_size=N, max_size=N))
    ms = []
    for i in range(draw(st.integers(1, 5))):
        form = draw(weighted(*[(1 if f in ("retarr", "boom") else 4, f) for f in FORMS]))
        m = dict(form=form, name=draw(st.sampled_from(["m", "m", "p", "q", "r"])), q=draw(st.sampled_from([0.0, 0.25, 1.0])),
                 stat=draw(st.sampled_from(["mean", "max", "min", "std"])), title=draw(st.sampled_from(["T", "U", "sub", None, None, None])),
                 post=draw(st.sampled_from([None, None, 10, -1])), agg=draw(st.sampled_from(["-", "-", "-", "max", None])), dur=draw(st.booleans()),
                 arg=draw(weighted((2, None), (1, 3))), check=draw(st.sampled_from([None, None, None, "pos", "inv_pos", "pos_off"])),
                 tags=draw(st.sampled_from([None, "one", ["one", "two"], ["two"]])), col=draw(weighted((5, None), (1, "c"))),
                 dir=draw(st.sampled_from(["longonly", "shortonly", "both"])))
        ms.append(m)
    return dict(x=x, metrics=ms, one=draw(st.integers(0, 3)) == 0, group=draw(st.sampled_from([None, None, [0, 0, 1]])),
                group_by=draw(st.sampled_from([None, None, False, True, [0, 1, 1]])), agg=draw(st.sampled_from(["mean", "max", "first", None])),
                column=draw(weighted((3, None), (1, 1))), sarg=draw(weighted((1, None), (1, 5))), garg=draw(weighted((3, None), (1, 7))),
                marg=draw(weighted((1, None), (1, 9))), margof=draw(st.integers(0, 4)), flag=draw(st.booleans()), tags=draw(st.sampled_from([None, None, None, ["one"], ["one and not two"]])),
                lim=draw(st.sampled_from([-1, 2])), silence=draw(st.booleans()), form=draw(st.sampled_from(["list", "dict", "own"])),
                bad=draw(weighted((9, None), (1, "metric"), (1, "setting"), (1, "filter"), (1, "type"))))


def check_builder(case):
    one = case["one"]
    idx = pd.date_range("2020-01-01", periods=N)
    x = pd.DataFrame(np.array(case["x"], dtype=float), index=idx, columns=pd.Index(["a", "b", "c"], name="k"))
    flow = any(m["form"] == "flow" for m in case["metrics"])
    g, gb = case["group"], case["group_by"]
    if one:
        x, g = x["b"], None
        if isinstance(gb, list) or gb is True:
            gb = None
    if flow:
        obj = vbt.Portfolio.from_orders(x.abs() + 3, x.mod(3) - 1, init_cash=1000.0, group_by=g)
    else:
        obj = x.vbt(group_by=g)
    eff_g = (gb if gb is not None else g) if gb is not False else None
    if eff_g is not None:
        arr = [0, 0, 0] if eff_g is True else eff_g
        labels = ["group"] if eff_g is True else sorted(set(arr))
        buckets = [[j for j in range(C) if arr[j] == l] for l in (labels if eff_g is not True else [0])]
    elif one:
        labels, buckets = ["b"], None
    else:
        labels, buckets = ["a", "b", "c"], [[0], [1], [2]]
    vals = [x.values] if one else [x.values[:, b].ravel() for b in buckets]
    single = len(labels) == 1 and (one or eff_g is not None)

    def wrapped(f):
        per = [f(v) for v in vals]
        return per[0] if single else pd.Series(per, index=labels)

    stat = {"mean": np.mean, "max": np.max, "min": np.min, "std": lambda v: np.std(v, ddof=1)}
    # ---- the definitions
    mlist, model, labs = [], [], []
    for i, m in enumerate(case["metrics"]):
        d = {}
        form = m["form"]
        if form in ("path", "eval", "resolve", "self_group") and flow:
            form = "self"
        if form == "flow" or (form == "objpath" and flow) or (form == "argpath" and flow):
            form = "flow"
        if form == "path":
            d["calc_func"] = m["stat"]
            f = lambda a, m=m: wrapped(stat[m["stat"]])
        elif form == "objpath":
            d["calc_func"] = "obj." + m["stat"]
            f = lambda a, m=m: stat[m["stat"]](x.values) if one else pd.Series([stat[m["stat"]](x.values[:, j]) for j in range(C)], index=["a", "b", "c"])
        elif form == "argpath":
            d["calc_func"] = ["obj", ("quantile", (m["q"],))]
            f = lambda a, m=m: np.quantile(x.values, m["q"]) if one else pd.Series([np.quantile(x.values[:, j], m["q"]) for j in range(C)], index=["a", "b", "c"])
        elif form == "self":
            d["calc_func"] = lambda self: float(self.wrapper.shape[0])
            f = lambda a: float(N)
        elif form == "self_group":
            d["calc_func"] = (lambda st_: lambda self, group_by: getattr(self, st_)(group_by=group_by))(m["stat"])
            f = lambda a, m=m: wrapped(stat[m["stat"]])
        elif form == "resolve":
            d["calc_func"] = eval("lambda %s: %s * 2" % (m["stat"], m["stat"]))
            d["resolve_" + m["stat"]] = True
            f = lambda a, m=m: wrapped(stat[m["stat"]]) * 2
        elif form == "raw":
            d["calc_func"] = lambda self, settings: settings.get("my_arg", -5)
            d["resolve_calc_func"] = False
            f = lambda a: -5 if a is None else a
        elif form == "dict":
            d["calc_func"] = lambda self: {"u": 1.5, 2: float(self.wrapper.shape[0])}
            f = lambda a: {"u": 1.5, "2": float(N)}
        elif form == "arg":
            d["calc_func"] = (lambda my_arg=4: my_arg * 2) if m["dur"] else (lambda self, my_arg=4: my_arg * 2)
            f = lambda a: 8 if a is None else a * 2
        elif form == "eval":
            d["calc_func"] = RepEval("'mean' if flag else 'max'")
            f = lambda a, m=m: wrapped(np.mean if case["flag"] else np.max)
        elif form == "flow":
            d["calc_func"] = [("asset_flow", (), {"direction": m["dir"]}), "abs", "sum"]
            d["resolve_calc_func"] = True

            def f(a, m=m):
                out = obj.asset_flow(direction=m["dir"]).abs().sum()
                return out
        elif form == "retarr":
            d["calc_func"] = lambda self: np.array([1.0, 2.0])
            f = None
        else:
            e = BOOM[i % len(BOOM)]

            def boom(self, e=e):
                raise e("boom")
            d["calc_func"], f = boom, e
        if m["title"] is not None:
            d["title"] = Sub("T of $metric_name") if m["title"] == "sub" else m["title"]
        if m["post"] is not None and form not in ("dict", "retarr", "boom"):
            d["post_calc_func"] = (lambda p: lambda self, out, settings: out * p)(m["post"])
        if m["agg"] != "-":
            d["agg_func"] = AGGS[m["agg"]]
        if m["dur"] and form in ("self", "dict"):
            d["apply_to_timedelta"] = True
        if m["arg"] is not None and form in ("arg", "raw"):
            d["my_arg"] = m["arg"]
        if m["check"] == "pos":
            d["check_pos"] = True
        elif m["check"] == "inv_pos":
            d["inv_check_pos"] = True
        elif m["check"] == "pos_off":
            d["check_pos"] = False
        if m["tags"] is not None:
            d["tags"] = m["tags"]
        if m["col"] is not None and not one and eff_g is None:
            d["column"] = m["col"]
        mlist.append((m["name"], d))
        model.append((m, d, form, f))
    if case["form"] == "dict":
        # the last one of a name wins, at the place of the first
        keep = {}
        for j, (n, d) in enumerate(mlist):
            keep[n] = j
        order = list(keep.values())
        mlist, model = [mlist[j] for j in order], [model[j] for j in order]
    names = [n for n, _ in mlist]
    final, cnt = [], {}
    for n in names:
        if names.count(n) > 1:
            cnt[n] = cnt.get(n, -1) + 1
            final.append("%s_%d" % (n, cnt[n]))
        else:
            final.append(n)
    # ---- arguments
    def my_filter(self, metric_settings):
        return case["lim"] > 0
    kw = dict(filters=dict(pos=dict(filter_func=my_filter, warning_message=Sub("$metric_name needs pos"), inv_warning_message=Sub("$metric_name not with pos"))),
              template_mapping=dict(flag=case["flag"]), settings={}, metric_settings={})
    if case["sarg"] is not None:
        kw["settings"]["my_arg"] = case["sarg"]
    target = final[case["margof"] % len(final)]
    tform = model[case["margof"] % len(final)][2]
    marg = case["marg"] if tform in ("arg", "raw") else None
    if marg is not None:
        kw["metric_settings"][target] = dict(my_arg=marg)
    if gb is not None:
        kw["group_by"] = gb
    column = None
    if case["column"] is not None and not single:
        column = labels[case["column"]]
        kw["column"] = column
    kw["agg_func"] = AGGS[case["agg"]]
    if case["tags"] is not None:
        kw["tags"] = case["tags"]
    kw["silence_warnings"] = case["silence"]
    kw["metrics"] = mlist[0] if len(mlist) == 1 and case["form"] == "list" else dict(mlist) if case["form"] == "dict" else mlist
    expect_err = None
    if case["bad"] == "metric":
        kw["metrics"], expect_err = list(mlist) + ["nosuch"], KeyError
    elif case["bad"] == "setting":
        kw["metric_settings"]["nosuch"], expect_err = dict(title="x"), ValueError
    elif case["bad"] == "type":
        kw["metrics"], expect_err = list(mlist) + [5], TypeError
    elif case["bad"] == "filter":
        kw["metrics"], expect_err = [("zz", dict(calc_func=lambda self: 1, check_nosuch=True, tags=["one"]))], ValueError
    cfg = vbt.settings.portfolio.stats if flow else vbt.settings.generic.stats
    own_metrics = {k: dict(v) for k, v in mlist} if case["form"] == "dict" else None
    try:
        if case["garg"] is not None:
            cfg.setdefault("settings", {})["my_arg"] = case["garg"]
        # ---- the model
        rows, warned = [], []
        if expect_err is None:
            for (m, d, form, f), n in zip(model, final):
                if case["tags"] is not None:
                    t = d.get("tags")
                    t = [t] if isinstance(t, str) else t
                    if t is None or not ("one" in t and (case["tags"] == ["one"] or "two" not in t)):
                        continue
                if (d.get("check_pos") and case["lim"] < 0) or (d.get("inv_check_pos") and case["lim"] > 0):
                    warned.append(n + (" needs pos" if d.get("check_pos") else " not with pos"))
                    labs.append("filtered")
                    continue
                rows.append((m, d, form, f, n))
        exp, err = [], expect_err
        for m, d, form, f, n in rows:
            if err is not None:
                break
            if form == "retarr":
                err = TypeError
                break
            if form == "boom":
                err = f
                break
            a = case["garg"]
            a = case["sarg"] if case["sarg"] is not None else a
            a = d.get("my_arg", a)
            a = marg if n == target and marg is not None else a
            v = f(a)
            if "post_calc_func" in d:
                v = v * m["post"]
            if d.get("apply_to_timedelta"):
                v = scale_dur(v, DAY)
            title = ("T of " + m["name"] if final.count(n) and n == m["name"] else "T of " + n) if m["title"] == "sub" else m["title"] if m["title"] else n
            for t, val in ([(title + ": " + k, y) for k, y in v.items()] if isinstance(v, dict) else [(title, v)]):
                if isinstance(val, pd.Series):
                    col = d.get("column", column)
                    if col is not None:
                        try:
                            val = val.loc[col]
                        except KeyError:
                            return ["mismatched"]
                    elif d.get("agg_func", 1) is not None and case["agg"] is not None:
                        val = AGGS[m["agg"] if "agg_func" in d else case["agg"]](val)
                    elif "agg_func" in d and d["agg_func"] is None and case["agg"] is not None:
                        labs.append("noagg")
                        continue
                    elif len(val) != len(labels) or list(val.index) != list(labels):
                        return ["mismatched"]
                exp.append((t, val))
        try:
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                if case["form"] == "own" and case["bad"] is None and len(set(names)) == len(names):
                    # metrics that belong to the instance
                    del kw["metrics"]
                    fresh = obj.copy() if hasattr(obj, "copy") and not hasattr(obj, "obj") else obj.replace()
                    for k in list(fresh.metrics):
                        fresh.metrics.pop(k, force=True) if False else dict.pop(fresh.metrics, k)
                    for k, v in mlist:
                        dict.__setitem__(fresh.metrics, k, v)
                    got = fresh.stats(**kw)
                    need(set(type(obj)._metrics) >= {"start", "end", "period"} and "start" in obj.metrics, "changing the metrics of one instance changed others")
                    labs.append("own")
                else:
                    got = obj.stats(**kw)
            log = [str(w.message) for w in log if issubclass(w.category, UserWarning)]
        except Exception as e:
            need(err is not None and type(e) is err, "stats raised %s: %s, expected %s (%s)" % (type(e).__name__, str(e)[:200], err and err.__name__, case["bad"]),
                 sig="builder-raise")
            return ["raised", "nt"]
        need(err is None, "stats returned %r although %s was due" % (got, err and err.__name__), sig="builder-noraise")
    finally:
        cfg.reset()
    if case["silence"]:
        need(not log, "silenced, yet warned: %s" % log)
    else:
        for w in warned:
            need(w in log, "the warning %r did not come: %s" % (w, log), sig="builder-warning")
    if not rows:
        need(got is None, "nothing to compute, yet the result is %r" % (got,))
        return labs + ["empty"]
    final_rows = dict(exp)
    if single or column is not None or case["agg"] is not None:
        need(isinstance(got, pd.Series) and got.index.tolist() == list(final_rows), "rows %s, expected %s" % (list(got.index), list(final_rows)))
        if single:
            need(got.name == labels[0], "named %r, expected %r" % (got.name, labels[0]))
        else:
            want = column if column is not None else agg_name(case["agg"])
            need(got.name == want, "named %r, expected %r" % (got.name, want))
        for t, a in zip(final_rows, got.tolist()):
            need(same_cell(a, final_rows[t]), "%r is %r, expected %r" % (t, a, final_rows[t]), sig="builder-value")
    else:
        need(isinstance(got, pd.DataFrame) and got.columns.tolist() == list(final_rows) and got.index.tolist() == labels,
             "table is %r, expected rows %s of %s" % (got, list(final_rows), labels))
        for t, v in final_rows.items():
            for j in range(len(labels)):
                need(same_cell(got[t].tolist()[j], v.iloc[j] if isinstance(v, pd.Series) else v), "%r of %r is %r, expected %r" % (
                    t, labels[j], got[t].tolist()[j], v), sig="builder-value")
    return labs + ["nt"] * (len(rows) > 1)


FACETS = [
    Facet("portfolio", lambda: s_pf(), check_pf, 260, 4000, rule="a table with several rows, or with overridden settings, was compared", shards=4),
    Facet("records", lambda: s_rec(), check_rec, 500, 8000, rule="a table with several rows, or with overridden settings, was compared", shards=3),
    Facet("accessors", lambda: s_acc(), check_acc, 500, 8000, rule="a table with several rows, or with overridden settings, was compared", shards=3),
    Facet("builder", lambda: s_builder(), check_builder, 800, 12000, rule="several custom metrics were computed, or the expected error came", shards=2),
]
