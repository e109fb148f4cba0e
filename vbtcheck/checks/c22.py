"""C22: caching and persistence never change results.

Oracle: for toy classes a reference cache with the documented ranking of caching conditions, where every evaluation yields a new token, so
that reuse and mix-ups are visible; for real objects a differential against a fresh object with caching disabled, one access each."""
import copy
import inspect
import os
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.generic.ranges import Ranges
from vectorbt.utils.config import Config, Configured
from vectorbt.utils.decorators import CacheCondition, cached_method, cached_property

from vbtcheck.core import Facet
from vbtcheck.util import NAN, need, weighted

ASSUMPTIONS = [
    "Global settings other than those of caching stay the same between accesses.",
    "Returned objects are not modified by the caller.",
    "A call spelled differently (positional or by keyword) may or may not share its cached result.",
]


# ---------------------------------------------------------------- facet: decorators

PROPS, METHS = ["p", "q"], ["m", "n"]


@st.composite
def s_cond(draw):
    return dict(instance=draw(weighted((3, None), (1, 0), (1, 1), (1, 2))),
                func=draw(st.sampled_from([None, None, "p", "m", "n", "A.p", "B.p", "A.m", "B.m", "A.n"])),
                cls=draw(st.sampled_from([None, None, None, "'A", "'B", "'C", "A", "B", "C"])),
                base_cls=draw(st.sampled_from([None, None, None, "'A", "'B", "A", "B"])),
                flags=draw(st.sampled_from([None, None, None, {}, {"x": 1}, {"x": 2}, {"y": True}, {"x": 1, "y": True}])),
                rank=draw(weighted((6, None), (1, 0), (1, 5), (1, 20))))


@st.composite
def s_decorators(draw):
    fl = st.sampled_from([{}, {"x": 1}, {"x": 2}, {"y": True}, {"x": 1, "y": True}])
    flags = {"%s.%s" % (c, n): draw(fl) for c in "ABC" for n in PROPS + METHS}
    over = {"%s.%s" % (c, n): draw(st.sampled_from(["no", "super", "plain"])) for c in "BC" for n in PROPS + METHS}
    args = st.sampled_from([[], [0], [1], [True], [False], [1.0], ["a"], [None], [[1]], [{"d": 1}], [0, 1], [["t", 1]]])
    kw = st.sampled_from([{}, {}, {"x": 0}, {"x": False}, {"y": 1}, {"y": [1]}])
    obj = st.integers(0, 2)
    ops = st.one_of(
        st.tuples(st.just("prop"), obj, st.sampled_from(PROPS)), st.tuples(st.just("prop"), obj, st.sampled_from(PROPS)),
        st.tuples(st.just("meth"), obj, st.sampled_from(METHS), args, kw),
        st.tuples(st.just("meth"), obj, st.sampled_from(METHS), args, kw),
        st.tuples(st.just("clear"), obj, st.sampled_from(PROPS + METHS), st.sampled_from(["A", "B", "C"])),
        st.tuples(st.just("enabled"), st.booleans()),
        st.tuples(st.sampled_from(["whitelist", "blacklist"]), s_cond()),
        st.tuples(st.sampled_from(["whitelist", "blacklist"]), s_cond()),
        st.tuples(st.just("both"), s_cond(), st.booleans()), st.tuples(st.just("forget")))
    def expand(op):     # conditions of equal rank on both lists: the general switch decides
        return [["whitelist", op[1]], ["blacklist", op[1]], ["enabled", op[2]]] if op[0] == "both" else [list(op)]
    return dict(flags=flags, over=over, maxsize=draw(weighted((4, 128), (1, 1))),
                classes=draw(st.lists(st.sampled_from("ABC"), min_size=3, max_size=3)),
                ops=[x for o in draw(st.lists(ops, min_size=3, max_size=16)) for x in expand(o)])


class Counter:
    n = 0

    def next(self):
        self.n += 1
        return self.n


def toy_classes(case, counter):
    """A, B(A), C(B); each method returns (its class, a new token, the parent's value or None)."""
    classes = {}

    def dct(c, parent):
        d = {}
        for n in PROPS + METHS:
            how = case["over"].get("%s.%s" % (c, n), "plain")
            if how == "no":
                continue

            def make(n=n, how=how):
                if n in PROPS:
                    def f(self):
                        return (c, counter.next(), getattr(super(classes[c], self), n) if how == "super" else None)
                else:
                    def f(self, x=None, y=5):
                        return (c, counter.next(), getattr(super(classes[c], self), n)(x, y=y) if how == "super" else None)
                f.__name__ = n
                f.__qualname__ = "%s.%s" % (c, n)
                return f
            flags = case["flags"]["%s.%s" % (c, n)]
            if n in PROPS:
                p = cached_property(**flags)(make()) if flags else cached_property(make())
                d[n] = p
            else:
                d[n] = cached_method(maxsize=case["maxsize"], **flags)(make())
        return d
    base = (object,)
    for c in "ABC":
        classes[c] = type(c, base, dct(c, None))
        base = (classes[c],)
    return classes


def ref_rank(cond, objs, obj, cname, definer, name, flags):
    mro = ["A", "B", "C"][:"ABC".index(cname) + 1]
    if cond["instance"] is not None and objs[cond["instance"]] is not obj:
        return 100
    if cond["func"] is not None:
        if "." in cond["func"]:
            if cond["func"] != "%s.%s" % (definer, name):
                return 100
        elif cond["func"] != name:
            return 100
    if cond["cls"] is not None and cond["cls"].lstrip("'") != cname:
        return 100
    if cond["base_cls"] is not None and cond["base_cls"].lstrip("'") not in mro:
        return 100
    if cond["flags"] is not None and any(k not in flags or flags[k] != v for k, v in cond["flags"].items()):
        return 100
    keys = [k for k in ("instance", "func", "cls", "base_cls", "flags") if cond[k] is not None]
    table = [("instance", "func"), ("instance", "flags"), ("instance",), ("cls", "func"), ("cls", "flags"), ("cls",), ("base_cls", "func"),
             ("base_cls", "flags"), ("base_cls",), ("func", "flags"), ("func",), ("flags",)]
    for r, t in enumerate(table):
        if set(t) <= set(keys):
            return r if cond["rank"] is None else cond["rank"]
    return 100


def arg_key(x):
    return (type(x).__name__, repr(x))


def check_decorators(case):
    counter = Counter()
    cl = toy_classes(case, counter)
    objs = [cl[c]() for c in case["classes"]]
    cfg = vbt.settings["caching"]
    saved = dict(cfg)
    conds = dict(whitelist=[], blacklist=[])
    enabled = True
    # reference caches: (object, definer, name) -> value, or -> {spelling: value} for methods
    cache = {}
    hits = filtered = mixed = 0

    def definer_of(c, name, after=None):
        chain = ["A", "B", "C"][:"ABC".index(c) + 1][::-1]
        if after is not None:
            chain = chain[chain.index(after) + 1:]
        for d in chain:
            if case["over"].get("%s.%s" % (d, name), "plain") != "no":
                return d

    def cached(i, d, name):
        fl = case["flags"]["%s.%s" % (d, name)]
        w = min([ref_rank(c, objs, objs[i], case["classes"][i], d, name, fl) for c in conds["whitelist"]] + [100])
        b = min([ref_rank(c, objs, objs[i], case["classes"][i], d, name, fl) for c in conds["blacklist"]] + [100])
        return enabled if w == b else w < b

    def expect(i, d, name, spelling, got, call):
        """Compare a value with the reference; returns whether it was a reuse."""
        on = cached(i, d, name)
        hashable = call is None or not any(isinstance(a, (list, dict)) for a in call)
        key = (i, d, name)
        store = cache.setdefault(key, {}) if on else None
        need(isinstance(got, tuple) and got[0] == d, "%s of a %s came from %s, expected %s" % (name, case["classes"][i], got, d))
        if on and hashable and spelling in store:
            need(got is store[spelling] or got == store[spelling], "%s%s of object %d is %s, cached was %s" % (name, spelling, i, got,
                                                                                                      store[spelling]))
            return True
        fresh = got[1] > mark
        if on and hashable and not fresh:
            same = [v for s, v in store.items() if s[-1] == spelling[-1]]
            need(got in same, "%s%s of object %d was taken from the cache of something else: %s" % (name, spelling, i, got))
        else:
            need(fresh, "%s%s of object %d was not computed although %s" % (name, spelling, i, "it is not cached" if not on else
                                                                            "nothing is cached yet"))
        how = case["over"].get("%s.%s" % (d, name), "plain")
        if how == "super":
            dd = definer_of(case["classes"][i], name, d)
            sub = spelling if call is None else (("sup",), spelling[-1])
            if fresh:
                expect(i, dd, name, sub, got[2], call)
        else:
            need(got[2] is None, "unexpected parent value")
        if on and hashable:
            if case["maxsize"] == 1 and call is not None:
                store.clear()
            store[spelling] = got
        return False

    try:
        cfg["enabled"], cfg["whitelist"], cfg["blacklist"] = True, [], []
        for op in case["ops"]:
            if op[0] == "enabled":
                cfg["enabled"] = enabled = op[1]
            elif op[0] in ("whitelist", "blacklist"):
                c = op[1]
                kw = {k: c[k] for k in ("flags", "rank")}
                kw["instance"] = None if c["instance"] is None else objs[c["instance"]]
                for k in ("cls", "base_cls"):
                    kw[k] = None if c[k] is None else (c[k][1:] if c[k][0] == "'" else cl[c[k]])
                f = c["func"]
                if f is not None and "." in f:
                    k, n = f.split(".")
                    if case["over"].get(f, "plain") == "no":
                        continue
                    f = inspect.getattr_static(cl[k], n)
                    filtered += 1
                kw["func"] = f
                cfg[op[0]].append(CacheCondition(**kw))
                conds[op[0]].append(c)
                filtered += 1
            elif op[0] == "forget":
                cfg["whitelist"], cfg["blacklist"] = [], []
                conds = dict(whitelist=[], blacklist=[])
            elif op[0] == "clear":
                i, name, k = op[1], op[2], op[3]
                if "ABC".index(k) > "ABC".index(case["classes"][i]):
                    continue
                d = definer_of(k, name)
                inspect.getattr_static(cl[d], name).clear_cache(objs[i])
                cache.pop((i, d, name), None)
            elif op[0] == "prop":
                i, name = op[1], op[2]
                mark = counter.n
                got = getattr(objs[i], name)
                hits += expect(i, definer_of(case["classes"][i], name), name, ("prop",), got, None)
            else:
                i, name = op[1], op[2]
                args = [tuple(a[1:]) if isinstance(a, list) and a and a[0] == "t" else a for a in op[3]]
                kw = {k: v for k, v in op[4].items() if not (k == "x" and len(args) > 0) and not (k == "y" and len(args) > 1)}
                full = dict(zip(["x", "y"], args))
                full.update(kw)
                mark = counter.n
                got = getattr(objs[i], name)(*copy.deepcopy(args), **copy.deepcopy(kw))
                canon = (arg_key(full.get("x")), arg_key(full.get("y", 5)))
                spelling = (tuple(map(arg_key, args)), tuple((k, arg_key(v)) for k, v in kw.items()), canon)
                hits += expect(i, definer_of(case["classes"][i], name), name, spelling, got, list(full.values()))
                mixed += len(args) + len(kw) > 0
    finally:
        for k, v in saved.items():
            cfg[k] = v
    return [t for t, on in (("hit", hits), ("filtered", filtered), ("args", mixed), ("nt", hits and (filtered or mixed))) if on]


# ---------------------------------------------------------------- real objects

N, C = 6, 3


@st.composite
def s_pf(draw):
    cell = weighted((3, 0), (3, 1), (2, -1), (1, 2), (1, -2))
    return dict(price=draw(st.lists(st.lists(st.integers(4, 40), min_size=C, max_size=C), min_size=N, max_size=N)),
                nanp=draw(weighted((3, None), (1, [0, 0]), (1, [2, 1]))),
                size=draw(st.lists(st.lists(cell, min_size=C, max_size=C), min_size=N, max_size=N)),
                fees=draw(st.sampled_from([0.0, 0.01])), cash=draw(st.sampled_from([100.0, 15.0, "auto"])),
                group=draw(st.sampled_from([None, None, "list", "share"])), multi=draw(st.booleans()), fill=draw(st.booleans()),
                freq=draw(weighted((4, True), (1, False))))


def make_pf(case, **kw):
    price = np.array(case["price"], dtype=float)
    if case["nanp"] is not None:
        price[tuple(case["nanp"])] = NAN
    cols = pd.MultiIndex.from_tuples([("x", 0), ("x", 1), ("y", 1)], names=["k", "i"]) if case["multi"] else pd.Index(["a", "b", "c"], name="k")
    close = pd.DataFrame(price, index=pd.date_range("2020-01-01", periods=N), columns=cols)
    size = pd.DataFrame(np.array(case["size"], dtype=float), index=close.index, columns=cols)
    cash = case["cash"]
    group = dict(group_by=[0, 0, 1], cash_sharing=case["group"] == "share") if case["group"] else {}
    return vbt.Portfolio.from_orders(close, size, fees=case["fees"], init_cash=cash, log=True, freq="1D" if case["freq"] else None,
                                     fillna_close=case["fill"], **group, **kw)


GB = [None, False, True, [0, 1, 1], "0k"]
PARAMS = {"group_by": [None, None, 0, False, True, [0, 0, 1], [0, 1, 1], "L"], "direction": ["both", "longonly", "shortonly"],
          "in_sim_order": [False, True], "incl_open": [False, True], "overlapping": [False, True], "normalize": [True, False],
          "incl_unrealized": [False, True], "free": [False, True], "fill_value": [0.0, NAN], "ddof": [1, 0], "n": [1, 2],
          "required_return": [0.0, 0.01], "cutoff": [0.05, 0.5], "sort": [False, True], "dropna": [False, True], "idx_arr": [None],
          "incl_id": [False, True]}
FLOW = ["asset_flow", "assets", "position_mask", "position_coverage", "cash_flow", "cash", "asset_value", "gross_exposure", "net_exposure",
        "value", "total_profit", "final_value", "total_return", "get_init_cash", "init_cash", "get_filled_close", "benchmark_value",
        "total_benchmark_return", "stats"]
RETS = ["returns", "asset_returns", "benchmark_returns", "cumulative_returns", "annualized_return", "annualized_volatility", "sharpe_ratio",
        "sortino_ratio", "calmar_ratio", "omega_ratio", "max_drawdown", "tail_ratio", "value_at_risk", "alpha", "beta", "drawdown",
        "drawdowns", "get_drawdowns", "information_ratio", "daily_returns", "returns_stats", "downside_risk", "capture"]
RECS = ["orders", "get_orders", "logs", "get_logs", "entry_trades", "exit_trades", "trades", "positions", "get_trades", "get_positions",
        "get_entry_trades", "get_exit_trades"]
REC_ATTRS = {
    "orders": ["size", "price", "fees", "side", "buy", "sell", "records_readable", "count", "stats", "is_sorted", "sort", "recarray"],
    "trades": ["pnl", "returns", "winning", "losing", "winning_streak", "losing_streak", "win_rate", "profit_factor", "expectancy", "sqn",
               "duration", "avg_duration", "coverage", "records_readable", "long", "short", "open", "closed", "stats"],
    "positions": ["pnl", "long", "open", "stats", "coverage", "entry_price", "max_duration"],
    "drawdowns": ["drawdown", "avg_drawdown", "max_drawdown", "recovery_return", "duration", "active_drawdown", "active_duration",
                  "recovery_duration", "decline_duration", "recovery_duration_ratio", "stats", "active", "recovered", "coverage"],
    "logs": ["req_size", "res_size", "res_status", "filled", "ignored", "rejected", "count", "stats", "res_status_info", "records_readable"],
}
MAPPED = ["mean", "sum", "min", "max", "std", "median", "count", "idxmin", "idxmax", "describe", "value_counts", "top_n", "bottom_n", "nth",
          "nth_index", "is_expandable", "is_sorted", "sort", "to_pd", "stats", "top_n_mask", "apply_mapping"]
OTHER = {"wrapper": ["get_columns", "get_name", "get_ndim", "get_shape", "get_shape_2d", "freq", "index", "columns"],
         "grouper": ["get_columns", "get_groups", "get_group_lens", "get_group_count", "get_groups_and_columns", "get_group_start_idxs",
                     "get_group_end_idxs", "is_grouped", "is_grouping_enabled", "is_sorted"],
         "mapper": ["col_range", "col_map", "get_col_arr", "get_col_map", "get_col_range", "is_sorted"]}


def shared_kw(name, f, picks):
    kw = {}
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return kw
    names = list(sig.parameters)
    if any(p.kind == p.VAR_KEYWORD for p in sig.parameters.values()) and "group_by" not in names and name in RETS:
        names.append("group_by")
    for j, p in enumerate(names):
        if p in PARAMS:
            v = PARAMS[p][picks[j % len(picks)] % len(PARAMS[p])]
            required = p in sig.parameters and sig.parameters[p].default is inspect.Parameter.empty
            if required or picks[(j + 1) % len(picks)] % 2:
                kw[p] = v
    return kw


def evaluate(obj, name, picks, lab):
    """The outcome of accessing (and calling) an attribute."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            a = getattr(obj, name)
            if callable(a) and not isinstance(a, (pd.Series, pd.DataFrame, Wrapping)):
                kw = shared_kw(name, getattr(type(obj), name), picks)
                if kw.get("group_by") == "L":
                    kw["group_by"] = lab
                if name in ("stats", "returns_stats"):
                    kw["silence_warnings"] = True
                if name == "apply_mapping":
                    a = a({1.0: "one", -1.0: "minus"})
                elif name in ("pnl",):
                    a = a()
                else:
                    a = a(**kw)
            if name == "init_cash" and not isinstance(a, (pd.Series, pd.DataFrame)):
                a = float(a)
            return ("ok", a)
        except (ValueError, TypeError, KeyError, IndexError, NotImplementedError, ZeroDivisionError, AssertionError) as e:
            return ("raised", type(e).__name__, str(e)[:80])


def deep_same(a, b):
    """An independent deep comparison: types, labels, values (NaN equal to NaN)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.names:
            return all(deep_same(np.ascontiguousarray(a[n]), np.ascontiguousarray(b[n])) for n in a.dtype.names)
        if a.dtype == object:
            return all(deep_same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fcmM"))
    if isinstance(a, pd.Series):
        return deep_same(a.index, b.index) and a.dtype == b.dtype and deep_same(a.name, b.name) and deep_same(a.values if a.dtype.kind in "fiubmM"
               else a.tolist(), b.values if b.dtype.kind in "fiubmM" else b.tolist())
    if isinstance(a, pd.DataFrame):
        return deep_same(a.index, b.index) and deep_same(a.columns, b.columns) and a.shape == b.shape and all(
            deep_same(a.iloc[:, i], b.iloc[:, i]) for i in range(a.shape[1]))
    if isinstance(a, pd.Index):
        return a.names == b.names and a.dtype == b.dtype and deep_same(a.tolist(), b.tolist())
    if isinstance(a, Configured):
        return deep_same(dict(a.config), dict(b.config)) and all(deep_same(getattr(a, w), getattr(b, w)) for w in a.writeable_attrs)
    if hasattr(a, "_obj"):
        return deep_same(a._obj, b._obj)
    if callable(a):
        return True
    if hasattr(a, "__dict__") and type(a).__module__.startswith("vectorbt"):
        return deep_same(vars(a), vars(b))
    return a is b or bool(a == b) or (a != a and b != b)


def snapshot(x):
    """A copy of everything an object was made of."""
    if isinstance(x, Configured):
        return (type(x).__name__, {k: snapshot(v) for k, v in x.config.items()}, {w: snapshot(getattr(x, w)) for w in x.writeable_attrs})
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.copy(deep=True)
    return x


def modes_of(name, obj, what):
    """Ways to configure caching."""
    tn = type(obj).__name__
    return {"on": dict(enabled=True), "off": dict(enabled=False, whitelist=[]), "black_name": dict(blacklist=[CacheCondition(func=name)]),
            "black_cls": dict(blacklist=[CacheCondition(cls=tn)]), "black_base": dict(blacklist=[CacheCondition(base_cls="Wrapping")]),
            "black_inst": dict(blacklist=[CacheCondition(instance=obj)]),
            "white_name": dict(enabled=False, whitelist=[CacheCondition(func=name)]),
            "white_inst": dict(enabled=False, whitelist=[CacheCondition(instance=obj)]),
            "white_cls": dict(enabled=False, whitelist=[CacheCondition(cls=type(obj))])}[what]


MODES = ["on", "on", "on", "off", "black_name", "black_cls", "black_base", "black_inst", "white_name", "white_inst", "white_cls"]


def with_caching(obj, name, what, f):
    cfg = vbt.settings["caching"]
    saved = dict(cfg)
    try:
        cfg["blacklist"] = []
        for k, v in modes_of(name, obj, what).items():
            cfg[k] = v
        return f()
    finally:
        for k, v in saved.items():
            cfg[k] = v


@st.composite
def s_steps(draw, names, k=8):
    step = st.tuples(st.sampled_from(names), st.lists(st.integers(0, 11), min_size=4, max_size=4), st.sampled_from(MODES),
                     weighted((8, ""), (1, "clear"), (1, "twice"), (1, "again")))
    return [list(s) for s in draw(st.lists(step, min_size=3, max_size=k))]


def run_steps(make, steps, lab):
    """The same accesses on one object under changing caching, against a fresh object each."""
    obj = make()
    before = snapshot(obj)
    hits = 0
    log = []
    for name, picks, mode, extra in steps:
        got = with_caching(obj, name, mode, lambda: evaluate(obj, name, picks, lab))
        if extra == "twice" or extra == "again":
            first = got
            got = with_caching(obj, name, "on" if extra == "again" else mode, lambda: evaluate(obj, name, picks, lab))
            need(deep_same(first, got), "%s gave %s, then %s" % (name, first, got))
        if extra == "clear":
            f = inspect.getattr_static(type(obj), name, None)
            if hasattr(f, "clear_cache"):
                f.clear_cache(obj)
                got = with_caching(obj, name, mode, lambda: evaluate(obj, name, picks, lab))
        ref_obj = make()
        want = with_caching(ref_obj, name, "off", lambda: evaluate(ref_obj, name, picks, lab))
        log.append((name, mode))
        need(deep_same(got, want), "%s after %s: %s, computed afresh %s" % (name, log, str(got)[:600], str(want)[:600]))
        need(deep_same(snapshot(obj), before), "accessing %s changed the object's contents" % name)
        hits += got[0] == "ok"
    return ["%s" % got[0]] + (["nt"] if hits > 2 else [])


def pf_facet(names):
    @st.composite
    def strat(draw):
        return dict(pf=draw(s_pf()), steps=draw(s_steps(names)))

    def check(case):
        return run_steps(lambda: make_pf(case["pf"]), case["steps"], "k")
    return strat, check


@st.composite
def s_recs(draw):
    kind = draw(st.sampled_from(sorted(REC_ATTRS)))
    return dict(pf=draw(s_pf()), kind=kind, steps=draw(s_steps(REC_ATTRS[kind])))


def check_recs(case):
    return [case["kind"]] + run_steps(lambda: getattr(make_pf(case["pf"]), case["kind"]), case["steps"], "k")


@st.composite
def s_mapped(draw):
    kind = draw(st.sampled_from(["pnl", "size", "wrapper", "grouper", "mapper"]))
    names = OTHER.get(kind, MAPPED)
    return dict(pf=draw(s_pf()), kind=kind, steps=draw(s_steps(names)))


def mapped_of(case):
    pf = make_pf(case["pf"])
    kind = case["kind"]
    if kind == "pnl":
        return pf.trades.pnl
    if kind == "size":
        return pf.orders.size
    if kind == "wrapper":
        return pf.wrapper
    if kind == "grouper":
        return pf.wrapper.grouper
    return pf.orders.col_mapper


def check_mapped(case):
    return [case["kind"]] + run_steps(lambda: mapped_of(case), case["steps"], "k")


# ---------------------------------------------------------------- facet: persist

@st.composite
def s_persist(draw):
    return dict(pf=draw(s_pf()), kind=draw(st.sampled_from(["pf", "pf", "orders", "trades", "exit_trades", "positions", "drawdowns", "logs", "ranges",
                                                        "mapped", "wrapper", "data", "ma", "rsi", "label", "pf_row", "pf_sel"])),
                how=draw(st.sampled_from(["loads", "file", "copy", "deep", "hybrid", "double"])), warm=draw(st.booleans()),
                metric=draw(st.booleans()))


PERSIST_CHECK = {"pf": ["value", "cash", "total_return", "order_records", "log_records", "sharpe_ratio"], "orders": ["records_readable", "count"],
                 "trades": ["records_readable", "win_rate"], "exit_trades": ["records_readable", "count"], "positions": ["records_readable", "count"],
                 "drawdowns": ["records_readable", "max_drawdown"], "logs": ["records_readable", "count"], "ranges": ["records_readable", "count"],
                 "mapped": ["mean", "sum", "to_pd"], "wrapper": ["get_columns", "get_shape", "freq", "index"], "data": ["get", "stats"],
                 "ma": ["ma", "close", "ma_stats"], "rsi": ["rsi", "close"], "label": ["fmean", "close"],
                 "pf_row": ["value", "total_return", "stats"], "pf_sel": ["value", "total_return", "stats"]}


def persist_obj(case):
    kind = case["kind"]
    pf = make_pf(case["pf"])
    close = pf.close
    if kind == "pf":
        return pf
    if kind == "pf_row":
        return pf.regroup([0, 0, 1]) if case["pf"]["group"] is None else pf.iloc[0]
    if kind == "pf_sel":
        return pf.iloc[[0]] if case["pf"]["group"] is None else pf.iloc[0]
    if kind == "ranges":
        return Ranges.from_ts(close > close.iloc[0]) if hasattr(Ranges, "from_ts") else close.vbt.ranges
    if kind == "drawdowns":
        return Drawdowns.from_ts(close, wrapper_kwargs=dict(freq="1D"))
    if kind == "mapped":
        return pf.orders.size
    if kind == "wrapper":
        return pf.wrapper
    if kind == "data":
        d = {"s%d" % j: pd.DataFrame({"Open": close.iloc[:, j], "Close": close.iloc[:, j] + 1}) for j in range(2)}
        return vbt.Data.from_data(d, tz_localize="UTC", tz_convert="Europe/Berlin", download_kwargs={"q": [1]})
    if kind == "ma":
        return vbt.MA.run(close, [2, 3], ewm=[False, True], short_name="mine")
    if kind == "rsi":
        return vbt.RSI.run(close, [2, 3])
    if kind == "label":
        return vbt.FMEAN.run(close, [1, 2])
    return getattr(pf, kind)


def check_persist(case):
    kind = case["kind"]
    obj = persist_obj(case)
    names = PERSIST_CHECK[kind]
    picks = [0, 0, 0, 0]
    if case["metric"] and hasattr(obj, "_metrics"):
        obj._metrics["own"] = dict(title="Own", calc_func=lambda self: 7, agg_func=None)
    if case["warm"]:
        for n in names[:2]:
            evaluate(obj, n, picks, None)
    before = snapshot(obj)
    how = case["how"]
    if how == "loads":
        back = type(obj).loads(obj.dumps())
    elif how == "double":
        mid = type(obj).loads(obj.dumps())
        back = type(obj).loads(mid.dumps())
    elif how == "file":
        with tempfile.TemporaryDirectory() as tmp:
            obj.save(os.path.join(tmp, "o"))
            back = type(obj).load(os.path.join(tmp, "o"))
    else:
        back = obj.copy(copy_mode={"copy": "shallow"}.get(how, how))
    need(type(back) is type(obj), "%s came back as %s" % (kind, type(back).__name__))
    need(back == obj and obj == back, "%s is not equal after %s" % (kind, how))
    need(deep_same(snapshot(obj), before), "saving changed %s" % kind)
    need(deep_same(back, obj), "%s has other contents after %s" % (kind, how))
    for n in names:
        a, b = evaluate(obj, n, picks, None), evaluate(back, n, picks, None)
        need(deep_same(a, b), "%s.%s is %s after %s, was %s" % (kind, n, str(b)[:500], how, str(a)[:500]))
    if case["metric"] and hasattr(back, "_metrics"):
        need("own" in back._metrics and back._metrics["own"]["calc_func"](back) == 7, "the added metric got lost")
    other = dict(case["pf"], price=[[p + 1 for p in r] for r in case["pf"]["price"]])
    if kind not in ("wrapper", "orders", "mapped", "ranges", "logs", "positions", "trades", "exit_trades"):
        need(persist_obj(dict(case, pf=other)) != obj and not (back == persist_obj(dict(case, pf=other))),
             "%s equals one of other prices" % kind)
    return [kind, how, "nt"]


FLOW_S, FLOW_C = pf_facet(FLOW)
RETS_S, RETS_C = pf_facet(RETS)
RECS_S, RECS_C = pf_facet(RECS)
RULE = "three or more accesses gave a value"
FACETS = [
    Facet("decorators", s_decorators, check_decorators, quick=700, thorough=15000, rule="a reuse together with filters or arguments", shards=2,
          tshards=3),
    Facet("portfolio-flow", FLOW_S, FLOW_C, quick=60, thorough=1500, rule=RULE, shards=1, tshards=2),
    Facet("portfolio-returns", RETS_S, RETS_C, quick=50, thorough=1200, rule=RULE, shards=1, tshards=2),
    Facet("portfolio-records", RECS_S, RECS_C, quick=60, thorough=1500, rule=RULE, shards=1, tshards=2),
    Facet("records", s_recs, check_recs, quick=90, thorough=2000, rule=RULE, shards=1, tshards=2),
    Facet("mapped", s_mapped, check_mapped, quick=90, thorough=2000, rule=RULE, shards=1, tshards=2),
    Facet("persist", s_persist, check_persist, quick=120, thorough=2500, rule="every case", shards=1, tshards=2),
]
