"""C03: signals become exactly the orders the documented signal pipeline prescribes."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.portfolio.enums import RejectedOrderError
from vectorbt.portfolio import nb as pnb

from vbtcheck import pfgen as G
from vbtcheck import refmodel as R
from vbtcheck.core import Facet
from vbtcheck.util import NAN, arr, fl, matrix, need, need_same, weighted
from vbtcheck.checks.c01 import cmp_records
from vbtcheck.checks.c02 import by_id

ASSUMPTIONS = ["Simulations in which the reference meets a floating-point decision boundary are not judged."]

SIG_CONV = dict(accumulate=int, upon_long_conflict=int, upon_short_conflict=int, upon_dir_conflict=int,
                upon_opposite_entry=int, sl_trail=bool, stop_entry_price=int, stop_exit_price=int,
                upon_stop_exit=int, upon_stop_update=int, entries=bool, exits=bool, short_entries=bool,
                short_exits=bool, **G.CONV)
FORMS2 = ["cell", "row", "col", "full"]
DEFAULTS = dict(R.ORDER_DEFAULTS, accumulate=0, upon_long_conflict=0, upon_short_conflict=0, upon_dir_conflict=0,
                upon_opposite_entry=4, sl_stop=NAN, sl_trail=False, tp_stop=NAN, stop_entry_price=3,
                stop_exit_price=0, upon_stop_exit=0, upon_stop_update=1)


STOP_ARGS = dict(stops=("accumulate", "upon_opposite_entry", "sl_stop", "tp_stop", "sl_trail", "stop_entry_price",
                        "stop_exit_price", "upon_stop_exit", "upon_stop_update", "slippage", "price"),
                 trail=("upon_opposite_entry", "sl_stop", "tp_stop", "stop_entry_price"),
                 auto=("price", "accumulate", "upon_opposite_entry", "fees", "slippage"))


def cell(v):
    return dict(form="cell", v=v)


@st.composite
def sig_case(draw, kind, stops=None, focus=None):
    """focus: "stops" (plain orders, stop settings of every kind), "auto" (plain orders, shared cash, automatic
    sequence) or None (everything may vary)."""
    n = draw(st.sampled_from([5, 6, 3, 8, 10, 12] if focus is None else [8, 10, 12]))
    m = draw(st.sampled_from([1, 2, 3])) if focus is None else {"stops": 1, "trail": 1, "auto": 3}[focus]
    close = draw(G.price_path(n, m, nan=draw(st.integers(0, 9)) == 9, lo=3, hi=12))
    case = dict(n=n, m=m, close=close, kind=kind)
    bars = draw(weighted((2, "ohl"), (1, "none"), (1, "hl"), (2, "gaps"), (1, "o")))
    if focus == "auto":
        bars = "none"
    if bars != "none":
        # open, high and low around the close in tenths
        o, h, l = [], [], []
        for i in range(n):
            ro, rh, rl = [], [], []
            for j in range(m):
                c = close[i][j] if close[i][j] is not None else 5.0
                op = max(0.5, c + draw(st.integers(-15, 15)) / 10.0)
                hi = max(op, c) + draw(st.integers(0, 12)) / 10.0
                lo = max(0.3, min(op, c) - draw(st.integers(0, 12)) / 10.0)
                miss = bars == "gaps" and draw(st.integers(0, 5)) == 5
                ro.append(None if miss and draw(st.booleans()) else op)
                rh.append(None if miss and draw(st.booleans()) else hi)
                rl.append(None if miss and draw(st.booleans()) else lo)
            o.append(ro)
            h.append(rh)
            l.append(rl)
        case["open"] = o if bars in ("ohl", "gaps", "o") else None
        case["high"], case["low"] = (h, l) if bars != "o" else (None, None)
    else:
        case["open"] = case["high"] = case["low"] = None
    dens = draw(st.sampled_from([3, 2, 5])) if focus != "trail" else draw(st.sampled_from([3, 4]))
    sig = st.integers(0, dens).map(lambda k: k == dens)
    a = {}
    if kind == "dir":
        a["entries"] = draw(G.arg_st(sig, n, m, ["full"]))
        a["exits"] = draw(G.arg_st(sig, n, m, ["full"]))
        a["direction"] = draw(G.arg_st(st.sampled_from([0, 1, 2]), n, m, FORMS2))
    else:
        for k in ("entries", "exits", "short_entries", "short_exits"):
            a[k] = draw(G.arg_st(sig, n, m, ["full"]))
    t = draw(weighted((5, 0), (2, 1), (2, 2))) if focus is None else {"stops": 0, "trail": 0, "auto": 2}[focus]
    elem = {0: st.sampled_from([1.0, 2.0, 0.5, 3.25, "inf", None, 50.0]),
            1: st.sampled_from([10.0, 25.0, 7.5, None]), 2: st.sampled_from([0.25, 0.5, 1.0, None])}[t]
    if focus is not None:
        elem = st.sampled_from({"stops": [1.0, 2.0, 0.5], "trail": [1.0, 0.5], "auto": [0.25, 0.5, 0.75, 1.0, 0.375]}[focus])
    a["size"] = draw(G.arg_st(elem, n, m, FORMS2))
    a["size_type"] = cell(t)

    def opt(name, elem, p, default):
        if focus is not None and name not in STOP_ARGS[focus]:
            a[name] = cell(default)
            return
        a[name] = draw(G.arg_st(elem, n, m, FORMS2)) if draw(st.integers(0, p - 1)) == p - 1 else cell(default)

    opt("price", st.one_of(st.integers(3, 12).map(float), st.sampled_from(["inf", "-inf", None])), 4, "inf")
    opt("fees", st.sampled_from([0.0, 0.01]), 4, 0.0)
    opt("fixed_fees", st.sampled_from([0.0, 1.0]), 5, 0.0)
    opt("slippage", st.sampled_from([0.0, 0.02, 0.1]), 3, 0.0)
    opt("min_size", st.sampled_from([0.0, 1.0]), 9, 0.0)
    opt("max_size", st.sampled_from(["inf", 2.0]), 9, "inf")
    opt("size_granularity", st.sampled_from([None, 0.5]), 9, None)
    opt("lock_cash", st.booleans(), 6, False)
    opt("allow_partial", st.booleans(), 9, True)
    opt("reject_prob", st.sampled_from([0.0, 1.0]), 9, 0.0)
    opt("raise_reject", weighted((9, False), (1, True)), 20, False)
    opt("log", st.just(True), 2, False)
    opt("accumulate", st.integers(0, 3), 2, 0)
    opt("upon_long_conflict", st.integers(0, 4), 2, 0)
    opt("upon_short_conflict", st.integers(0, 4), 2, 0)
    opt("upon_dir_conflict", st.integers(0, 4), 2, 0)
    if focus == "auto":
        # reversing by percentage is refused
        a["upon_opposite_entry"] = draw(G.arg_st(st.integers(0, 2), n, m, FORMS2))
    else:
        opt("upon_opposite_entry", st.integers(0, 4), 2, 4)
    use = draw(weighted((2, True), (1, False))) if stops is None else stops
    case["use_stops"] = use
    if use:
        stop = st.sampled_from([0.125, 0.25, 0.0625, 0.03125, 0.5, None, "inf", 0.0, 0.05])
        opt("sl_stop", stop, 2, None)
        opt("tp_stop", stop, 2, None)
        if a["sl_stop"]["v"] is None and a["tp_stop"]["v"] is None:
            a["sl_stop"] = cell(0.125)
        opt("sl_trail", st.booleans(), 2, False)
        if focus == "trail":
            # positions that grow while the stop settings change from bar to bar
            a["sl_stop"] = draw(G.arg_st(st.sampled_from([0.125, 0.25, 0.1875, 0.375]), n, m, FORMS2))
            a["sl_trail"] = draw(G.arg_st(weighted((2, True), (1, False)), n, m, ["full"]))
            a["accumulate"] = cell(1)
            never = draw(st.sampled_from([["exits", "short_entries", "short_exits"], ["short_exits", "entries", "exits"], []]))
            for k in never:
                a[k] = dict(form="full", v=[[False] * m for _ in range(n)])
        opt("stop_entry_price", st.integers(0, 3), 2, 3)
        opt("stop_exit_price", st.integers(0, 3), 2, 0)
        opt("upon_stop_exit", st.integers(0, 3), 2, 0)
        opt("upon_stop_update", st.integers(0, 2), 2, 1)
        if focus == "trail":
            a["upon_stop_update"] = draw(G.arg_st(st.integers(0, 2), n, m, FORMS2))
    case["args"] = a
    case["val_price"] = draw(G.arg_st(st.one_of(st.integers(3, 12).map(float), st.sampled_from(["inf", "-inf"])), n, m,
                                      FORMS2)) if draw(st.integers(0, 4)) == 4 else cell(draw(st.sampled_from(["inf", "-inf"])))
    case["group"] = draw(G.groups_st(m)) if m > 1 and draw(st.booleans()) else None
    if focus == "auto":
        case["group"] = draw(st.sampled_from([[3], [2, 1], [3]]))
        case["val_price"] = cell(draw(st.sampled_from(["inf", "-inf"])))
    case["cash_sharing"] = bool(case["group"])
    k = len(case["group"]) if case["group"] else m
    case["init_cash"] = draw(st.one_of(st.sampled_from([100.0, 1000.0]), st.lists(st.sampled_from([100.0, 20.0]),
                                                                                  min_size=k, max_size=k)))
    case["call_seq"] = draw(st.sampled_from(["default", "reversed", "auto", "auto"])) if focus != "auto" else "auto"
    case["ffill_val_price"] = draw(weighted((3, True), (1, False)))
    case["update_value"] = draw(st.booleans())
    return case


# ------------------------------------------------------- callbacks used by the generic form

@njit
def arr_signal_func_nb(c, le, lx, se, sx):
    return le[c.i, c.col], lx[c.i, c.col], se[c.i, c.col], sx[c.i, c.col]


@njit
def step_sl_nb(c, after, new_stop, new_trail):
    if c.position_now != 0 and c.init_i >= 0 and c.i - c.init_i >= after:
        return new_stop, new_trail
    return c.curr_stop, c.curr_trail


@njit
def step_tp_nb(c, gain, new_stop):
    if c.position_now > 0 and c.val_price_now >= c.init_price * gain:
        return new_stop
    return c.curr_stop


def run_pf(case, static=True):
    index, columns = G.labels_of(case)
    n, m = case["n"], case["m"]
    kw = {}
    for k, a in case["args"].items():
        kw[k] = G.build(a, index, columns, SIG_CONV.get(k, fl))
    for k in ("open", "high", "low"):
        kw[k] = arr(case[k]) if case[k] is not None else np.full((1, 1), np.nan)
    kw["val_price"] = G.build(case["val_price"], index, columns, fl)
    kw.update(G.group_kwargs(case))
    kw.update(init_cash=G.init_cash_arg(case), call_seq=G.seq_arg(case), ffill_val_price=case["ffill_val_price"],
              update_value=case["update_value"], attach_call_seq=True, freq="1D", use_stops=case["use_stops"])
    if not static:
        sig = [np.array([[bool(G.at(case["args"][k], i, j, bool)) for j in range(m)] for i in range(n)])
               for k in ("entries", "exits", "short_entries", "short_exits")]
        for k in ("entries", "exits", "short_entries", "short_exits"):
            kw.pop(k)
        kw.update(signal_func_nb=arr_signal_func_nb, signal_args=tuple(sig))
        if "adjust" in case:
            ad = case["adjust"]
            kw.update(adjust_sl_func_nb=step_sl_nb, adjust_sl_args=(ad["after"], fl(ad["stop"]), ad["trail"]),
                      adjust_tp_func_nb=step_tp_nb, adjust_tp_args=(ad["gain"], fl(ad["tp"])))
    return vbt.Portfolio.from_signals(G.close_obj(case), **kw)


def ref(case):
    n, m = case["n"], case["m"]
    args = case["args"]

    def get(name, i, j):
        a = args.get(name)
        if a is None:
            return DEFAULTS[name]
        return G.at(a, i, j, SIG_CONV.get(name, fl))

    def signals(i, j):
        e, x = get("entries", i, j), get("exits", i, j)
        if case["kind"] == "dir":
            d = get("direction", i, j)
            if d == 0:
                return e, x, False, False
            if d == 1:
                return False, False, e, x
            return e, False, x, False
        return e, x, get("short_entries", i, j), get("short_exits", i, j)

    def bar(i, j):
        return tuple(fl(case[k][i][j]) if case[k] is not None else NAN for k in ("open", "high", "low", "close"))

    asl = atp = None
    if "adjust" in case:
        ad = case["adjust"]

        def asl(i, j, pos, vp, s):
            if pos != 0 and s["init_i"] >= 0 and i - s["init_i"] >= ad["after"]:
                return fl(ad["stop"]), ad["trail"]
            return s["stop"], s["trail"]

        def atp(i, j, pos, vp, s):
            if pos > 0 and vp >= s["init"] * ad["gain"]:
                return fl(ad["tp"])
            return s["stop"]

    lens = G.ref_lens(case)
    ic = case["init_cash"]
    ic = ic if isinstance(ic, list) else [ic] * len(lens)
    full = case["group"] or [1] * m
    row = []
    for g in full:
        r = list(range(g))
        row += r[::-1] if case["call_seq"] == "reversed" else r
    return R.sim_signals((n, m), lens, ic, [row] * n, get, signals, bar, lambda i, j: G.at(case["val_price"], i, j),
                         case["use_stops"], case["call_seq"] == "auto", case["ffill_val_price"],
                         case["update_value"], asl, atp)


def check(case):
    exc = pf = None
    msg = ""
    try:
        pf = run_pf(case, static=case["kind"] != "func")
    except RejectedOrderError:
        exc = "rejected"
    except ValueError as e:
        exc, msg = "value", str(e)
    except ZeroDivisionError as e:
        exc = "zerodiv"
    try:
        led = ref(case)
        rexc = None
    except R.Ambiguous:
        return ["boundary"]
    except R.RejectedError:
        rexc = "rejected"
    except R.ModelError:
        rexc = "value"
    need(exc == rexc, "raised %r (%s), expected %r" % (exc, msg, rexc))
    if exc is not None:
        return ["raise_" + exc]
    cmp_records(by_id(pf.order_records), led.orders, "order")
    cmp_records(by_id(pf.log_records), led.logs, "log")
    labels = []
    lens = G.ref_lens(case)
    cash = np.atleast_1d(np.asarray(pf.cash(group_by=None if case["cash_sharing"] else False).iloc[-1], dtype=float))
    need_same(cash, led.end_cash, "final cash", rtol=1e-6, atol=1e-6)
    if len(led.orders) >= 2:
        labels.append("nt")
    if led.stops_hit:
        labels.append("stop_hit")
    if any(x["side"] == 1 for x in led.orders):
        labels.append("sells")
    labels.append("orders%d" % min(6, len(led.orders)))
    return labels


@st.composite
def func_case(draw, focus=None):
    c = draw(sig_case("func", stops=draw(weighted((3, True), (1, False))) if focus is None else focus != "auto",
                      focus=focus))
    if c["use_stops"]:
        stop = st.sampled_from([0.125, 0.25, 0.0625, None])
        c["adjust"] = dict(after=draw(st.integers(0, 4)), stop=draw(stop), trail=draw(st.booleans()),
                           gain=draw(st.sampled_from([1.0625, 1.125, 1.5])), tp=draw(stop))
        if focus == "trail" and draw(st.integers(0, 3)):
            c["adjust"].update(after=99, gain=99.0)     # adjusters that never act
    else:
        c["adjust"] = dict(after=1, stop=0.125, trail=False, gain=1.125, tp=None)
    return c


# ------------------------------------------------------- trailing stop law, without the model

@st.composite
def trail_case(draw):
    n = draw(st.integers(3, 14))
    close = draw(G.price_path(n, 1, lo=3, hi=12))
    return dict(n=n, close=close, stop=draw(st.sampled_from([0.125, 0.25, 0.0625])), short=draw(st.booleans()),
                tp=draw(st.sampled_from([None, 0.25, 0.125])), entry=draw(st.integers(0, n - 2)))


def check_trail(case):
    """One entry with a trailing stop on closing prices: exits on the first later bar that falls back far enough."""
    n, e = case["n"], case["entry"]
    c = arr(case["close"])[:, 0]
    ent = np.arange(n) == e
    kw = dict(entries=ent, direction="shortonly" if case["short"] else "longonly", size=1.0, init_cash=1000.0,
              sl_stop=case["stop"], sl_trail=True, freq="1D", stop_exit_price="close")
    if case["tp"] is not None:
        kw["tp_stop"] = case["tp"]
    pf = vbt.Portfolio.from_signals(pd.Series(c), **kw)
    rec = pf.order_records
    sgn = -1 if case["short"] else 1
    best = c[e]
    want = None
    for i in range(e + 1, n):
        lim = best * (1 - sgn * case["stop"])
        o = c[i]
        if abs(o - lim) < 1e-9 and o != lim:
            return ["boundary"]
        if sgn * o <= sgn * lim:
            want = i
            break
        if case["tp"] is not None:
            t = c[e] * (1 + sgn * case["tp"])
            if abs(o - t) < 1e-9 and o != t:
                return ["boundary"]
            if sgn * o >= sgn * t:
                want = i
                break
        best = max(best, o) if sgn > 0 else min(best, o)
    need(len(rec) >= 1 and rec["idx"][0] == e, "entry order missing: %r" % (rec,))
    got = int(rec["idx"][1]) if len(rec) > 1 else None
    need(got == want, "stop exit at bar %r, expected %r" % (got, want))
    need(len(rec) <= 2, "more orders than one entry and one exit")
    if got is not None:
        need_same(rec["size"][1], rec["size"][0], "exit size")
    return ["nt"] if want is not None else []


FACETS = [
    Facet("dir_mode", lambda: sig_case("dir"), check, quick=900, thorough=40000, shards=2, rule="at least two orders"),
    Facet("ls_mode", lambda: sig_case("ls"), check, quick=900, thorough=40000, shards=2, rule="at least two orders"),
    Facet("stops", lambda: sig_case("ls", stops=True, focus="stops"), check, quick=700, thorough=40000, shards=1,
          rule="at least two orders"),
    Facet("trail_update", lambda: sig_case("ls", stops=True, focus="trail"), check, quick=500, thorough=30000, shards=1,
          rule="at least two orders"),
    Facet("cb_trail", lambda: func_case("trail"), check, quick=600, thorough=20000, shards=1, rule="at least two orders"),
    Facet("auto_seq", lambda: sig_case("ls", stops=False, focus="auto"), check, quick=500, thorough=30000, shards=1,
          rule="at least two orders"),
    Facet("cb_stops", lambda: func_case("stops"), check, quick=400, thorough=20000, shards=1,
          rule="at least two orders"),
    Facet("cb_auto", lambda: func_case("auto"), check, quick=300, thorough=15000, shards=1,
          rule="at least two orders"),
    Facet("callbacks", func_case, check, quick=500, thorough=20000, shards=1, rule="at least two orders"),
    Facet("trailing", trail_case, check_trail, quick=150, thorough=3000, rule="a stop was hit"),
]
