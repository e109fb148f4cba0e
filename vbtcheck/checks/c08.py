"""C08: trades and positions partition the orders and their profit."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.portfolio.enums import log_dt, order_dt
from vectorbt.portfolio.orders import Orders
from vectorbt.portfolio.trades import EntryTrades, ExitTrades, Positions

from vbtcheck import pfgen as G
from vbtcheck.core import Facet
from vbtcheck.util import NAN, arr, fl, need, price_path, vec, weighted
from vbtcheck.checks.c02 import run_pf
from vbtcheck.checks.c07 import add, group_index

ASSUMPTIONS = ["Positions whose size is within 1e-9 (relative) of zero count as closed.",
               "Profit identities are judged where the last closing price is known."]

FIELDS = ["col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees",
          "pnl", "return", "direction", "status", "parent_id"]


def split_positions(orders):
    """Cut the orders of one column into positions: lists of (order, signed part of its size)."""
    out = []
    pos = 0.0
    cur = None
    for o in orders:
        s = o["size"] if o["side"] == 0 else -o["size"]
        new = add(pos, s)
        if pos == 0:
            cur = dict(dir=0 if s > 0 else 1, parts=[], open=True)
            out.append(cur)
        if pos * new < 0:
            # reversal: the order belongs partly to the old, partly to the new position
            cur["parts"].append((o, abs(pos), "exit"))
            cur["open"] = False
            cur = dict(dir=0 if new > 0 else 1, parts=[(o, abs(new), "entry")], open=True)
            out.append(cur)
        else:
            kind = "entry" if (s > 0) == (cur["dir"] == 0) else "exit"
            cur["parts"].append((o, o["size"], kind))
            if new == 0:
                cur["open"] = False
        pos = new
    return out


def stats(size, ep, ef, xp, xf, d):
    val = size * (xp - ep) * (1 if d == 0 else -1)
    pnl = val - ef - xf
    return pnl, pnl / (size * ep)


def rec(col, size, ei, ep, ef, xi, xp, xf, d, status, parent):
    pnl, ret = stats(size, ep, ef, xp, xf, d)
    return dict(col=col, size=size, entry_idx=ei, entry_price=ep, entry_fees=ef, exit_idx=xi, exit_price=xp,
                exit_fees=xf, pnl=pnl, **{"return": ret}, direction=d, status=status, parent_id=parent)


def reference(orders, close):
    """(entry trades, exit trades, positions) of all columns as plain records."""
    n = len(close)
    entry, exit_, pos = [], [], []
    pid = -1
    for j, col_orders in enumerate(orders):
        last = float(close[-1][j])
        for p in split_positions(col_orders):
            pid += 1
            ins = [(o, s, o["fees"] * s / o["size"]) for o, s, k in p["parts"] if k == "entry"]
            outs = [(o, s, o["fees"] * s / o["size"]) for o, s, k in p["parts"] if k == "exit"]
            total = sum(s for _, s, _ in ins)
            gone = sum(s for _, s, _ in outs)
            left = add(total, -gone) if p["open"] else 0.0
            status = 0 if p["open"] else 1
            xgross = sum(o["price"] * s for o, s, _ in outs) + (left * last if p["open"] else 0.0)
            xfees = sum(f for _, _, f in outs)
            xi = n - 1 if p["open"] else outs[-1][0]["idx"]
            # entry trades
            for o, s, f in ins:
                entry.append(rec(j, s, o["idx"], o["price"], f, xi, xgross / total, xfees * s / total, p["dir"],
                                 status, pid))
            # exit trades: entries so far make up the pool, exits take a proportional share of it
            size = gross = fees = 0.0
            for o, s, k in p["parts"]:
                f = o["fees"] * s / o["size"]
                if k == "entry":
                    size, gross, fees = size + s, gross + s * o["price"], fees + f
                else:
                    share = s / size
                    exit_.append(rec(j, s, ins[0][0]["idx"], gross / size, fees * share, o["idx"], o["price"], f,
                                     p["dir"], 1, pid))
                    keep = add(size, -s) / size
                    size, gross, fees = size * keep, gross * keep, fees * keep
            if p["open"]:
                exit_.append(rec(j, size, ins[0][0]["idx"], gross / size, fees, n - 1, last, 0.0, p["dir"], 0, pid))
            pos.append(rec(j, total, ins[0][0]["idx"], sum(o["price"] * s for o, s, _ in ins) / total,
                           sum(f for _, _, f in ins), xi, xgross / total, xfees, p["dir"], status, pid))
    return entry, exit_, pos


def cmp(got, want, what):
    need(len(got) == len(want), "%s: %d records, expected %d\n got %s\n expected %s" % (
        what, len(got), len(want), got.tolist(), want))
    need(got["id"].tolist() == list(range(len(want))), "%s: ids %s" % (what, got["id"].tolist()))
    for f in FIELDS:
        g = got[f].astype(float)
        w = np.array([r[f] for r in want], dtype=float)
        scale = np.array([1e-9 * (1 + abs(r["size"] * r["entry_price"]) + abs(r["size"] * np.nan_to_num(r["exit_price"])))
                          if f == "pnl" else 1e-9 * (1 + abs(np.nan_to_num(r["exit_price"]) / r["entry_price"]))
                          for r in want])
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= 1e-8 * np.abs(w) + scale) | (np.isnan(g) & np.isnan(w))
        need(bool(ok.all()), "%s: field %s is %s, expected %s" % (what, f, g.tolist(), w.tolist()))


def agg(recs_list, f):
    return f(recs_list)


def check_stats(tr, lens, group_by, what, incl=("win_rate", "profit_factor", "expectancy", "sqn")):
    """Derived statistics from the (already verified) records themselves."""
    v = tr.values
    m = len(tr.wrapper.columns)
    lens = lens or [1] * m
    cs = np.concatenate([[0], np.cumsum(lens)])
    kw = dict(group_by=group_by)

    def per(f):
        out = []
        for k in range(len(lens)):
            mask = (v["col"] >= cs[k]) & (v["col"] < cs[k + 1])
            out.append(f(v[mask]))
        return np.array(out, dtype=float)

    def chk(got, want, name, tol=1e-9):
        g = np.atleast_1d(np.asarray(got, dtype=float))
        with np.errstate(all="ignore"):
            ok = g.shape == want.shape and np.isclose(g, want, rtol=1e-7, atol=tol, equal_nan=True).all()
        need(bool(ok), "%s.%s: got %s, expected %s" % (what, name, g.tolist(), want.tolist()))

    def div(a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    chk(tr.count(**kw), per(len), "count")
    chk(tr.winning.count(**kw), per(lambda r: (r["pnl"] > 0).sum()), "winning.count")
    chk(tr.losing.count(**kw), per(lambda r: (r["pnl"] < 0).sum()), "losing.count")
    chk(tr.long.count(**kw), per(lambda r: (r["direction"] == 0).sum()), "long.count")
    chk(tr.short.count(**kw), per(lambda r: (r["direction"] == 1).sum()), "short.count")
    chk(tr.open.count(**kw), per(lambda r: (r["status"] == 0).sum()), "open.count")
    chk(tr.closed.count(**kw), per(lambda r: (r["status"] == 1).sum()), "closed.count")
    chk(tr.win_rate(**kw), per(lambda r: div((r["pnl"] > 0).sum(), len(r))), "win_rate")

    def pf(r):
        if len(r) == 0:
            return NAN
        return div(r["pnl"][r["pnl"] > 0].sum(), abs(r["pnl"][r["pnl"] < 0].sum()))

    chk(tr.profit_factor(**kw), per(pf), "profit_factor")

    def expectancy(r):
        if len(r) == 0:
            return NAN
        w, l = r["pnl"][r["pnl"] > 0], r["pnl"][r["pnl"] < 0]
        wr = len(w) / len(r)
        return wr * (w.mean() if len(w) else 0.0) - (1 - wr) * (abs(l.mean()) if len(l) else 0.0)

    chk(tr.expectancy(**kw), per(expectancy), "expectancy", 1e-8)

    def sqn(r):
        x = r["pnl"][~np.isnan(r["pnl"])]
        if len(x) < 2:
            return NAN
        return div(math.sqrt(len(r)) * x.mean(), x.std(ddof=1))

    w = per(sqn)
    g = np.atleast_1d(np.asarray(tr.sqn(**kw), float))
    degenerate = per(lambda r: len(r) > 1 and np.nanstd(r["pnl"]) <= 1e-7 * (1e-3 + np.nanmax(np.abs(r["pnl"])))
                     if len(r) else False).astype(bool)
    chk(np.where(degenerate, 0, g), np.where(degenerate, 0, w), "sqn", 1e-6)
    chk(tr.pnl.sum(**kw), per(lambda r: np.nansum(r["pnl"])), "pnl.sum", 1e-7)
    with np.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            chk(tr.returns.mean(**kw), per(lambda r: np.nanmean(r["return"]) if len(r) else NAN), "returns.mean")
            chk(tr.returns.max(**kw), per(lambda r: np.nanmax(r["return"]) if len(r) else NAN), "returns.max")
            chk(tr.returns.min(**kw), per(lambda r: np.nanmin(r["return"]) if len(r) else NAN), "returns.min")

    def streak(sign):
        out = np.zeros(len(v), dtype=int)
        for c in range(m):
            k = 0
            for i in np.nonzero(v["col"] == c)[0]:
                k = k + 1 if v["pnl"][i] * sign > 0 else 0
                out[i] = k
        return out

    for nm, sign in (("winning_streak", 1), ("losing_streak", -1)):
        s = streak(sign)
        need(getattr(tr, nm).values.tolist() == s.tolist(), "%s.%s: %s, expected %s" % (
            what, nm, getattr(tr, nm).values.tolist(), s.tolist()))
    dur = np.where(v["status"] == 0, v["exit_idx"] - v["entry_idx"] + 1, v["exit_idx"] - v["entry_idx"])
    need(tr.duration.values.tolist() == dur.tolist(), "%s.duration" % what)
    n = len(tr.wrapper.index)

    def cov(r):
        if len(r) == 0:
            return NAN
        s = np.zeros(n, dtype=int)
        for x in r:
            s[x["entry_idx"]:x["exit_idx"] + (1 if x["status"] == 0 else 0)] += 1
        return (s > 0).sum()

    chk(tr.coverage(normalize=False, **kw), per(cov), "coverage")


def orders_of(case):
    return [[dict(idx=o[0], side=o[1], size=fl(o[2]), price=fl(o[3]), fees=fl(o[4])) for o in
             sorted(case["orders"][j], key=lambda o: o[0])] for j in range(case["m"])]


def order_array(case, orders):
    flat = [(o["idx"] if case["row_major"] else 0, j, k, o) for j in range(case["m"]) for k, o in enumerate(orders[j])]
    flat.sort(key=lambda x: x[:3])
    recs = np.zeros(len(flat), dtype=order_dt)
    for r, (_, j, _k, o) in enumerate(flat):
        recs[r] = (r, j, o["idx"], o["size"], o["price"], o["fees"], o["side"])
    return recs


def check_pf_trades(pf, orders, close, case):
    m = case["m"]
    E, X, P = reference(orders, close)
    et, xt, po = pf.entry_trades, pf.exit_trades, pf.positions
    cmp(et.values, E, "entry trades")
    cmp(xt.values, X, "exit trades")
    cmp(po.values, P, "positions")
    # profit identities per column
    lastc = np.array([float(x) for x in close[-1]])
    tp = np.atleast_1d(np.asarray(pf.total_profit(group_by=False), float))
    for tr, nm in ((et, "entry trades"), (xt, "exit trades"), (po, "positions")):
        v = tr.values
        for j in range(m):
            if math.isnan(lastc[j]):
                continue
            s = float(v["pnl"][v["col"] == j].sum())
            need(abs(s - tp[j]) <= 1e-7 * (1 + sum(o["size"] * o["price"] for o in orders[j])),
                 "profits of %s in column %d sum to %s, total profit is %s" % (nm, j, s, tp[j]))
    gb = group_index(case["alt"]) if case.get("alt") else None
    for tr, nm in ((et, "entry trades"), (xt, "exit trades"), (po, "positions")):
        need(len(tr.wrapper.columns) == m, "columns")
        check_stats(tr, case["group"], None, nm)
        check_stats(tr, None, False, nm)
        if gb is not None and not case["cash_sharing"]:
            check_stats(tr, case["alt"], gb, nm)
        if nm != "positions":
            check_stats(tr.closed, None, False, nm + ".closed")
    for typ, want in (("EntryTrades", et), ("ExitTrades", xt), ("Positions", po)):
        from vectorbt.portfolio.enums import TradesType
        p2 = pf.replace(trades_type=getattr(TradesType, typ))
        need(type(p2.trades) is type(want) and p2.trades.values.tobytes() == want.values.tobytes(),
             "trades of a portfolio with trades_type=%s" % typ)
    return E, X, P


def labels_for(E, X, P, orders):
    out = []
    if len(X) > len(P):
        out.append("partial_exit")
    if len(E) > len(P):
        out.append("increase")
    if any(a["entry_idx"] == b["exit_idx"] and a["col"] == b["col"] for a, b in zip(P[1:], P[:-1])):
        out.append("reversal")
    if any(p["status"] == 0 for p in P):
        out.append("open")
    if len(P) >= 1 and (len(X) > 1 or len(E) > 1):
        out.append("nt")
    return out


def check_records(case):
    n, m = case["n"], case["m"]
    close = G.close_obj(case)
    carr = arr(case["close"])
    orders = orders_of(case)
    recs = order_array(case, orders)
    wrapper = ArrayWrapper.from_obj(close, freq="1D", **({} if case["group"] is None else dict(
        group_by=group_index(case["group"]))))
    ic = [100.0] * (len(case["group"]) if case["cash_sharing"] else m)
    pf = vbt.Portfolio(wrapper, close, recs, np.zeros(0, dtype=log_dt), np.array(ic), case["cash_sharing"])
    E, X, P = check_pf_trades(pf, orders, carr, case)
    # building from the records directly, also with another reference price
    od = Orders(wrapper, recs, close=close)
    cmp(EntryTrades.from_orders(od).values, E, "EntryTrades.from_orders")
    x2 = ExitTrades.from_orders(od)
    cmp(x2.values, X, "ExitTrades.from_orders")
    cmp(Positions.from_trades(x2).values, P, "Positions.from_trades")
    other = carr * 0 + np.arange(1, m + 1) * 3.5
    E2, X2, P2 = reference(orders, other)
    cmp(EntryTrades.from_orders(od, close=other).values, E2, "EntryTrades.from_orders(close=...)")
    cmp(ExitTrades.from_orders(od, close=other).values, X2, "ExitTrades.from_orders(close=...)")
    return labels_for(E, X, P, orders)


@st.composite
def records_st(draw):
    n = draw(st.sampled_from([6, 4, 3, 5, 1, 2, 8]))
    m = draw(st.sampled_from([2, 1, 3, 4]))
    case = dict(n=n, m=m, close=draw(price_path(n, m, nan=draw(weighted((3, False), (1, True))), lo=2, hi=20)))
    case["series"] = m == 1 and draw(st.booleans())
    size = st.one_of(st.integers(1, 4).map(float), st.sampled_from([0.1, 0.2, 0.3, 1.5, 2.75]))
    order = st.tuples(st.integers(0, n - 1), st.integers(0, 1), size,
                      st.one_of(st.integers(1, 30).map(float), st.sampled_from([2.5, 7.25])),
                      st.sampled_from([0.0, 0.5, 1.25, 0.1])).map(list)
    case["orders"] = [draw(st.lists(order, min_size=draw(weighted((3, 2), (1, 0))), max_size=9)) for _ in range(m)]
    case["row_major"] = draw(st.booleans())
    case["group"] = draw(G.groups_st(m)) if draw(st.booleans()) else None
    case["cash_sharing"] = bool(case["group"]) and draw(st.booleans())
    case["alt"] = draw(G.groups_st(m)) if draw(st.booleans()) else None
    return case


def check_invalid(case):
    """Order records that no simulation can produce are rejected."""
    n = case["n"]
    recs = np.zeros(2, dtype=order_dt)
    recs[0] = (0, 0, 0, 1.0, 2.0, 0.0, 0)
    recs[1] = (1, 0, n - 1, 1.0, 2.0, 0.0, 1)
    k = case["kind"]
    if k == "size":
        recs["size"][case["at"]] = case["bad"]
    elif k == "price":
        recs["price"][case["at"]] = case["bad"]
    else:
        recs["id"] = [5, 2]
    close = pd.Series(np.arange(1.0, n + 1))
    od = Orders(ArrayWrapper.from_obj(close), recs, close=close)
    for cls in (EntryTrades, ExitTrades):
        try:
            r = cls.from_orders(od)
        except ValueError:
            continue
        need(False, "%s accepted order records with invalid %s: %s" % (cls.__name__, k, r.values.tolist()))
    return ["nt"]


def invalid_st():
    return st.fixed_dictionaries(dict(n=st.integers(2, 5), kind=st.sampled_from(["size", "price", "id"]),
                                      at=st.integers(0, 1), bad=st.sampled_from([0.0, -1.0, -0.25])))


def check_simulated(case):
    kw = {}
    if case["group"]:
        kw["group_by"] = group_index(case["group"])
    try:
        pf = run_pf(case, seed=3, **kw)
    except Exception:
        return ["error"]
    m = case["m"]
    recs = pf.order_records
    orders = [[dict(idx=int(r["idx"]), side=int(r["side"]), size=float(r["size"]), price=float(r["price"]),
                    fees=float(r["fees"])) for r in recs[recs["col"] == j]] for j in range(m)]
    if any(o["price"] <= 0 for c in orders for o in c):
        return ["price0"]
    # the position implied by tiny leftovers is not judged
    for c in orders:
        pos = 0.0
        for o in c:
            s = o["size"] if o["side"] == 0 else -o["size"]
            new = pos + s
            if 0 < abs(new) < 1e-7 * max(abs(pos), abs(s)):
                return ["boundary"]
            pos = add(pos, s)
    E, X, P = check_pf_trades(pf, orders, arr(case["close"]), case)
    return labels_for(E, X, P, orders)


@st.composite
def simulated_st(draw):
    c = draw(G.sim_case(errors=False, nan_close=False))
    c["alt"] = draw(G.groups_st(c["m"])) if draw(st.booleans()) else None
    return c


FACETS = [
    Facet("records", records_st, check_records, quick=450, thorough=30000, shards=5,
          rule="at least one position made of several trades, or several positions"),
    Facet("simulated", simulated_st, check_simulated, quick=150, thorough=6000, shards=2,
          rule="at least one position made of several trades, or several positions"),
    Facet("invalid", invalid_st, check_invalid, quick=20, thorough=60, rule="every case"),
]
