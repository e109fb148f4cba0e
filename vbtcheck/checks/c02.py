"""C02: simulating arrays of orders equals replaying them one by one."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.portfolio.enums import RejectedOrderError
from vectorbt.portfolio import nb as pnb

from vbtcheck import pfgen as G
from vbtcheck import refmodel as R
from vbtcheck.core import Facet
from vbtcheck.util import arr, fl, need, need_same, same, weighted
from vbtcheck.checks.c01 import cmp_records

ASSUMPTIONS = ["Simulations in which the reference meets a floating-point decision boundary are not judged."]


def run_pf(case, **over):
    index, columns = G.labels_of(case)
    kw = G.api_kwargs(case)
    kw["val_price"] = G.build(case["val_price"], index, columns, fl, as_series=case.get("series", False))
    kw.update(G.group_kwargs(case))
    kw.update(init_cash=G.init_cash_arg(case), call_seq=G.seq_arg(case), ffill_val_price=case["ffill_val_price"],
              update_value=case["update_value"], attach_call_seq=True, freq="1D")
    if case.get("max_orders"):
        kw["max_orders"] = case["max_orders"]
    kw.update(over)
    return vbt.Portfolio.from_orders(G.close_obj(case), **kw)


def by_id(recs):
    return recs[np.argsort(recs["id"], kind="stable")]


def check_sim(case):
    exc = pf = None
    try:
        pf = run_pf(case, seed=7)
    except RejectedOrderError:
        exc = "rejected"
    except IndexError:
        exc = "index"
    except ValueError as e:
        exc = "value"
        msg = str(e)
    seq = None
    n, m = case["n"], case["m"]
    if case["call_seq"] == "random":
        if pf is None:
            return ["random_error"]
        seq = pf.call_seq.values.reshape(n, m).tolist()
        c0 = 0
        for g in case["group"] or [1] * m:
            for i in range(n):
                need(sorted(seq[i][c0:c0 + g]) == list(range(g)), "random call sequence is not a permutation")
            c0 += g
    try:
        led = G.ref_sim(case, seq)
        rexc = None
    except R.Ambiguous:
        return ["boundary"]
    except R.RejectedError:
        rexc = "rejected"
    except R.ModelError:
        rexc = "value"
    if case.get("max_orders") and rexc is None and len(led.orders) > case["max_orders"]:
        rexc = "index"
    if rexc == "value" and exc == "index" or rexc == "rejected" and exc == "index":
        return ["two_errors"]
    need(exc == rexc, "raised %r%s, expected %r" % (exc, ": " + msg if exc == "value" else "", rexc))
    if exc is not None:
        return ["raise_" + exc, "nt"]
    cmp_records(by_id(pf.order_records), led.orders, "order")
    cmp_records(by_id(pf.log_records), led.logs, "log")
    labels = []
    if case["cash_sharing"] and any(g > 1 for g in case["group"]):
        labels.append("sharing_" + case["call_seq"])
        if case["call_seq"] == "auto":
            need(pf.call_seq.values.tolist() == led.call_seq, "recorded automatic call sequence %s, expected %s" % (
                pf.call_seq.values.tolist(), led.call_seq))
    # end state from the public API
    lens = G.ref_lens(case)
    cash = np.atleast_1d(np.asarray(pf.cash(group_by=None if case["cash_sharing"] else False).iloc[-1], dtype=float))
    need_same(cash, led.end_cash, "final cash", rtol=1e-6, atol=1e-6)
    assets = np.atleast_1d(np.asarray(pf.assets().iloc[-1], dtype=float))
    need_same(assets, led.end_pos, "final position", rtol=1e-6, atol=1e-6)
    if len(led.orders) >= 2:
        labels.append("nt")
    if led.logs:
        labels.append("logs")
    if any(x["res_status"] == 2 for x in led.logs):
        labels.append("rejections")
    labels.append("orders%d" % min(9, len(led.orders)))
    return labels


@st.composite
def sim_st(draw):
    c = draw(G.sim_case())
    if draw(st.integers(0, 14)) == 14:
        c["max_orders"] = draw(st.integers(1, 4))
    return c


@st.composite
def auto_st(draw):
    """Cash sharing with automatic ordering and plain finite sizes, where selling first matters."""
    n, m = draw(st.sampled_from([3, 2, 4, 6])), draw(st.sampled_from([2, 3, 4]))
    t = draw(st.sampled_from([5, 0, 1, 3, 4, 2]))
    elem = {0: st.integers(-6, 6), 3: st.integers(-6, 6), 1: st.integers(-9, 9).map(lambda x: x * 11),
            4: st.integers(-9, 9).map(lambda x: x * 11),
            5: st.sampled_from([0.0, 0.1, 0.3, 0.55, 0.8, 1.0, -0.2]),
            2: st.sampled_from([0.1, 0.3, 0.55, 0.8, 1.0, -0.2, -0.7, -1.0])}[t]
    d = draw(weighted((3, 2), (2, 0), (1, 1)))
    if draw(st.integers(0, 2)) == 2:
        # another size type and direction per column, shares of cash and of positions against each other
        ts = [draw(st.sampled_from([2, 2, 5, 4])) for _ in range(m)]
        size = dict(form="full", v=[[draw(st.sampled_from([0.1, 0.3, 0.55, 0.8, -0.2, -0.7, -1.0] if x != 4 else [-40.0, -5.0, 3.0, 60.0]))
                                     for x in ts] for _ in range(n)])
        size_type, direction = dict(form="row", v=ts), dict(form="row", v=[draw(weighted((3, 2), (2, 0))) for _ in ts])
    else:
        size, size_type, direction = draw(G.arg_st(elem, n, m, ["full"])), G.const(t), G.const(d)
    args = dict(size=size, size_type=size_type, direction=direction,
                log=G.const(True), fees=draw(G.arg_st(st.sampled_from([0.0, 0.01]), n, m, ["row"])),
                slippage=draw(G.arg_st(st.sampled_from([0.0, 0.01]), n, m, ["row"])),
                lock_cash=G.const(draw(st.booleans())))
    lens = draw(G.groups_st(m))
    case = dict(n=n, m=m, close=draw(G.price_path(n, m, lo=2, hi=30)), args=args, series=False,
                val_price=G.const(draw(st.sampled_from(["inf", "-inf"]))), group=lens, cash_sharing=True,
                init_cash=draw(st.sampled_from([100.0, 30.0, 300.0])), call_seq=draw(weighted((4, "auto"), (1, "reversed"))),
                ffill_val_price=draw(st.booleans()), update_value=draw(st.booleans()))
    return G.fix_signature(case, "2d")


def approx_st():
    num = st.integers(-40, 40).map(lambda x: x / 4.0)
    return st.fixed_dictionaries(dict(size=num, size_type=st.integers(0, 5), direction=st.integers(0, 2), cash=num.map(abs), pos=num,
                                      free=num, price=st.integers(1, 40).map(lambda x: x / 4.0), value=num.map(abs)))


def check_approx(c):
    """The value by which orders of a row are sorted."""
    if c["direction"] == 0 and c["pos"] < 0 or c["direction"] == 1 and c["pos"] > 0:
        c = dict(c, pos=-c["pos"])
    got = pnb.approx_order_value_nb(c["size"], c["size_type"], c["direction"], c["cash"], c["pos"], c["free"], c["price"], c["value"])
    exp = R.approx_value(c["size"], c["size_type"], c["direction"], c["cash"], c["pos"], c["free"], c["price"], c["value"])
    need_same(got, exp, "approximate value of %s" % c)
    return ["nt" if c["size"] != 0 else "zero"]


def check_forms(case):
    """Broadcast forms: every argument expanded to a full array gives the same portfolio."""
    a = dict(case)
    b = dict(case)
    n, m = case["n"], case["m"]
    b["args"] = {k: dict(form="full", v=[[G.at(x, i, j, lambda e: e) for j in range(m)] for i in range(n)])
                 for k, x in case["args"].items()}
    b = G.fix_signature(b, "1d" if case["series"] else "2d")
    b["val_price"] = dict(form="full", v=[[G.at(case["val_price"], i, j, lambda e: e) for j in range(m)] for i in range(n)])
    pf1 = pf2 = e1 = e2 = None
    try:
        pf1 = run_pf(a)
    except Exception as e:
        e1 = type(e).__name__
    try:
        pf2 = run_pf(b)
    except Exception as e:
        e2 = type(e).__name__
    need(e1 == e2, "different outcome for compact and full arguments: %r / %r" % (e1, e2))
    if e1:
        return ["error"]
    need(len(pf1.order_records) == len(pf2.order_records), "different number of orders for compact/full arguments")
    for f in pf1.order_records.dtype.names:
        need_same(pf1.order_records[f].astype(float), pf2.order_records[f].astype(float), "order field %s" % f)
    need(len(pf1.log_records) == len(pf2.log_records), "different number of logs for compact/full arguments")
    for f in pf1.log_records.dtype.names:
        need_same(pf1.log_records[f].astype(float), pf2.log_records[f].astype(float), "log field %s" % f)
    need_same(np.asarray(pf1.value(), float), np.asarray(pf2.value(), float), "value")
    forms = {x["form"] for x in case["args"].values()} - {"scalar"}
    return ["nt"] if forms and len(pf1.order_records) else []


@st.composite
def forms_st(draw):
    c = draw(G.sim_case(errors=False, signature=draw(weighted((4, True), (1, False)))))
    if c["call_seq"] == "random":
        c["call_seq"] = "reversed"
    return c


def check_orient(case):
    """A narrower close: arrays wider/longer than close broadcast close up."""
    n, m = case["n"], case["m"]
    index, columns = G.labels_of(case)
    close = arr(case["close"])[:, 0]
    sz = arr(case["size"])
    pf = vbt.Portfolio.from_orders(pd.Series(close, index=index), size=pd.DataFrame(sz, index=index, columns=columns),
                                   fees=case["fees"], init_cash=case["cash"])
    pf2 = vbt.Portfolio.from_orders(pd.DataFrame(np.tile(close[:, None], (1, m)), index=index, columns=columns), size=sz,
                                    fees=case["fees"], init_cash=case["cash"])
    need(pf.wrapper.shape == (n, m), "close was not broadcast to the shape of size")
    need(list(pf.wrapper.columns) == list(columns), "columns %s" % list(pf.wrapper.columns))
    for f in pf.order_records.dtype.names:
        need_same(pf.order_records[f].astype(float), pf2.order_records[f].astype(float), "order field %s" % f)
    need_same(np.asarray(pf.close, float), np.asarray(pf2.close, float), "close")
    return ["nt"] if len(pf.order_records) else []


@st.composite
def orient_st(draw):
    n, m = draw(st.integers(1, 6)), draw(st.integers(2, 4))
    return dict(n=n, m=m, close=draw(G.price_path(n, 1)),
                size=draw(G.matrix(st.sampled_from([0, 1, -1, 2.5, "inf", "-inf"]), n, m)),
                fees=draw(st.sampled_from([0.0, 0.01])), cash=draw(st.sampled_from([100.0, 500.0])))


FACETS = [
    Facet("ledger", sim_st, check_sim, quick=1600, thorough=60000, shards=3,
          rule="at least two orders filled, or a documented error raised"),
    Facet("auto_seq", auto_st, check_sim, quick=1500, thorough=20000, shards=2, rule="at least two orders filled"),
    Facet("approx", approx_st, check_approx, quick=3000, thorough=60000, shards=1, rule="a size other than zero"),
    Facet("forms", forms_st, check_forms, quick=100, thorough=3000, shards=1, rule="non-scalar argument and an order"),
    Facet("narrow_close", orient_st, check_orient, quick=100, thorough=2000, rule="at least one order"),
]
