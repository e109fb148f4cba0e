"""C01: every order is executed exactly according to its own constraints and the account state."""
import math

import numpy as np
from hypothesis import strategies as st
from numba import njit

from vectorbt.portfolio import nb as pnb
from vectorbt.portfolio.enums import ProcessOrderState, RejectedOrderError, order_dt, log_dt

from vbtcheck import refmodel as R
from vbtcheck.core import Facet
from vbtcheck.util import fl, need, need_same, same, price_st, weighted

ASSUMPTIONS = [
    "Decisions within 1e-6 relative of a floating-point boundary (size multiple of the granularity, exact cash "
    "exhaustion up to rounding) are not judged, because either outcome is legitimate there.",
]


@st.composite
def order_st(draw, wild=False):
    t = draw(st.integers(0, 5))
    d = draw(st.integers(0, 2))
    if t in (0, 3):
        size = draw(st.one_of(st.integers(-12, 12), st.sampled_from([0.1, -0.3, 2.5, -7.25, 100, -100]),
                              st.sampled_from(["inf", "-inf"])))
    elif t in (1, 4):
        size = draw(st.one_of(st.integers(-120, 120), st.sampled_from([0.5, 1000, -1000, "inf", "-inf"])))
    else:
        size = draw(st.sampled_from([0, 0.1, 0.25, 0.5, 0.99, 1.0, 1.5, -0.1, -0.5, -1.0, -1.25, "inf", "-inf"]
                                    if t == 5 else
                                    [0, 0.1, 0.25, 0.5, 0.99, 1.0, 1.5, -0.1, -0.5, -1.0, -1.25]))
    o = dict(size=size, price=draw(price_st()), size_type=t, direction=d)
    o["fees"] = draw(weighted((4, 0.0), (2, 0.01), (1, 0.1), (1, -0.005)))
    o["fixed_fees"] = draw(weighted((4, 0.0), (2, 1.0), (1, 25.0), (1, 0.37)))
    o["slippage"] = draw(weighted((4, 0.0), (2, 0.02), (1, 0.25)))
    o["min_size"] = draw(weighted((4, 0.0), (1, 1.0), (1, 3.5)))
    o["max_size"] = draw(weighted((4, "inf"), (1, 2.0), (1, 5.5)))
    o["size_granularity"] = draw(weighted((4, None), (1, 1.0), (1, 0.25), (1, 3.0)))
    o["lock_cash"] = draw(st.booleans())
    o["allow_partial"] = draw(weighted((3, True), (2, False)))
    o["raise_reject"] = False
    o["log"] = draw(weighted((2, True), (1, False)))
    o["reject_prob"] = draw(weighted((19, 0.0), (1, 1.0)))
    if draw(st.integers(0, 19)) == 19:
        o["size"] = None
    if draw(st.integers(0, 19)) == 19:
        o["price"] = None
    if wild and draw(st.integers(0, 9)) == 9:
        k, v = draw(st.sampled_from([("price", "inf"), ("price", 0.0), ("price", -1.0), ("fees", None),
                                     ("fixed_fees", "inf"), ("slippage", -0.1), ("slippage", None),
                                     ("min_size", -1.0), ("min_size", "inf"), ("max_size", 0.0), ("max_size", None),
                                     ("size_granularity", 0.0), ("size_granularity", -1.0),
                                     ("size_granularity", "inf"), ("reject_prob", 1.5), ("reject_prob", -0.5),
                                     ("size_type", 6), ("size_type", -1), ("direction", 3), ("direction", -1)]))
        o[k] = v
    return o


@st.composite
def state_st(draw):
    pos = draw(weighted((2, 0.0), (1, 1.0), (1, 7.5), (1, 0.3), (1, -1.0), (1, -7.5), (1, -0.3), (1, 20.0), (1, -4.0)))
    cash = draw(st.one_of(st.integers(0, 300).map(float), st.sampled_from([0.0, 0.01, 1e6, 33.33])))
    debt = 0.0
    if pos < 0:
        debt = -pos * draw(price_st())
    free = cash - 2 * debt - draw(weighted((4, 0.0), (1, 10.0), (1, 150.0)))
    vp = draw(st.one_of(price_st(), st.just(None)) if draw(st.integers(0, 7)) == 7 else price_st())
    val = cash + (0 if vp is None else pos * vp) + draw(weighted((5, 0.0), (1, 40.0), (1, -300.0)))
    if draw(st.integers(0, 19)) == 19:
        val = None
    return dict(cash=cash, position=pos, debt=debt, free_cash=free, val_price=vp, value=val)


def mk_order(o):
    return pnb.order_nb(
        size=fl(o["size"]), price=fl(o["price"]), size_type=int(o["size_type"]), direction=int(o["direction"]),
        fees=fl(o["fees"]), fixed_fees=fl(o["fixed_fees"]), slippage=fl(o["slippage"]), min_size=fl(o["min_size"]),
        max_size=fl(o["max_size"]), size_granularity=fl(o["size_granularity"]), reject_prob=fl(o["reject_prob"]),
        lock_cash=bool(o["lock_cash"]), allow_partial=bool(o["allow_partial"]), raise_reject=bool(o["raise_reject"]),
        log=bool(o["log"]))


def rorder(o):
    r = {k: fl(o[k]) for k in ("size", "price", "fees", "fixed_fees", "slippage", "min_size", "max_size",
                               "size_granularity", "reject_prob")}
    r.update(size_type=int(o["size_type"]), direction=int(o["direction"]), lock_cash=bool(o["lock_cash"]),
             allow_partial=bool(o["allow_partial"]), raise_reject=bool(o["raise_reject"]), log=bool(o["log"]))
    return r


def mk_state(s, oidx=0, lidx=0):
    return ProcessOrderState(fl(s["cash"]), fl(s["position"]), fl(s["debt"]), fl(s["free_cash"]), fl(s["val_price"]),
                             fl(s["value"]), oidx, lidx)


@st.composite
def exec_case(draw, wild=True):
    s, o = draw(state_st()), draw(order_st(wild=wild))
    # direction-restricted orders presuppose a position on the same side; keep a few that do not
    if s["position"] * (1 if o["direction"] == 1 else -1 if o["direction"] == 0 else 0) > 0:
        if draw(st.integers(0, 9)) < 9:
            o["direction"] = 2 if draw(st.booleans()) else (0 if s["position"] > 0 else 1)
    if o["size_type"] in (1, 4) and s["val_price"] is None and draw(st.booleans()):
        s["val_price"] = 10.0
    return dict(state=s, order=o)


def run_exec(s, o):
    try:
        es, r = pnb.execute_order_nb(mk_state(s), mk_order(o))
        return es, r, None
    except ValueError as e:
        return None, None, str(e)


def check_exec(case):
    s, o = case["state"], case["order"]
    es, r, err = run_exec(s, o)
    labels = []
    try:
        (c, p, d, f), rr = R.execute(fl(s["cash"]), fl(s["position"]), fl(s["debt"]), fl(s["free_cash"]),
                                     fl(s["val_price"]), fl(s["value"]), rorder(o))
    except R.Ambiguous:
        return ["boundary"]
    except R.ModelError:
        need(err is not None, "an invalid order/state must raise a ValueError, got %r" % (r,))
        return ["invalid", "nt"]
    need(err is None, "unexpected ValueError: %s (expected %r)" % (err, rr))
    need(r.status == rr["status"] and r.status_info == rr["status_info"],
         "order outcome: got status %d info %d, expected %d info %d" % (r.status, r.status_info, rr["status"],
                                                                       rr["status_info"]))
    need(r.side == rr["side"], "order side %d, expected %d" % (r.side, rr["side"]))
    need_same([r.size, r.price, r.fees], [rr["size"], rr["price"], rr["fees"]], "order size, price, fees")
    need_same([es.cash, es.position, es.debt, es.free_cash], [c, p, d, f],
              "account after the order (cash, position, debt, free cash)", atol=1e-7)
    labels.append("status%d_%d" % (r.status, r.status_info))
    if r.status == 0:
        labels += ["nt", "buy" if r.side == 0 else "sell"]
        if p * fl(s["position"]) < 0:
            labels.append("reversed")
    elif r.status_info not in (0, 1):
        labels.append("nt")
    return labels


def check_laws(case):
    """Laws of the account that do not need the model."""
    s, o = case["state"], case["order"]
    es, r, err = run_exec(s, o)
    if err is not None:
        return ["invalid"]
    ro = rorder(o)
    cash, pos, debt, free = fl(s["cash"]), fl(s["position"]), fl(s["debt"]), fl(s["free_cash"])
    if r.status != 0:
        need_same([es.cash, es.position, es.debt, es.free_cash], [cash, pos, debt, free],
                  "an order that is not filled must leave the account as it was")
        need(math.isnan(r.size) and math.isnan(r.price) and math.isnan(r.fees) and r.side == -1,
             "an order that is not filled must carry no size, price, fees or side: %r" % (r,))
        return ["notfilled"]
    labels = ["nt"]
    size, price, fees = r.size, r.price, r.fees
    need(size > 0 and math.isfinite(size), "filled size must be positive and finite, got %r" % size)
    adj = ro["price"] * (1 + ro["slippage"]) if r.side == 0 else ro["price"] * (1 - ro["slippage"])
    need_same(price, adj, "fill price with slippage")
    need_same(fees, size * price * ro["fees"] + ro["fixed_fees"], "fees", rtol=1e-7, atol=1e-7)
    sgn = 1 if r.side == 0 else -1
    need_same(es.position, pos + sgn * size, "position change equals the signed size",
              atol=1e-8 + 3e-9 * max(abs(pos), size))
    need_same(es.cash, cash - sgn * size * price - fees, "cash flow equals -signed size * price - fees", rtol=1e-7,
              atol=1e-7 + 3e-9 * max(cash, size * price))
    need(es.cash >= -1e-9, "cash went negative: %r" % es.cash)
    need(size <= ro["max_size"] * (1 + 1e-9), "size above max_size")
    need(size >= ro["min_size"] * (1 - 1e-8), "size below min_size")
    g = ro["size_granularity"]
    if not math.isnan(g):
        q = size / g
        need(abs(q - round(q)) < 1e-7 * max(1.0, q), "size %r is not a multiple of %r" % (size, g))
    if ro["direction"] == 0:
        need(es.position >= -1e-9, "long-only position went short")
    if ro["direction"] == 1:
        need(es.position <= 1e-9, "short-only position went long")
    if ro["lock_cash"] and free >= 0:
        need(es.free_cash >= -1e-6 * max(1.0, abs(free), abs(size * price)), "locked cash was spent: free cash %r -> %r" % (free, es.free_cash))
    # requested quantity is never exceeded and, when partial fills are not allowed, always reached
    t, rs = ro["size_type"], ro["size"]
    want = None
    if t == 0 and math.isfinite(rs):
        want = -rs if ro["direction"] == 1 else rs
    elif t == 1 and math.isfinite(rs):
        want = (-rs if ro["direction"] == 1 else rs) / fl(s["val_price"])
    elif t == 3 and math.isfinite(rs):
        want = (-rs if ro["direction"] == 1 else rs) - pos
    elif t == 4 and math.isfinite(rs):
        want = (-rs if ro["direction"] == 1 else rs) / fl(s["val_price"]) - pos
    elif t == 5 and math.isfinite(rs):
        want = (-rs if ro["direction"] == 1 else rs) * fl(s["value"]) / fl(s["val_price"]) - pos
    if want is not None:
        need(want * sgn > -1e-9, "order of signed size %r was filled on the other side" % want)
        need(size <= abs(want) * (1 + 1e-8) + 1e-9, "filled %r, more than the requested %r" % (size, want))
        if not ro["allow_partial"]:
            need(size >= abs(want) * (1 - 1e-8) - 1e-9, "partial fill %r of %r although not allowed" % (size, want))
            labels.append("full")
        elif size < abs(want) * (1 - 1e-6):
            labels.append("partial")
    if es.position < 0:
        need(es.debt > 0, "a short position must carry debt")
    else:
        need(abs(es.debt) <= 1e-7 * max(1.0, debt), "debt %r without a short position" % es.debt)
    # free cash moves consistently with cash and debt: free = cash - 2 * debt - (what others lock)
    need_same(es.free_cash - free, (es.cash - cash) - 2 * (es.debt - debt), "free cash versus cash and debt",
              rtol=1e-6, atol=1e-6 + 1e-8 * max(cash, abs(free), size * price))
    return labels


# ---------------------------------------------------------------- histories

@st.composite
def hist_case(draw):
    n = draw(st.integers(1, 12))
    orders = [draw(order_st()) for _ in range(n)]
    if draw(st.integers(0, 3)) == 3:
        orders[draw(st.integers(0, n - 1))]["raise_reject"] = True
    p = draw(price_st())
    for o in orders:
        if o["price"] is not None and draw(st.integers(0, 3)) > 0:
            o["price"] = p * draw(st.sampled_from([1.0, 0.9, 1.1, 1.5, 0.6]))
        o["direction"] = o["direction"] if draw(st.integers(0, 2)) == 0 else 2
    return dict(orders=orders, cash=draw(st.sampled_from([100.0, 1000.0, 37.5, 5.0])),
                update_value=draw(st.booleans()),
                val=[draw(st.sampled_from([1.0, 0.8, 1.25])) for _ in range(n)],
                max_orders=draw(weighted((4, 12), (1, 2))), max_logs=draw(weighted((4, 12), (1, 3))),
                i0=draw(st.integers(0, 5)), col=draw(st.integers(0, 3)), group=draw(st.integers(0, 2)))


def check_hist(case):
    orec = np.empty(case["max_orders"], dtype=order_dt)
    lrec = np.empty(case["max_logs"], dtype=log_dt)
    led = R.Ledger(case["update_value"])
    cash, pos, debt, free = case["cash"], 0.0, 0.0, case["cash"]
    vp = float("nan")
    labels = []
    i0, col, group = case["i0"], case["col"], case["group"]
    filled = 0
    for k, o in enumerate(case["orders"]):
        ro = rorder(o)
        if not math.isnan(ro["price"]):
            vp = ro["price"] * case["val"][k]
        value = cash + (pos * vp if pos != 0 else 0.0)
        stt = ProcessOrderState(cash, pos, debt, free, vp, value, len(led.orders), len(led.logs))
        no, nl = len(led.orders), len(led.logs)
        exc = res = nst = None
        try:
            res, nst = pnb.process_order_nb(i0 + k, col, group, stt, case["update_value"], mk_order(o), orec, lrec)
        except RejectedOrderError as e:
            exc = "rejected"
        except IndexError as e:
            exc = "index"
        except ValueError as e:
            exc = "value"
        try:
            rr, rst, nvp, nv = led.process(i0 + k, col, group, cash, pos, debt, free, vp, value, ro)
            rexc = None
            if len(led.orders) > case["max_orders"] or len(led.logs) > case["max_logs"]:
                rexc = "index"
        except R.Ambiguous:
            return labels + ["boundary"]
        except R.RejectedError:
            rexc = "rejected"
        except R.ModelError:
            rexc = "value"
        need(exc == rexc, "step %d: raised %r, expected %r" % (k, exc, rexc))
        if exc is not None:
            return labels + ["raise_" + exc, "nt"]
        need((res.status, res.status_info) == (rr["status"], rr["status_info"]),
             "step %d: outcome %r, expected %r" % (k, res, rr))
        need_same(list(nst)[:6], list(rst) + [nvp, nv], "step %d: state after" % k, atol=1e-6, rtol=1e-7)
        need((nst.oidx, nst.lidx) == (len(led.orders), len(led.logs)), "step %d: record counters" % k)
        cash, pos, debt, free = nst.cash, nst.position, nst.debt, nst.free_cash
        vp = nst.val_price
        filled += res.status == 0
    cmp_records(orec[:len(led.orders)], led.orders, "order")
    cmp_records(lrec[:len(led.logs)], led.logs, "log")
    # conservation over the whole history, from the records alone
    c, p = case["cash"], 0.0
    for r in orec[:len(led.orders)]:
        sgn = 1 if r["side"] == 0 else -1
        c -= sgn * r["size"] * r["price"] + r["fees"]
        p += sgn * r["size"]
    need_same([c, p], [cash, pos], "cash and position replayed from the order records", rtol=1e-6, atol=1e-6)
    if filled >= 2:
        labels.append("nt")
    labels.append("filled%d" % min(filled, 5))
    return labels


def cmp_records(recs, exp, what):
    need(len(recs) == len(exp), "%d %s records, expected %d" % (len(recs), what, len(exp)))
    for r, e in zip(recs, exp):
        for k, v in e.items():
            if not same(float(r[k]), float(v), rtol=1e-7, atol=1e-6):
                need(False, "%s record %d: %s is %r, expected %r" % (what, e["id"], k, r[k], v))


# ---------------------------------------------------------------- random rejection

@njit
def seed_nb(s):
    np.random.seed(s)


def check_prob(case):
    s, o, p = case["state"], dict(case["order"]), case["prob"]
    o["reject_prob"] = 0.0
    es0, r0, err = run_exec(s, o)
    if err is not None:
        return ["invalid"]
    o["reject_prob"] = p
    outs = []
    n = 40
    for rep in range(2):
        seed_nb(case["seed"])
        out = []
        for k in range(n):
            es, r, err = run_exec(s, o)
            need(err is None, "random rejection raised %s" % err)
            rej = r.status == 2 and r.status_info == R.RandomEvent
            out.append(rej)
            if rej:
                need_same([es.cash, es.position, es.debt, es.free_cash],
                          [fl(s["cash"]), fl(s["position"]), fl(s["debt"]), fl(s["free_cash"])],
                          "a randomly rejected order must leave the account as it was")
            else:
                need_same(list(es), list(es0), "an order that survives random rejection must act as without it")
                need((r.status, r.status_info) == (r0.status, r0.status_info), "outcome with/without rejection")
        outs.append(out)
    need(outs[0] == outs[1], "the same seed must reject the same orders")
    k = sum(outs[0])
    if r0.status == 0:
        # 40 draws: outside 7 sigma is impossible in practice (p of a false alarm < 1e-9 per case)
        need(abs(k - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 3, "rejected %d of %d with probability %r" % (k, n, p))
        return ["nt"]
    return ["notfilled"]


@st.composite
def prob_case(draw):
    c = draw(exec_case(wild=False))
    return dict(state=c['state'], order=c['order'], prob=draw(st.sampled_from([0.1, 0.5, 0.8])),
                seed=draw(st.integers(0, 10 ** 6)))


FACETS = [
    Facet("exec_model", exec_case, check_exec, quick=5000, thorough=200000,
          rule="one random account state and order; filled, raised, or not filled for a reason other than NaN input"),
    Facet("exec_laws", exec_case, check_laws, quick=5000, thorough=200000, rule="the order was filled"),
    Facet("histories", hist_case, check_hist, quick=1000, thorough=40000,
          rule="at least two fills in the history, or a documented error was raised"),
    Facet("random_reject", prob_case, check_prob, quick=150, thorough=3000, rule="the order would be filled"),
]
