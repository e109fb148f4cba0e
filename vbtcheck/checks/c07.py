"""C07: portfolio accounting reconciles with the order records."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.portfolio.enums import InitCashMode, log_dt, order_dt

from vbtcheck import pfgen as G
from vbtcheck.core import Facet
from vbtcheck.util import NAN, arr, fl, matrix, need, price_path, vec, weighted
from vbtcheck.checks.c02 import run_pf

ASSUMPTIONS = ["Positions whose size is within 1e-9 of zero count as closed, as documented.",
               "Ratios with a denominator within 1e-7 of zero that is not exactly zero are not compared."]


def add(a, b):
    return 0.0 if math.isclose(a, -b, rel_tol=1e-9, abs_tol=1e-12) else a + b


def ret(a, b):
    """Return from value a to value b; None if it cannot be decided in floating point."""
    if math.isnan(a) or math.isnan(b):
        return NAN
    if a == 0:
        if b == 0:
            return 0.0
        return None if abs(b) < 1e-7 else math.copysign(math.inf, b)
    if abs(a) < 1e-7:
        return None
    r = (b - a) / a
    return -r if a < 0 else r


class Ref:
    """Replay of order records of one portfolio."""

    def __init__(self, n, m, close, orders, fillna):
        self.n, self.m = n, m
        self.close = [[float(x) for x in r] for r in close]
        if fillna:
            for j in range(m):
                col = [r[j] for r in self.close]
                good = [k for k in range(n) if not math.isnan(col[k])]
                for i in range(n):
                    before = [k for k in good if k <= i]
                    if before:
                        self.close[i][j] = col[before[-1]]
                    elif good:
                        self.close[i][j] = col[good[0]]
        self.flow = {d: np.zeros((n, m)) for d in ("both", "longonly", "shortonly")}
        self.cf = np.zeros((n, m))
        self.fcf = np.zeros((n, m))
        self.pos = np.zeros((n, m))
        for j in range(m):
            pos = debt = 0.0
            per_bar = {}
            for o in orders[j]:
                per_bar.setdefault(o["idx"], []).append(o)
            for i in range(n):
                for o in per_bar.get(i, []):
                    s = o["size"] if o["side"] == 0 else -o["size"]
                    new = add(pos, s)
                    cash = -s * o["price"] - o["fees"]
                    # money locked by a short position: its proceeds, which are also debt
                    if s > 0 and pos < 0:
                        ndebt = debt * max(0.0, -new) / -pos
                    elif s < 0 and new < 0:
                        ndebt = debt + min(-s, -new) * o["price"]
                    else:
                        ndebt = debt
                    self.fcf[i, j] += cash - 2 * (ndebt - debt)
                    self.cf[i, j] += cash
                    self.flow["both"][i, j] = add(self.flow["both"][i, j], s)
                    self.flow["longonly"][i, j] += max(new, 0) - max(pos, 0)
                    self.flow["shortonly"][i, j] += max(-new, 0) - max(-pos, 0)
                    pos, debt = new, ndebt
                self.pos[i, j] = pos
        self.close = np.array(self.close)

    def assets(self, d):
        p = self.pos
        return p if d == "both" else np.maximum(p, 0) if d == "longonly" else np.maximum(-p, 0)

    def asset_value(self, d):
        a = self.assets(d)
        with np.errstate(all="ignore"):
            return np.where(a == 0, 0.0, a * self.close)


def grp(a, lens):
    if lens is None:
        return a
    cs = np.concatenate([[0], np.cumsum(lens)])
    return np.stack([a[:, cs[k]:cs[k + 1]].sum(axis=1) for k in range(len(lens))], axis=1)


def init_cash_ref(mode, cf, ref_lens, sharing, lens):
    """`cf`: cash flow under the requested grouping; `lens`: requested grouping (None: ungrouped)."""
    if isinstance(mode, str):
        low = np.cumsum(cf, axis=0).min(axis=0)
        out = np.where(low < 0, -low, 1.0)
        if mode == "autoalign":
            out = np.full(out.shape, out.max())
        return out
    ic = np.asarray(mode, dtype=float)
    if lens is not None:
        return ic if sharing else grp(ic[None, :], lens)[0]
    return np.repeat(ic, ref_lens) if sharing else ic


def cmp(got, want, what, tol=1e-7, skip=None, index=None, columns=None):
    if index is not None:
        need(list(got.index) == list(index), "%s: index %s" % (what, list(got.index)))
    if columns is not None:
        if isinstance(got, pd.DataFrame):
            need(list(got.columns) == list(columns), "%s: columns %s, expected %s" % (
                what, list(got.columns), list(columns)))
        elif np.ndim(got) == 1 and len(columns) == 1:
            need(got.name == columns[0] or got.name is None, "%s: name %r" % (what, got.name))
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    g = g.reshape(w.shape) if g.size == w.size else g
    need(g.shape == w.shape, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
    with np.errstate(all="ignore"):
        ok = np.isclose(g, w, rtol=1e-7, atol=tol, equal_nan=True)
    if skip is not None:
        ok = ok | skip
    need(bool(ok.all()), "%s: got %s, expected %s" % (what, g.tolist(), w.tolist()))


def ret_matrix(pre, out):
    n, m = out.shape
    w = np.zeros((n, m))
    skip = np.zeros((n, m), dtype=bool)
    for j in range(m):
        for i in range(n):
            r = ret(float(pre[i, j]), float(out[i, j]))
            if r is None:
                skip[i, j] = True
            else:
                w[i, j] = r
    return w, skip


def check_pf(pf, ref, mode, lens0, sharing, lens, group_by, index, columns, gcols, call_seq=None):
    """Compare every accounting method of `pf` under grouping `lens` requested as `group_by`."""
    kw = dict(group_by=group_by)
    scale = 1.0 + np.abs(ref.cf).sum() + np.nanmax(np.abs(np.nan_to_num(ref.pos * ref.close, posinf=0, neginf=0)), initial=0)
    tol = 1e-9 * scale + 1e-9
    oc = gcols if lens is not None else columns
    ic = init_cash_ref(mode, grp(ref.cf, lens), lens0, sharing, lens)
    tol = tol + 1e-9 * float(np.max(np.abs(ic)))
    lab = dict(index=index, columns=oc)
    flat = dict(index=index, columns=columns)
    for d in ("both", "longonly", "shortonly"):
        cmp(pf.asset_flow(direction=d), ref.flow[d], "asset_flow(%s)" % d, tol, **flat)
        cmp(pf.assets(direction=d), ref.assets(d), "assets(%s)" % d, tol, **flat)
        mask = ref.assets(d) != 0
        gm = mask if lens is None else grp(mask.astype(float), lens) > 0
        got = pf.position_mask(direction=d, **kw)
        need(np.asarray(got).dtype == bool, "position_mask dtype")
        cmp(got, gm, "position_mask(%s)" % d, **lab)
        cov = mask.mean(axis=0) if lens is None else grp(mask.mean(axis=0)[None], lens)[0] / np.array(lens)
        cmp(np.atleast_1d(pf.position_coverage(direction=d, **kw)), cov, "position_coverage(%s)" % d)
        cmp(pf.asset_value(direction=d, **kw), grp(ref.asset_value(d), lens), "asset_value(%s)" % d, tol, **lab)
    cmp(pf.cash_flow(**kw), grp(ref.cf, lens), "cash_flow", tol, **lab)
    cmp(pf.cash_flow(free=True, **kw), grp(ref.fcf, lens), "free cash_flow", tol, **lab)
    got_ic = pf.get_init_cash(**kw)
    cmp(np.atleast_1d(got_ic), ic, "init_cash", tol)
    if isinstance(got_ic, pd.Series):
        need(list(got_ic.index) == list(oc), "init_cash labels %s" % list(got_ic.index))
    cash = ic + np.cumsum(grp(ref.cf, lens), axis=0)
    fcash = ic + np.cumsum(grp(ref.fcf, lens), axis=0)
    cmp(pf.cash(**kw), cash, "cash", tol, **lab)
    cmp(pf.cash(free=True, **kw), fcash, "free cash", tol, **lab)
    av = grp(ref.asset_value("both"), lens)
    value = cash + av
    cmp(pf.value(**kw), value, "value", tol, **lab)
    g1 = np.asarray(pf.value(**kw), float)
    cmp(g1, np.asarray(pf.cash(**kw), float) + np.asarray(pf.asset_value(**kw), float), "value vs cash + asset value", tol)
    exp = {}
    skip = {}
    for d in ("both", "longonly", "shortonly"):
        a = grp(np.abs(ref.asset_value(d)), lens)
        den = a + fcash
        zero = np.abs(den) < 1e-6 * scale
        with np.errstate(all="ignore"):
            e = np.where(zero, 0.0, a / den)
        exp[d], skip[d] = e, zero
        cmp(pf.gross_exposure(direction=d, **kw), e, "gross_exposure(%s)" % d, 1e-6, skip=zero, **lab)
    cmp(pf.net_exposure(**kw), exp["longonly"] - exp["shortonly"], "net_exposure", 1e-6,
        skip=skip["longonly"] | skip["shortonly"], **lab)
    fv = value[-1]
    cmp(np.atleast_1d(pf.total_profit(**kw)), fv - ic, "total_profit", tol)
    cmp(np.atleast_1d(pf.final_value(**kw)), fv, "final_value", tol)
    with np.errstate(all="ignore"):
        cmp(np.atleast_1d(pf.total_return(**kw)), (fv - ic) / ic, "total_return", 1e-7)
    pre = np.vstack([ic[None], g1.reshape(value.shape)[:-1]])
    w, sk = ret_matrix(pre, g1.reshape(value.shape))
    cmp(pf.returns(**kw), w, "returns", 1e-7, skip=sk, **lab)
    pos0 = grp((ref.pos != 0).astype(float), lens) > 0
    pre = np.vstack([np.zeros((1, av.shape[1])), av[:-1]])
    had = np.vstack([np.zeros((1, av.shape[1]), dtype=bool), pos0[:-1]])
    w, sk = ret_matrix(pre, np.where(np.abs(av + grp(ref.cf, lens)) < tol, 0.0, av + grp(ref.cf, lens)))
    cmp(pf.asset_returns(**kw), w, "asset_returns", 1e-6, skip=sk | (had & (np.abs(pre) < 1e-6)), **lab)
    with np.errstate(all="ignore"):
        norm = ref.close / ref.close[0]
        if lens is None:
            bv = norm * ic
        else:
            bv = grp(norm, lens) * ic / np.array(lens)
    cmp(pf.benchmark_value(**kw), bv, "benchmark_value", tol * 100, **lab)
    w, sk = ret_matrix(np.vstack([ic[None], bv[:-1]]), bv)
    cmp(pf.benchmark_returns(**kw), w, "benchmark_returns", 1e-7, skip=sk, **lab)
    w, sk = ret_matrix(bv[:1], bv[-1:])
    cmp(np.atleast_1d(pf.total_benchmark_return(**kw)), w[0], "total_benchmark_return", 1e-7, skip=sk[0])
    if call_seq is not None and sharing and lens is None:
        check_in_sim_order(pf, ref, mode, lens0, call_seq, tol, flat)


def check_in_sim_order(pf, ref, mode, lens0, call_seq, tol, flat):
    n, m = ref.n, ref.m
    ic0 = init_cash_ref(mode, grp(ref.cf, lens0), lens0, True, lens0)
    cash = np.zeros((n, m))
    free = np.zeros((n, m))
    val = np.zeros((n, m))
    prev = np.zeros((n, m))
    av = ref.asset_value("both")
    c0 = 0
    for g, k in enumerate(lens0):
        now = fnow = float(ic0[g])
        cur = [0.0] * k
        last = float(ic0[g])
        for i in range(n):
            for p in range(k):
                j = call_seq[i][c0 + p]
                now += ref.cf[i, c0 + j]
                fnow += ref.fcf[i, c0 + j]
                cur[j] = av[i, c0 + j]
                cash[i, c0 + j] = now
                free[i, c0 + j] = fnow
                val[i, c0 + j] = now + sum(cur)
                prev[i, c0 + j] = last
                last = val[i, c0 + j]
        c0 += k
    cmp(pf.cash(group_by=False, in_sim_order=True), cash, "cash in simulation order", tol, **flat)
    cmp(pf.cash(group_by=False, in_sim_order=True, free=True), free, "free cash in simulation order", tol, **flat)
    cmp(pf.value(group_by=False, in_sim_order=True), val, "value in simulation order", tol, **flat)
    w, sk = ret_matrix(prev, val)
    cmp(pf.returns(group_by=False, in_sim_order=True), w, "returns in simulation order", 1e-6,
        skip=sk | (np.abs(prev) < 1e-6), **flat)


def expect_error(f, what):
    try:
        f()
    except Exception:
        return
    need(False, "%s did not raise" % what)


def regroup_all(pf, case, ref, mode, call_seq=None):
    n, m = case["n"], case["m"]
    index, columns = G.labels_of(case)
    lens0 = case["group"]
    sharing = bool(case["cash_sharing"])
    labs = ["g%d" % k for k in range(len(lens0))] if lens0 else None
    check_pf(pf, ref, mode, lens0 or [1] * m, sharing, lens0, None, index, columns, labs, call_seq)
    if lens0:
        check_pf(pf, ref, mode, lens0, sharing, None, False, index, columns, labs, call_seq)
    else:
        check_pf(pf, ref, mode, [1] * m, sharing, None, False, index, columns, labs)
    alt = case.get("alt")
    if alt and alt != lens0:
        gb = pd.Index(np.repeat(["h%d" % k for k in range(len(alt))], alt), name="g2")
        if sharing:
            for name in ("value", "cash", "returns", "total_profit"):
                expect_error(lambda: getattr(pf, name)(group_by=gb), "regrouping a cash-sharing portfolio in " + name)
            expect_error(lambda: pf.regroup(gb), "regroup of a cash-sharing portfolio")
        else:
            alabs = ["h%d" % k for k in range(len(alt))]
            check_pf(pf, ref, mode, [1] * m, False, alt, gb, index, columns, alabs)
            check_pf(pf.regroup(gb), ref, mode, [1] * m, False, alt, None, index, columns, alabs)
    if alt and not sharing:
        check_pf(pf, ref, mode, [1] * m, False, [m], True, index, columns, ["group"])


def group_index(lens):
    return pd.Index(np.repeat(["g%d" % k for k in range(len(lens))], lens), name="group")


def check_records(case):
    n, m = case["n"], case["m"]
    index, columns = G.labels_of(case)
    close = G.close_obj(case)
    orders = [[dict(idx=o[0], side=o[1], size=fl(o[2]), price=fl(o[3]), fees=fl(o[4])) for o in
               sorted(case["orders"][j], key=lambda o: o[0])] for j in range(m)]
    flat = [(o["idx"] if case["row_major"] else 0, j, k, o) for j in range(m) for k, o in enumerate(orders[j])]
    flat.sort(key=lambda x: x[:3])
    recs = np.zeros(len(flat), dtype=order_dt)
    for r, (_, j, _k, o) in enumerate(flat):
        recs[r] = (r, j, o["idx"], o["size"], o["price"], o["fees"], o["side"])
    lens0 = case["group"]
    sharing = bool(case["cash_sharing"])
    wrapper = ArrayWrapper.from_obj(close, freq="1D", **({} if lens0 is None else dict(group_by=group_index(lens0))))
    ic = case["init_cash"]
    mode = ic if isinstance(ic, str) else np.array(ic, dtype=float)
    arg = dict(auto=InitCashMode.Auto, autoalign=InitCashMode.AutoAlign)[ic] if isinstance(ic, str) else mode
    seq = None
    if sharing:
        seq = [[int(x) for x in r] for r in case["seq"]]
    pf = vbt.Portfolio(wrapper, close, recs, np.zeros(0, dtype=log_dt), arg, sharing,
                       call_seq=None if seq is None else np.array(seq), fillna_close=case["fillna"])
    ref = Ref(n, m, arr(case["close"]), orders, case["fillna"])
    before = recs.copy()
    regroup_all(pf, case, ref, mode, seq)
    need(before.tobytes() == pf.order_records.tobytes(), "order records were modified")
    need(np.array_equal(np.asarray(close, float), arr(case["close"]).reshape(np.shape(close)), equal_nan=True),
         "close was modified")
    tot = len(flat)
    flips = any(a * b < 0 for j in range(m) for a, b in zip(ref.pos[:-1, j], ref.pos[1:, j]))
    return (["nt"] if tot >= 2 else []) + (["flip"] if flips else []) + (["nan_close"] if any(
        x is None for r in case["close"] for x in r) else []) + (["shared"] if sharing else [])


@st.composite
def records_st(draw):
    n = draw(st.sampled_from([4, 3, 5, 1, 2, 6, 8]))
    m = draw(st.sampled_from([3, 2, 1, 4]))
    case = dict(n=n, m=m, close=draw(price_path(n, m, nan=draw(st.booleans()), lo=2, hi=20)))
    case["series"] = m == 1 and draw(st.booleans())
    size = st.one_of(st.integers(1, 6).map(float), st.sampled_from([0.25, 0.1, 0.2, 0.3, 1.5, 2.75]))
    order = st.tuples(st.integers(0, n - 1), st.integers(0, 1), size,
                      st.one_of(st.integers(1, 30).map(float), st.sampled_from([2.5, 7.25])),
                      st.sampled_from([0.0, 0.0, 0.5, 1.25])).map(list)
    case["orders"] = [draw(st.lists(order, min_size=0, max_size=8)) for _ in range(m)]
    case["row_major"] = draw(st.booleans())
    case["group"] = draw(G.groups_st(m)) if draw(st.integers(0, 2)) > 0 else None
    case["cash_sharing"] = bool(case["group"]) and draw(st.booleans())
    k = len(case["group"]) if case["cash_sharing"] else m
    case["init_cash"] = draw(st.one_of(st.sampled_from(["auto", "autoalign"]),
                                       vec(st.sampled_from([100.0, 50.0, 1000.0, 7.5]), k)))
    case["fillna"] = draw(weighted((2, True), (1, False)))
    case["alt"] = draw(G.groups_st(m)) if draw(st.booleans()) else None
    if case["cash_sharing"]:
        case["seq"] = [[int(x) for g in case["group"] for x in draw(st.permutations(range(g)))] for _ in range(n)]
    return case


def check_simulated(case):
    """Accounting of simulated portfolios, including automatic initial cash."""
    kw = {}
    if case["group"]:
        kw["group_by"] = group_index(case["group"])
    auto = case["init_cash"] if isinstance(case["init_cash"], str) else None
    if auto:
        kw["init_cash"] = auto
    kw["fillna_close"] = case["fillna"]
    try:
        pf = run_pf(case if not auto else {**case, "init_cash": 100.0}, seed=3, **kw)
    except Exception:
        return ["error"]
    m = case["m"]
    recs = pf.order_records
    orders = [[dict(idx=int(r["idx"]), side=int(r["side"]), size=float(r["size"]), price=float(r["price"]),
                    fees=float(r["fees"])) for r in recs[recs["col"] == j]] for j in range(m)]
    ref = Ref(case["n"], m, arr(case["close"]), orders, case["fillna"])
    k = len(case["group"]) if case["cash_sharing"] else m
    if auto:
        mode = auto
    else:
        ic = case["init_cash"]
        mode = np.array(ic if isinstance(ic, list) else [ic] * k, dtype=float)
    seq = np.asarray(pf.call_seq).reshape(case["n"], m).tolist()
    regroup_all(pf, case, ref, mode, seq)
    if not auto and (case["cash_sharing"] or not case["group"]):
        need(float(np.min(np.asarray(pf.cash(group_by=None), float))) > -1e-6,
             "cash became negative in a simulated portfolio")
    return (["nt"] if len(recs) >= 2 else []) + (["auto"] if auto else []) + (["shared"] if case["cash_sharing"] else [])


@st.composite
def simulated_st(draw):
    c = draw(G.sim_case(errors=False))
    c["fillna"] = draw(weighted((2, True), (1, False)))
    c["alt"] = draw(G.groups_st(c["m"])) if draw(st.booleans()) else None
    if draw(st.integers(0, 2)) == 0:
        c["init_cash"] = draw(st.sampled_from(["auto", "autoalign"]))
        sz = st.integers(-6, 6)
        c["args"]["size"] = draw(G.arg_st(sz, c["n"], c["m"], ["full"]))
        c["args"]["size_type"] = G.const(0)
        if c["series"]:
            c["args"]["size"] = dict(form="col", v=[r[0] for r in c["args"]["size"]["v"]])
        G.fix_signature(c, "1d" if c["series"] else "2d")
    return c


FACETS = [
    Facet("records", records_st, check_records, quick=700, thorough=30000, shards=5,
          rule="at least two order records"),
    Facet("simulated", simulated_st, check_simulated, quick=200, thorough=8000, shards=2,
          rule="at least two filled orders"),
]
