"""C06: independent columns stay independent, and selecting columns commutes with computing metrics.

Oracle: metamorphic relations on the real code: full simulation vs one simulation per column (per group when cash is
shared), computing-then-selecting vs selecting-then-computing, permuted inputs vs permuted results."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.portfolio import nb as pnb
from vectorbt.portfolio.enums import RejectedOrderError

from vbtcheck import pfgen as G
from vbtcheck.core import Facet
from vbtcheck.util import arr, need, need_same, weighted
from vbtcheck.checks import c02, c03

ASSUMPTIONS = [
    "With automatic initial cash aligned across columns, the alignment is by definition over the columns at hand; "
    "it is not part of the property.",
    "Groups are selected without repetition; columns may repeat.",
]

SERIES = ["assets", "asset_flow", "cash_flow", "cash", "asset_value", "gross_exposure", "net_exposure", "value",
          "returns", "asset_returns", "benchmark_value", "benchmark_returns", "drawdown", "cumulative_returns",
          "position_mask"]
SCALARS = ["get_init_cash", "position_coverage", "total_profit", "final_value", "total_return",
           "total_benchmark_return", "max_drawdown", "annualized_volatility", "sharpe_ratio", "sortino_ratio",
           "beta", "value_at_risk"]
FEW = (["total_profit", "get_init_cash"], ["cash", "value", "returns", "assets"])
ALL = (SCALARS, SERIES)
COLUMN_ONLY = ["assets", "asset_flow"]
RECORDS = ["orders", "logs", "entry_trades", "exit_trades", "positions", "drawdowns"]
REC_SCALARS = {"orders": ["count"], "logs": ["count"], "exit_trades": ["count", "win_rate", "profit_factor"],
               "entry_trades": ["count"], "positions": ["count", "coverage"],
               "drawdowns": ["count", "max_drawdown"]}


def two(x, n):
    return np.asarray(x, dtype=float).reshape(n, -1)


def call(pf, name, **kw):
    x = getattr(pf, name)
    return x(**kw) if callable(x) else x


def metrics(pf, n, names_scalar, names_series, grouped):
    """name -> 2-dim array whose last axis are columns/groups."""
    kw = {} if grouped else dict(group_by=False)
    out = {}
    for k in names_series:
        out[k] = two(call(pf, k, **({} if k in COLUMN_ONLY else kw)), n)
    for k in names_scalar:
        out[k] = np.atleast_1d(np.asarray(call(pf, k, **kw), dtype=float))[None, :]
    return out


def rows(recs, cols):
    """Records of the given columns, as tuples without id, per column in order."""
    vals = recs.values
    out = []
    names = [f for f in vals.dtype.names if f not in ("id", "parent_id", "order_id", "col", "group")]
    for c in cols:
        k = vals[vals["col"] == c]
        out.append([tuple(float(r[f]) for f in names) for r in k])
    return out, names


def cmp_rows(a, b, what):
    (ra, names), (rb, _) = a, b
    for c, (x, y) in enumerate(zip(ra, rb)):
        need(len(x) == len(y), "%s of column #%d: %d records, expected %d" % (what, c, len(x), len(y)))
        for p, q in zip(x, y):
            need_same(np.array(p), np.array(q), "%s of column #%d, fields %s" % (what, c, names))


def cmp_metrics(got, exp, pos, what):
    for k in got:
        e = exp[k][:, pos]
        need_same(got[k], e, "%s: %s" % (what, k), rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- slicing a case

def sub_arg(a, cols):
    f, v = a["form"], a["v"]
    if f == "row":
        return dict(form=f, v=[v[j] for j in cols])
    if f in ("full", "frame"):
        return dict(form=f, v=[[r[j] for j in cols] for r in v])
    return a


def sub_case(case, cols, groups):
    """The case restricted to (or permuted to) the given columns; `groups`: positions of the groups kept."""
    out = dict(case)
    out["m"] = len(cols)
    for k in ("close", "open", "high", "low"):
        if case.get(k) is not None:
            out[k] = [[r[j] for j in cols] for r in case[k]]
    out["args"] = {k: sub_arg(a, cols) for k, a in case["args"].items()}
    out["val_price"] = sub_arg(case["val_price"], cols)
    if case["group"] is not None:
        out["group"] = [case["group"][g] for g in groups] if groups is not None else None
        if groups is None:
            out["cash_sharing"] = False
    if isinstance(case["init_cash"], list):
        ids = groups if case["cash_sharing"] else cols
        out["init_cash"] = [case["init_cash"][g] for g in ids]
    if case["call_seq"] == "array":
        # given per group; a lone column is always first
        if groups is None:
            out["seq"] = [[0] * len(cols) for _ in case["seq"]]
            for i, r in enumerate(case["seq"]):
                out["seq"][i] = [0] * len(cols)
        else:
            out["seq"] = [[r[j] for j in cols] for r in case["seq"]]
    return out


def blocks(case):
    lens = case["group"] or [1] * case["m"]
    out, c = [], 0
    for g in lens:
        out.append(list(range(c, c + g)))
        c += g
    return out


def trim(case):
    """A case that cannot raise and whose records do not depend on randomness."""
    if case["call_seq"] == "random":
        case["call_seq"] = "auto"
    return case


def run(case, kind):
    if kind == "orders":
        return c02.run_pf(case)
    if kind == "signals":
        return c03.run_pf(case, static=True)
    return run_func(case)


# ---------------------------------------------------------------- alone

def check_alone(kind):
    def check(case):
        n, m = case["n"], case["m"]
        try:
            pf = run(case, kind)
        except (RejectedOrderError, ValueError, ZeroDivisionError) as e:
            return ["raise"]
        share = case["cash_sharing"]
        units = blocks(case) if share else [[j] for j in range(m)]
        if len(units) < 2:
            return ["one"]
        full = metrics(pf, n, *FEW, share)
        recs = {k: getattr(pf, k) for k in ("orders", "logs", "exit_trades")}
        multi = 0
        for u, cols in enumerate(units):
            sc = sub_case(case, cols, [u] if share else None)
            alone = run(sc, kind)
            got = metrics(alone, n, *FEW, share)
            for k in got:
                pos = cols if k in COLUMN_ONLY else [u]
                need_same(got[k], full[k][:, pos], "%s of unit %d simulated alone" % (k, u), rtol=1e-9, atol=1e-9)
            for k, r in recs.items():
                cmp_rows(rows(r, cols), rows(getattr(alone, k), range(len(cols))), "%s alone vs together" % k)
            if len(alone.order_records):
                multi += 1
        return (["nt"] if multi >= 2 else []) + (["shared"] if share else ["separate"])
    return check


@st.composite
def orders_case(draw):
    case = trim(draw(G.sim_case(max_n=6, max_m=4, errors=False, nan_close=True)))
    if case.get("series"):
        case["series"] = False
        case["m"] = 1
    return case


@st.composite
def multi_orders(draw):
    case = draw(orders_case().filter(lambda c: c["m"] > 1))
    return case


@st.composite
def signals_case(draw):
    case = draw(c03.sig_case("dir").filter(lambda c: c["m"] > 1))
    if case["args"]["reject_prob"]["form"] == "cell":
        case["args"]["reject_prob"] = c03.cell(0.0)
    if case["args"].get("raise_reject"):
        case["args"]["raise_reject"] = c03.cell(False)
    return trim(case)


# from_order_func: the order depends on everything the context offers for the column or its group

@njit
def ctx_order_nb(c, size, lim):
    s = size[c.i, c.col]
    if np.isnan(s):
        return pnb.order_nothing_nb()
    if c.position_now > lim:
        s = -c.position_now
    if c.return_now < -0.1:
        s = s / 2
    if c.cash_now < 20 and s > 0:
        s = -s
    v = c.val_price_now
    if c.i > 0 and c.close[c.i - 1, c.col] > c.close[c.i, c.col] and c.pos_record_now["id"] >= 0 \
            and c.pos_record_now["pnl"] > 0:
        s = -s
    return pnb.order_nb(size=s, price=c.close[c.i, c.col], fees=0.01, log=True)


def run_func(case):
    index, columns = G.labels_of(case)
    close = pd.DataFrame(arr(case["close"]), index=index, columns=columns)
    kw = dict(G.group_kwargs(case))
    kw.update(init_cash=G.init_cash_arg(case), call_seq=G.seq_arg(case), attach_call_seq=True, freq="1D",
              row_wise=case["row_wise"], fill_pos_record=True)
    if case["call_seq"] == "auto":
        kw["call_seq"] = "default"
    size = np.ascontiguousarray(arr(case["args"]["size"]["v"]))
    return vbt.Portfolio.from_order_func(close, ctx_order_nb, size, float(case["lim"]), **kw)


def func_case(row_wise):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 6))
        m = draw(st.integers(2, 4))
        case = dict(n=n, m=m, close=draw(G.price_path(n, m)), row_wise=row_wise,
                    args=dict(size=dict(form="full", v=draw(G.matrix(
                        st.one_of(st.integers(-6, 8).map(float), st.none()), n, m)))),
                    val_price=G.const("inf"), lim=draw(st.sampled_from([3.0, 8.0])))
        case["group"] = draw(G.groups_st(m)) if draw(st.booleans()) else None
        case["cash_sharing"] = bool(case["group"]) and draw(weighted((3, True), (1, False)))
        k = len(case["group"]) if case["cash_sharing"] else m
        case["init_cash"] = draw(G.vec(st.sampled_from([100.0, 50.0, 1000.0]), k))
        case["call_seq"] = draw(st.sampled_from(["default", "reversed", "array"]))
        if case["call_seq"] == "array":
            lens = case["group"] or [1] * m
            case["seq"] = [[int(x) for g in lens for x in draw(st.permutations(range(g)))] for _ in range(n)]
        return case
    return s


# ---------------------------------------------------------------- selecting

def select(pf, case, labels):
    """Apply the generated selection; returns (sub portfolio, selected positions)."""
    how, pos = case["how"], case["pos"]
    k = len(labels)
    pos = [p % k for p in pos]
    if how in ("mask", "slice", "slice_loc"):
        pos = sorted(set(pos))
    if how in ("slice", "slice_loc"):
        pos = list(range(pos[0], pos[-1] + 1))
    lab = [labels[p] for p in pos]
    if how == "getitem":
        return pf[lab], pos
    if how == "loc":
        return pf.loc[lab], pos
    if how == "iloc":
        return pf.iloc[pos], pos
    if how == "slice":
        return pf.iloc[pos[0]:pos[-1] + 1], pos
    if how == "slice_loc":
        return pf.loc[lab[0]:lab[-1]], pos
    if how == "mask":
        return pf.loc[np.array([p in pos for p in range(k)])], pos
    if how == "one":
        return pf[lab[0]], pos[:1]
    if how == "one_iloc":
        return pf.iloc[pos[0]], pos[:1]
    raise AssertionError(how)


def check_select(case):
    n, m = case["n"], case["m"]
    over = {}
    if case["auto_cash"]:
        over["init_cash"] = "auto"
    try:
        pf = c02.run_pf(case, **over)
    except (RejectedOrderError, ValueError):
        return ["raise"]
    if case["fillna"] is False:
        pf = pf.replace(fillna_close=False)
    grouped = case["group"] is not None
    bl = blocks(case)
    labels = list(range(len(bl))) if grouped else list("abcdefgh"[:m])
    if grouped and case["how"] in ("slice_loc",):
        case = dict(case, how="loc")
    warm = metrics(pf, n, SCALARS, SERIES, grouped) if case["warm"] else None
    if grouped and len(set(p % len(labels) for p in case["pos"])) < len(case["pos"]):
        case = dict(case, pos=sorted(set(p % len(labels) for p in case["pos"])))
    if case["how"].startswith("one") and m == 1:
        return ["one"]
    if grouped and len(labels) == 1:
        if pf.wrapper.grouped_ndim == 1:
            return ["one_group"]
    sub, pos = select(pf, case, labels)
    if warm is None:
        warm = metrics(pf, n, SCALARS, SERIES, grouped)
    cols = [j for p in pos for j in bl[p]] if grouped else pos
    got = metrics(sub, n, SCALARS, SERIES, grouped)
    for k in got:
        need_same(got[k], warm[k][:, cols if k in COLUMN_ONLY else pos], "%s after selecting %s" % (k, pos),
                  rtol=1e-9, atol=1e-9)
    need_same(two(sub.close, n), two(pf.close, n)[:, cols], "close after selection")
    need(list(sub.wrapper.columns) == [pf.wrapper.columns[c] for c in cols], "columns %s after selecting %s"
         % (list(sub.wrapper.columns), pos))
    if grouped:
        need(list(sub.wrapper.grouper.get_columns()) == [labels[p] for p in pos],
             "groups %s after selecting %s" % (list(sub.wrapper.grouper.get_columns()), pos))
        if pf.cash_sharing is False or True:
            ug = metrics(pf, n, ["total_profit"], ["value", "cash_flow"], False)
            us = metrics(sub, n, ["total_profit"], ["value", "cash_flow"], False)
            for k in us:
                need_same(us[k], ug[k][:, cols], "ungrouped %s after selecting groups %s" % (k, pos))
    if pf.call_seq is not None:
        need_same(two(sub.call_seq, n), two(pf.call_seq, n)[:, cols], "call sequence after selection")
    # indexing semantics of records: same thing done on the collection itself
    for k in RECORDS:
        a, b = getattr(pf, k), getattr(sub, k)
        own = pos if k == "drawdowns" else cols
        cmp_rows(rows(b, range(len(own))), rows(a, own), "%s after selection" % k)
        sel_r, _ = select(a, case, labels)
        cmp_rows(rows(b, range(len(own))), rows(sel_r, range(len(own))), "%s: selected collection" % k)
        ids = b.values["id"]
        need(len(set(ids.tolist())) == len(ids) or len(set(own)) < len(own), "%s: repeated ids after selection" % k)
        for name in REC_SCALARS[k]:
            ga = np.atleast_1d(np.asarray(call(a, name), dtype=float))
            gb = np.atleast_1d(np.asarray(call(b, name), dtype=float))
            gc = np.atleast_1d(np.asarray(call(sel_r, name), dtype=float))
            need_same(gb, ga[pos], "%s.%s after selection" % (k, name))
            need_same(gc, ga[pos], "%s.%s of the selected collection" % (k, name))
    # a second selection out of the first
    if len(pos) > 1 and case["again"]:
        p2 = [x % len(pos) for x in case["again"]]
        p2 = sorted(set(p2), key=p2.index)
        if len(set(pos)) == len(pos):
            s2 = sub.iloc[p2]
            g2 = metrics(s2, n, ["total_profit", "total_return"], ["value", "cash"], grouped)
            for k in g2:
                need_same(g2[k], warm[k][:, [pos[x] for x in p2]], "%s after selecting twice" % k)
    labels_ = ["grouped" if grouped else "columns", case["how"]]
    if len(pf.order_records) > 1 and len(pos) < len(labels):
        labels_.append("nt")
    return labels_


@st.composite
def select_st(draw):
    case = draw(orders_case())
    case["how"] = draw(st.sampled_from(["getitem", "loc", "iloc", "slice", "slice_loc", "mask", "one", "one_iloc"]))
    k = len(case["group"] or [1] * case["m"])
    case["pos"] = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=4))
    case["warm"] = draw(st.booleans())
    case["auto_cash"] = draw(weighted((4, False), (1, True)))
    case["fillna"] = draw(st.booleans())
    case["again"] = draw(st.lists(st.integers(0, 3), max_size=2))
    return case


# ---------------------------------------------------------------- permuting

def check_permute(kind):
    def check(case):
        n, m = case["n"], case["m"]
        try:
            pf = run(case, kind)
        except (RejectedOrderError, ValueError, ZeroDivisionError):
            return ["raise"]
        bl = blocks(case)
        perm = case["perm"]
        order = sorted(range(len(bl)), key=lambda g: (perm[g % len(perm)], g))
        cols = [j for g in order for j in bl[g]]
        grouped = case["group"] is not None
        if grouped and not case["cash_sharing"]:
            # no interaction at all: columns inside the groups may move, too
            new_cols = []
            for g in order:
                new_cols += bl[g][::-1]
            cols = new_cols
        pc = sub_case(case, cols, order if grouped else None)
        if case["call_seq"] == "array" and grouped and not case["cash_sharing"]:
            pc["seq"] = case["seq"]
            pc["call_seq"] = "default"
        other = run(pc, kind)
        which = ALL if kind == "orders" else FEW
        a = metrics(pf, n, *which, grouped)
        b = metrics(other, n, *which, grouped)
        for k in b:
            need_same(b[k], a[k][:, cols if k in COLUMN_ONLY else order], "%s of permuted columns %s" % (k, cols),
                      rtol=1e-9, atol=1e-9)
        for k in RECORDS if kind == "orders" else ["orders", "logs", "exit_trades"]:
            o = order if k == "drawdowns" else cols
            cmp_rows(rows(getattr(other, k), range(len(o))), rows(getattr(pf, k), o), "%s of permuted columns" % k)
        return ["nt"] if cols != list(range(m)) and len(pf.order_records) > 1 else []
    return check


def permuted(base):
    @st.composite
    def s(draw):
        case = draw(base())
        case["perm"] = draw(st.permutations(range(case["m"])))
        return case
    return s


FACETS = [
    Facet("alone-orders", multi_orders, check_alone("orders"), quick=70, thorough=2500, shards=1,
          rule="at least two columns/groups trade"),
    Facet("alone-signals", signals_case, check_alone("signals"), quick=60, thorough=2000, shards=1,
          rule="at least two columns/groups trade"),
    Facet("alone-func", func_case(False), check_alone("func"), quick=40, thorough=1000, shards=1,
          rule="at least two columns/groups trade"),
    Facet("alone-func-rows", func_case(True), check_alone("func"), quick=40, thorough=1000, shards=1,
          rule="at least two columns/groups trade"),
    Facet("select", select_st, check_select, quick=70, thorough=2500, shards=2,
          rule="something traded and a proper subset of the columns/groups was selected"),
    Facet("permute-orders", permuted(multi_orders), check_permute("orders"), quick=50, thorough=1500, shards=1,
          rule="a real permutation of a portfolio with trades"),
    Facet("permute-signals", permuted(signals_case), check_permute("signals"), quick=40, thorough=1000, shards=1,
          rule="a real permutation of a portfolio with trades"),
]
