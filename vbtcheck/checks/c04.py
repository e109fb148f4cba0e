"""C04: every simulation route gives the same portfolio; callbacks see consistent contexts in the documented order."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.portfolio import nb as pnb
from vectorbt.portfolio.enums import RejectedOrderError

from vbtcheck import pfgen as G
from vbtcheck import refmodel as R
from vbtcheck.core import Facet
from vbtcheck.util import NAN, arr, fl, need, need_same, weighted
from vbtcheck.checks.c01 import cmp_records
from vbtcheck.checks.c02 import by_id

ASSUMPTIONS = ["Programs in which the reference meets a floating-point decision boundary are not judged."]

FIELDS = ["size", "price", "size_type", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size",
          "size_granularity", "reject_prob", "lock_cash", "allow_partial", "raise_reject", "log"]
MAXC = 3
W = 75


# ------------------------------------------------------------- callbacks (compiled)

@njit
def _last(e, c):
    m = len(c.last_position)
    g = len(c.last_cash)
    for k in range(g):
        e[41 + k] = c.last_cash[k]
        e[44 + k] = c.last_free_cash[k]
        e[47 + k] = c.last_value[k]
        e[50 + k] = c.second_last_value[k]
        e[53 + k] = c.last_return[k]
    for k in range(m):
        e[56 + k] = c.last_position[k]
        e[59 + k] = c.last_debt[k]
        e[62 + k] = c.last_val_price[k]
        e[65 + k] = c.last_oidx[k]
        e[68 + k] = c.last_lidx[k]


@njit
def _pos(e, r):
    e[27] = r["id"]
    if r["id"] >= 0:
        e[28] = r["col"]
        e[29] = r["size"]
        e[30] = r["entry_idx"]
        e[31] = r["entry_price"]
        e[32] = r["entry_fees"]
        e[33] = r["exit_idx"]
        e[34] = r["exit_price"]
        e[35] = r["exit_fees"]
        e[36] = r["pnl"]
        e[37] = r["return"]
        e[38] = r["direction"]
        e[39] = r["status"]
        e[40] = r["parent_id"]


@njit
def _rec(e, c, col):
    k = c.last_oidx[col]
    if k >= 0:
        e[71] = c.order_records["idx"][k]
        e[72] = c.order_records["col"][k]
        e[73] = c.order_records["size"][k]
        e[74] = c.order_records["id"][k]


@njit
def pre_sim_nb(c, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 0
    _last(e, c)
    cnt[0] += 1
    return (100.0,)


@njit
def post_sim_nb(c, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 7
    _last(e, c)
    cnt[0] += 1
    return None


@njit
def pre_group_nb(c, x, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 1
    e[2] = c.group
    e[3] = c.from_col
    e[4] = c.to_col
    e[7] = x
    _last(e, c)
    cnt[0] += 1
    return (x + c.group + 1,)


@njit
def post_group_nb(c, x, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 6
    e[2] = c.group
    e[3] = c.from_col
    e[4] = c.to_col
    e[7] = x
    _last(e, c)
    cnt[0] += 1
    return None


@njit
def pre_row_nb(c, x, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 1
    e[1] = c.i
    e[7] = x
    _last(e, c)
    cnt[0] += 1
    return (x + c.i + 1,)


@njit
def post_row_nb(c, x, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 6
    e[1] = c.i
    e[7] = x
    _last(e, c)
    cnt[0] += 1
    return None


@njit
def _seg(e, c, x, code):
    e[0] = code
    e[1] = c.i
    e[2] = c.group
    e[3] = c.from_col
    e[4] = c.to_col
    e[7] = x
    _last(e, c)
    _pos(e, c.last_pos_record[c.from_col])


@njit
def pre_segment_nb(c, x, ev, cnt, A, vp, mode):
    _seg(ev[cnt[0]], c, x, 2)
    cnt[0] += 1
    for col in range(c.from_col, c.to_col):
        if not np.isnan(vp[c.i, col]):
            c.last_val_price[col] = vp[c.i, col]
    gl = c.to_col - c.from_col
    q = mode[c.i, c.group]
    if q == 1:
        for k in range(gl // 2):
            a = c.call_seq_now[k]
            c.call_seq_now[k] = c.call_seq_now[gl - 1 - k]
            c.call_seq_now[gl - 1 - k] = a
    elif q == 2:
        out = np.empty(gl, dtype=np.float64)
        pnb.sort_call_seq_nb(c, A[0], A[2].astype(np.int64), A[3].astype(np.int64), out)
    return (x * 10 + c.i, np.empty(0, dtype=np.int64))


@njit
def flex_pre_segment_nb(c, x, ev, cnt, A, vp, mode, seq):
    _seg(ev[cnt[0]], c, x, 2)
    cnt[0] += 1
    for col in range(c.from_col, c.to_col):
        if not np.isnan(vp[c.i, col]):
            c.last_val_price[col] = vp[c.i, col]
    gl = c.to_col - c.from_col
    out_seq = np.empty(gl, dtype=np.int64)
    q = mode[c.i, c.group]
    for k in range(gl):
        out_seq[k] = k if q == 2 else (seq[c.i, c.to_col - 1 - k] if q == 1 else seq[c.i, c.from_col + k])
    if q == 2:
        out = np.empty(gl, dtype=np.float64)
        pnb.sort_call_seq_out_nb(c, A[0], A[2].astype(np.int64), A[3].astype(np.int64), out, out_seq)
    return (x * 10 + c.i, out_seq)


@njit
def post_segment_nb(c, x, ev, cnt):
    _seg(ev[cnt[0]], c, x, 5)
    cnt[0] += 1
    return None


@njit
def make_order_nb(A, r, col, dyn, pos, cash, has_pos, pnl, k):
    size = A[0, r, col]
    st_ = int(A[2, r, col])
    d = int(A[3, r, col])
    if dyn == 1 and pos != 0:
        size = -0.5 * pos
        st_ = 0
        d = 2
    if dyn == 2 and cash < 60.0:
        return pnb.order_nothing_nb()
    if dyn == 3 and has_pos and pnl < 0:
        return pnb.close_position_nb(price=A[1, r, col], fees=A[4, r, col], fixed_fees=A[5, r, col],
                                     slippage=A[6, r, col], log=True)
    return pnb.order_nb(size=size, price=A[1, r, col], size_type=st_, direction=d, fees=A[4, r, col],
                        fixed_fees=A[5, r, col], slippage=A[6, r, col], min_size=A[7, r, col], max_size=A[8, r, col],
                        size_granularity=A[9, r, col], reject_prob=A[10, r, col], lock_cash=A[11, r, col] != 0,
                        allow_partial=A[12, r, col] != 0, raise_reject=A[13, r, col] != 0, log=A[14, r, col] != 0)


@njit
def order_nb_(c, x, seq, ev, cnt, A, dyn):
    e = ev[cnt[0]]
    e[0] = 3
    e[1] = c.i
    e[2] = c.group
    e[3] = c.from_col
    e[4] = c.to_col
    e[5] = c.col
    e[6] = c.call_idx
    e[7] = x
    e[8] = c.cash_now
    e[9] = c.position_now
    e[10] = c.debt_now
    e[11] = c.free_cash_now
    e[12] = c.val_price_now
    e[13] = c.value_now
    e[14] = c.return_now
    _last(e, c)
    _pos(e, c.pos_record_now)
    _rec(e, c, c.col)
    cnt[0] += 1
    rec = c.pos_record_now
    return make_order_nb(A, c.i, c.col, dyn, c.position_now, c.cash_now, rec["id"] >= 0 and rec["status"] == 0,
                         rec["pnl"], c.call_idx)


@njit
def flex_order_nb(c, x, seq, ev, cnt, A, dyn, calls):
    e = ev[cnt[0]]
    e[0] = 3
    e[1] = c.i
    e[2] = c.group
    e[3] = c.from_col
    e[4] = c.to_col
    e[6] = c.call_idx
    e[7] = x
    _last(e, c)
    cnt[0] += 1
    r = c.i
    if calls.shape[0] > 0:
        if c.call_idx >= calls.shape[2]:
            return -1, pnb.order_nothing_nb()
        k = calls[c.i, c.group, c.call_idx]
        if k == -1:
            return -1, pnb.order_nothing_nb()
        col = c.from_col + k
        r = (c.i + c.call_idx) % c.target_shape[0]
    else:
        if c.call_idx >= c.group_len:
            return -1, pnb.order_nothing_nb()
        col = c.from_col + seq[c.call_idx]
    if col >= c.target_shape[1]:
        return col, pnb.order_nothing_nb()
    g = c.group if c.cash_sharing else col
    rec = c.last_pos_record[col]
    return col, make_order_nb(A, r, col, dyn, c.last_position[col], c.last_cash[g],
                              rec["id"] >= 0 and rec["status"] == 0, rec["pnl"], c.call_idx)


@njit
def post_order_nb(c, x, seq, ev, cnt):
    e = ev[cnt[0]]
    e[0] = 4
    e[1] = c.i
    e[2] = c.group
    e[3] = c.from_col
    e[4] = c.to_col
    e[5] = c.col
    e[6] = c.call_idx
    e[7] = x
    e[8] = c.cash_now
    e[9] = c.position_now
    e[10] = c.debt_now
    e[11] = c.free_cash_now
    e[12] = c.val_price_now
    e[13] = c.value_now
    e[14] = c.return_now
    e[15] = c.cash_before
    e[16] = c.position_before
    e[17] = c.debt_before
    e[18] = c.free_cash_before
    e[19] = c.val_price_before
    e[20] = c.value_before
    r = c.order_result
    e[21] = r.size
    e[22] = r.price
    e[23] = r.fees
    e[24] = r.side
    e[25] = r.status
    e[26] = r.status_info
    _last(e, c)
    _pos(e, c.pos_record_now)
    _rec(e, c, c.col)
    cnt[0] += 1
    return None


# ------------------------------------------------------------- reference

SKIP = object()


def ret(a, b):
    """Return from value a to value b."""
    if R.isnan(a) or R.isnan(b):
        return NAN
    if abs(a) < 1e-6:
        return SKIP
    x = (b - a) / a
    return -x if a < 0 else x


class Pos:
    """Open position of one column, rebuilt from its fills."""

    def __init__(self):
        self.id = -1
        self.status = 1
        self.ent = []
        self.ex = []
        self.exit_idx = -1
        self.mark = NAN
        self.ret_ok = True

    def fill(self, i, col, before, now, res):
        buy = res["side"] == 0
        f = (res["size"], res["price"], res["fees"])
        if before == 0 or now * before < 0:
            if before != 0:
                f = (abs(now), res["price"], res["fees"] * abs(now) / abs(now - before))
            self.id += 1
            self.col, self.entry_idx, self.dir = col, i, 0 if buy else 1
            self.ent, self.ex, self.exit_idx, self.status = [f], [], -1, 0
        elif (now > 0) == buy and now != 0:
            self.ent.append(f)
        else:
            self.ex.append(f if now != 0 else (abs(before), f[1], f[2]))
            if now == 0:
                self.exit_idx, self.status = i, 1

    def fields(self, mark):
        """Fields 27..40 of an event."""
        if self.id < 0:
            return {27: -1}
        s = sum(x[0] for x in self.ent)
        ev = sum(x[0] * x[1] for x in self.ent)
        ef = sum(x[2] for x in self.ent)
        xs = sum(x[0] for x in self.ex)
        xv = sum(x[0] * x[1] for x in self.ex)
        xf = sum(x[2] for x in self.ex)
        tot = xv + (0 if self.status == 1 else (s - xs) * mark)
        pnl = (tot - ev) * (1 if self.dir == 0 else -1) - ef - xf
        return {27: self.id, 28: self.col, 29: s, 30: self.entry_idx, 31: ev / s, 32: ef, 33: self.exit_idx,
                34: xv / xs if self.ex else NAN, 35: xf, 36: pnl, 37: pnl / ev, 38: self.dir, 39: self.status,
                40: self.id}


def reference(case, A, seq):
    n, m = case["n"], case["m"]
    close = [[fl(x) for x in r] for r in case["close"]]
    groups = case["group"] or [1] * m
    sharing = case["cash_sharing"]
    starts = [sum(groups[:g]) for g in range(len(groups))]
    colg = [g for g, k in enumerate(groups) for _ in range(k)]
    ic = case["init_cash"]
    cash = [float(x) for x in ic]
    free = list(cash)
    val = list(cash)
    hist = [[x, x] for x in cash]  # value at the end of previous rows
    second = list(cash)
    rets = [NAN] * len(cash)
    pos, debt, vps = [0.0] * m, [0.0] * m, [NAN] * m
    oidx, lidx = [-1] * m, [-1] * m
    P = [Pos() for _ in range(m)]
    marks = [NAN] * m
    led = R.Ledger(case["update_value"])
    events = []
    fillpos = case["fill_pos"]
    ff = case["ffill_val_price"]
    cur_seq = [list(r) for r in seq]

    def acc(c):
        return colg[c] if sharing else c

    def last():
        d = {}
        for k in range(len(cash)):
            d[41 + k], d[44 + k], d[47 + k], d[50 + k], d[53 + k] = cash[k], free[k], val[k], second[k], rets[k]
        for k in range(m):
            d[56 + k], d[59 + k], d[62 + k], d[65 + k], d[68 + k] = pos[k], debt[k], vps[k], oidx[k], lidx[k]
        return d

    def posf(c):
        return P[c].fields(marks[c])

    def recf(c):
        if oidx[c] < 0:
            return {}
        o = led.orders[oidx[c]]
        return {71: o["idx"], 72: o["col"], 73: o["size"], 74: o["id"]}

    def emit(code, **kw):
        e = last()
        e[0] = code
        for k, v in kw.pop("f", {}).items():
            e[k] = v
        e.update(kw.pop("extra", {}))
        events.append(e)

    def update_value(g):
        cols = range(starts[g], starts[g] + groups[g])
        if sharing:
            val[g] = cash[g] + sum(pos[c] * vps[c] for c in cols if pos[c] != 0)
            rets[g] = ret(second[g], val[g])
        else:
            for c in cols:
                val[c] = cash[c] + (pos[c] * vps[c] if pos[c] != 0 else 0.0)
                rets[c] = ret(second[c], val[c])
        if fillpos:
            for c in cols:
                if P[c].status == 0:
                    marks[c] = vps[c]

    def get(name, r, c):
        v = A[FIELDS.index(name), r, c]
        return int(v) if name in ("size_type", "direction") else bool(v != 0) if name in (
            "lock_cash", "allow_partial", "raise_reject", "log") else float(v)

    def program(r, c, cash_now):
        o = {k: get(k, r, c) for k in FIELDS}
        dyn = case["dyn"]
        if dyn == 1 and pos[c] != 0:
            o.update(size=-0.5 * pos[c], size_type=0, direction=2)
        if dyn == 2:
            R.guard(cash_now, 60.0)
            if cash_now < 60.0:
                return dict(R.ORDER_DEFAULTS, size=NAN, price=NAN, log=False, none=True)
        if dyn == 3 and P[c].id >= 0 and P[c].status == 0:
            pnl = P[c].fields(marks[c])[36]
            if abs(pnl) < 1e-6 or R.isnan(pnl) and False:
                raise R.Ambiguous()
            if pnl < 0:
                return dict(R.ORDER_DEFAULTS, size=0.0, size_type=3, direction=2, log=True,
                            **{k: o[k] for k in ("price", "fees", "fixed_fees", "slippage")})
        return o

    def segment(i, g, x):
        f, t = starts[g], starts[g] + groups[g]
        active = case["mask"][i][g]
        base = {1: i, 2: g, 3: f, 4: t, 7: x}
        sq = list(cur_seq[i][f:t])
        y = x * 10 + i
        if active or case["call_pre"]:
            emit(2, f={**base, **posf(f)})
            for c in range(f, t):
                v = case["vp"][i][c]
                if v is not None:
                    vps[c] = fl(v)
            q = case["seq_mode"][i][g]
            if q == 1:
                sq = sq[::-1]
            elif q == 2:
                if not sharing or (not case["flexible"] and sq != list(range(t - f))):
                    raise R.ModelError()
                gv = cash[g] + sum(pos[c] * vps[c] for c in range(f, t) if pos[c] != 0)
                sq = R.auto_seq([R.approx_value(get("size", i, c), get("size_type", i, c), get("direction", i, c),
                                                cash[g], pos[c], free[g], vps[c], gv) for c in range(f, t)])
            cur_seq[i][f:t] = sq
        update_value(g)
        if active:
            k = -1
            while True:
                k += 1
                if case["flexible"]:
                    emit(3, f={**base, 6: k, 7: y})
                    r = i
                    if case["calls"] is not None:
                        w = case["calls"][i][g]
                        if k >= len(w) or w[k] == -1:
                            break
                        c = f + w[k]
                        r = (i + k) % n
                        if c >= t:
                            raise R.ModelError()
                    else:
                        if k >= t - f:
                            break
                        c = f + sq[k]
                else:
                    if k >= t - f:
                        break
                    c = f + sq[k]
                    r = i
                a = acc(c)
                if not case["flexible"]:
                    emit(3, f={**base, 5: c, 6: k, 7: y, 8: cash[a], 9: pos[c], 10: debt[c], 11: free[a], 12: vps[c],
                               13: val[a], 14: rets[a], **posf(c), **recf(c)})
                o = program(r, c, cash[a])
                if np.isinf(o["price"]):
                    o["price"] = close[i][c] if o["price"] > 0 else (close[i - 1][c] if i > 0 else NAN)
                bef = (cash[a], pos[c], debt[c], free[a], vps[c], val[a])
                no, nl = len(led.orders), len(led.logs)
                if o.pop("none", False):
                    res = dict(size=NAN, price=NAN, fees=NAN, side=-1, status=1, status_info=0)
                    nst, nvp, nval = bef[:4], vps[c], val[a]
                else:
                    res, nst, nvp, nval = led.process(i, c, g, *bef, o)
                cash[a], pos[c], debt[c], free[a] = nst
                val[a] = nval
                rets[a] = ret(second[a], nval)
                if not R.isnan(nvp) or not ff:
                    vps[c] = nvp
                if len(led.orders) > no:
                    oidx[c] = no
                if len(led.logs) > nl:
                    lidx[c] = nl
                if fillpos and res["status"] == 0:
                    P[c].fill(i, c, bef[1], pos[c], res)
                    marks[c] = res["price"]
                emit(4, f={**base, 5: c, 6: k, 7: y, 8: nst[0], 9: nst[1], 10: nst[2], 11: nst[3], 12: nvp, 13: nval,
                           14: rets[a], 15: bef[0], 16: bef[1], 17: bef[2], 18: bef[3], 19: bef[4], 20: bef[5],
                           21: res["size"], 22: res["price"], 23: res["fees"], 24: res["side"], 25: res["status"],
                           26: res["status_info"], **posf(c), **recf(c)})
        for c in range(f, t):
            if not R.isnan(close[i][c]) or not ff:
                vps[c] = close[i][c]
        for a in ([g] if sharing else range(f, t)):
            second[a] = hist[a][-1]
        update_value(g)
        for a in ([g] if sharing else range(f, t)):
            hist[a].append(val[a])
        if active or case["call_post"]:
            emit(5, f={**base, **posf(f)})

    emit(0)
    if case["row_wise"]:
        for i in range(n):
            emit(1, f={1: i, 7: 100.0})
            for g in range(len(groups)):
                segment(i, g, 100.0 + i + 1)
            emit(6, f={1: i, 7: 100.0})
    else:
        for g in range(len(groups)):
            b = {2: g, 3: starts[g], 4: starts[g] + groups[g], 7: 100.0}
            emit(1, f=b)
            for i in range(n):
                segment(i, g, 100.0 + g + 1)
            emit(6, f=b)
    emit(7)
    led.hist = hist
    led.events = events
    led.pos = pos
    led.seq = cur_seq
    return led


# ------------------------------------------------------------- generator

@st.composite
def case_st(draw, row_wise, flexible):
    n = draw(st.sampled_from([4, 3, 5, 6, 2, 1]))
    m = draw(st.sampled_from([2, 3, 1]))
    case = dict(n=n, m=m, row_wise=row_wise, flexible=flexible,
                close=draw(G.price_path(n, m, nan=draw(st.integers(0, 5)) == 5, lo=2, hi=20)))
    case["group"] = draw(G.groups_st(m)) if draw(st.integers(0, 3)) else None
    case["cash_sharing"] = bool(case["group"]) and draw(weighted((3, True), (1, False)))
    ng = len(case["group"]) if case["group"] else m
    na = ng if case["cash_sharing"] else m
    case["init_cash"] = draw(st.lists(st.sampled_from([100.0, 1000.0, 40.0]), min_size=na, max_size=na))
    args = draw(G.order_args(n, m, ["full"], errors=draw(st.integers(0, 5)) == 5))
    case["args"] = args
    case["dyn"] = draw(weighted((4, 0), (1, 1), (1, 2), (1, 3)))
    mk = draw(st.sampled_from(["all", "some", "some", "few"]))
    case["mask"] = [[mk == "all" or draw(st.integers(0, 3)) < (3 if mk == "some" else 1) for _ in range(ng)]
                    for _ in range(n)]
    case["call_pre"] = draw(weighted((3, False), (1, True)))
    case["call_post"] = draw(weighted((3, False), (1, True)))
    vk = draw(st.sampled_from(["none", "full", "some"]))
    ve = st.integers(2, 25).map(float)
    case["vp"] = [[None if vk == "none" or vk == "some" and draw(st.booleans()) else draw(ve) for _ in range(m)]
                  for _ in range(n)]
    ss = draw(st.sampled_from(["default", "reversed", "array"]))
    case["seq"] = ss
    if ss == "array":
        case["seq_arr"] = [[int(x) for g in (case["group"] or [1] * m) for x in draw(st.permutations(range(g)))]
                           for _ in range(n)]
    modes = draw(st.sampled_from([[0], [0, 1], [2]] if case["cash_sharing"] and ss == "default" else [[0], [0, 1]]))
    case["seq_mode"] = draw(G.matrix(st.sampled_from(modes), n, ng))
    case["calls"] = None
    if flexible and draw(st.booleans()):
        bad = draw(st.integers(0, 19)) == 19
        case["calls"] = [[[draw(st.integers(-1 if k else 0, (case["group"] or [1] * m)[g] - (0 if bad else 1)))
                           for k in range(3)] for g in range(ng)] for _ in range(n)]
    case["ffill_val_price"] = draw(weighted((3, True), (1, False)))
    case["update_value"] = draw(st.booleans())
    case["fill_pos"] = True if case["dyn"] == 3 else draw(weighted((5, True), (1, False)))
    return case


def arrays(case):
    n, m = case["n"], case["m"]
    A = np.zeros((len(FIELDS), n, m))
    for k, f in enumerate(FIELDS):
        a = case["args"].get(f, G.const(R.ORDER_DEFAULTS[f]))
        for i in range(n):
            for j in range(m):
                A[k, i, j] = float(G.at(a, i, j, G.CONV.get(f, fl)))
    return A


def seq_of(case):
    if case["seq"] == "array":
        return [list(r) for r in case["seq_arr"]]
    out = []
    for _ in range(case["n"]):
        row = []
        for g in case["group"] or [1] * case["m"]:
            r = list(range(g))
            row += r[::-1] if case["seq"] == "reversed" else r
        out.append(row)
    return out


def simulate(case, A, **over):
    n, m = case["n"], case["m"]
    ng = len(case["group"]) if case["group"] else m
    ev = np.full((n * m * 20 + n * 60 + 60, W), np.nan)
    cnt = np.zeros(1, dtype=np.int64)
    seq = np.array(seq_of(case), dtype=np.int64).reshape(n, m)
    kw = dict(G.group_kwargs(case))
    mode = np.array(case["seq_mode"], dtype=np.int64).reshape(n, ng)
    vp = arr(case["vp"])
    rec = (ev, cnt)
    kw.update(pre_sim_func_nb=pre_sim_nb, pre_sim_args=rec, post_sim_func_nb=post_sim_nb, post_sim_args=rec,
              post_segment_func_nb=post_segment_nb, post_segment_args=rec, post_order_func_nb=post_order_nb,
              post_order_args=rec)
    if case["row_wise"]:
        kw.update(pre_row_func_nb=pre_row_nb, pre_row_args=rec, post_row_func_nb=post_row_nb, post_row_args=rec)
    else:
        kw.update(pre_group_func_nb=pre_group_nb, pre_group_args=rec, post_group_func_nb=post_group_nb,
                  post_group_args=rec)
    if case["flexible"]:
        calls = np.array(case["calls"] if case["calls"] is not None else np.empty((0, 0, 0)), dtype=np.int64)
        kw.update(pre_segment_func_nb=flex_pre_segment_nb, pre_segment_args=rec + (A, vp, mode, seq))
        func, fargs = flex_order_nb, rec + (A, case["dyn"], calls)
        kw["max_orders"] = kw["max_logs"] = n * m * 4 + 4
    else:
        kw.update(pre_segment_func_nb=pre_segment_nb, pre_segment_args=rec + (A, vp, mode), call_seq=seq.copy(),
                  attach_call_seq=True)
        func, fargs = order_nb_, rec + (A, case["dyn"])
    kw.update(init_cash=[float(x) for x in case["init_cash"]],
              segment_mask=np.array(case["mask"], dtype=bool).reshape(n, ng), call_pre_segment=case["call_pre"],
              call_post_segment=case["call_post"], ffill_val_price=case["ffill_val_price"],
              update_value=case["update_value"], fill_pos_record=case["fill_pos"], row_wise=case["row_wise"],
              flexible=case["flexible"], freq="1D")
    kw.update(over)
    pf = vbt.Portfolio.from_order_func(G.close_obj(case), func, *fargs, **kw)
    return pf, ev[:cnt[0]]


NAMES = {0: "code", 1: "row", 2: "group", 3: "from_col", 4: "to_col", 5: "col", 6: "call_idx", 7: "passed value",
         8: "cash_now", 9: "position_now", 10: "debt_now", 11: "free_cash_now", 12: "val_price_now", 13: "value_now",
         14: "return_now", 27: "position id", 29: "position size", 31: "position entry price", 36: "position pnl",
         37: "position return"}


def check(case, **over):
    A = arrays(case)
    exc = pf = None
    msg = ""
    try:
        pf, ev = simulate(case, A, **over)
    except RejectedOrderError:
        exc = "rejected"
    except ValueError as e:
        exc, msg = "value", str(e)
    try:
        led = reference(case, A, seq_of(case))
        rexc = None
    except R.Ambiguous:
        return ["boundary"]
    except R.RejectedError:
        rexc = "rejected"
    except R.ModelError:
        rexc = "value"
    need(exc == rexc, "raised %r (%s), expected %r" % (exc, msg, rexc))
    if exc is not None:
        return ["raise_" + exc]
    codes = [int(x) for x in ev[:, 0]]
    want = [e[0] for e in led.events]
    need(codes == want, "sequence of callbacks %s, expected %s" % (codes, want))
    E = np.full((len(led.events), W), np.nan)
    skip = np.zeros((len(led.events), W), dtype=bool)
    for k, e in enumerate(led.events):
        for j, v in e.items():
            if v is SKIP:
                skip[k, j] = True
            else:
                E[k, j] = v
    got = np.where(skip, np.nan, ev)
    bad = ~np.isclose(got, E, rtol=1e-6, atol=1e-6, equal_nan=True)
    if bad.any():
        k, j = np.argwhere(bad)[0]
        need(False, "callback %d (code %d, row %s, group %s, col %s): %s = %r, expected %r" % (
            k, want[k], ev[k, 1], ev[k, 2], ev[k, 5], NAMES.get(int(j), "field %d" % j), float(got[k, j]),
            float(E[k, j])))
    cmp_records(by_id(pf.order_records), led.orders, "order")
    cmp_records(by_id(pf.log_records), led.logs, "log")
    # value reported by the portfolio equals the one the callbacks saw at the end of each row
    clean = not any(x is None for r in case["close"] for x in r)
    if clean:
        v = np.asarray(pf.value(group_by=None if case["cash_sharing"] else False), dtype=float).reshape(case["n"], -1)
        need_same(v, np.array([h[2:] for h in led.hist]).T, "portfolio value", rtol=1e-6, atol=1e-6)
    if not case["flexible"]:
        need(pf.call_seq.values.reshape(case["n"], case["m"]).tolist() == led.seq, "recorded call sequence")
    labels = ["orders%d" % min(6, len(led.orders))]
    if len(led.orders) >= 2:
        labels.append("nt")
    if not all(x for r in case["mask"] for x in r):
        labels.append("masked")
    # the same orders as arrays
    if case["dyn"] == 0 and all(x for r in case["mask"] for x in r) and clean and case["calls"] is None and (
            all(x is not None for r in case["vp"] for x in r) or all(x is None for r in case["vp"] for x in r)):
        ms = {x for r in case["seq_mode"] for x in r}
        auto = ms == {2}
        if auto or ms == {0}:
            kw = dict(G.group_kwargs(case))
            for k, f in enumerate(FIELDS):
                x = A[k]
                kw[f] = x.astype(np.int64) if f in ("size_type", "direction") else x != 0 if f in (
                    "lock_cash", "allow_partial", "raise_reject", "log") else x
            vp = np.full((1, 1), -np.inf) if case["vp"][0][0] is None else arr(case["vp"])
            pf2 = vbt.Portfolio.from_orders(
                G.close_obj(case), init_cash=[float(x) for x in case["init_cash"]], val_price=vp,
                call_seq="auto" if auto else np.array(seq_of(case), dtype=np.int64),
                ffill_val_price=case["ffill_val_price"], update_value=case["update_value"], freq="1D", **kw)
            a, b = by_id(pf.order_records), by_id(pf2.order_records)
            resort = case["row_wise"] or not case["cash_sharing"]
            if resort:
                a = a[np.lexsort((a["id"], a["col"]))]
                b = b[np.lexsort((b["id"], b["col"]))]
            need(len(a) == len(b), "%d orders, but %d from arrays" % (len(a), len(b)))
            for f in a.dtype.names:
                if f != "id" or not resort:
                    need_same(a[f].astype(float), b[f].astype(float), "order field %s vs arrays" % f)
            need(len(pf.log_records) == len(pf2.log_records), "number of logs differs from the array route")
            need_same(np.asarray(pf.value(), float), np.asarray(pf2.value(), float), "value vs array route",
                      rtol=1e-7, atol=1e-7)
            labels.append("vs_arrays")
    return labels


# ------------------------------------------------------------- segment mask given as a step / broadcast

@st.composite
def mask_st(draw):
    c = draw(case_st(draw(st.booleans()), False))
    c["dyn"] = 0
    c["calls"] = None
    ng = len(c["group"]) if c["group"] else c["m"]
    k = draw(st.integers(1, 3))
    c["form"] = draw(st.sampled_from(["step", "row", "col", "scalar"]))
    b = draw(G.matrix(st.booleans(), c["n"], ng))
    c["step"] = k
    c["mask"] = [[{"step": i % k == 0, "row": b[0][g], "col": b[i][0], "scalar": b[0][0]}[c["form"]]
                  for g in range(ng)] for i in range(c["n"])]
    return c


def check_mask(case):
    mk = case["mask"]
    f = {"step": case["step"], "row": np.array([mk[0]]), "col": np.array([[r[0]] for r in mk]),
         "scalar": np.array(mk[0][0])}[case["form"]]
    return list(check(case, segment_mask=f)) + [case["form"]]


# ------------------------------------------------------------- without compilation

@st.composite
def python_st(draw):
    c = draw(case_st(draw(st.booleans()), draw(st.booleans())))
    return c


def check_python(case):
    """The uncompiled simulation gives the same portfolio and the same callbacks."""
    return check(case, use_numba=False)


# ------------------------------------------------------------- convenience constructors

@st.composite
def helper_st(draw):
    n, m = draw(st.sampled_from([4, 8, 3, 14, 2, 1])), draw(st.sampled_from([2, 1, 3]))
    c = dict(n=n, m=m, close=draw(G.price_path(n, m, lo=2, hi=20)), kind=draw(st.sampled_from(["hold", "n", "prob", "certain"])),
             lead=draw(st.lists(st.integers(0, 2), min_size=m, max_size=m)), fees=draw(st.sampled_from([0.0, 0.01, 0.125])),
             fixed=draw(st.sampled_from([0.0, 1.0])), slip=draw(st.sampled_from([0.0, 0.02])),
             cash=draw(st.lists(st.sampled_from([100.0, 1000.0, 40.0]), min_size=m, max_size=m)),
             size=draw(st.sampled_from([None, 1.0, 0.5])), short=draw(st.booleans()), seed=draw(st.integers(0, 50)),
             num=draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)),
             probs=[draw(st.lists(st.sampled_from([0.25, 0.5, 0.75, 1.0]), min_size=1, max_size=2, unique=True)) for _ in range(2)],
             product=draw(st.booleans()), series=draw(st.booleans()))
    return c


def check_helper(c):
    n, m = c["n"], c["m"]
    close = arr(c["close"]).reshape(n, m).copy()
    if c["kind"] == "hold":
        for j, k in enumerate(c["lead"]):
            close[:min(k, n), j] = NAN
    obj = pd.Series(close[:, 0]) if c["series"] and m == 1 else pd.DataFrame(close, columns=list("xyz")[:m])
    d = "shortonly" if c["short"] else "longonly"
    if c["kind"] == "hold":
        kw = dict(fees=c["fees"], fixed_fees=c["fixed"], slippage=c["slip"], init_cash=c["cash"], freq="1D")
        if c["size"] is not None:
            kw["size"] = c["size"]
        if c["short"]:
            kw["direction"] = d
        pf = vbt.Portfolio.from_holding(obj, **kw)
        val = np.asarray(pf.value(), float).reshape(n, m)
        lab = []
        for j in range(m):
            rec = pf.order_records[pf.order_records["col"] == j]
            k = next((i for i in range(n) if close[i, j] == close[i, j]), None)
            if k is None:
                need(len(rec) == 0, "an order without any price")
                continue
            s = -1 if c["short"] else 1
            price = close[k, j] * (1 + s * c["slip"])
            cash = c["cash"][j]
            most = (cash - c["fixed"]) / (price * (1 + c["fees"]))
            if c["short"]:
                most = cash / price     # shorts are bounded by the cash available
                size = most if c["size"] is None else c["size"]
                if c["size"] is None or size > 0.75 * most:
                    need(len(rec) <= 1, "more than one order")
                    continue
            else:
                size = most if c["size"] is None else min(c["size"], most)
            need(len(rec) == 1, "%d orders of a holding, expected one" % len(rec))
            r = rec[0]
            need(int(r["idx"]) == k and int(r["side"]) == (1 if c["short"] else 0), "the order of a holding: %r" % (r,))
            need_same(float(r["size"]), size, "size of a holding", rtol=1e-7, atol=1e-7)
            need_same(float(r["price"]), price, "price of a holding")
            fee = size * price * c["fees"] + c["fixed"]
            need_same(float(r["fees"]), fee, "fees of a holding", rtol=1e-7, atol=1e-7)
            left = cash - s * size * price - fee
            want = np.where(np.arange(n) < k, cash, left + s * size * close[:, j])
            need_same(val[:, j], want, "value of a holding", rtol=1e-7, atol=1e-6)
            lab.append(k < n - 1)
        return ["nt", "hold"] if any(lab) else ["hold"]
    kw = dict(direction=d, fees=c["fees"], freq="1D", size=0.5, init_cash=1000.0)
    if c["kind"] == "n":
        num = [min(x, (n + 1) // 2) for x in c["num"]]
        num = list(dict.fromkeys(num))
        args = dict(n=num if len(num) > 1 else num[0])
        k = len(num)
    elif c["kind"] == "prob":
        a, b = c["probs"]
        if not c["product"] and len(a) != len(b):
            b = (b * 2)[:len(a)]
        args = dict(entry_prob=a if len(a) > 1 else a[0], exit_prob=b if len(b) > 1 else b[0], param_product=c["product"])
        k = len(a) * len(b) if c["product"] else max(len(a), len(b))
        num = None
    else:
        args, k, num = dict(prob=1.0), 1, None
    pf = vbt.Portfolio.from_random_signals(obj, seed=c["seed"], **args, **kw)
    pf2 = vbt.Portfolio.from_random_signals(obj, seed=c["seed"], **args, **kw)
    need(pf.wrapper.shape_2d == (n, m * k), "shape %s of %d combinations" % (pf.wrapper.shape_2d, k))
    for f in pf.order_records.dtype.names:
        need_same(pf.order_records[f].astype(float), pf2.order_records[f].astype(float), "the same seed, another portfolio")
    run = dict(input_shape=obj.shape, input_index=obj.index, input_columns=obj.columns if m > 1 or not c["series"] else None, seed=c["seed"])
    if c["kind"] == "n":
        sig = vbt.RANDNX.run(n=args["n"], **run)
    else:
        sig = vbt.RPROBNX.run(entry_prob=args.get("entry_prob", 1.0), exit_prob=args.get("exit_prob", 1.0), param_product=args.get("param_product", False), **run)
    E, X = (np.asarray(getattr(sig, a)).reshape(n, -1) for a in ("entries", "exits"))
    rec = pf.order_records
    total = 0
    for j in range(m * k):
        r = np.sort(rec[rec["col"] == j], order="idx")
        want = sorted([(int(i), 0) for i in np.flatnonzero(E[:, j])] + [(int(i), 1) for i in np.flatnonzero(X[:, j])])
        first = 1 if c["short"] else 0
        got = [(int(x["idx"]), int(x["side"]) ^ first) for x in r]
        need(got == want, "orders %s of column %d, expected %s" % (got, j, want))
        need([s for _, s in got] == [q % 2 for q in range(len(got))], "entries and exits do not alternate: %s" % got)
        if num is not None:
            cnt = [num[j // m]] if k > 1 else num
            need(sum(1 for _, s in got if s == 0) == cnt[0], "%d entries, asked for %d" % (sum(1 for _, s in got if s == 0), cnt[0]))
        if c["kind"] == "certain":
            need(got == [(i, i % 2) for i in range(n)], "signals of probability one: %s" % got)
        for x, y in zip(r, r[1:]):
            if int(y["side"]) != first:
                need_same(float(x["size"]), float(y["size"]), "size of an exit")
        need_same(r["price"], close[r["idx"], j % m], "order prices")
        total += len(r)
    return ["nt", c["kind"]] if total >= 2 else [c["kind"]]


def route(rw, fx):
    return lambda: case_st(rw, fx)


FACETS = [
    Facet("column_major", route(False, False), check, quick=500, thorough=20000, rule="at least two orders"),
    Facet("row_major", route(True, False), check, quick=500, thorough=20000, rule="at least two orders"),
    Facet("flex_column_major", route(False, True), check, quick=500, thorough=20000, rule="at least two orders"),
    Facet("flex_row_major", route(True, True), check, quick=500, thorough=20000, rule="at least two orders"),
    Facet("python", python_st, check_python, quick=40, thorough=1500, rule="at least two orders"),
    Facet("helpers", helper_st, check_helper, quick=250, thorough=8000, rule="a holding followed by another bar, or two random orders"),
    Facet("segment_mask", mask_st, check_mask, quick=150, thorough=5000, rule="at least two orders"),
]
