"""C17: generated and transformed signals satisfy their stated constraints.

Oracle: bar-by-bar Python readings of the descriptions, one column at a time. Random generation is checked through its constraints
(window, count, spacing), through exact results at probabilities 0 and 1, and by repeating it under the same seed."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.signals.enums import StopType

from vbtcheck.core import Facet
from vbtcheck.util import NAN, need, weighted

ASSUMPTIONS = [
    "The last partition of a column ends at its last bar (status open); other partitions end at the first bar without a signal.",
    "A trailing stop follows the extremes seen from the entry on, leaving out bars skipped by the wait.",
    "Stop price is computed from the entry price alone, as documented, also when the bar opens beyond it; a stop loss wins over a take profit.",
    "Missing open counts as close; missing high/low as the larger/smaller of open and close.",
]


# ---------------------------------------------------------------- cases

@st.composite
def mask(draw, n, m):
    density = draw(st.sampled_from([1, 1, 2, 4]))
    return [[draw(st.integers(0, 4)) < density for _ in range(m)] for _ in range(n)]


@st.composite
def shape(draw):
    return draw(weighted((1, 1), (1, 2), (3, 5), (3, 8), (1, 13))), draw(weighted((2, 1), (2, 2), (1, 3)))


IDX = lambda n: pd.date_range("2021-01-04", periods=n, freq="D", name="d")


def frame(rows, series=False, dtype=bool):
    x = np.array(rows, dtype=dtype)
    if series and x.shape[1] == 1:
        return pd.Series(x[:, 0], index=IDX(len(rows)), name="s")
    return pd.DataFrame(x, index=IDX(len(rows)), columns=pd.Index(list("abcdef")[:x.shape[1]], name="c"))


def cols(obj):
    a = np.asarray(obj)
    a = a[:, None] if a.ndim == 1 else a
    return [a[:, j].tolist() for j in range(a.shape[1])]


def col(rows, j):
    return [r[j] for r in rows]


def same(name, got, want, like=None):
    g = cols(got)
    need(g == want, f"{name}: {g} expected {want}", sig=name)
    if like is not None:
        need(got.index.equals(like.index) and got.ndim == like.ndim, f"{name}: index or dimensions changed", sig=name + "-labels")
        if got.ndim == 2:
            need(got.columns.equals(like.columns), f"{name}: columns {got.columns}", sig=name + "-labels")
    return g


# ---------------------------------------------------------------- references

def ref_exits(entries, wait, until_next, skip, pick_first, choose):
    """choose(entry, from_i, to_i) -> list of bars."""
    n = len(entries)
    out, idx, last = [False] * n, [i for i in range(n) if entries[i]], -1
    for k, e in enumerate(idx):
        if skip and e <= last:
            continue
        lo = e + wait
        hi = idx[k + 1] if until_next and k + 1 < len(idx) else n
        if lo >= hi:
            continue
        got = choose(e, lo, hi)
        if pick_first:
            got = got[:1]
        for i in got:
            out[i] = True
        if got:
            last = got[-1]
    return out


def ref_both(n, entry_wait, exit_wait, en_first, ex_first, en_choose, ex_choose):
    en, ex = [False] * n, [False] * n
    prev, turn, lo = None, 0, 0
    while True:
        if prev is not None:
            lo = prev + (exit_wait if turn else entry_wait)
        if lo >= n:
            break
        got = (ex_choose if turn else en_choose)(prev, lo, n)
        if not got:
            break
        if ex_first if turn else en_first:
            got = got[:1]
        for i in got:
            (ex if turn else en)[i] = True
        prev, turn = got[-1], 1 - turn
    return en, ex


def ref_stop(ts, stop, trailing):
    def choose(e, lo, hi):
        out, base, s, tr = [], ts[e], stop[e], trailing[e]
        if s != s:
            return out
        top = bottom = base
        for i in range(lo, hi):
            level = (bottom * (1 + s) if s >= 0 else top * (1 + s)) if tr else base * (1 + s)
            if (ts[i] >= level) if s >= 0 else (ts[i] <= level):
                out.append(i)
            top, bottom = max(top, ts[i]) if ts[i] == ts[i] else top, min(bottom, ts[i]) if ts[i] == ts[i] else bottom
        return out
    return choose


def ref_ohlc(o, h, l, c, sl, trail, tp, rev, safe, prices, types):
    """Also records the price and type of every bar picked, in the order picked."""
    def choose(e, lo, hi, first):
        out, base, s, t, r = [], o[e], sl[e], tp[e], rev[e]
        top = bottom = base
        for i in range(lo, hi):
            O = o[i] if o[i] == o[i] else c[i]
            L = l[i] if l[i] == l[i] else min(O, c[i])
            H = h[i] if h[i] == h[i] else max(O, c[i])
            if i == e and not safe:
                H = L = c[i]
            hit = False
            if s == s:
                ref = (bottom if r else top) if trail[e] else base
                level = ref * (1 + s) if r else ref * (1 - s)
                if (H >= level) if r else (L <= level):
                    hit, prices[i], types[i] = True, level, StopType.TrailStop if trail[e] else StopType.StopLoss
            if not hit and t == t:
                level = base * (1 - t) if r else base * (1 + t)
                if (L <= level) if r else (H >= level):
                    hit, prices[i], types[i] = True, level, StopType.TakeProfit
            if hit:
                out.append(i)
                if first:
                    return out
            if H == H:
                top = max(top, H)
            if L == L:
                bottom = min(bottom, L)
        return out
    return choose


# ---------------------------------------------------------------- facet: place

@njit
def choice(from_i, to_i, col, a):
    out = np.empty(to_i - from_i, dtype=np.int64)
    k = 0
    for i in range(from_i, to_i):
        if a[i, col]:
            out[k] = i
            k += 1
    return out[:k]


@st.composite
def s_place(draw):
    n, m = draw(shape())
    return dict(n=n, m=m, a=draw(mask(n, m)), b=draw(mask(n, m)), e=draw(mask(n, m)), wait=draw(weighted((1, 0), (3, 1), (1, 2), (1, 4))),
                entry_wait=draw(weighted((1, 0), (3, 1), (1, 3))), exit_wait=draw(weighted((1, 0), (3, 1), (1, 2))), until_next=draw(st.booleans()),
                skip=draw(st.booleans()), first=draw(st.booleans()), first2=draw(st.booleans()), series=draw(st.booleans()))


def from_mask(rows, j):
    return lambda e, lo, hi: [i for i in range(lo, hi) if rows[i][j]]


def check_place(c):
    n, m = c["n"], c["m"]
    series = c["series"] and m == 1
    a, b = np.array(c["a"], dtype=bool), np.array(c["b"], dtype=bool)
    acc = pd.Series.vbt.signals if series else pd.DataFrame.vbt.signals
    sh = n if series else (n, m)
    E_ = frame(c["e"], series)
    names = dict(index=E_.index, name="s") if series else dict(index=E_.index, columns=E_.columns)
    got = acc.generate(sh, choice, a, pick_first=c["first"], **names)
    want = []
    for j in range(m):
        idx = [i for i in range(n) if c["a"][i][j]][:1 if c["first"] else None]
        want.append([i in idx for i in range(n)])
    same("generate", got, want, E_)
    got = E_.vbt.signals.generate_exits(choice, b, wait=c["wait"], until_next=c["until_next"], skip_until_exit=c["skip"], pick_first=c["first"])
    want = [ref_exits(col(c["e"], j), c["wait"], c["until_next"], c["skip"], c["first"], from_mask(c["b"], j)) for j in range(m)]
    same("generate-exits", got, want, E_)
    if c["entry_wait"] + c["exit_wait"] > 0:
        try:
            en, ex = acc.generate_both(sh, entry_choice_func=choice, entry_args=(a,), exit_choice_func=choice, exit_args=(b,), entry_wait=c["entry_wait"],
                                       exit_wait=c["exit_wait"], entry_pick_first=c["first"], exit_pick_first=c["first2"], **names)
        except ValueError as e:
            raise
        want = [ref_both(n, c["entry_wait"], c["exit_wait"], c["first"], c["first2"], from_mask(c["a"], j), from_mask(c["b"], j)) for j in range(m)]
        same("generate-both-entries", en, [w[0] for w in want], E_)
        same("generate-both-exits", ex, [w[1] for w in want], E_)
    return ["nt"] if sum(map(sum, c["e"])) >= 2 and n >= 4 else []


# ---------------------------------------------------------------- facet: stops

STOP = weighted((2, 0.125), (2, -0.125), (1, 0.25), (1, -0.25), (1, 0.0), (1, None))


@st.composite
def prices(draw, n, m):
    out = []
    for _ in range(m):
        p, cl = draw(st.sampled_from([8, 16, 20])), []
        for _ in range(n):
            p = max(2, p + draw(weighted((2, 0), (2, 1), (2, -1), (1, 2), (1, -2), (1, 5), (1, -5))))
            cl.append(p / 1.0)
        out.append(cl)
    rows = [[out[j][i] for j in range(m)] for i in range(n)]
    for _ in range(draw(weighted((4, 0), (1, 1), (1, 2)))):
        rows[draw(st.integers(0, n - 1))][draw(st.integers(0, m - 1))] = None
    return rows


@st.composite
def flex(draw, n, m, elem):
    """Scalar, per row, per column or per element: (kind, rows)."""
    kind = draw(st.sampled_from(["scalar", "scalar", "row", "col", "elem"]))
    if kind == "scalar":
        v = draw(elem)
        rows = [[v] * m for _ in range(n)]
    elif kind == "row":
        vs = [draw(elem) for _ in range(n)]
        rows = [[v] * m for v in vs]
    elif kind == "col":
        vs = [draw(elem) for _ in range(m)]
        rows = [list(vs) for _ in range(n)]
    else:
        rows = [[draw(elem) for _ in range(m)] for _ in range(n)]
    return dict(kind=kind, rows=rows)


def num(rows):
    return [[NAN if x is None else float(x) for x in r] for r in rows]


def arg(f, series, dtype=float):
    rows = num(f["rows"]) if dtype is float else f["rows"]
    x = np.array(rows, dtype=dtype)
    if f["kind"] == "scalar":
        return x[0, 0].item()
    if f["kind"] == "row":
        return x[:, 0] if series else x[:, [0]]
    if f["kind"] == "col":
        return x[0, 0].item() if series else x[0, :]
    return x[:, 0] if series else x


@st.composite
def s_stops(draw):
    n, m = draw(shape())
    n = max(n, 2)
    return dict(n=n, m=m, e=draw(mask(n, m)), ts=draw(prices(n, m)), stop=draw(flex(n, m, STOP)), trailing=draw(flex(n, m, st.booleans())),
                wait=draw(weighted((1, 0), (4, 1), (1, 2))), entry_wait=draw(weighted((1, 0), (3, 1), (1, 2))), until_next=draw(st.booleans()),
                skip=draw(st.booleans()), first=draw(weighted((3, True), (1, False))), chain=draw(st.booleans()), series=draw(st.booleans()),
                nanfirst=False)


def check_stops(c):
    n, m = c["n"], c["m"]
    series = c["series"] and m == 1
    E_ = frame(c["e"], series)
    ts = num(c["ts"])
    T = frame(ts, series, float)
    stop, trailing = num(c["stop"]["rows"]), c["trailing"]["rows"]
    if c["chain"] and c["wait"] == 0 and c["entry_wait"] == 0:
        return []
    kw = dict(exit_wait=c["wait"], pick_first=c["first"])
    ch = [ref_stop(col(ts, j), col(stop, j), col(trailing, j)) for j in range(m)]
    if c["chain"]:
        try:
            en, ex = E_.vbt.signals.generate_stop_exits(T, arg(c["stop"], series), arg(c["trailing"], series, bool), chain=True, entry_wait=c["entry_wait"], **kw)
        except ValueError as e:
            need("Infinite loop" in str(e) and c["wait"] == 0 or c["entry_wait"] == 0, f"refused: {e}", sig="stop-chain-refused")
            return []
        want = [ref_both(n, c["entry_wait"], c["wait"], True, c["first"], from_mask(c["e"], j), ch[j]) for j in range(m)]
        same("stop-chain-entries", en, [w[0] for w in want], E_)
        same("stop-chain-exits", ex, [w[1] for w in want], E_)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ex = E_.vbt.signals.generate_stop_exits(T, arg(c["stop"], series), arg(c["trailing"], series, bool), until_next=c["until_next"], skip_until_exit=c["skip"], **kw)
        want = [ref_exits(col(c["e"], j), c["wait"], c["until_next"], c["skip"], c["first"], ch[j]) for j in range(m)]
        same("stop-exits", ex, want, E_)
    fired = sum(map(sum, cols(ex)))
    return (["nt"] if fired >= 1 else []) + (["chain"] if c["chain"] else [])


@st.composite
def s_ohlc(draw):
    n, m = draw(shape())
    n = max(n, 2)
    pos = weighted((2, 0.125), (2, 0.25), (1, 0.0), (2, None), (1, 0.5))
    base = draw(prices(n, m))
    gaps = draw(weighted((2, 10), (1, 3)))
    bars = []
    for i in range(n):
        row = []
        for j in range(m):
            o = base[i][j]
            if o is None:
                o = draw(st.sampled_from([None, 9.0]))
            cl = (o if o is not None else 10.0) + draw(st.integers(-3, 3))
            cl = max(1.0, cl)
            hi = max(x for x in (o, cl) if x is not None) + draw(st.integers(0, 3))
            lo = max(0.5, min(x for x in (o, cl) if x is not None) - draw(st.integers(0, 3)))
            row.append([o, hi if draw(st.integers(1, gaps)) > 1 else None, lo if draw(st.integers(1, gaps)) > 1 else None, cl])
        bars.append(row)
    return dict(n=n, m=m, e=draw(mask(n, m)), bars=bars, sl=draw(flex(n, m, pos)), tp=draw(flex(n, m, pos)), trail=draw(flex(n, m, st.booleans())),
                rev=draw(flex(n, m, weighted((2, False), (1, True)))), safe=draw(st.booleans()), only_open=draw(st.integers(0, 7)) == 0, given=draw(st.booleans()),
                wait=draw(weighted((1, 0), (4, 1), (1, 2))), entry_wait=draw(weighted((1, 0), (3, 1), (1, 2))), until_next=draw(st.booleans()),
                skip=draw(st.booleans()), first=draw(weighted((3, True), (1, False))), chain=draw(st.booleans()), series=draw(st.booleans()), factory=draw(st.booleans()))


def check_ohlc(c):
    n, m = c["n"], c["m"]
    series = c["series"] and m == 1
    E_ = frame(c["e"], series)
    four = [num([[c["bars"][i][j][k] for j in range(m)] for i in range(n)]) for k in range(4)]
    if c["only_open"]:
        four = [four[0]] * 4
    if c["chain"] and c["wait"] == 0 and c["entry_wait"] == 0:
        return []
    O, H, L, C = [frame(x, series, float) for x in four]
    sl, tp, trail, rev = num(c["sl"]["rows"]), num(c["tp"]["rows"]), c["trail"]["rows"], c["rev"]["rows"]
    P, T = [[NAN] * n for _ in range(m)], [[-1] * n for _ in range(m)]
    want = []
    for j in range(m):
        f = ref_ohlc(*[col(x, j) for x in four], col(sl, j), col(trail, j), col(tp, j), col(rev, j), c["safe"], P[j], T[j])
        g = lambda e, lo, hi, f=f: f(e, lo, hi, c["first"])
        if c["chain"]:
            want.append(ref_both(n, c["entry_wait"], c["wait"], True, c["first"], from_mask(c["e"], j), g))
        else:
            want.append((None, ref_exits(col(c["e"], j), c["wait"], c["until_next"], c["skip"], c["first"], g)))
    out = dict(stop_price=np.nan, stop_type=-1) if c["given"] else {}
    args = (O,) if c["only_open"] else (O, H, L, C)
    kw = dict(sl_stop=arg(c["sl"], series), sl_trail=arg(c["trail"], series, bool), tp_stop=arg(c["tp"], series), reverse=arg(c["rev"], series, bool), is_open_safe=c["safe"],
              pick_first=c["first"], exit_wait=c["wait"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if c["chain"]:
                en, ex = E_.vbt.signals.generate_ohlc_stop_exits(*args, chain=True, entry_wait=c["entry_wait"], out_dict=out, **kw)
                same("ohlc-chain-entries", en, [w[0] for w in want], E_)
            else:
                ex = E_.vbt.signals.generate_ohlc_stop_exits(*args, until_next=c["until_next"], skip_until_exit=c["skip"], out_dict=out, **kw)
        except ValueError as e:
            need("Infinite loop" in str(e) and c["chain"] and 0 in (c["wait"], c["entry_wait"]), f"refused: {e}", sig="ohlc-refused")
            return []
    same("ohlc-exits", ex, [w[1] for w in want], E_)
    gp, gt = np.array(cols(out["stop_price"])), np.array(cols(out["stop_type"]))
    need(bool(np.allclose(gp, np.array(P), rtol=1e-12, atol=0, equal_nan=True)), f"stop prices {gp.tolist()} expected {P}", sig="ohlc-price")
    need(gt.tolist() == [[int(x) for x in t] for t in T], f"stop types {gt.tolist()} expected {T}", sig="ohlc-type")
    if c["factory"] and not series and c["sl"]["kind"] in ("scalar", "elem") and c["tp"]["kind"] in ("scalar", "elem") and c["trail"]["kind"] == "scalar" and c["rev"]["kind"] == "scalar":
        fkw = dict(sl_stop=kw["sl_stop"], sl_trail=kw["sl_trail"], tp_stop=kw["tp_stop"], reverse=kw["reverse"], is_open_safe=c["safe"], pick_first=c["first"], wait=c["wait"])
        full = (O, H, L, C)
        if c["chain"]:
            r = vbt.OHLCSTCX.run(E_, *full, entry_wait=c["entry_wait"], **fkw)
            same("ohlc-factory-entries", r.new_entries, [w[0] for w in want])
        else:
            r = vbt.OHLCSTX.run(E_, *full, until_next=c["until_next"], skip_until_exit=c["skip"], **fkw)
        same("ohlc-factory-exits", r.exits, [w[1] for w in want])
        need(bool(np.allclose(np.array(cols(r.stop_price)), np.array(P), rtol=1e-12, atol=0, equal_nan=True)), "stop prices of the factory", sig="ohlc-factory-price")
        need(cols(r.stop_type) == [[int(x) for x in t] for t in T], f"stop types of the factory {cols(r.stop_type)} expected {T}", sig="ohlc-factory-type")
    return (["nt"] if sum(map(sum, cols(ex))) >= 1 else []) + (["chain"] if c["chain"] else [])


# ---------------------------------------------------------------- facet: random

@st.composite
def s_random(draw):
    n, m = draw(shape())
    c = dict(n=n, m=m, kind=draw(st.sampled_from(["n", "prob", "both-n", "both-n", "both-prob", "exits", "exits-prob"])), seed=draw(st.integers(0, 10 ** 6)),
             e=draw(mask(n, m)), wait=draw(weighted((1, 0), (3, 1), (1, 2))), entry_wait=draw(weighted((1, 0), (2, 1), (1, 2), (1, 3))),
             exit_wait=draw(weighted((1, 0), (2, 1), (1, 2), (1, 3))), until_next=draw(st.booleans()), skip=draw(st.booleans()), series=draw(st.booleans()),
             first=draw(st.booleans()), first2=draw(st.booleans()), long=draw(weighted((3, 0), (1, 20), (1, 60))))
    c["ns"] = [draw(weighted((1, 0), (2, 1), (2, 2), (1, 3), (1, 7), (1, 50))) for _ in range(m)]
    c["perc"] = draw(st.booleans())
    P = weighted((2, 0.0), (3, 1.0), (1, 0.5))
    c["p"], c["q"] = draw(flex(n, m, P)), draw(flex(n, m, P))
    return c


def sure(rows, j):
    """Bars that must / may be picked, from probabilities of one column."""
    return [rows[i][j] >= 1 for i in range(len(rows))], [rows[i][j] > 0 for i in range(len(rows))]


def window_exits(entries, exits, wait, until_next):
    """Every exit lies in the window of some entry."""
    n = len(entries)
    idx = [i for i in range(n) if entries[i]]
    ok = [False] * n
    for k, e in enumerate(idx):
        hi = idx[k + 1] if until_next and k + 1 < len(idx) else n
        for i in range(e + wait, hi):
            ok[i] = True
    return all(ok[i] for i in range(n) if exits[i])


def check_random(c):
    n, m, kind = c["n"] + (c["long"] if c["kind"] in ("n", "both-n") else 0), c["m"], c["kind"]
    series = c["series"] and m == 1
    acc = pd.Series.vbt.signals if series else pd.DataFrame.vbt.signals
    sh = n if series else (n, m)
    E_ = frame(c["e"], series)
    if kind == "n":
        ns = c["ns"] if c["perc"] else [c["ns"][0]] * m
        f = lambda s: acc.generate_random(sh, n=(np.array(ns) if c["perc"] else ns[0]), seed=s)
        got = cols(f(c["seed"]))
        need([sum(g) for g in got] == [min(x, n) for x in ns], f"counts {[sum(g) for g in got]}, asked for {ns} in {n} bars", sig="random-count")
        need(cols(f(c["seed"])) == got, "not reproducible under the same seed", sig="random-seed")
        r = vbt.RAND.run(sh if not series else (n,), [np.array(ns)] if not series else ns[0], seed=c["seed"])
        need([sum(g) for g in cols(r.entries)] == [min(x, n) for x in ns], f"factory counts {[sum(g) for g in cols(r.entries)]}, asked for {ns}", sig="random-factory-count")
        return ["nt"] if max(ns) >= 1 and n >= 3 else []
    if kind == "prob":
        p = arg(c["p"], series)
        f = lambda s: acc.generate_random(sh, prob=p, pick_first=c["first"], seed=s)
        got = cols(f(c["seed"]))
        for j in range(m):
            must, may = sure(c["p"]["rows"], j)
            need(all(may[i] for i in range(n) if got[j][i]), f"signal at a bar of probability zero: {got[j]} {c['p']}", sig="random-may")
            if c["first"]:
                first = must.index(True) if True in must else n
                need(sum(got[j]) <= 1 and all(i <= first for i in range(n) if got[j][i]), f"not only the first: {got[j]} {c['p']}", sig="random-first")
                need(first == n or sum(got[j]) == 1, f"sure signal missing: {got[j]}", sig="random-must")
            else:
                need(all(got[j][i] for i in range(n) if must[i]), f"sure signal missing: {got[j]} {c['p']}", sig="random-must")
        need(cols(f(c["seed"])) == got, "not reproducible under the same seed", sig="random-seed")
        return ["nt"] if n >= 3 else []
    if kind == "both-n":
        if c["entry_wait"] + c["exit_wait"] == 0:
            return []
        ns = c["ns"] if c["perc"] else [c["ns"][0]] * m
        ew, xw = c["entry_wait"], c["exit_wait"]
        f = lambda s: acc.generate_random_both(sh, n=(np.array(ns) if c["perc"] else ns[0]), entry_wait=ew, exit_wait=xw, seed=s)
        fits = [x == 0 or (x - 1) * (ew + xw) + xw + 1 <= n for x in ns]
        if ew == 1 and xw == 1:
            fits = [True] * m
        elif any(x == 1 and n - xw < 1 for x in ns) or not all(fits):
            try:
                f(c["seed"])
            except ValueError:
                return []
            need(False, f"{ns} signals do not fit into {n} bars with waits {ew}/{xw} but were generated", sig="both-unfit")
        en, ex = f(c["seed"])
        en2, ex2 = f(c["seed"])
        need(cols(en) == cols(en2) and cols(ex) == cols(ex2), "not reproducible under the same seed", sig="random-seed")
        for j, (a, b) in enumerate(zip(cols(en), cols(ex))):
            ia, ib = [i for i in range(n) if a[i]], [i for i in range(n) if b[i]]
            if ew == 1 and xw == 1:
                total = min(2 * ns[j], n)
                need(len(ia) == (total + 1) // 2 and len(ib) == total // 2, f"{len(ia)} entries and {len(ib)} exits, asked for {ns[j]} in {n} bars", sig="both-count")
            else:
                need(len(ia) == ns[j], f"{len(ia)} entries, asked for {ns[j]} in {n} bars, waits {ew}/{xw}", sig="both-count")
                need(len(ib) == ns[j], f"{len(ib)} exits, asked for {ns[j]} in {n} bars, waits {ew}/{xw}", sig="both-count")
            for k in range(len(ib)):
                need(ib[k] - ia[k] >= xw, f"exit {ib[k]} less than {xw} bars after entry {ia[k]}", sig="both-exit-wait")
                if k + 1 < len(ia):
                    need(ia[k + 1] - ib[k] >= ew, f"entry {ia[k + 1]} less than {ew} bars after exit {ib[k]}", sig="both-entry-wait")
        if not series:
            r = vbt.RANDNX.run(sh, [np.array(ns)], entry_wait=ew, exit_wait=xw, seed=c["seed"])
            need(cols(r.entries) == cols(en) and cols(r.exits) == cols(ex) or not c["perc"] and len(set(ns)) > 1, "factory differs from the accessor under the same seed", sig="both-factory")
        return ["nt"] if max(ns) >= 2 and n >= 5 else []
    if kind == "both-prob":
        if c["entry_wait"] + c["exit_wait"] == 0:
            return []
        p, q = arg(c["p"], series), arg(c["q"], series)
        f = lambda s: acc.generate_random_both(sh, entry_prob=p, exit_prob=q, entry_wait=c["entry_wait"], exit_wait=c["exit_wait"], entry_pick_first=c["first"], exit_pick_first=c["first2"], seed=s)
        en, ex = f(c["seed"])
        en2, ex2 = f(c["seed"])
        need(cols(en) == cols(en2) and cols(ex) == cols(ex2), "not reproducible under the same seed", sig="random-seed")
        P, Q = c["p"]["rows"], c["q"]["rows"]
        for j, (a, b) in enumerate(zip(cols(en), cols(ex))):
            need(all(P[i][j] > 0 for i in range(n) if a[i]) and all(Q[i][j] > 0 for i in range(n) if b[i]), "signal at a bar of probability zero", sig="random-may")
            if all(P[i][j] in (0, 1) and Q[i][j] in (0, 1) for i in range(n)):
                w = ref_both(n, c["entry_wait"], c["exit_wait"], c["first"], c["first2"], lambda e, lo, hi: [i for i in range(lo, hi) if P[i][j] == 1],
                             lambda e, lo, hi: [i for i in range(lo, hi) if Q[i][j] == 1])
                need((a, b) == w, f"certain signals: {(a, b)} expected {w}", sig="both-certain")
            elif c["first"] and c["first2"]:
                ia, ib = [i for i in range(n) if a[i]], [i for i in range(n) if b[i]]
                need(len(ia) - len(ib) in (0, 1), f"{len(ia)} entries, {len(ib)} exits", sig="both-alternate")
                need(all(y - x >= c["exit_wait"] for x, y in zip(ia, ib)) and all(x - y >= c["entry_wait"] for x, y in zip(ia[1:], ib)), f"waits not kept: {ia} {ib}", sig="both-waits")
        return ["nt"] if sum(map(sum, cols(en))) >= 1 else []
    kw = dict(wait=c["wait"], until_next=c["until_next"], skip_until_exit=c["skip"])
    if kind == "exits":
        f = lambda s: E_.vbt.signals.generate_random_exits(seed=s, **kw)
    else:
        q = arg(c["q"], series)
        f = lambda s: E_.vbt.signals.generate_random_exits(prob=q, seed=s, **kw)
    ex = f(c["seed"])
    got = cols(ex)
    need(cols(f(c["seed"])) == got, "not reproducible under the same seed", sig="random-seed")
    need(ex.index.equals(E_.index), "index changed", sig="random-index")
    for j in range(m):
        e, x = col(c["e"], j), got[j]
        need(window_exits(e, x, c["wait"], c["until_next"]), f"exit outside the window of any entry: {e} {x} {kw}", sig="exits-window")
        idx = [i for i in range(n) if e[i]]
        if kind == "exits" and c["until_next"]:
            for k, i in enumerate(idx):
                hi = idx[k + 1] if k + 1 < len(idx) else n
                if c["wait"] <= 1 or hi - i > c["wait"]:
                    inside = sum(x[i + c["wait"]:hi]) if c["wait"] else sum(x[i:hi])
                    if c["wait"] <= 1:
                        need(inside == (1 if i + c["wait"] < hi else 0), f"{inside} exits for the entry at {i}: {e} {x} {kw}", sig="exits-one")
        if kind == "exits" and not c["until_next"] and idx:
            need(sum(x) <= len(idx) and (sum(x) >= 1 or idx[0] + c["wait"] >= n), f"exits {x} for entries {e}, {kw}", sig="exits-some")
            if c["skip"]:
                # one exit for every entry not skipped
                k, last = 0, -1
                for i in idx:
                    if i <= last or i + c["wait"] >= n:
                        continue
                    nxt = [y for y in range(i + c["wait"], n) if x[y]]
                    need(len(nxt) >= 1, f"no exit for the entry at {i}: {e} {x} {kw}", sig="exits-skip")
                    last = nxt[0]
                    k += 1
                need(sum(x) <= k, f"{sum(x)} exits for {k} entries: {e} {x} {kw}", sig="exits-skip")
        if kind == "exits-prob":
            Q = c["q"]["rows"]
            need(all(Q[i][j] > 0 for i in range(n) if x[i]), "exit at a bar of probability zero", sig="random-may")
            if all(Q[i][j] in (0, 1) for i in range(n)):
                w = ref_exits(e, c["wait"], c["until_next"], c["skip"], True, lambda e_, lo, hi: [i for i in range(lo, hi) if Q[i][j] == 1])
                need(x == w, f"certain exits: {x} expected {w}", sig="exits-certain")
    return ["nt"] if sum(map(sum, c["e"])) >= 2 else []


# ---------------------------------------------------------------- facet: clean, rank, nth

@st.composite
def s_rank(draw):
    n, m = draw(shape())
    return dict(n=n, m=m, a=draw(mask(n, m)), b=draw(mask(n, m)), reset=draw(mask(n, m)), use_reset=draw(st.booleans()), after_false=draw(st.booleans()), gaps=draw(st.booleans()),
                nth=draw(st.integers(-3, 3)), entry_first=draw(st.booleans()), series=draw(st.booleans()), row_reset=draw(st.integers(0, 3)) == 0)


def ref_pos_rank(a, reset, after_false, gaps):
    out, k, part, last, seen = [], -1, -1, -2, not after_false
    prt = []
    pending = True
    prev_ranked = None
    for i in range(len(a)):
        if reset is not None and reset[i]:
            pending = True
        if not a[i]:
            seen = True
        if not a[i] or not seen:
            out.append(-1)
            prt.append(-1)
            continue
        new_part = prev_ranked is None or prev_ranked != i - 1
        if pending:
            k, part = 0, 0
        else:
            k = 0 if new_part and not gaps else k + 1
            part = part + 1 if new_part else part
        pending = False
        prev_ranked = i
        out.append(k)
        prt.append(part)
    return out, prt


def ref_clean(e, x, entry_first):
    state, eo, xo = None, [], []
    for a, b in zip(e, x):
        a_, b_ = a and not b, b and not a
        take = a_ and state != "in"
        leave = b_ and (state == "in" or (state is None and not entry_first))
        if take:
            state = "in"
        if leave:
            state = "out"
        eo.append(bool(take))
        xo.append(bool(leave))
    return eo, xo


def check_rank(c):
    n, m = c["n"], c["m"]
    series = c["series"] and m == 1
    A, B = frame(c["a"], series), frame(c["b"], series)
    s = A.vbt.signals
    acol, bcol = [col(c["a"], j) for j in range(m)], [col(c["b"], j) for j in range(m)]
    rs, rcols = None, [None] * m
    if c["use_reset"]:
        rs, rcols = frame(c["reset"], series), [col(c["reset"], j) for j in range(m)]
        if c["row_reset"] and not series:
            rs, rcols = rs.iloc[:, 0].rename(None), [rcols[0]] * m
    kw = dict(reset_by=rs, after_false=c["after_false"])
    want = [ref_pos_rank(acol[j], rcols[j], c["after_false"], c["gaps"]) for j in range(m)]
    pr = s.pos_rank(allow_gaps=c["gaps"], **kw)
    same("pos-rank", pr, [w[0] for w in want], A)
    pp = s.partition_pos_rank(**kw)
    same("partition-pos-rank", pp, [w[1] for w in want], A)
    akw = dict(allow_gaps=c["gaps"], **kw)
    same("first", s.first(**akw), [[x == 0 for x in w[0]] for w in want], A)
    k = c["nth"]
    same("nth", s.nth(abs(k), **akw), [[x == abs(k) for x in w[0]] for w in want], A)
    same("from-nth", s.from_nth(abs(k), **akw), [[x >= abs(k) for x in w[0]] for w in want], A)
    pm, ppm = s.pos_rank_mapped(**akw), s.partition_pos_rank_mapped(**kw)
    flat = lambda t: [(j, i, w[t][i]) for j, w in enumerate(want) for i in range(n) if w[t][i] != -1]
    for name, mp, t in (("pos-rank-mapped", pm, 0), ("partition-rank-mapped", ppm, 1)):
        got = list(zip(mp.col_arr.tolist(), mp.idx_arr.tolist(), mp.values.tolist()))
        need(sorted(got) == sorted(flat(t)), f"{name}: {got} expected {flat(t)}", sig=name)
    im = s.index_mapped()
    need(sorted(zip(im.col_arr.tolist(), im.values.tolist())) == [(j, i) for j in range(m) for i in range(n) if acol[j][i]], "mapped indices", sig="index-mapped")
    # clean
    eo, xo = s.clean(B, entry_first=c["entry_first"])
    w = [ref_clean(acol[j], bcol[j], c["entry_first"]) for j in range(m)]
    same("clean-entries", eo, [x[0] for x in w], A)
    same("clean-exits", xo, [x[1] for x in w], A)
    one = [ref_pos_rank(acol[j], None, False, False)[0] for j in range(m)]
    same("clean-one", s.clean(), [[x == 0 for x in o] for o in one], A)
    # nth index
    pos = [[i for i in range(n) if a[i]] for a in acol]
    idx = list(A.index)
    pick = lambda p: p[k] if -len(p) <= k < len(p) else None
    raw = np.atleast_1d(np.asarray(s.nth_index(k, return_labels=False))).tolist()
    need(raw == [-1 if pick(p) is None else pick(p) for p in pos], f"nth_index({k}) {raw} of {pos}", sig="nth-index")
    lab = s.nth_index(k)
    lab = [lab] if series else list(lab)
    for g, p in zip(lab, pos):
        need(pd.isnull(g) if pick(p) is None else g == idx[pick(p)], f"nth_index({k}) label {g} of {p}", sig="nth-index-label")
    nav = np.atleast_1d(np.asarray(s.norm_avg_index(), dtype=float))
    for g, p in zip(nav, pos):
        wv = NAN if not p or n < 2 else 2 * (sum(p) / len(p)) / (n - 1) - 1
        need((g != g and wv != wv) or abs(g - wv) < 1e-9, f"norm_avg_index {g} expected {wv}", sig="norm-avg-index")
    # logic and shifts
    f = {"AND": lambda x, y: x and y, "OR": lambda x, y: x or y, "XOR": lambda x, y: x != y}
    for nm, fn in f.items():
        same(nm, getattr(s, nm)(B), [[fn(x, y) for x, y in zip(a, b)] for a, b in zip(acol, bcol)], A)
    d = abs(k)
    same("fshift", s.fshift(d), [([False] * d + a)[:n] for a in acol], A)
    same("bshift", s.bshift(d), [(a + [False] * d)[d:] if d < n else [False] * n for a in acol], A)
    return ["nt"] if sum(map(sum, acol)) >= 3 else []


# ---------------------------------------------------------------- facet: ranges

@st.composite
def s_ranges(draw):
    n, m = draw(shape())
    return dict(n=n, m=m, a=draw(mask(n, m)), b=draw(mask(n, m)), series=draw(st.booleans()), group=draw(st.lists(st.integers(0, 1), min_size=m, max_size=m)), grouped=draw(st.booleans()),
                nth=draw(st.integers(-2, 2)))


def check_ranges(c):
    n, m = c["n"], c["m"]
    series = c["series"] and m == 1
    A, B = frame(c["a"], series), frame(c["b"], series)
    s = A.vbt.signals
    pos = [[i for i in range(n) if c["a"][i][j]] for j in range(m)]
    posb = [[i for i in range(n) if c["b"][i][j]] for j in range(m)]

    def got(r):
        v = r.values
        need(v["id"].tolist() == list(range(len(v))), f"ids {v['id'].tolist()}", sig="range-ids")
        return list(zip(v["col"].tolist(), v["start_idx"].tolist(), v["end_idx"].tolist(), v["status"].tolist()))

    def cmp(name, r, want):
        g = got(r)
        need(g == want, f"{name}: {g} expected {want}", sig=name)

    cmp("between", s.between_ranges(), [(j, x, y, 1) for j in range(m) for x, y in zip(pos[j], pos[j][1:])])
    cmp("between-two", s.between_ranges(B), [(j, x, min(y for y in posb[j] if y >= x), 1) for j in range(m) for x in pos[j] if any(y >= x for y in posb[j])])
    cmp("between-two-other", s.between_ranges(B, from_other=True), [(j, max(x for x in pos[j] if x <= y), y, 1) for j in range(m) for y in posb[j] if any(x <= y for x in pos[j])])
    parts = []
    for j in range(m):
        p, out = pos[j], []
        for i in p:
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
        parts.append(out)
    want = [(j, x, y if y == n - 1 else y + 1, 0 if y == n - 1 else 1) for j in range(m) for x, y in parts[j]]
    cmp("partitions", s.partition_ranges(), want)
    cmp("between-partitions", s.between_partition_ranges(), [(j, x[1], y[0], 1) for j in range(m) for x, y in zip(parts[j], parts[j][1:])])
    r = s.between_ranges(B, attach_other=True)
    need(np.array_equal(np.asarray(r.ts), np.asarray(B)), "attached series is not the other one", sig="attach-other")
    # counts
    tot = [len(p) for p in pos]
    one = lambda x: np.atleast_1d(np.asarray(x, dtype=float)).tolist()
    div = lambda a, b: a / b if b else NAN
    eq = lambda g, w: len(g) == len(w) and all((x != x and y != y) or abs(x - y) < 1e-9 for x, y in zip(g, w))
    need(one(s.total()) == tot, f"total {one(s.total())} expected {tot}", sig="total")
    need(eq(one(s.rate()), [t / n for t in tot]), f"rate {one(s.rate())}", sig="rate")
    need(one(s.total_partitions()) == [len(p) for p in parts], f"total_partitions {one(s.total_partitions())}", sig="total-partitions")
    with np.errstate(all="ignore"):
        need(eq(one(s.partition_rate()), [div(len(p), t) for p, t in zip(parts, tot)]), f"partition_rate {one(s.partition_rate())}", sig="partition-rate")
    if c["grouped"] and not series:
        g = sorted(c["group"])
        keys = list(dict.fromkeys(g))
        G = np.array(g)
        sg = A.vbt(group_by=G).signals if False else A.vbt.signals
        kw = dict(group_by=G)
        mem = [[j for j in range(m) if g[j] == k_] for k_ in keys]
        need(one(sg.total(**kw)) == [sum(tot[j] for j in js) for js in mem], "grouped total", sig="total-grouped")
        need(eq(one(sg.rate(**kw)), [sum(tot[j] for j in js) / (n * len(js)) for js in mem]), "grouped rate", sig="rate-grouped")
        need(one(sg.total_partitions(**kw)) == [sum(len(parts[j]) for j in js) for js in mem], "grouped partitions", sig="total-partitions-grouped")
        with np.errstate(all="ignore"):
            need(eq(one(sg.partition_rate(**kw)), [div(sum(len(parts[j]) for j in js), sum(tot[j] for j in js)) for js in mem]), "grouped partition rate", sig="partition-rate-grouped")
        k = c["nth"]
        any_ = [sorted({i for j in js for i in pos[j]}) for js in mem]
        raw = one(sg.nth_index(k, return_labels=False, **kw))
        need(raw == [float(p[k]) if -len(p) <= k < len(p) else -1.0 for p in any_], f"grouped nth_index({k}) {raw} of {any_}", sig="nth-index-grouped")
        if n > 1:
            nav = one(sg.norm_avg_index(**kw))
            allp = [[i for j in js for i in pos[j]] for js in mem]
            if all(tot):
                need(eq(nav, [2 * (sum(p) / len(p)) / (n - 1) - 1 if p else NAN for p in allp]), f"grouped norm_avg_index {nav}", sig="norm-avg-grouped")
    return ["nt"] if sum(tot) >= 3 else []


# ---------------------------------------------------------------- facet: factory

@njit
def pick(from_i, to_i, col, a, every):
    out = np.empty(to_i - from_i, dtype=np.int64)
    k = 0
    for i in range(from_i, to_i):
        if a[i, col] and i % every == 0:
            out[k] = i
            k += 1
    return out[:k]


SF = vbt.signals.factory.SignalFactory
FAC = {}


def fac(mode):
    """Signal generators with their own choice functions, one per mode."""
    if mode not in FAC:
        if mode == "entries":
            FAC[mode] = SF(mode="entries", short_name="fe", input_names=["a"], param_names=["every"]).from_choice_func(
                entry_choice_func=pick, entry_settings=dict(pass_inputs=["a"], pass_params=["every"]))
        elif mode == "exits":
            FAC[mode] = SF(mode="exits", short_name="fx", input_names=["a"], param_names=["every"]).from_choice_func(
                exit_choice_func=pick, exit_settings=dict(pass_inputs=["a"], pass_params=["every"]))
        elif mode == "both":
            FAC[mode] = SF(mode="both", short_name="fb", input_names=["a", "b"], param_names=["every", "every2"]).from_choice_func(
                entry_choice_func=pick, entry_settings=dict(pass_inputs=["a"], pass_params=["every"]),
                exit_choice_func=pick, exit_settings=dict(pass_inputs=["b"], pass_params=["every2"]))
        else:
            FAC[mode] = SF(mode="chain", short_name="fc", input_names=["b"], param_names=["every"]).from_choice_func(
                exit_choice_func=pick, exit_settings=dict(pass_inputs=["b"], pass_params=["every"]))
    return FAC[mode]


@st.composite
def s_factory(draw):
    n, m = draw(shape())
    n = max(n, 2)
    k = draw(st.integers(1, 3))
    return dict(n=n, m=m, e=draw(mask(n, m)), a=draw(mask(n, m)), b=draw(mask(n, m)), ts=draw(prices(n, m)), kind=draw(st.sampled_from(["entries", "exits", "both", "chain", "STX", "STX", "STCX", "RPROB", "RPROBX", "RPROBCX", "RPROBNX", "RANDX"])),
                every=[draw(st.integers(1, 3)) for _ in range(k)], every2=[draw(st.integers(1, 3)) for _ in range(k)], stops=[draw(STOP) for _ in range(k)],
                trail=[draw(st.booleans()) for _ in range(k)], wait=draw(weighted((1, 0), (3, 1), (1, 2))), entry_wait=draw(weighted((1, 0), (3, 1), (1, 2))),
                until_next=draw(st.booleans()), skip=draw(st.booleans()), first=draw(weighted((2, True), (1, False))), seed=draw(st.integers(0, 99)),
                probs=[draw(st.sampled_from([0.0, 1.0, 0.5])) for _ in range(k)], qs=[draw(st.sampled_from([0.0, 1.0, 0.5])) for _ in range(k)])


def check_factory(c):
    n, m, kind = c["n"], c["m"], c["kind"]
    E_, A, B = frame(c["e"]), frame(c["a"]), frame(c["b"])
    ecol, k = [col(c["e"], j) for j in range(m)], len(c["every"])
    wx = dict(wait=c["wait"], until_next=c["until_next"], skip_until_exit=c["skip"])
    sel = lambda rows, every, j: (lambda e, lo, hi: [i for i in range(lo, hi) if rows[i][j] and i % every == 0])
    ks = [(q, j) for q in range(k) for j in range(m)]
    if kind == "entries":
        r = fac(kind).run((n, m), A, c["every"], pick_first=c["first"])
        w = []
        for q, j in ks:
            idx = sel(c["a"], c["every"][q], j)(None, 0, n)[:1 if c["first"] else None]
            w.append([i in idx for i in range(n)])
        same("factory-entries", r.entries, w)
    elif kind == "exits":
        r = fac(kind).run(E_, A, c["every"], pick_first=c["first"], **wx)
        same("factory-exits", r.exits, [ref_exits(ecol[j], c["wait"], c["until_next"], c["skip"], c["first"], sel(c["a"], c["every"][q], j)) for q, j in ks])
        same("factory-exits-input", r.entries, [ecol[j] for _, j in ks])
    elif kind in ("both", "chain"):
        if c["wait"] + c["entry_wait"] == 0:
            return []
        skw = dict(entry_kwargs=dict(wait=c["entry_wait"], pick_first=c["first"]))
        if kind == "both":
            r = fac(kind).run((n, m), A, B, c["every"], c["every2"], exit_kwargs=dict(wait=c["wait"]), **skw)
            w = [ref_both(n, c["entry_wait"], c["wait"], c["first"], True, sel(c["a"], c["every"][q], j), sel(c["b"], c["every2"][q], j)) for q, j in ks]
            same("factory-both-entries", r.entries, [x[0] for x in w])
        else:
            r = fac(kind).run(E_, B, c["every"], wait=c["wait"], pick_first=True, entry_kwargs=dict(wait=c["entry_wait"]))
            w = [ref_both(n, c["entry_wait"], c["wait"], True, True, from_mask(c["e"], j), sel(c["b"], c["every"][q], j)) for q, j in ks]
            same("factory-chain-entries", r.new_entries, [x[0] for x in w])
            same("factory-chain-input", r.entries, [ecol[j] for _, j in ks])
        same(f"factory-{kind}-exits", r.exits, [x[1] for x in w])
    elif kind in ("STX", "STCX"):
        ts = num(c["ts"])
        T = frame(ts, False, float)
        stops = [NAN if x is None else x for x in c["stops"]]
        ch = lambda q, j: ref_stop(col(ts, j), [stops[q]] * n, [c["trail"][q]] * n)
        if kind == "STX":
            r = vbt.STX.run(E_, T, stops, trailing=c["trail"], pick_first=c["first"], **wx)
            same("stx", r.exits, [ref_exits(ecol[j], c["wait"], c["until_next"], c["skip"], c["first"], ch(q, j)) for q, j in ks])
        else:
            if c["wait"] + c["entry_wait"] == 0:
                return []
            r = vbt.STCX.run(E_, T, stops, trailing=c["trail"], pick_first=c["first"], wait=c["wait"], entry_wait=c["entry_wait"])
            w = [ref_both(n, c["entry_wait"], c["wait"], True, c["first"], from_mask(c["e"], j), ch(q, j)) for q, j in ks]
            same("stcx-entries", r.new_entries, [x[0] for x in w])
            same("stcx-exits", r.exits, [x[1] for x in w])
        lv = list(r.wrapper.columns.get_level_values(0))
        need(all((a != a and b != b) or a == b for a, b in zip(lv, [stops[q] for q, _ in ks])), f"stop level {lv}", sig="stx-labels")
    elif kind == "RPROB":
        f = lambda: vbt.RPROB.run((n, m), c["probs"], seed=c["seed"], pick_first=c["first"])
        g = cols(f().entries)
        need(g == cols(f().entries), "not reproducible under the same seed", sig="random-seed")
        for (q, j), x in zip(ks, g):
            p = c["probs"][q]
            w = n if not c["first"] else 1
            need(sum(x) == {0.0: 0, 1.0: w}.get(p, sum(x)) and (not c["first"] or sum(x) <= 1), f"probability {p}: {x}", sig="rprob")
    elif kind == "RPROBX":
        f = lambda: vbt.RPROBX.run(E_, c["probs"], seed=c["seed"], **wx)
        g = cols(f().exits)
        need(g == cols(f().exits), "not reproducible under the same seed", sig="random-seed")
        for (q, j), x in zip(ks, g):
            p = c["probs"][q]
            need(window_exits(ecol[j], x, c["wait"], c["until_next"]), f"exit outside its window: {ecol[j]} {x}", sig="rprobx-window")
            if p != 0.5:
                w = ref_exits(ecol[j], c["wait"], c["until_next"], c["skip"], True, lambda e, lo, hi: list(range(lo, hi)) if p else [])
                need(x == w, f"certain exits {x} expected {w}", sig="rprobx")
    elif kind == "RPROBCX":
        if c["wait"] + c["entry_wait"] == 0:
            return []
        r = vbt.RPROBCX.run(E_, c["probs"], seed=c["seed"], wait=c["wait"], entry_wait=c["entry_wait"])
        for (q, j), a, x in zip(ks, cols(r.new_entries), cols(r.exits)):
            p = c["probs"][q]
            need(all(ecol[j][i] for i in range(n) if a[i]), "an entry that was not given", sig="rprobcx-new")
            if p != 0.5:
                w = ref_both(n, c["entry_wait"], c["wait"], True, True, from_mask(c["e"], j), lambda e, lo, hi: list(range(lo, hi)) if p else [])
                need((a, x) == w, f"certain chain {(a, x)} expected {w}", sig="rprobcx")
            ia, ib = [i for i in range(n) if a[i]], [i for i in range(n) if x[i]]
            need(len(ia) - len(ib) in (0, 1) and all(y - z >= c["wait"] for z, y in zip(ia, ib)) and all(z - y >= c["entry_wait"] for z, y in zip(ia[1:], ib)), f"chain {ia} {ib}", sig="rprobcx-alternate")
    elif kind == "RPROBNX":
        if c["wait"] + c["entry_wait"] == 0:
            return []
        r = vbt.RPROBNX.run((n, m), c["probs"], c["qs"], seed=c["seed"], entry_wait=c["entry_wait"], exit_wait=c["wait"])
        for (q, j), a, x in zip(ks, cols(r.entries), cols(r.exits)):
            ia, ib = [i for i in range(n) if a[i]], [i for i in range(n) if x[i]]
            need(len(ia) - len(ib) in (0, 1) and all(y - z >= c["wait"] for z, y in zip(ia, ib)) and all(z - y >= c["entry_wait"] for z, y in zip(ia[1:], ib)), f"chain {ia} {ib}", sig="rprobnx-alternate")
            if c["probs"][q] != 0.5 and c["qs"][q] != 0.5:
                w = ref_both(n, c["entry_wait"], c["wait"], True, True, lambda e, lo, hi: list(range(lo, hi)) if c["probs"][q] else [], lambda e, lo, hi: list(range(lo, hi)) if c["qs"][q] else [])
                need((a, x) == w, f"certain {(a, x)} expected {w}", sig="rprobnx")
    else:
        f = lambda: vbt.RANDX.run(E_, seed=c["seed"], **wx)
        g = cols(f().exits)
        need(g == cols(f().exits), "not reproducible under the same seed", sig="random-seed")
        for j, x in enumerate(g):
            need(window_exits(ecol[j], x, c["wait"], c["until_next"]), f"exit outside its window: {ecol[j]} {x}", sig="randx-window")
            if c["until_next"] and c["wait"] == 1:
                idx = [i for i in range(n) if ecol[j][i]]
                w = sum(1 for a, b in zip(idx, idx[1:] + [n]) if b - a > 1)
                need(sum(x) == w, f"{sum(x)} exits, {w} entries have room", sig="randx-count")
    return (["nt"] if sum(map(sum, c["e"])) >= 2 and k >= 2 else []) + [kind]


FACETS = [
    Facet("place", s_place, check_place, 400, 10000, "at least two entries over four bars", shards=1, tshards=1),
    Facet("stops", s_stops, check_stops, 500, 12000, "at least one stop fired", shards=1, tshards=2),
    Facet("ohlc", s_ohlc, check_ohlc, 500, 12000, "at least one stop fired", shards=1, tshards=2),
    Facet("random", s_random, check_random, 700, 12000, "requests that leave room for more than one outcome", shards=2, tshards=2),
    Facet("rank", s_rank, check_rank, 400, 8000, "at least three signals", shards=1, tshards=2),
    Facet("ranges", s_ranges, check_ranges, 300, 6000, "at least three signals", shards=1, tshards=2),
    Facet("factory", s_factory, check_factory, 500, 8000, "several parameter values with two entries or more", shards=2, tshards=2),
]
