"""C18: label generators report exactly the documented future statistic.

Oracle: plain Python over the stated future window of each bar; extrema are found by a leg-by-leg search over the bars that
have a price and are additionally judged by what an extremum must be (alternation, thresholds, extreme since the
previous one and until the confirming move)."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.labels import nb as lnb
from vectorbt.labels.enums import TrendMode

from vbtcheck.core import Facet
from vbtcheck.util import NAN, arr, need, weighted

ASSUMPTIONS = [
    "The first bar with a price is the first extremum, of the kind the first move that exceeds a threshold gives it.",
    "With asymmetric thresholds a later counter-move below the threshold may pass an extremum; it stays one (code and tests agree).",
    "The last extremum is the running one when the data ends; bars from it on are unlabelled.",
    "A threshold given per element applies at the extremum from which the move is measured; thresholds are taken in magnitude.",
    "Bars without a price are passed over when looking for extrema; trend labels of a range containing one are not judged, except binary ones.",
    "Exponentially weighted figures weigh every future bar and require at least `window` of them; their standard deviation is pandas's.",
]


def index_of(n, kind):
    return pd.date_range("2020-01-01", periods=n, freq="D") if kind == "dates" else pd.Index([10 * (i + 1) for i in range(n)], name="bar")


@st.composite
def prices(draw, n, m, nans=True, kind=None):
    """Prices that are multiples of 1/8 so that dyadic thresholds are met exactly."""
    kind = draw(st.sampled_from(["walk", "free", "few"]))
    cols = []
    for _ in range(m):
        if kind == "few":
            v = [draw(st.sampled_from([2.0, 3.0, 4.0, 6.0, 8.0])) for _ in range(n)]
        elif kind == "free":
            v = [draw(st.integers(1, 160)) / 8.0 for _ in range(n)]
        else:
            v, x = [], 64
            for _ in range(n):
                x = max(1, min(400, x + draw(st.integers(-24, 24))))
                v.append(x / 8.0)
        cols.append(v)
    out = [list(r) for r in zip(*cols)] if n else []
    if nans:
        k = draw(weighted((4, 0), (1, 1), (1, 3)))
        for _ in range(k):
            out[draw(st.integers(0, n - 1))][draw(st.integers(0, m - 1))] = None
        for _ in range(draw(weighted((5, 0), (1, 1), (1, 2)))):
            j = draw(st.integers(0, m - 1))
            for i in range(min(n, draw(st.integers(1, 3)))):
                out[i][j] = None
    return out


@st.composite
def shape(draw, hi=12):
    return draw(weighted((1, 1), (1, 2), (6, 0))) or draw(st.integers(3, hi)), draw(weighted((1, 1), (3, 2), (2, 3)))


def close_of(c):
    a = arr(c["x"]).reshape(c["n"], c["m"])
    idx = index_of(c["n"], c["index"])
    if c["int"] and not np.isnan(a).any():
        a = np.floor(a * 8).astype(np.int64)
    df = pd.DataFrame(a, index=idx, columns=pd.Index(list("abc")[:c["m"]], name=c["cname"]))
    if c["series"] and c["m"] == 1:
        return df["a"], a.astype(float)
    return df, a.astype(float)


def cols(obj):
    a = np.asarray(obj, dtype=float)
    return (a[:, None] if a.ndim == 1 else a).T.tolist()


def close_to(a, b, rtol=1e-8, atol=1e-9):
    return (a != a and b != b) or (a == b) or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= atol + rtol * abs(b))


def judge(out, want, combos, close, c, what, names, rtol=1e-8, atol=1e-9):
    """`want[k][j]` = expected labels of parameter combination k and column j."""
    need(out.index.equals(close.index), f"{what}: index {out.index}", sig=what + "-index")
    got = cols(out)
    flat = [w for k in want for w in k]
    need(len(got) == len(flat), f"{what}: {len(got)} columns, expected {len(flat)}", sig=what + "-columns")
    for q, (g, w) in enumerate(zip(got, flat)):
        ok = len(g) == len(w) and all(y == "skip" or close_to(x, y, rtol, atol) for x, y in zip(g, w))
        need(ok, f"{what} {combos[q // c['m']]} of {[row[q % c['m']] for row in c['x']]}: {g}, expected {w}", sig=what)
    if isinstance(out, pd.DataFrame) and names is not None:
        lv = [list(out.columns.get_level_values(x)) for x in names]
        for q in range(len(flat)):
            need(all(close_to(float(lv[p][q]), float(combos[q // c["m"]][p])) for p in range(len(names))), f"{what}: labelled {[l[q] for l in lv]}, is {combos[q // c['m']]}", sig=what + "-labels")
        if isinstance(close, pd.DataFrame) and (c["m"] > 1 or c["cname"]):  # an unnamed level of one value is dropped
            need(list(out.columns.get_level_values(-1)) == list(close.columns) * len(combos), f"{what}: source columns {list(out.columns)}", sig=what + "-labels")


# ---------------------------------------------------------------- facet: window

@st.composite
def s_window(draw):
    n, m = draw(shape())
    k = draw(weighted((2, 1), (2, 2)))
    return dict(n=n, m=m, x=draw(prices(n, m)), index=draw(st.sampled_from(["dates", "named"])), series=draw(st.booleans()), cname=draw(st.sampled_from([None, "sym"])),
                int=draw(weighted((5, False), (1, True))), fn=draw(st.sampled_from(["mean", "std", "min", "max", "meanlb"])),
                windows=[draw(weighted((2, 1), (3, 2), (3, 3), (2, 5), (1, 14))) for _ in range(k)], ewms=[draw(weighted((2, False), (1, True))) for _ in range(k)],
                wait=draw(weighted((2, 0), (3, 1), (2, 2), (1, 4), (1, 15))), adjust=draw(st.booleans()), ddof=draw(weighted((2, 0), (2, 1), (1, 2))), default=draw(weighted((3, False), (1, True))))


def plain_window(v, wait, window, fn, ddof=0):
    out = []
    for i in range(len(v)):
        w = v[i + wait: i + wait + window]
        if len(w) < window or any(x != x for x in w):
            out.append(NAN)
        elif fn == "min":
            out.append(min(w))
        elif fn == "max":
            out.append(max(w))
        elif fn == "mean":
            out.append(math.fsum(w) / window)
        else:
            mu = math.fsum(w) / window
            out.append(math.sqrt(math.fsum((x - mu) ** 2 for x in w) / (window - ddof)) if window > ddof else NAN)
    return out


def ewm_window(v, wait, window, fn, adjust):
    """Future bars weighted (1 - alpha) ** distance, alpha = 2 / (window + 1)."""
    n, alpha = len(v), 2.0 / (window + 1)
    if fn == "std":
        r = pd.Series(v[::-1]).ewm(span=window, min_periods=window, adjust=adjust).std().to_numpy()[::-1]
        return [float(r[i + wait]) if i + wait < n else NAN for i in range(n)]
    out = []
    for i in range(n):
        w = v[i + wait:]
        have = [k for k, x in enumerate(w) if x == x]
        if len(have) < window or not w:
            out.append(NAN)
            continue
        if adjust:
            ws = [(1 - alpha) ** (k - have[0]) for k in have]
            out.append(math.fsum(a * w[k] for a, k in zip(ws, have)) / math.fsum(ws))
        else:
            r = pd.Series(w[::-1]).ewm(span=window, min_periods=window, adjust=False).mean().to_numpy() if len(have) < len(w) else None
            if r is not None:
                out.append(float(r[-1]))
                continue
            y = w[-1]
            for x in w[-2::-1]:
                y = alpha * x + (1 - alpha) * y
            out.append(y)
    return out


def check_window(c):
    close, a = close_of(c)
    fn, W, Ew, wait = c["fn"], c["windows"], c["ewms"], c["wait"]
    kw = {} if c["default"] else dict(wait=wait)
    if c["default"]:
        wait = 1
    V = a.T.tolist()
    stat = "mean" if fn == "meanlb" else fn
    if fn in ("min", "max"):
        cls = vbt.FMIN if fn == "min" else vbt.FMAX
        combos = [(w,) for w in W]
        out = cls.run(close, W, **kw)
        res = out.fmin if fn == "min" else out.fmax
        names = [cls.__name__.lower() + "_window"]
        want = [[plain_window(v, wait, w, fn) for v in V] for w in W]
    else:
        adjust, ddof = (False, 0) if c["default"] else (c["adjust"], c["ddof"])
        if not c["default"]:
            kw.update(adjust=adjust)
            if fn == "std":
                kw.update(ddof=ddof)
        cls = {"mean": vbt.FMEAN, "std": vbt.FSTD, "meanlb": vbt.MEANLB}[fn]
        if any(e and any(x != x for v in V for x in v) and not adjust and w == 3 for w, e in zip(W, Ew)):
            return []  # pandas itself is inconsistent for com == 1 with gaps
        combos = list(zip(W, Ew))
        out = cls.run(close, W, ewm=Ew, **kw)
        res = {"mean": lambda: out.fmean, "std": lambda: out.fstd, "meanlb": lambda: out.labels}[fn]()
        names = [cls.__name__.lower() + "_window", cls.__name__.lower() + "_ewm"]
        want = [[ewm_window(v, wait, w, stat, adjust) if e else plain_window(v, wait, w, stat, ddof) for v in V] for w, e in combos]
        if fn == "meanlb":
            want = [[[(x - p) / p for x, p in zip(l, v)] for l, v in zip(k, V)] for k in want]
    tol = dict(rtol=1e-6, atol=1e-5) if fn == "std" else {}
    judge(res, want, combos, close, c, fn, names, **tol)
    lab = sum(x == x for k in want for l in k for x in l)
    return (["nt"] if lab >= 2 else []) + [fn] + (["ewm"] if any(Ew) and fn not in ("min", "max") else []) + (["wait0"] if wait == 0 else [])


# ---------------------------------------------------------------- facet: fixed

@st.composite
def s_fixed(draw):
    n, m = draw(shape())
    return dict(n=n, m=m, x=draw(prices(n, m)), index=draw(st.sampled_from(["dates", "named"])), series=draw(st.booleans()), cname=draw(st.sampled_from([None, "sym"])),
                int=draw(weighted((3, False), (1, True))), ns=[draw(weighted((2, 0), (3, 1), (2, 2), (2, 4), (1, 11), (1, 12), (1, 30))) for _ in range(draw(st.integers(1, 3)))],
                window=draw(weighted((1, 0), (3, 1), (3, 2), (2, 4), (1, 14))), wait=draw(weighted((2, 0), (3, 1), (2, 2), (1, 14))),
                ths=[[draw(TH0), draw(TH0)] for _ in range(draw(st.integers(1, 2)))], default=draw(weighted((4, False), (1, True))), elem=draw(weighted((2, None), (1, "col"), (1, "row"), (1, "full"))),
                seed=draw(st.integers(0, 99)))


TH0 = weighted((2, 0.0), (3, 0.125), (3, 0.25), (2, 0.5), (1, -0.25), (1, 1.0))
TH = weighted((3, 0.125), (3, 0.25), (2, 0.5), (1, -0.25), (1, 1.0), (1, 0.0625))


def spread(base, kind, n, m, salt):
    """(argument, rows) of a threshold given per column, row or element; neighbours of `base` chosen by position."""
    opts = [base, 0.25, 0.5, base, 0.125, base]
    pick = lambda i, j: opts[(salt + 3 * i + 5 * j) % len(opts)]
    if kind is None:
        return base, [[base] * m for _ in range(n)]
    if kind == "col":
        r = [pick(0, j) for j in range(m)]
        return np.array(r), [list(r) for _ in range(n)]
    if kind == "row":
        r = [pick(i, 0) for i in range(n)]
        return np.array(r)[:, None], [[x] * m for x in r]
    rows = [[pick(i, j) for j in range(m)] for i in range(n)]
    return np.array(rows), rows


def th_args(c, close):
    """Threshold arguments for the factory and their (pos, neg) rows, one per combination."""
    n, m = c["n"], c["m"]
    series = not isinstance(close, pd.DataFrame)
    pos, neg, rows = [], [], []
    for k, (p, q) in enumerate(c["ths"]):
        pa, pr = spread(p, c["elem"], n, m, c["seed"] + k)
        qa, qr = spread(q, c["elem"], n, m, c["seed"] + 2 * k + 1)
        if series and c["elem"] is not None:
            pa, qa = ((x[:, 0] if getattr(x, "ndim", 0) == 2 else x[0].item()) for x in (pa, qa))
        pos.append(pa)
        neg.append(qa)
        rows.append((pr, qr))
    return pos, neg, rows


def check_fixed(c):
    close, a = close_of(c)
    V = a.T.tolist()
    n = c["n"]
    want = [[[(v[i + k] - v[i]) / v[i] if i + k < n else NAN for i in range(n)] for v in V] for k in c["ns"]]
    r = vbt.FIXLB.run(close, c["ns"])
    judge(r.labels, want, [(k,) for k in c["ns"]], close, c, "fixed", ["fixlb_n"])
    # breakout
    pos, neg, rows = th_args(c, close)
    window, wait = c["window"], c["wait"]
    if c["default"]:
        wait = 1
        r = vbt.BOLB.run(close, window=window, pos_th=pos, neg_th=neg)
    else:
        r = vbt.BOLB.run(close, window=window, pos_th=pos, neg_th=neg, wait=wait)
    want = []
    for pr, qr in rows:
        k = []
        for j, v in enumerate(V):
            out = []
            for i in range(n):
                p, q, lab = abs(pr[i][j]), abs(qr[i][j]), 0.0
                for x in v[i + wait: i + wait + window]:
                    if p > 0 and x >= v[i] * (1 + p):
                        lab = 1.0
                        break
                    if q > 0 and x <= v[i] * (1 - q):
                        lab = -1.0
                        break
                out.append(lab)
            k.append(out)
        want.append(k)
    judge(r.labels, want, rows, close, c, "breakout", None)
    for p, q in c["ths"]:
        if q != 1:
            u = float(lnb.get_symmetric_pos_th_nb(abs(q)))
            need(close_to((1 + u) * (1 - abs(q)), 1.0), f"symmetric positive threshold of {abs(q)}: {u}", sig="symmetric")
        d = float(lnb.get_symmetric_neg_th_nb(abs(p)))
        need(close_to((1 + abs(p)) * (1 - d), 1.0), f"symmetric negative threshold of {abs(p)}: {d}", sig="symmetric")
    return ["nt"] if any(x in (1.0, -1.0) for k in want for l in k for x in l) and n >= 3 else []


# ---------------------------------------------------------------- facet: extrema / trend

@st.composite
def s_trend(draw):
    n, m = draw(shape(16))
    return dict(n=n, m=m, x=draw(prices(n, m)), index=draw(st.sampled_from(["dates", "named"])), series=draw(st.booleans()), cname=draw(st.sampled_from([None, "sym"])),
                int=draw(weighted((5, False), (1, True))), ths=[[draw(TH), draw(TH)] for _ in range(draw(st.integers(1, 2)))],
                elem=draw(weighted((3, None), (1, "col"), (1, "row"), (1, "full"))), seed=draw(st.integers(0, 99)),
                mode=draw(st.sampled_from(list(TrendMode._fields))), byname=draw(st.booleans()), zero=draw(weighted((9, False), (1, True))))


def extrema(v, p, q):
    """Leg by leg: {bar: 1 | -1} over the bars with a price; p/q = thresholds per bar (magnitudes)."""
    bars = [i for i in range(len(v)) if v[i] == v[i]]
    found = []
    if not bars:
        return found
    first = bars[0]
    up = next((i for i in bars[1:] if v[i] >= v[first] * (1 + p[first])), None)
    dn = next((i for i in bars[1:] if v[i] <= v[first] * (1 - q[first])), None)
    if up is None and dn is None:
        return found
    rising = dn is None or (up is not None and up < dn)
    found.append((first, -1 if rising else 1))
    at = up if rising else dn
    while True:
        best, turn = at, None
        for i in [b for b in bars if b > at]:
            if (v[i] > v[best]) if rising else (v[i] < v[best]):
                best = i
            elif (v[i] <= v[best] * (1 - q[best])) if rising else (v[i] >= v[best] * (1 + p[best])):
                turn = i
                break
        found.append((best, 1 if rising else -1))
        if turn is None:
            return found
        at, rising = turn, not rising


def check_trend(c):
    close, a = close_of(c)
    V, n, m = a.T.tolist(), c["n"], c["m"]
    pos, neg, rows = th_args(c, close)
    if c["zero"]:
        for kw in (dict(pos_th=0.0, neg_th=0.25), dict(pos_th=0.25, neg_th=0.0)):
            try:
                vbt.LEXLB.run(close, **kw)
                refused = False
            except ValueError as e:
                refused = "cannot be 0" in str(e)
            need(refused or n < 2, f"threshold of zero accepted: {kw}", sig="zero-threshold")
        return []
    E = []
    for pr, qr in rows:
        E.append([extrema(V[j], [abs(pr[i][j]) for i in range(n)], [abs(qr[i][j]) for i in range(n)]) for j in range(m)])
    lex = vbt.LEXLB.run(close, pos_th=pos, neg_th=neg).labels
    want = [[[float(dict(e).get(i, 0)) for i in range(n)] for e in k] for k in E]
    judge(lex, want, rows, close, c, "extrema", None)
    got = cols(lex)
    for q, g in enumerate(got):
        v, (pr, qr), j = V[q % m], rows[q // m], q % m
        ex = [i for i in range(n) if g[i]]
        for s, t in zip(ex, ex[1:]):
            need(g[s] == -g[t], f"extrema do not alternate: {g}", sig="extrema-alternate")
            sgn = g[t]
            enough = lambda x: x >= v[s] * (1 + abs(pr[s][j])) if sgn == 1 else x <= v[s] * (1 - abs(qr[s][j]))
            need(enough(v[t]), f"move from {s} to {t} below the threshold: {v} {g}", sig="extrema-threshold")
            need(all(sgn * x <= sgn * v[t] for x in v[s:t + 1] if x == x), f"{t} is no extremum since {s}: {v} {g}", sig="extrema-true")
            seen = next(i for i in range(s + 1, t + 1) if enough(v[i]))
            need(s == ex[0] or all(sgn * x >= sgn * v[s] for x in v[s:seen + 1] if x == x), f"{s} is no extremum until {seen}: {v} {g}", sig="extrema-true")
    mode = c["mode"]
    r = vbt.TRENDLB.run(close, pos_th=pos, neg_th=neg, mode=mode if c["byname"] else getattr(TrendMode, mode))
    want = []
    for (pr, qr), k in zip(rows, E):
        res = []
        for j, e in enumerate(k):
            v, out = V[j], [NAN] * n
            for (s, _), (t, kind) in zip(e, e[1:]):
                seg = v[s:t + 1]
                gap = any(x != x for x in seg)
                lo, hi = (min(seg), max(seg)) if not gap else (NAN, NAN)
                p, q = abs(pr[s][j]), abs(qr[s][j])
                for i in range(s, t):
                    x = v[i]
                    if mode == "Binary":
                        out[i] = float(kind == 1)
                    elif gap:
                        out[i] = "skip"
                    elif mode == "BinaryCont":
                        out[i] = (hi - x) / (hi - lo)
                    elif mode == "PctChange":
                        out[i] = v[t] / x - 1
                    elif mode == "PctChangeNorm":
                        out[i] = 1 - x / v[t] if kind == 1 else v[t] / x - 1
                    elif kind == 1:  # saturated: certain once the move left to the peak exceeds the threshold
                        out[i] = 1.0 if hi >= x * (1 + p) else (hi - x) / (hi - hi / (1 + p))
                    else:
                        out[i] = 0.0 if lo <= x * (1 - q) else 1 - (x - lo) / (lo / (1 - q) - lo)
            res.append(out)
        want.append(res)
    judge(r.labels, want, rows, close, c, "trend-" + mode, None)
    return (["nt"] if max(len(e) for k in E for e in k) >= 3 else []) + [mode]


FACETS = [
    Facet("window", s_window, check_window, 900, 9000, "at least two labelled bars", shards=2, tshards=4),
    Facet("fixed", s_fixed, check_fixed, 500, 5000, "at least three bars, one of which breaks out", shards=2, tshards=4),
    Facet("trend", s_trend, check_trend, 900, 9000, "at least three extrema in a column", shards=2, tshards=4),
]
