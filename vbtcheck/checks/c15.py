"""C15: built-in indicators match their definitions.

Oracle: per-column references written from the definitions; only the exponentially weighted deviation is taken from pandas. Prices are
multiples of 1/4 so that moving sums are exact and 0/0 cases are decided by the definition, not by rounding."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt

from vbtcheck.core import Facet
from vbtcheck.util import NAN, fl, need, vec, weighted

ASSUMPTIONS = [
    "A moving statistic of a window is defined when the window holds `window` known values (exponential: once that many were seen).",
    "Volume of an unchanged close counts as upward volume (pinned behaviour); unknown volume counts as zero.",
    "The true range leaves out terms that need an unknown previous close.",
]


# ---------------------------------------------------------------- references (lists of floats, one column)

def sma(x, w):
    out = []
    for i in range(len(x)):
        v = [y for y in x[max(0, i - w + 1):i + 1] if y == y]
        out.append(sum(v) / len(v) if len(v) == w else NAN)
    return out


def ema(x, w, adjust):
    """Weights decay with every bar, known or not; without adjustment a known value has weight alpha against the decayed past."""
    al, out, y, since, nobs = 2.0 / (w + 1), [], NAN, 0, 0
    for i, v in enumerate(x):
        since += 1
        if v == v:
            nobs += 1
            if adjust:
                ws = [((1 - al) ** (i - k), x[k]) for k in range(i + 1) if x[k] == x[k]]
                y = sum(a * b for a, b in ws) / sum(a for a, _ in ws)
            elif y != y:
                y = v
            else:
                old = (1 - al) ** since
                y = (old * y + al * v) / (old + al)
            since = 0
        out.append(y if nobs >= w else NAN)
    return out


def ma(x, w, ewm, adjust):
    return ema(x, w, adjust) if ewm else sma(x, w)


def mstd(x, w, ewm, adjust, ddof):
    if ewm:
        return list(pd.Series(x, dtype=float).ewm(span=w, min_periods=w, adjust=adjust).std())
    out = []
    for i in range(len(x)):
        v = [y for y in x[max(0, i - w + 1):i + 1] if y == y]
        if len(v) < w or len(v) - ddof <= 0:
            out.append(NAN)
            continue
        mu = sum(v) / len(v)
        out.append(math.sqrt(sum((y - mu) ** 2 for y in v) / (len(v) - ddof)))
    return out


def div(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def rsi(x, w, ewm, adjust):
    d = [NAN] + [b - a for a, b in zip(x, x[1:])]
    up, down = [v if not v < 0 else 0.0 for v in d], [-v if not v > 0 else 0.0 for v in d]
    u, v = ma(up, w, ewm, adjust), ma(down, w, ewm, adjust)
    return [100.0 * div(a, a + b) if a == a and b == b else NAN for a, b in zip(u, v)]


def stoch(h, l, c, k, d, ewm, adjust):
    pk = []
    for i in range(len(c)):
        hh, ll = [y for y in h[max(0, i - k + 1):i + 1] if y == y], [y for y in l[max(0, i - k + 1):i + 1] if y == y]
        ok = len(hh) == k and len(ll) == k
        pk.append(div(100.0 * (c[i] - min(ll)), max(hh) - min(ll)) if ok else NAN)
    return pk, ma(pk, d, ewm, adjust)


def macd(x, f, s, g, e1, e2, adjust):
    m = [a - b for a, b in zip(ma(x, f, e1, adjust), ma(x, s, e1, adjust))]
    return m, ma(m, g, e2, adjust)


def trange(h, l, c):
    out = []
    for i in range(len(c)):
        terms = [h[i] - l[i]]
        if i and c[i - 1] == c[i - 1]:
            terms += [abs(h[i] - c[i - 1]), abs(l[i] - c[i - 1])]
        out.append(max(terms) if h[i] == h[i] and l[i] == l[i] else NAN)
    return out


def obv(c, v):
    out, s = [], 0.0
    for i in range(len(c)):
        x = v[i] if v[i] == v[i] else 0.0
        s += -x if i and c[i] < c[i - 1] else x
        out.append(s)
    return out


# ---------------------------------------------------------------- cases

@st.composite
def walk(draw, n, m, nan):
    out = []
    for _ in range(m):
        p, col = draw(st.integers(20, 200)), []
        for _ in range(n):
            p = max(4, p + draw(weighted((1, 0), (1, 1), (1, -1), (1, 3), (1, -4), (1, 8), (1, -8))))
            col.append(p / 4.0)
        out.append(col)
    rows = [[out[j][i] for j in range(m)] for i in range(n)]
    if nan:
        for _ in range(draw(st.integers(0, 3))):
            rows[draw(st.integers(0, n - 1))][draw(st.integers(0, m - 1))] = None
    return rows


WIN = st.integers(1, 6)


@st.composite
def base(draw, k_params):
    n, m = draw(weighted((1, 5), (1, 2), (2, 9), (3, 14), (1, 30))), draw(weighted((1, 1), (2, 2), (1, 3)))
    k = draw(st.integers(1, 3))
    return dict(n=n, m=m, k=k, close=draw(walk(n, m, True)), series=draw(st.booleans()), adjust=draw(weighted((2, False), (1, True))),
                ewm=draw(vec(st.booleans(), k)), ewm2=draw(vec(st.booleans(), k)), scalar_ewm=draw(st.booleans()), ddof=draw(st.integers(0, 2)),
                **{"w%d" % i: draw(vec(WIN, k)) for i in range(k_params)})


def frames(case, *keys):
    n, m = case["n"], case["m"]
    out = []
    for key in keys:
        v = np.array([[fl(x) for x in r] for r in case[key]], dtype=float)
        df = pd.DataFrame(v, index=pd.date_range("2022-01-03", periods=n, freq="D"), columns=list("xyz")[:m])
        out.append(df["x"] if case["series"] and m == 1 else df)
    return out


def col(f, j):
    return [float(x) for x in np.asarray(f, dtype=float).reshape(len(f), -1)[:, j]]


def params(case, vals):
    """A list of values, or a scalar when there is one combination / all values agree and a scalar is wanted."""
    if case["k"] == 1 or (case["scalar_ewm"] and len(set(vals)) == 1 and isinstance(vals[0], bool)):
        return vals[0]
    return list(vals)


def match(ind, names, refs, frame, what, atol=1e-6):
    """refs[p][output][column] against the blocks of the outputs."""
    n = len(frame)
    m = 1 if frame.ndim == 1 else frame.shape[1]
    for o, name in enumerate(names):
        out = getattr(ind, name)
        exp = np.array([refs[p][o][j] for p in range(len(refs)) for j in range(m)], dtype=float).T.reshape(n, len(refs) * m)
        got = np.asarray(out, dtype=float).reshape(n, -1)
        need(got.shape == exp.shape, "%s.%s: shape %s, expected %s" % (what, name, got.shape, exp.shape))
        with np.errstate(all="ignore"):
            ok = np.isclose(got, exp, rtol=1e-6, atol=atol, equal_nan=True)
        if not ok.all():
            need(False, "%s.%s differs at %s: got %s, expected %s" % (what, name, np.argwhere(~ok)[0].tolist(), got[~ok][0], exp[~ok][0]))
        need(out.index.equals(frame.index), "%s.%s: index" % (what, name))
        if out.ndim == 2 and m > 1:
            last = out.columns.get_level_values(-1)
            need(list(last) == list(frame.columns) * len(refs), "%s.%s: columns %s" % (what, name, list(out.columns)))


def singles(case, run, names, ind, m, what):
    """Running the combinations one by one gives the same blocks."""
    for p in range(case["k"]):
        one = run(p)
        for name in names:
            a = np.asarray(getattr(one, name), dtype=float).reshape(case["n"], -1)
            b = np.asarray(getattr(ind, name), dtype=float).reshape(case["n"], -1)[:, p * m:(p + 1) * m]
            need(np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), "%s.%s: combination %d alone differs" % (what, name, p))


def nontrivial(refs):
    return ["nt"] if sum(1 for r in refs for o in r for c in o for x in c if x == x) > 6 and len(refs) > 1 else []


def check_ma(case):
    (c,) = frames(case, "close")
    keep = c.copy()
    m = case["m"]
    w, e, adj = case["w0"], case["ewm"], case["adjust"]
    if case["scalar_ewm"]:
        e = [e[0]] * len(w)
    ind = vbt.MA.run(c, params(case, w), ewm=params(case, e), adjust=adj)
    refs = [[[ma(col(c, j), a, b, adj) for j in range(m)]] for a, b in zip(w, e)]
    match(ind, ["ma"], refs, c, "MA")
    singles(case, lambda p: vbt.MA.run(c, w[p], ewm=e[p], adjust=adj), ["ma"], ind, m, "MA")
    s = vbt.MSTD.run(c, params(case, w), ewm=params(case, e), adjust=adj, ddof=case["ddof"])
    refs2 = [[[mstd(col(c, j), a, b, adj, case["ddof"]) for j in range(m)]] for a, b in zip(w, e)]
    match(s, ["mstd"], refs2, c, "MSTD")
    need(c.equals(keep), "the price was modified")
    # helpers
    v = np.asarray(ind.ma, dtype=float).reshape(case["n"], -1)
    cl = np.tile(np.asarray(c, dtype=float).reshape(case["n"], -1), (1, case["k"]))
    with np.errstate(invalid="ignore"):
        lvl = 12.25
        for nm, got, exp in (("ma_above", ind.ma_above(lvl), v > lvl), ("ma_below", ind.ma_below(lvl), v < lvl), ("ma_equal", ind.ma_equal(lvl), v == lvl),
                             ("close_above", ind.close_above(ind.ma), cl > v), ("close_below", ind.close_below(ind.ma), cl < v)):
            g = np.asarray(got).reshape(case["n"], -1)
            need(np.array_equal(g, exp), "%s: %s, expected %s" % (nm, g.tolist(), exp.tolist()))
        x = np.asarray(ind.ma_crossed_above(ind.close)).reshape(case["n"], -1)
        y = np.asarray(ind.ma_crossed_below(ind.close)).reshape(case["n"], -1)
    for j in range(v.shape[1]):
        for i in range(case["n"]):
            up, dn = crossed(v[:, j], cl[:, j], i), crossed(cl[:, j], v[:, j], i)
            need(bool(x[i, j]) == up, "ma_crossed_above at bar %d: %s" % (i, bool(x[i, j])))
            need(bool(y[i, j]) == dn, "ma_crossed_below at bar %d: %s" % (i, bool(y[i, j])))
    return nontrivial(refs)


def crossed(a, b, i):
    """Above at bar i after having been below, equal bars in between keep the state, unknown bars forget it."""
    if not a[i] > b[i]:
        return False
    if i and a[i - 1] > b[i - 1]:
        return False
    k = i - 1
    while k >= 0 and a[k] == a[k] and b[k] == b[k]:
        if a[k] < b[k]:
            return True
        k -= 1
    return False


def check_bbands(case):
    (c,) = frames(case, "close")
    m, w, e, adj, al, dd = case["m"], case["w0"], case["ewm"], case["adjust"], [float(x) / 2 for x in case["w1"]], case["ddof"]
    default = case["w1"][0] == 6
    if default:
        al = [2] * len(w)
    kw = {} if default else dict(alpha=params(case, al))
    ind = vbt.BBANDS.run(c, window=params(case, w), ewm=params(case, e), adjust=adj, ddof=dd, **kw)
    refs, extra = [], []
    for a, b, x in zip(w, e, al):
        mid = [ma(col(c, j), a, b, adj) for j in range(m)]
        sd = [mstd(col(c, j), a, b, adj, dd) for j in range(m)]
        up = [[p + x * q for p, q in zip(mm, ss)] for mm, ss in zip(mid, sd)]
        lo = [[p - x * q for p, q in zip(mm, ss)] for mm, ss in zip(mid, sd)]
        refs.append([mid, up, lo])
        extra.append([[[div(u - l, q) for u, l, q in zip(up[j], lo[j], mid[j])] for j in range(m)]])
    match(ind, ["middle", "upper", "lower"], refs, c, "BBANDS")
    match(ind, ["bandwidth"], extra, c, "BBANDS")
    # percent B where the band has a width
    up, lo = np.asarray(ind.upper, dtype=float).reshape(case["n"], -1), np.asarray(ind.lower, dtype=float).reshape(case["n"], -1)
    pb = np.asarray(ind.percent_b, dtype=float).reshape(case["n"], -1)
    cl = np.tile(np.asarray(c, dtype=float).reshape(case["n"], -1), (1, case["k"]))
    wide = np.abs(up - lo) > 1e-6
    need(np.allclose(pb[wide], ((cl - lo)[wide]) / ((up - lo)[wide]), rtol=1e-9, equal_nan=True), "percent_b")
    need(np.isnan(pb[np.isnan(up) | np.isnan(cl)]).all(), "percent_b of unknown values")
    singles(case, lambda p: vbt.BBANDS.run(c, window=w[p], ewm=e[p], alpha=al[p], adjust=adj, ddof=dd), ["middle", "upper", "lower"], ind, m, "BBANDS")
    return nontrivial(refs)


def check_rsi(case):
    (c,) = frames(case, "close")
    m, w, e, adj = case["m"], case["w0"], case["ewm"], case["adjust"]
    ind = vbt.RSI.run(c, window=params(case, w), ewm=params(case, e), adjust=adj)
    refs = [[[rsi(col(c, j), a, b, adj) for j in range(m)]] for a, b in zip(w, e)]
    match(ind, ["rsi"], refs, c, "RSI")
    singles(case, lambda p: vbt.RSI.run(c, window=w[p], ewm=e[p], adjust=adj), ["rsi"], ind, m, "RSI")
    v = np.asarray(ind.rsi, dtype=float).reshape(case["n"], -1)
    lv = [30, 70]
    got = ind.rsi_above(lv)
    with np.errstate(invalid="ignore"):
        exp = np.hstack([v > 30, v > 70])
    need(np.array_equal(np.asarray(got), exp), "rsi_above(list)")
    return nontrivial(refs)


def ohlc(case):
    """High and low around the close, unknown where the close is marked so."""
    c = np.array([[fl(x) for x in r] for r in case["close"]], dtype=float)
    up = np.array(case["up"], dtype=float)[:case["n"], :case["m"]] / 4.0
    dn = np.array(case["dn"], dtype=float)[:case["n"], :case["m"]] / 4.0
    h, l = c + up, c - dn
    lost = np.array(case["lost"])[:case["n"], :case["m"]]
    c = np.where(lost, np.nan, c)                                      # close unknown although high and low are known
    k = dict(index=pd.date_range("2022-01-03", periods=case["n"], freq="D"), columns=list("xyz")[:case["m"]])
    out = [pd.DataFrame(x, **k) for x in (h, l, c)]
    return [x["x"] for x in out] if case["series"] and case["m"] == 1 else out


@st.composite
def ohlc_case(draw, k):
    c = draw(base(k))
    n, m = c["n"], c["m"]
    c.update(up=draw(vec(vec(st.integers(0, 6), m), n)), dn=draw(vec(vec(st.integers(0, 3), m), n)), lost=draw(vec(vec(weighted((12, False), (1, True)), m), n)))
    return c


def check_stoch(case):
    h, l, c = ohlc(case)
    m, kw, dw, e, adj = case["m"], case["w0"], case["w1"], case["ewm"], case["adjust"]
    ind = vbt.STOCH.run(h, l, c, k_window=params(case, kw), d_window=params(case, dw), d_ewm=params(case, e), adjust=adj)
    refs = []
    for a, b, x in zip(kw, dw, e):
        r = [stoch(col(h, j), col(l, j), col(c, j), a, b, x, adj) for j in range(m)]
        refs.append([[y[0] for y in r], [y[1] for y in r]])
    match(ind, ["percent_k", "percent_d"], refs, c, "STOCH")
    singles(case, lambda p: vbt.STOCH.run(h, l, c, k_window=kw[p], d_window=dw[p], d_ewm=e[p], adjust=adj), ["percent_k", "percent_d"], ind, m, "STOCH")
    return nontrivial(refs)


def check_atr(case):
    h, l, c = ohlc(case)
    m, w, e, adj = case["m"], case["w0"], case["ewm"], case["adjust"]
    kw = {} if all(e) and case["scalar_ewm"] else dict(ewm=params(case, e))
    ind = vbt.ATR.run(h, l, c, window=params(case, w), adjust=adj, **kw)
    refs = []
    for a, x in zip(w, e):
        tr = [trange(col(h, j), col(l, j), col(c, j)) for j in range(m)]
        refs.append([tr, [ma(t, a, x, adj) for t in tr]])
    match(ind, ["tr", "atr"], refs, c, "ATR")
    singles(case, lambda p: vbt.ATR.run(h, l, c, window=w[p], ewm=e[p], adjust=adj), ["tr", "atr"], ind, m, "ATR")
    return nontrivial(refs)


def check_macd(case):
    (c,) = frames(case, "close")
    m, f, s, g, e1, e2, adj = case["m"], case["w0"], case["w1"], case["w2"], case["ewm"], case["ewm2"], case["adjust"]
    ind = vbt.MACD.run(c, fast_window=params(case, f), slow_window=params(case, s), signal_window=params(case, g), macd_ewm=params(case, e1),
                       signal_ewm=params(case, e2), adjust=adj)
    refs = []
    for p in range(case["k"]):
        r = [macd(col(c, j), f[p], s[p], g[p], e1[p], e2[p], adj) for j in range(m)]
        refs.append([[y[0] for y in r], [y[1] for y in r], [[a - b for a, b in zip(*y)] for y in r]])
    match(ind, ["macd", "signal", "hist"], refs, c, "MACD")
    singles(case, lambda p: vbt.MACD.run(c, fast_window=f[p], slow_window=s[p], signal_window=g[p], macd_ewm=e1[p], signal_ewm=e2[p], adjust=adj), ["macd", "signal"], ind, m, "MACD")
    return nontrivial(refs)


@st.composite
def obv_case(draw):
    n, m = draw(st.integers(1, 12)), draw(st.integers(1, 3))
    return dict(n=n, m=m, close=draw(walk(n, m, True)), series=draw(st.booleans()),
                volume=draw(vec(vec(st.one_of(st.integers(0, 9), st.integers(0, 9), st.none()), m), n)))


def check_obv(case):
    c, v = frames(case, "close", "volume")
    kc, kv = c.copy(), v.copy()
    ind = vbt.OBV.run(c, v)
    refs = [[[obv(col(c, j), col(v, j)) for j in range(case["m"])]]]
    match(ind, ["obv"], refs, c, "OBV")
    need(c.equals(kc) and v.equals(kv), "the inputs were modified")
    return ["nt"] if case["n"] > 4 else []


@st.composite
def default_case(draw):
    n = draw(st.integers(40, 60))
    c = dict(n=n, m=1, close=draw(walk(n, 1, False)), series=draw(st.booleans()), k=1)
    c.update(up=draw(vec(vec(st.integers(0, 6), 1), n)), dn=draw(vec(vec(st.integers(0, 3), 1), n)), lost=[[False]] * n)
    return c


def check_defaults(case):
    """Default parameters."""
    h, l, c = ohlc(case)
    H, L, C = col(h, 0), col(l, 0), col(c, 0)
    mid, sd = ma(C, 20, False, False), mstd(C, 20, False, False, 0)
    match(vbt.BBANDS.run(c), ["middle", "upper", "lower"], [[[mid], [[a + 2 * b for a, b in zip(mid, sd)]], [[a - 2 * b for a, b in zip(mid, sd)]]]], c, "BBANDS")
    match(vbt.RSI.run(c), ["rsi"], [[[rsi(C, 14, False, False)]]], c, "RSI")
    k, d = stoch(H, L, C, 14, 3, False, False)
    match(vbt.STOCH.run(h, l, c), ["percent_k", "percent_d"], [[[k], [d]]], c, "STOCH")
    a, b = macd(C, 12, 26, 9, False, False, False)
    match(vbt.MACD.run(c), ["macd", "signal"], [[[a], [b]]], c, "MACD")
    tr = trange(H, L, C)
    match(vbt.ATR.run(h, l, c), ["tr", "atr"], [[[tr], [ma(tr, 14, True, False)]]], c, "ATR")
    match(vbt.MA.run(c, 7), ["ma"], [[[ma(C, 7, False, False)]]], c, "MA")
    match(vbt.MSTD.run(c, 7), ["mstd"], [[[mstd(C, 7, False, False, 0)]]], c, "MSTD")
    return ["nt"]


FACETS = [
    Facet("ma-mstd", lambda: base(1), check_ma, 500, 20000, "several combinations with known outputs"),
    Facet("bbands", lambda: base(2), check_bbands, 400, 15000, "several combinations with known outputs"),
    Facet("rsi", lambda: base(1), check_rsi, 400, 15000, "several combinations with known outputs"),
    Facet("stoch", lambda: ohlc_case(2), check_stoch, 400, 15000, "several combinations with known outputs"),
    Facet("atr", lambda: ohlc_case(1), check_atr, 400, 15000, "several combinations with known outputs"),
    Facet("macd", lambda: base(3), check_macd, 400, 15000, "several combinations with known outputs"),
    Facet("obv", lambda: obv_case(), check_obv, 300, 10000, "more than four bars"),
    Facet("defaults", lambda: default_case(), check_defaults, 60, 2000, "every case"),
]
