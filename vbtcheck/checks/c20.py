"""C20: data containers align, merge and update without losing or inventing values.

Oracle: per-symbol dictionaries {timestamp: {feature: value}}; alignment is set algebra on them, updating is rebuilding them from a
growing source. Download classes for exchanges run against in-process stand-ins of their clients (no network), also failing ones."""
import warnings
from datetime import datetime, timedelta, timezone
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.data.base import symbol_dict
from vectorbt.data.custom import SyntheticData, generate_gbm_paths

from vbtcheck.core import Facet
from vbtcheck.util import NAN, need, weighted

ASSUMPTIONS = [
    "In the facet 'update' sources only append rows and may revise their latest row, returning rows from the last known timestamp on; in 'window' they return any sorted window that reaches the newest row.",
    "When symbols disagree the combined index and columns hold the union (sorted) or the intersection; otherwise the first symbol's order is kept.",
    "With missing_index='drop', a timestamp that not every symbol has in the newly fetched part is not updated.",
    "Exchange sources page with a limit of at least two; the end of a period is exclusive, as in the code.",
]

T0 = pd.Timestamp("2020-01-01")
MODES = ["nan", "drop", "raise"]


# ---------------------------------------------------------------- facet: align

@st.composite
def s_align(draw):
    k = draw(weighted((1, 1), (4, 2), (2, 3)))
    allf = ["a", "b", "c"]
    same_i, same_c = draw(st.booleans()), draw(weighted((2, True), (1, False)))
    n0 = draw(st.integers(1, 8))
    base = sorted(draw(st.sets(st.integers(0, 9), min_size=1, max_size=n0)))
    syms = []
    for q in range(k):
        kind = draw(weighted((4, "frame"), (2, "series")))
        rows = base if same_i else sorted(draw(st.sets(st.integers(0, 9), min_size=1, max_size=8)))
        if same_i and draw(weighted((5, False), (1, True))):
            rows = list(draw(st.permutations(rows)))
        if same_c:
            cols = ["a", "b"] if kind == "frame" else ["a"]
        else:
            cols = list(draw(st.permutations(allf)))[:draw(st.integers(1, 3))] if kind == "frame" else [draw(st.sampled_from(["a", "b"]))]
        syms.append(dict(kind=kind, rows=rows, cols=cols, v=[[draw(weighted((8, 0), (1, 1))) for _ in cols] for _ in rows], noname=False))
    kinds = draw(weighted((1, "mixed"), (3, "frame"), (3, "series")))
    if kinds != "mixed":
        for s in syms:
            if s["kind"] != kinds:
                s["kind"] = kinds
                if kinds == "series":
                    s["cols"] = s["cols"][:1]
                    s["v"] = [r[:1] for r in s["v"]]
                elif same_c:
                    s["cols"], s["v"] = ["a", "b"], [[r[0], 0] for r in s["v"]]
    noname = kinds == "series" and same_c and draw(weighted((3, False), (1, True)))
    return dict(syms=syms, noname=noname, mi=draw(st.sampled_from(MODES)), mc=draw(st.sampled_from(MODES)), index=draw(st.sampled_from(["dates", "ints", "aware"])),
                loc=draw(weighted((2, None), (1, "UTC"), (1, "America/New_York"))), conv=draw(weighted((2, None), (1, "Europe/Berlin"), (1, "UTC"))),
                names=draw(st.sampled_from(["str", "int", "tuple"])), default=draw(weighted((5, False), (1, True))), arrays=draw(weighted((6, False), (1, True))),
                pick=draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)), level=draw(st.sampled_from(["symbol", "sym"])), cut=[draw(st.integers(0, 4)), draw(st.integers(1, 9))],
                dtype=draw(weighted((4, "float"), (1, "int"), (1, "obj"))))


def value(c, q, t, f, hole):
    if hole and c["dtype"] != "int":
        return NAN
    x = 1000 * (q + 1) + 10 * t + "abc".index(f)
    return f"v{x}" if c["dtype"] == "obj" else (x if c["dtype"] == "int" else x / 4)


def stamp(c, t):
    return t if c["index"] == "ints" else T0 + pd.Timedelta(days=t)


def source_of(c):
    """{symbol: object}, model {symbol: {label: {feature: value}}}"""
    objs, model = {}, {}
    for q, s in enumerate(c["syms"]):
        name = {"str": f"S{q}", "int": q, "tuple": (q, "x")}[c["names"]]
        idx = pd.Index([stamp(c, t) for t in s["rows"]])
        if c["index"] == "aware":
            idx = idx.tz_localize("UTC")
        rows = [[value(c, q, t, f, s["v"][i][j]) for j, f in enumerate(s["cols"])] for i, t in enumerate(s["rows"])]
        df = pd.DataFrame(rows, index=idx, columns=s["cols"])
        obj = df if s["kind"] == "frame" else df[s["cols"][0]].rename(None if c["noname"] else s["cols"][0])
        model[name] = {l: dict(zip(s["cols"], r)) for l, r in zip(idx, rows)}
        if c["arrays"] and c["index"] == "ints":
            obj = obj.to_numpy()
            model[name] = {i: {(j if s["kind"] == "frame" else 0): x for j, x in enumerate(r)} for i, r in enumerate(rows)}
        objs[name] = obj
    return objs, model


def same_value(x, y):
    return (x != x and y != y) or x == y


def cells(obj, series_name):
    """{label: {feature: value}} of a stored object."""
    if isinstance(obj, pd.Series):
        return {l: {series_name: x} for l, x in zip(obj.index, obj.tolist())}
    return {l: dict(zip(obj.columns, r)) for l, r in zip(obj.index, obj.astype(object).to_numpy().tolist())}


def utc(x):
    return x.tz_convert("UTC") if isinstance(x, pd.Timestamp) and x.tzinfo is not None else x


def check_align(c):
    objs, model = source_of(c)
    arrays = c["arrays"] and c["index"] == "ints"
    copies = {k: v.copy() for k, v in objs.items()}
    kw = dict(missing_index=c["mi"], missing_columns=c["mc"])
    mi, mc = c["mi"], c["mc"]
    if c["default"]:
        kw, (mi, mc) = {}, ("nan", "raise")
    loc, conv = (c["loc"], c["conv"]) if c["index"] != "ints" else (None, None)
    if loc:
        kw["tz_localize"] = loc
    if conv:
        kw["tz_convert"] = conv
    if conv and not loc and c["index"] == "dates":
        return []  # pandas refuses to convert naive timestamps
    cfg = vbt.settings["data"]
    want_loc, want_conv = loc or cfg["tz_localize"], conv or cfg["tz_convert"]
    # model: labels as instants
    def conv_label(l):
        if c["index"] == "ints" or arrays:
            return l
        if l.tzinfo is None and want_loc is not None:
            l = l.tz_localize(str(want_loc) if isinstance(want_loc, str) else want_loc)
        return utc(l)
    M = {s: {conv_label(l): dict(r) for l, r in m.items()} for s, m in model.items()}
    isets = [set(m) for m in M.values()]
    csets = [set(s for r in m.values() for s in r) for m in M.values()]
    if arrays:
        csets = [set(range(x.shape[1])) if x.ndim == 2 else {0} for x in objs.values()]
    series_only = all(s["kind"] == "series" for s in c["syms"])
    bad_i, bad_c = len(M) > 1 and any(x != isets[0] for x in isets), len(M) > 1 and any(x != csets[0] for x in csets)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            d = vbt.Data.from_data(objs, download_kwargs={}, **kw)
        except ValueError as e:
            need("mismatching" in str(e) and ((bad_i and mi == "raise") or (bad_c and mc == "raise")), f"refused: {e}", sig="align-refused")
            return []
    need(not (bad_i and mi == "raise") and not (bad_c and mc == "raise"), "mismatching symbols were not refused", sig="align-accepted")
    msgs = " ".join(str(r.message) for r in rec)
    need(("mismatching index" in msgs) == bad_i and ("mismatching columns" in msgs) == bad_c, f"warnings: {msgs}", sig="align-warning")
    for k, v in copies.items():
        need(list(objs) == list(copies) and (pd.DataFrame(v).equals(pd.DataFrame(objs[k])) if arrays else v.equals(objs[k])), "the given data was changed", sig="align-input")
    fs = set.union(*csets) if mc == "nan" else set.intersection(*csets)
    ls = set.union(*isets) if mi == "nan" else set.intersection(*isets)
    if len(M) == 1:
        fs, ls = csets[0], isets[0]
    need(d.symbols == list(objs), f"symbols {d.symbols}", sig="align-symbols")
    name0 = next(iter(fs)) if len(fs) == 1 else None
    for s in M:
        obj = d.data[s]
        need(obj.index.equals(d.wrapper.index), "index differs from the wrapper's", sig="align-wrapper")
        if isinstance(obj, pd.Series):
            need(series_only and (obj.name == (None if c["noname"] or arrays else name0)), f"series named {obj.name}", sig="align-name")
        else:
            need(obj.columns.equals(d.wrapper.columns), "columns differ from the wrapper's", sig="align-wrapper")
            need(not series_only or len(fs) != 1, "series became frames", sig="align-type")
            need(set(obj.columns) == fs and len(obj.columns) == len(fs), f"columns {list(obj.columns)}, expected {fs}", sig="align-columns")
            if not bad_c:
                need(list(obj.columns) == list(M[s][next(iter(M[s]))] if len(M) == 1 else (range(len(fs)) if arrays else c["syms"][0]["cols"])), f"columns reordered: {list(obj.columns)}", sig="align-columns")
        got = {utc(l): r for l, r in cells(obj, name0).items()}
        need(len(obj) == len(ls) and set(got) == ls, f"index {sorted(got)}, expected {sorted(ls)}", sig="align-index")
        if bad_i and mi == "nan":
            need(list(obj.index) == sorted(obj.index), "combined index is not sorted", sig="align-sorted")
        elif not bad_i:
            first = list(M[next(iter(M))])
            need([utc(l) for l in obj.index] == first, f"index reordered {list(obj.index)}", sig="align-index")
        for l in ls:
            for f in fs:
                w = M[s].get(l, {}).get(f, NAN)
                need(same_value(got[l][f], w), f"{s} {l} {f}: {got[l][f]}, expected {w}", sig="align-value")
        if conv and len(obj):  # named zones become fixed offsets by default; instants are compared above
            need(obj.index.tz is not None and (conv != "UTC" or obj.index[0].utcoffset() == timedelta(0)), f"time zone {obj.index.tz}", sig="align-tz")
    nt = (["nt"] if len(M) > 1 and ls and fs and (bad_i or bad_c) else [])
    if not ls or not fs:
        return nt
    # ---- features across symbols
    cc = d.concat(level_name=c["level"]) if c["level"] != "symbol" else d.concat()
    feats = list(d.wrapper.columns) if not isinstance(d.data[d.symbols[0]], pd.Series) else [d.data[d.symbols[0]].name]
    need(list(cc) == feats, f"concat keys {list(cc)}", sig="concat-keys")
    for f in feats:
        o = cc[f]
        for pos, s in enumerate(M):
            src = d.data[s] if isinstance(d.data[s], pd.Series) else d.data[s][f]
            col = o.iloc[:, pos] if len(M) > 1 else o
            need(col.index.equals(src.index) and all(same_value(x, y) for x, y in zip(col.tolist(), src.tolist())), f"concat {f} {s}: {col.tolist()}, expected {src.tolist()}", sig="concat-value")
        if len(M) > 1:
            need(list(o.columns) == list(M) and o.columns.name == (c["level"] if c["names"] != "tuple" else o.columns.name), f"concat columns {o.columns}", sig="concat-columns")
        else:
            need(o.name == d.symbols[0], f"concat name {o.name}", sig="concat-columns")
    got = d.get()
    if len(M) == 1:
        need(got.equals(d.data[d.symbols[0]]), "get() of one symbol", sig="get")
    elif len(feats) == 1:
        need(got.equals(cc2(d)[feats[0]]), "get() of one feature", sig="get")
    else:
        need(isinstance(got, tuple) and all(a.equals(b) for a, b in zip(got, cc2(d).values())) and len(got) == len(feats), "get() of several features", sig="get")
    if len(feats) > 1:
        ask = list(dict.fromkeys(feats[p % len(feats)] for p in c["pick"]))
        one = d.get(ask[0])
        want = cc2(d)[ask[0]] if len(M) > 1 else d.data[d.symbols[0]][ask[0]]
        need(one.equals(want), f"get({ask[0]!r})", sig="get-column")
        many = d.get(ask)
        if len(M) > 1:
            need(len(many) == len(ask) and all(a.equals(cc2(d)[f]) for a, f in zip(many, ask)), f"get({ask})", sig="get-columns")
        else:
            need(many.equals(d.data[d.symbols[0]][ask]), f"get({ask})", sig="get-columns")
        sub = d[ask] if len(ls) > 1 or len(ask) > 1 else d
        need(sub is d or sub.symbols == d.symbols and all(sub.data[s].equals(d.data[s][ask]) for s in M), f"columns {ask}", sig="index-columns")
        sub = d[ask[0]] if len(ls) > 1 else None  # selecting a single element is refused
        need(sub is None or all(isinstance(sub.data[s], pd.Series) and sub.data[s].equals(d.data[s][ask[0]]) for s in M), f"column {ask[0]}", sig="index-column")
    a, b = c["cut"]
    if min(len(ls) - a, b) < 1 or (min(len(ls) - a, b) == 1 and len(feats) == 1):
        return nt
    sub = d.iloc[a:a + b] if isinstance(d.data[d.symbols[0]], pd.Series) else d.iloc[a:a + b, :]
    need(all(sub.data[s].equals(d.data[s].iloc[a:a + b]) for s in M) and sub.wrapper.index.equals(d.wrapper.index[a:a + b]), f"rows {a}:{a + b}", sig="index-rows")
    need(sub.missing_index == d.missing_index and sub.tz_convert == d.tz_convert and d.missing_index == mi and d.missing_columns == mc, "settings lost", sig="index-settings")
    return nt + (["series"] if series_only else []) + (["tz"] if loc or conv else [])


def cc2(d):
    return d.concat()


# ---------------------------------------------------------------- facet: update

class Source(vbt.Data):
    """Rows of a growing world; `world` = {symbol: [(t, {feature: value})]}."""

    @classmethod
    def download_symbol(cls, symbol, world=None, upto=None, start=None, scale=1.0, series=False, cols=None, array=False, inclusive=True, aware=False):
        rows = [(t, r) for t, r in world[symbol] if t < upto]
        idx = pd.DatetimeIndex([T0 + pd.Timedelta(days=t) for t, _ in rows], tz="UTC" if aware else None) if not array else None
        df = pd.DataFrame([[r[f] * scale for f in cols] for _, r in rows], index=idx, columns=cols, dtype=float)
        if start is not None and array:
            df = df.iloc[start:]
        elif start is not None:
            s = start if aware else (start.tz_convert("UTC").tz_localize(None) if start.tzinfo else start)
            df = df.loc[df.index >= s] if inclusive else df.loc[df.index > s]
        if array:
            a = df.to_numpy()
            return a[:, 0] if series else a
        return df[cols[0]] if series else df

    def update_symbol(self, symbol, **kwargs):
        dk = self.select_symbol_kwargs(symbol, self.download_kwargs)
        dk["start"] = self.data[symbol].index[-1]
        dk.update(kwargs)
        return self.download_symbol(symbol, **dk)


@st.composite
def s_update(draw):
    k = draw(weighted((1, 1), (3, 2), (1, 3)))
    n = draw(st.integers(2, 14))
    gaps = draw(weighted((1, False), (2, True)))
    per = []
    for q in range(k):
        per.append(dict(rows=[t for t in range(n) if not gaps or draw(weighted((3, True), (1, False)))], scale=draw(weighted((3, 1.0), (1, 2.0))),
                        inclusive=draw(weighted((3, True), (1, False)))))
    start = draw(st.integers(1, n))
    steps = [draw(weighted((1, 0), (3, 1), (2, 2), (1, 4))) for _ in range(draw(st.integers(1, 4)))]
    return dict(per=per, n=n, start=start, steps=steps, series=draw(st.booleans()), mi=draw(st.sampled_from(MODES)), revise=draw(st.booleans()),
                array=draw(weighted((5, False), (1, True))), aware=draw(st.booleans()), conv=draw(weighted((2, None), (1, "Europe/Berlin"))),
                updater=draw(weighted((2, False), (1, True))), seed=draw(st.integers(0, 99)))


def world_at(c, upto, cols):
    """Rows revealed; the latest revealed row of the whole world is provisional when `revise`."""
    w = {}
    for q, p in enumerate(c["per"]):
        rows = []
        for t in p["rows"]:
            last = c["revise"] and t == upto - 1
            rows.append((t, {f: (q + 1) * 100 + t * 4 + j + (0.5 if last else 0) for j, f in enumerate(cols)}))
        w[f"S{q}"] = rows
    return w


def check_update(c):
    c = dict(c, per=[dict(p) for p in c["per"]])
    cols = ["a", "b"]
    if c["array"]:
        for p in c["per"]:
            p["rows"], p["inclusive"] = list(range(c["n"])), True
        c["aware"], c["conv"] = False, None
    if c["mi"] != "nan" or c["revise"]:
        for p in c["per"]:  # refetching differently is only defined when gaps are filled
            p["inclusive"] = c["per"][0]["inclusive"] if not c["revise"] else True
    syms = [f"S{q}" for q in range(len(c["per"]))]
    kw = dict(series=c["series"], cols=cols, array=c["array"], aware=c["aware"], missing_index=c["mi"], tz_localize="UTC" if c["conv"] else None, tz_convert=c["conv"],
              scale=symbol_dict({s: p["scale"] for s, p in zip(syms, c["per"])}), inclusive=symbol_dict({s: p["inclusive"] for s, p in zip(syms, c["per"])}))

    def fetch(upto):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Source.download(syms, world=world_at(c, upto, cols), upto=upto, **kw)

    def model(upto):
        have = {s: {t: r for t, r in w if t < upto} for s, w in world_at(c, upto, cols).items()}
        sets = [set(h) for h in have.values()]
        ls = sorted(set.union(*sets) if c["mi"] == "nan" else set.intersection(*sets))
        bad = any(x != sets[0] for x in sets)
        return ls, {s: [[have[s].get(t, {}).get(f, NAN) * c["per"][q]["scale"] for f in (cols[:1] if c["series"] else cols)] for t in ls] for q, s in enumerate(syms)}, bad

    def judge(d, upto, what, labels=None):
        ls, vals, _ = model(upto)
        for s in syms:
            o = d.data[s]
            idx = [i for i in o.index] if c["array"] else [(utc(i).tz_localize(None) if i.tzinfo else i) for i in o.index]
            need(idx == (ls if c["array"] else [T0 + pd.Timedelta(days=t) for t in ls]), f"{what}: index of {s} {idx}, expected days {ls}", sig="update-index")
            v = o.to_numpy()
            v = v[:, None] if v.ndim == 1 else v
            need(v.shape == (len(ls), 1 if c["series"] else 2) and np.array_equal(v, np.array(vals[s]).reshape(v.shape), equal_nan=True), f"{what}: {s} {v.tolist()}, expected {vals[s]}", sig="update-value")
            need(o.index.equals(d.wrapper.index), f"{what}: wrapper index", sig="update-wrapper")
            need(isinstance(o, pd.Series) == c["series"], f"{what}: type {type(o)}", sig="update-type")
            if c["conv"]:
                need(o.index[0].utcoffset() in (timedelta(hours=1), timedelta(hours=2)), f"{what}: time zone {o.index.tz}", sig="update-tz")

    upto = c["start"]
    try:
        d = fetch(upto)
    except ValueError as e:
        need("mismatching" in str(e) and c["mi"] == "raise" and model(upto)[2], f"refused: {e}", sig="update-download")
        return []
    ls, _, _ = model(upto)
    if not ls:
        return []
    judge(d, upto, "download")
    grown = 0
    up = vbt.DataUpdater(d) if c["updater"] else None
    for step in c["steps"]:
        new = min(c["n"], upto + step)
        old, before = d, {s: d.data[s].copy() for s in syms}
        args = dict(world=world_at(c, new, cols), upto=new)
        exp = model(new)
        # what each symbol returns now
        L = ls[-1]
        newly = [{t for t in p["rows"] if (t >= L if p["inclusive"] else t > L) and t < new} for p in c["per"]]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if up is not None:
                    up.update(**args)
                    d = up.data
                    need(up.config["data"] is d or up.config["data"] == d, "the updater's configuration is stale", sig="updater-config")
                else:
                    d = d.update(**args)
        except ValueError as e:
            need("mismatching" in str(e) and c["mi"] == "raise" and any(x != newly[0] for x in newly), f"update refused: {e}", sig="update-refused")
            return []
        need(not (c["mi"] == "raise" and any(x != newly[0] for x in newly)), "mismatching update was not refused", sig="update-accepted")
        need(all(before[s].equals(old.data[s]) for s in syms), "the updated container was changed in place", sig="update-inplace")
        if c["revise"] and any(L not in p["rows"] for p in c["per"]) and c["mi"] == "drop":
            return []
        judge(d, new, f"update to {new}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again = d.update(**args)
        need(all(again.data[s].equals(d.data[s]) for s in syms), "updating twice changes the data", sig="update-idempotent")
        try:
            full = fetch(new)
        except ValueError:
            full = None
        if full is not None:
            need(all(full.data[s].equals(d.data[s]) for s in syms), "updating differs from fetching everything at once", sig="update-full")
        grown += len(exp[0]) > len(ls)
        upto, ls = new, exp[0]
    return (["nt"] if grown and len(syms) > 1 else []) + [c["mi"]] + (["array"] if c["array"] else [])


# ---------------------------------------------------------------- facet: sources

@st.composite
def s_source(draw):
    n = draw(st.integers(1, 25))
    times = sorted(draw(st.sets(st.integers(0, 60), min_size=n, max_size=n)))
    a = draw(st.integers(0, 60))
    return dict(kind=draw(st.sampled_from(["binance", "binance", "ccxt", "ccxt", "yf", "alpaca", "synthetic", "gbm"])), times=times, start=draw(weighted((1, None), (3, a))),
                end=draw(st.integers(1, 64)), end2=draw(st.integers(0, 12)), limit=draw(weighted((2, 2), (2, 3), (2, 7), (1, 500))), faults=[draw(weighted((2, False), (1, True))) for _ in range(24)] if draw(st.booleans()) else [],
                retries=draw(st.integers(1, 4)), how=draw(st.sampled_from(["str", "dt", "ts", "ms"])), two=draw(st.booleans()), seed=draw(st.integers(0, 1000)),
                I=draw(weighted((2, 1), (1, 3))), S0=draw(st.sampled_from([1.0, 100.0])), sigma=draw(st.sampled_from([0.0, 0.01, 0.3])), mu=draw(st.sampled_from([0.0, 0.1])), freq=draw(st.sampled_from(["h", "D", "30min"])))


H0 = pd.Timestamp("2021-03-01", tz="UTC")
MS = lambda t: int((H0 + pd.Timedelta(hours=t)).timestamp() * 1000)


def moment(how, t):
    ts = H0 + pd.Timedelta(hours=t)
    return {"str": ts.strftime("%Y-%m-%d %H:%M UTC"), "dt": ts.to_pydatetime(), "ts": ts, "ms": ts.tz_localize(None).to_pydatetime().replace(tzinfo=timezone.utc)}[how]


OHLCV = ["Open", "High", "Low", "Close", "Volume"]


def bar(sym, t):
    b = 10 * t + (0 if sym.startswith("A") else 5000)
    return [b + 1.5, b + 3.0, b + 0.5, b + 2.25, b + 7.0]


def judge_source(d, syms, want, what, cols=OHLCV):
    for s in syms:
        o = d.data[s]
        got = {MSL(l): [float(x) for x in r] for l, r in zip(o.index, o[cols].to_numpy().tolist())}
        need(len(o) == len(got), f"{what}: repeated timestamps {list(o.index)}", sig="source-repeat")
        need(list(got) == sorted(got), f"{what}: unsorted {list(o.index)}", sig="source-order")
        w = {MS(t): bar(s, t) for t in want}
        need(got == w, f"{what} {s}: hours {sorted((x - MS(0)) / 3.6e6 for x in got)}, expected {want}", sig="source-value")


def MSL(l):
    return int(l.tz_convert("UTC").timestamp() * 1000)


def check_source(c):
    kind, times, how = c["kind"], c["times"], c["how"]
    start, end, end2 = c["start"], c["end"], c["end"] + c["end2"]
    syms = ["AAA", "BBB"] if c["two"] else ["AAA"]
    lo = -10 ** 9 if start is None else start
    w1, w2 = [t for t in times if lo <= t < end], [t for t in times if lo <= t < end2]
    kw = {} if start is None else dict(start=moment(how, start))
    if kind in ("binance", "ccxt"):
        calls = [0]

        class Network(Exception):
            pass

        def page(symbol, since, until, limit):
            return [t for t in times if MS(t) >= since and (until is None or MS(t) <= until)][:limit]

        if kind == "binance":
            class Client:
                def get_klines(self, symbol, interval, limit, startTime, endTime):
                    need(interval == "1h", f"interval {interval}", sig="source-args")
                    return [[MS(t)] + [str(x) for x in bar(symbol, t)] + [MS(t + 1) - 1, "1.5", 3, "0.5", "0.25", "0"] for t in page(symbol, startTime, endTime, limit)]
            if not w1:
                return []
            d = vbt.BinanceData.download(syms, client=Client(), interval="1h", end=moment(how, end), limit=c["limit"], delay=None, show_progress=False, **kw)
            judge_source(d, syms, w1, "binance")
            for s in syms:
                need([MSL(x) for x in d.data[s]["Close time"]] == [MS(t + 1) - 1 for t in w1] and list(d.data[s]["Number of trades"]) == [3] * len(w1), "other columns", sig="source-value")
            d2 = d.update(end=moment(how, end2))
            judge_source(d2, syms, w2, "binance updated")
            return (["nt"] if len(w1) > c["limit"] else []) + [kind]
        import ccxt
        plan = c["faults"]

        class Exchange:
            has = {"fetchOHLCV": True}
            timeframes = {"1h": "1h"}

            def fetch_ohlcv(self, symbol, timeframe, since, limit, params):
                i = calls[0]
                calls[0] += 1
                if i < len(plan) and plan[i]:
                    raise (ccxt.NetworkError if i % 2 else ccxt.ExchangeError)("fault")
                need(timeframe == "1h" and params == {"p": 1}, f"arguments {timeframe} {params}", sig="source-args")
                return [[MS(t)] + bar(symbol, t) for t in page(symbol, since, None, limit)]

        # replay the fault plan
        pos = [0]

        def attempt():
            for _ in range(c["retries"]):
                f = pos[0] < len(plan) and plan[pos[0]]
                pos[0] += 1
                if not f:
                    return True
            return False

        def survives(want, lo_):
            """Whether a download that returns `want` survives the faults."""
            attempt()  # looking up the first timestamp may fail
            at, first = lo_, True
            while True:
                if not attempt():
                    return False
                rows = [t for t in times if t >= at][:c["limit"]]
                rows = [t for t in rows if t < want and (first or t > at)]
                if not rows:
                    return True
                at, first = rows[-1], False

        ok = all([survives(end, lo)][0] for _ in syms) if not plan else None
        if ok is None:
            ok = True
            for _ in syms:
                if not survives(end, lo):
                    ok = False
                    break
        if not w1:
            return []
        run = lambda: vbt.CCXTData.download(syms, exchange=Exchange(), timeframe="1h", end=moment(how, end), limit=c["limit"], retries=c["retries"], params={"p": 1}, show_progress=False, **kw)
        try:
            d = run()
        except (ccxt.NetworkError, ccxt.ExchangeError):
            need(not ok, f"a download that should survive the faults failed (retries {c['retries']}, {calls[0]} calls)", sig="ccxt-retry")
            return ["gave-up"]
        need(ok, "faults beyond the number of retries were ignored", sig="ccxt-retry")
        judge_source(d, syms, w1, "ccxt")
        plan.clear() if isinstance(plan, list) else None
        d2 = d.update(end=moment(how, end2))
        judge_source(d2, syms, w2, "ccxt updated")
        return (["nt"] if len(w1) > c["limit"] else []) + [kind] + (["faults"] if c["faults"] else [])
    if kind == "yf":
        import yfinance
        asked = []

        class Ticker:
            def __init__(self, symbol, **k):
                self.symbol, self.k = symbol, k

            def history(self, period=None, start=None, end=None, **k):
                asked.append((self.symbol, period, k, self.k))
                rows = [t for t in times if (start is None or MS(t) >= int(start.timestamp() * 1000)) and (end is None or MS(t) < int(end.timestamp() * 1000))]
                return pd.DataFrame([bar(self.symbol, t) for t in rows], columns=OHLCV, index=pd.DatetimeIndex([H0 + pd.Timedelta(hours=t) for t in rows], tz="UTC"), dtype=float)
        if not w1:
            return []
        with mock.patch.object(yfinance, "Ticker", Ticker):
            d = vbt.YFData.download(syms, end=moment(how, end), period=symbol_dict(AAA="1y", BBB="2y"), interval="1h", ticker_kwargs=dict(session=None), **kw)
            need(asked == [(s, {"AAA": "1y", "BBB": "2y"}[s], {"interval": "1h"}, {"session": None}) for s in syms], f"asked {asked}", sig="source-args")
            judge_source(d, syms, w1, "yf")
            judge_source(d.update(end=moment(how, end2)), syms, w2, "yf updated")
        return ["nt", kind]
    if kind == "alpaca":
        import alpaca.data.historical as ah
        asked = []

        class Client:
            def __init__(self, api_key=None, secret_key=None):
                asked.append(("client", api_key, secret_key))

            def get_stock_bars(self, r):
                return self.bars(r)

            get_crypto_bars = get_stock_bars

            def bars(self, r):
                asked.append((type(r).__name__, r.symbol_or_symbols, str(r.timeframe), r.limit))
                utcms = lambda x: int((x if x.tzinfo else x.replace(tzinfo=timezone.utc)).timestamp() * 1000)
                rows = [t for t in times if utcms(r.start) <= MS(t) < utcms(r.end)]
                df = pd.DataFrame([bar(r.symbol_or_symbols, t) + [1, 2.0] for t in rows], columns=["open", "high", "low", "close", "volume", "trade_count", "vwap"],
                                  index=pd.DatetimeIndex([H0 + pd.Timedelta(hours=t) for t in rows], tz="UTC"))
                return mock.Mock(df=df)
        if not w1:
            return []
        use = ["AAA", "B/USD"] if c["two"] else ["AAA"]
        with mock.patch.object(ah, "StockHistoricalDataClient", Client), mock.patch.object(ah, "CryptoHistoricalDataClient", Client):
            d = vbt.AlpacaData.download(use, timeframe="1h", end=moment(how, end), limit=c["limit"], **dict(dict(start=moment("ts", -1)), **kw))
            need([a for a in asked if a[0] != "client"] == [("CryptoBarsRequest" if "/" in s else "StockBarsRequest", s, "1Hour", c["limit"]) for s in use], f"asked {asked}", sig="source-args")
            judge_source(d, use, w1, "alpaca")
            need(all(list(d.data[s].columns) == OHLCV for s in use), "columns", sig="source-columns")
            judge_source(d.update(end=moment(how, end2)), use, w2, "alpaca updated")
        return ["nt", kind]
    freq = c["freq"]
    s0 = 0 if start is None else start
    e1, e2 = s0 + c["end"], s0 + c["end"] + c["end2"]
    want = lambda e: pd.date_range(H0 + pd.Timedelta(hours=s0), H0 + pd.Timedelta(hours=e), freq=freq)
    if kind == "synthetic":
        class Gen(SyntheticData):
            @classmethod
            def generate_symbol(cls, symbol, index, gain=1.0):
                return pd.Series([gain * (x.timestamp() % 10 ** 7) for x in index], index=index)
        gain = symbol_dict(AAA=1.0, BBB=2.0)
        d = Gen.download(syms, start=moment(how, s0), end=moment(how, e1), freq=freq, gain=gain)
        d2 = d.update(end=moment(how, e2))
        for what, x, e in (("downloaded", d, e1), ("updated", d2, e2)):
            for s in syms:
                idx = want(e)
                need([MSL(l) for l in x.data[s].index] == [int(l.timestamp() * 1000) for l in idx], f"synthetic {what}: index {list(x.data[s].index)}", sig="synthetic-index")
                need(x.data[s].tolist() == [gain[s] * (l.timestamp() % 10 ** 7) for l in idx], f"synthetic {what}", sig="synthetic-value")
        return ["nt", kind]
    n = len(want(e1))
    p = generate_gbm_paths(c["S0"], c["mu"], c["sigma"], n, n, c["I"], seed=c["seed"])
    rs = np.random.RandomState(c["seed"])
    ref = np.full((n + 1, c["I"]), c["S0"])
    for t in range(1, n + 1):
        ref[t] = ref[t - 1] * np.exp(c["mu"] - c["sigma"] ** 2 / 2 + c["sigma"] * rs.standard_normal(c["I"]))
    need(np.allclose(p, ref, rtol=1e-10), "paths differ from the stated process", sig="gbm-path")
    kw = dict(start=moment(how, s0), freq=freq, S0=c["S0"], mu=c["mu"], sigma=c["sigma"], I=c["I"], seed=c["seed"])
    d = vbt.GBMData.download(syms, end=moment(how, e1), **kw)
    for s in syms:
        v = d.data[s].to_numpy().reshape(n, -1)
        need(np.allclose(v, ref[1:], rtol=1e-10), f"generated data {v.tolist()}, expected {ref[1:].tolist()}", sig="gbm-value")
        need([MSL(l) for l in d.data[s].index] == [int(l.timestamp() * 1000) for l in want(e1)], "index", sig="gbm-index")
    if n >= 2:
        d2 = d.update(end=moment(how, e2))
        for s in syms:
            v = d2.data[s].to_numpy().reshape(len(d2.data[s]), -1)
            need([MSL(l) for l in d2.data[s].index] == [int(l.timestamp() * 1000) for l in want(e2)], "index after the update", sig="gbm-index")
            need(np.allclose(v[:n - 1], ref[1:n], rtol=1e-10) and (v > 0).all(), "known prices changed by the update", sig="gbm-update")
            if c["sigma"] == 0:
                T = len(v) - n + 1
                need(np.allclose(v[n - 1:], ref[n - 1] * np.exp(c["mu"] * np.arange(1, T + 1))[:, None], rtol=1e-9), f"updated prices {v.tolist()} do not continue the path", sig="gbm-continue")
    return ["nt", kind] if n >= 2 else []


# ---------------------------------------------------------------- facet: schedule

@st.composite
def s_schedule(draw):
    return dict(k=draw(st.integers(1, 6)), every=draw(st.sampled_from([[], [2], [3, "seconds"], [1, "minute"], ["minute"], ["hour"], [2, "days"], ["monday"], ["10:30"]])),
                start=draw(st.integers(0, 10 ** 6)), bg=draw(st.booleans()), stop=draw(st.sampled_from(["cancel", "keyboard"])), series=draw(st.booleans()))


def check_schedule(c):
    from vbtcheck.clock import FakeClock
    rows = 3
    world = {"S0": [(t, {"a": t * 2.0, "b": t + 0.5}) for t in range(rows + 10)]}
    d = Source.download(["S0"], world=world, upto=rows, series=c["series"], cols=["a", "b"])
    runs = []

    class Updater(vbt.DataUpdater):
        def update(self, extra):
            super().update(upto=rows + len(runs) + 1)
            runs.append((clock.now, extra))
            if len(runs) == c["k"]:
                raise (vbt.CancelledError if c["stop"] == "cancel" or c["bg"] else KeyboardInterrupt)

    clock = FakeClock(datetime(2024, 1, 1) + timedelta(seconds=c["start"]))
    with clock.patched():
        up = Updater(d)
        clock.scheduler = up.schedule_manager.scheduler
        if c["bg"]:
            import asyncio

            async def main():
                up.update_every(*c["every"], extra=7, in_background=True)
                need(up.schedule_manager.async_task_running, "not running in the background", sig="schedule-running")
                while up.schedule_manager.async_task_running:
                    await clock.async_sleep(0)
            asyncio.run(main())
        else:
            up.update_every(*c["every"], extra=7)
    need(len(runs) == c["k"] and all(x == 7 for _, x in runs), f"{len(runs)} updates, {c['k']} requested", sig="schedule-count")
    v = up.data.data["S0"]
    need(len(v) == rows + c["k"], f"{len(v)} rows after {c['k']} updates of one row each", sig="schedule-data")
    need(up.config["data"] == up.data and len(d.data["S0"]) == rows, "updater state", sig="schedule-state")
    step = {2: 2, 3: 3}.get(c["every"][0], None) if c["every"] and len(c["every"]) < 2 and isinstance(c["every"][0], int) else None
    gaps = [(b[0] - a[0]).total_seconds() for a, b in zip(runs, runs[1:])]
    if not c["every"]:
        step = 1
    if step is not None:
        need(all(step <= g <= step + 2 for g in gaps), f"every {step} s ran at gaps {gaps}", sig="schedule-gap")
    return ["nt"] if c["k"] > 1 else []


# ---------------------------------------------------------------- facet: window

class Window(vbt.Data):
    """Returns what it is told to, recording the arguments it was given."""
    asked = []

    @classmethod
    def download_symbol(cls, symbol, rows=None, **kw):
        cls.asked.append((symbol, kw))
        return pd.Series([float(v) for _, v in rows], index=pd.DatetimeIndex([T0 + pd.Timedelta(days=t) for t, _ in rows]), name="a")

    def update_symbol(self, symbol, **kw):
        return self.download_symbol(symbol, **{**self.select_symbol_kwargs(symbol, self.download_kwargs), **kw})


@st.composite
def s_window(draw):
    k = draw(st.integers(1, 3))
    n = draw(st.integers(2, 10))
    first = [sorted(draw(st.sets(st.integers(0, n), min_size=1, max_size=n))) for _ in range(k)]
    wins = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(st.integers(0, n))
        b = draw(st.integers(a, n + 4))
        wins.append([sorted(draw(st.sets(st.integers(a, b), min_size=1, max_size=6))) for _ in range(k)])
    some = lambda a: st.lists(st.one_of(st.none(), st.integers(a, a + 9)), min_size=k, max_size=k)
    opt = {o: draw(some(0)) for o in ("p", "q")}
    return dict(k=k, first=first, wins=wins, opt=opt, plain=draw(st.booleans()), override=draw(st.one_of(st.none(), some(10))))


def check_window(c):
    """Sources that return any window of past and new rows, also without some of the known ones; options given per symbol."""
    syms = ["S%d" % q for q in range(c["k"])]
    opts = {o: symbol_dict({s: v for s, v in zip(syms, d) if v is not None}) for o, d in c["opt"].items()}
    if c["plain"]:
        opts["r"] = 5
    want_kw = lambda q, over=None: {**{o: d[q] for o, d in c["opt"].items() if d[q] is not None}, **({"r": 5} if c["plain"] else {}), **(over or {})}
    rows = lambda sets, g: symbol_dict({s: [(t, 100 * g + 10 * q + t) for t in sets[q]] for q, s in enumerate(syms)})
    Window.asked = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = Window.download(syms, rows=rows(c["first"], 0), missing_index="nan", **opts)
    need(Window.asked == [(s, want_kw(q)) for q, s in enumerate(syms)], f"options of the download: {Window.asked}", sig="window-options")
    have = [dict(rows(c["first"], 0)[s]) for s in syms]
    nt = False
    for g, win in enumerate(c["wins"], 1):
        known = set().union(*have)
        if max(map(max, win)) < max(known) or min(map(min, win)) < min(known):
            continue    # the window ends with the newest row
        over = {}
        if c["override"] is not None:
            over["q"] = symbol_dict({s: v for s, v in zip(syms, c["override"]) if v is not None})
        Window.asked = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = d.update(rows=rows(win, g), **over)
        exp = [(s, want_kw(q, {"q": c["override"][q]} if c["override"] and c["override"][q] is not None else None)) for q, s in enumerate(syms)]
        need(Window.asked == exp, f"options of the update: {Window.asked}, expected {exp}", sig="window-options")
        fresh = set().union(*map(set, win))
        nt = nt or bool({t for t in known if t >= min(fresh)} - fresh)
        for q, s in enumerate(syms):
            have[q].update(dict(rows(win, g)[s]))
        ts = sorted(set().union(*have))
        for q, s in enumerate(syms):
            got = [t.tz_localize(None) for t in d.data[s].index]
            need(got == [T0 + pd.Timedelta(days=t) for t in ts], f"index after an update of days {win} is {got}, expected days {ts}", sig="window-index")
            need(np.array_equal(d.data[s].to_numpy(), [have[q].get(t, NAN) for t in ts], equal_nan=True), f"{s}: {d.data[s].tolist()}, expected {have[q]}", sig="window-value")
            need(d.data[s].index.equals(d.wrapper.index), "wrapper index", sig="window-wrapper")
    return ["nt"] if nt else []


FACETS = [
    Facet("window", s_window, check_window, 500, 8000, "an update that leaves out known rows"),
    Facet("align", s_align, check_align, 1200, 12000, "several symbols that disagree on index or columns", shards=2, tshards=4),
    Facet("update", s_update, check_update, 900, 9000, "an update that adds timestamps to several symbols", shards=2, tshards=4),
    Facet("sources", s_source, check_source, 500, 5000, "more rows than one page / a source that was updated", shards=2, tshards=4),
    Facet("schedule", s_schedule, check_schedule, 60, 600, "several scheduled updates", shards=1, tshards=2),
]
