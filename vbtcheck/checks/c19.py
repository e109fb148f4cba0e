"""C19: splits cover what they claim and never leak the future.

Oracle: the documented windows in plain Python (integers and exact fractions), the documented set layout, and the invariants the
statement lists (contiguity, order, disjointness, lengths, coverage); split data is compared with the source cell by cell."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vectorbt.generic.splitters import ExpandingSplitter, RangeSplitter, RollingSplitter, split_ranges_into_sets

from vbtcheck.core import Facet
from vbtcheck.util import need, weighted

ASSUMPTIONS = [
    "n of K possible windows are the ones nearest to n equally spaced positions from the first to the last (a tie goes either way); one split is the first window.",
    "A fraction of a length is rounded down.",
    "Start and end positions given by the user lie within the index, ends not before starts unless min_len removes the range.",
    "Per-range set configurations name the same number of sets for each range.",
]

FRACS = [(1, 2), (1, 4), (3, 4), (1, 3), (1, 8), (2, 5), (3, 10), (1, 10), (9, 10)]


# ---------------------------------------------------------------- cases

LEN = weighted((4, ("abs", None)), (2, ("frac", None)), (1, ("none", None)))


@st.composite
def setconf(draw, n):
    k = draw(weighted((4, 0), (4, 1), (2, 2), (1, 3)))
    one = lambda: [draw(weighted((4, 1), (2, 2), (1, 3), (1, 4), (2, (1, 4)), (2, (1, 3)), (1, (1, 2)), (1, (2, 5)), (1, (3, 10)), (1, (3, 4)), (1, (1, 8)))) for _ in range(k)]
    per = k > 0 and draw(weighted((3, False), (1, True)))
    return dict(k=k, lens=one(), per=[one() for _ in range(n + 2)] if per else None, ltr=draw(st.booleans()),
                ltrs=[draw(st.booleans()) for _ in range(n + 2)] if draw(weighted((4, False), (1, True))) else None)


@st.composite
def s_split(draw):
    n = draw(weighted((1, 1), (1, 2), (9, 0))) or draw(st.integers(5, 24))
    c = dict(n=n, m=draw(weighted((2, 0), (2, 1), (2, 2), (1, 3))), kind=draw(st.sampled_from(["range", "range", "pos", "pos", "label", "rolling", "rolling", "expanding", "expanding"])),
             index=draw(st.sampled_from(["dates", "ints", "str"])), count=draw(weighted((3, None), (1, 1), (2, 2), (2, 3), (1, 5), (1, 9), (1, 30))),
             min_len=draw(weighted((4, 1), (2, 2), (1, 4), (1, 12))), sets=draw(setconf(n)), keys=draw(st.booleans()), name=draw(st.sampled_from([None, "sym"])),
             stack=draw(weighted((4, None), (1, "bottom"))), multi=draw(weighted((3, False), (1, True))), nan=draw(weighted((3, False), (1, True))),
             raw=draw(st.sampled_from(["array", "array2", "series", "frame"])))
    c["len"] = draw(st.one_of(st.none(), st.integers(1, min(n + 1, 12)), st.integers(3, 8), st.sampled_from(FRACS)))
    if draw(st.booleans()):  # make the request likely to be met
        c["min_len"] = draw(st.integers(3, 6))
        c["count"] = draw(weighted((2, None), (1, 2), (1, 3)))
    k = draw(st.integers(1, 5))
    S = [draw(st.integers(0, n - 1)) for _ in range(k)]
    c["starts"] = S
    c["ends"] = [min(n - 1, s + draw(weighted((1, 0), (3, 4), (3, 6), (2, 9)))) for s in S]
    c["one"] = draw(weighted((4, False), (1, True)))  # a single start for all ends
    c["dup"] = draw(weighted((4, False), (1, True)))  # labels occur twice
    return c


def val(x):
    """A configured length as the user writes it."""
    return x if isinstance(x, int) or x is None else x[0] / x[1]


def length(x, total):
    return x if isinstance(x, int) else math.floor(Fraction(*x) * total)


class Refuse(Exception):
    pass


def windows(c):
    """[(start, end)] before the sets; Refuse when the request cannot be met."""
    n, kind = c["n"], c["kind"]
    if kind in ("range", "rolling"):
        if c["len"] is None and c["count"] is None:
            raise Refuse
        k = n // c["count"] if c["len"] is None else length(c["len"], n)
        W = [(s, s + k - 1) for s in range(n - k + 1)] if k > 0 else []
    elif kind == "expanding":
        W = [(0, e) for e in range(n)]
    else:
        S, E = list(c["starts"]), list(c["ends"])
        if c["one"]:
            S = [min(S)] * len(E)
        W = list(zip(S, E))
    W = [(s, e) for s, e in W if e - s + 1 >= c["min_len"]]
    if not W:
        raise Refuse
    return W


def chosen(W, k):
    """Alternatives for each of the k chosen windows."""
    if k is None:
        return [[w] for w in W]
    if k > len(W):
        raise Refuse
    out = []
    for q in range(k):
        p = Fraction(q * (len(W) - 1), k - 1) if k > 1 else Fraction(0)
        lo, hi = math.floor(p), math.ceil(p)
        out.append([W[x] for x in sorted({lo, hi}) if abs(x - p) <= Fraction(1, 2)])
    return out


def sets_of(w, sets, q):
    """[(start, stop)] of the sets of one window."""
    s, e = w
    total = e - s + 1
    if sets["k"] == 0:
        return [(s, e + 1)]
    lens = [length(x, total) for x in (sets["per"][q] if sets["per"] else sets["lens"])]
    ltr = sets["ltrs"][q] if sets["ltrs"] else sets["ltr"]
    if min(lens) <= 0 or sum(lens) >= total:
        raise Refuse
    rest = total - sum(lens)
    lens = lens + [rest] if ltr else [rest] + lens
    out, at = [], s
    for x in lens:
        out.append((at, at + x))
        at += x
    return out


def call_kwargs(c, idx):
    kw = dict(min_len=c["min_len"])
    if c["count"] is not None:
        kw["n"] = c["count"]
    if c["kind"] == "range" and c["len"] is not None:
        kw["range_len"] = val(c["len"])
    if c["kind"] == "rolling" and c["len"] is not None:
        kw["window_len"] = val(c["len"])
    if c["kind"] in ("pos", "label"):
        S = [min(c["starts"])] if c["one"] else c["starts"]
        if c["kind"] == "label":
            kw.update(start_idxs=idx[S], end_idxs=idx[c["ends"]])
        else:
            kw.update(start_idxs=S if len(S) != 2 else np.array(S), end_idxs=c["ends"])
    s = c["sets"]
    if s["k"]:
        kw["set_lens"] = [tuple(map(val, x)) for x in s["per"]] if s["per"] else tuple(map(val, s["lens"]))
        kw["left_to_right"] = s["ltrs"] if s["ltrs"] else s["ltr"]
    return kw


def index_of(c):
    n = c["n"]
    if c["kind"] == "label" and c["dup"]:
        return pd.Index([10 * (i // 2) for i in range(n)], name="bar")
    return {"dates": pd.date_range("2020-01-01", periods=n, freq="h"), "ints": pd.Index([3 * i + 5 for i in range(n)], name="bar"), "str": pd.Index([f"r{i:02d}" for i in range(n)])}[c["index"]]


def first_of(c, i):
    """Position a label leads to."""
    return i - i % 2 if c["kind"] == "label" and c["dup"] else i


def expected(c):
    """[[alternatives of the sets] per split]; labels lead to their first position."""
    c = dict(c)
    if c["kind"] == "label":
        c["starts"], c["ends"] = [first_of(c, i) for i in c["starts"]], [first_of(c, i) for i in c["ends"]]
    W = windows(c)
    out = []
    for q, alts in enumerate(chosen(W, c["count"])):
        A = []
        for w in alts:
            try:
                A.append(sets_of(w, c["sets"], q))
            except Refuse:
                A.append(None)
        if all(a is None for a in A):
            raise Refuse
        out.append(A)
    return out, W


def check_ranges(c, got, E, W, what):
    """`got` = [[positions per set] per split]."""
    need(len(got) == len(E), f"{what}: {len(got)} splits, expected {len(E)}", sig=what + "-count")
    for q, (g, A) in enumerate(zip(got, E)):
        flat = [p for s in g for p in s]
        need(all(len(s) > 0 for s in g), f"{what}: empty set {g}", sig=what + "-empty")
        need(flat == list(range(flat[0], flat[0] + len(flat))), f"{what}: sets {g} are not contiguous, ordered and disjoint", sig=what + "-contiguous")
        need(len(g) == c["sets"]["k"] + 1, f"{what}: {len(g)} sets", sig=what + "-sets")
        need(any(a is not None and g == [list(range(*s)) for s in a] for a in A), f"{what} split {q}: {g}, expected {A}", sig=what)
    if c["kind"] in ("range", "rolling", "expanding"):
        ends = [g[-1][-1] for g in got]
        if c["kind"] == "expanding":
            need(all(g[0][0] == 0 for g in got), f"{what}: an expanding window starts late", sig=what + "-cover")
        else:
            need(got[0][0][0] == 0, f"{what}: the first window starts late", sig=what + "-cover")
        if len(got) > 1 or c["count"] is None:
            need(ends[-1] == c["n"] - 1, f"{what}: the last window ends at {ends[-1]} of {c['n']}", sig=what + "-cover")
        need(all(x < y for x, y in zip(ends, ends[1:])), f"{what}: windows out of order {ends}", sig=what + "-order")
        if c["kind"] == "range" and c["len"] is None:
            need(all(a[-1][-1] < b[0][0] for a, b in zip(got, got[1:])), f"{what}: even ranges overlap {got}", sig=what + "-even")


SPLITTER = dict(range=RangeSplitter, pos=RangeSplitter, label=RangeSplitter, rolling=RollingSplitter, expanding=ExpandingSplitter)


def ints(rs):
    return [[[int(p) for p in s] for s in r] for r in rs]


def check_kernel(c):
    idx = index_of(c)
    n = c["n"]
    X = {"array": np.arange(n) * 1.5, "array2": np.arange(2.0 * n).reshape(n, 2), "series": pd.Series(np.arange(n), index=idx), "frame": pd.DataFrame({"a": np.arange(n)}, index=idx)}[c["raw"]]
    if c["kind"] == "label" and c["raw"] in ("array", "array2"):
        X = pd.Series(np.arange(n), index=idx)
    kw = call_kwargs(c, idx)
    try:
        E, W = expected(c)
    except Refuse:
        E = None
    try:
        got = ints(SPLITTER[c["kind"]]().split(X, **kw))
    except ValueError as e:
        need(E is None or any(None in A for A in E), f"refused: {kw}: {e}", sig="kernel-refused")
        return []
    need(E is not None, f"accepted although it cannot be met: {kw} -> {got}", sig="kernel-accepted")
    check_ranges(c, got, E, W, "kernel")
    # the same windows straight through the set generator
    starts, ends = [r[0][0] for r in got], [r[-1][-1] for r in got]
    sk = {k: kw[k] for k in ("set_lens", "left_to_right") if k in kw}
    need(ints(split_ranges_into_sets(starts, ends, **sk)) == got, "splitting the same windows into sets differs", sig="kernel-sets")
    return (["nt"] if len(got) >= 2 and n >= 5 else []) + [c["kind"]] + (["sets"] if c["sets"]["k"] else []) + (["per"] if c["sets"]["per"] else [])


def check_split(c):
    idx = index_of(c)
    n, m = c["n"], c["m"]
    vals = np.arange(n * max(m, 1), dtype=float).reshape(n, max(m, 1)) + 100
    if c["nan"]:
        vals[n // 2, 0] = np.nan
    if m == 0:
        obj = pd.Series(vals[:, 0], index=idx, name=c["name"])
    else:
        cols = pd.MultiIndex.from_arrays([list("xyz")[:m], list(range(m))], names=["p", "q"]) if c["multi"] else pd.Index(list("abc")[:m], name=c["name"])
        obj = pd.DataFrame(vals, index=idx, columns=cols)
    kw = call_kwargs(c, idx)
    try:
        E, W = expected(c)
    except Refuse:
        E = None
    if c["keys"] and E is not None:
        keys = [f"k{i}" for i in range(len(E))]
        kw["keys"] = pd.Index(keys, name="part") if len(E) % 2 else keys
    if c["stack"]:
        kw["stack_kwargs"] = dict(on_top=False)
    before = obj.copy()
    meth = {"range": "range_split", "pos": "range_split", "label": "range_split", "rolling": "rolling_split", "expanding": "expanding_split"}[c["kind"]]
    try:
        res = getattr(obj.vbt, meth)(**kw)
    except ValueError as e:
        need(E is None or any(None in A for A in E), f"refused: {kw}: {e}", sig="split-refused")
        return []
    need(E is not None, f"accepted although it cannot be met: {kw}", sig="split-accepted")
    need(obj.equals(before), "the source was changed", sig="split-source")
    k = c["sets"]["k"] + 1
    if k == 1:
        need(isinstance(res, tuple) and isinstance(res[0], pd.DataFrame), f"one set: {type(res)}", sig="split-shape")
        res = (res,)
    need(len(res) == k, f"{len(res)} sets returned, expected {k}", sig="split-sets")
    unique = not (c["kind"] == "label" and c["dup"])
    got = [[] for _ in E]
    M = max(m, 1)
    for s, (df, indexes) in enumerate(res):
        need(len(indexes) == len(E) and df.shape[1] == len(E) * M, f"set {s}: {len(indexes)} indexes, {df.shape[1]} columns for {len(E)} splits", sig="split-shape")
        need(len(df) == max(map(len, indexes)) and list(df.index) == list(range(len(df))), f"set {s}: rows {list(df.index)}", sig="split-rows")
        lname = "split_idx" if "keys" not in kw else (kw["keys"].name if isinstance(kw["keys"], pd.Index) else None)
        labels = list(range(len(E))) if "keys" not in kw else list(kw["keys"])
        src = [()] if m == 0 else [x if isinstance(x, tuple) else (x,) for x in obj.columns]
        for q in range(len(E)):
            need(indexes[q].name == (labels[q] if "keys" in kw else f"split_{q}"), f"index name {indexes[q].name}", sig="split-index-name")
            # find the positions from the data: the first column identifies the row, unless it is missing there
            block = df.iloc[:, q * M:(q + 1) * M].to_numpy()
            L = len(indexes[q])
            need(bool(np.isnan(block[L:]).all()), f"set {s} split {q}: padding {block[L:]}", sig="split-padding")
            if unique:
                pos = [idx.get_loc(x) for x in indexes[q]]
            else:
                pos = [int(x) for x in pd.Series((block[:L, 0] - 100) / M).interpolate(limit_direction="both").round()] if L > 1 or not np.isnan(block[0, 0]) else [n // 2]
                pos = [pos[0] + i for i in range(L)] if not np.isnan(block[0, 0]) else [n // 2 + i for i in range(L)]
                need(list(idx[pos]) == list(indexes[q]), f"set {s} split {q}: labels {list(indexes[q])} of positions {pos}", sig="split-index")
            w = vals[pos]
            need(np.array_equal(block[:L], w, equal_nan=True), f"set {s} split {q}: data {block[:L].tolist()} at positions {pos}, expected {w.tolist()}", sig="split-data")
            got[q].append([int(p) for p in pos])
            for j in range(M):
                col = df.columns[q * M + j]
                col = col if isinstance(col, tuple) else (col,)
                t = tuple(src[j]) if m else ()
                want = [t + (labels[q],), (labels[q],)] if c["stack"] else [(labels[q],) + t, (labels[q],)]
                if len(set(labels)) == 1:
                    want.append(t)
                need(col == want[0] or ((M == 1 or len(t) == 0) and col in want) or (m == 0), f"set {s}: column {col}, expected {want}", sig="split-columns")
                if m == 0:
                    need(labels[q] in col, f"set {s}: column {col} of split {labels[q]}", sig="split-columns")
        if len(E) > 1:
            need(lname in df.columns.names, f"set {s}: column levels {df.columns.names}", sig="split-columns")
    check_ranges(c, got, E, W, "split")
    return (["nt"] if len(got) >= 2 and n >= 5 else []) + [c["kind"]] + (["sets"] if k > 1 else [])


FACETS = [
    Facet("splitters", s_split, check_kernel, 8000, 60000, "at least two splits of at least five bars", shards=2, tshards=4),
    Facet("split", s_split, check_split, 3600, 24000, "at least two splits of at least five bars", shards=3, tshards=5),
]
