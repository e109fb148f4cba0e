"""C12: broadcasting follows NumPy for values and the documented rules for labels.

Oracle: numpy.broadcast_to for values; for labels a model on plain lists of (level name, level values). Every argument
holds distinct numbers, so a value shows which element of which argument it came from."""
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numba import njit

import vectorbt as vbt
from vectorbt.base import combine_fns, index_fns, reshape_fns

from vbtcheck.core import Facet
from vbtcheck.util import need, need_same, vec, weighted

ASSUMPTIONS = [
    "Series expand to one-column frames as soon as any argument is two-dimensional; 1-D NumPy arrays then run along columns, as in NumPy.",
    "A result column label of 0 means `no name`, and default integer labels carry no information (library convention).",
    "Under stack: Series names and default labels are ignored next to other labels, equal levels are kept once (the last), unnamed constant levels are dropped.",
    "to_frame=False is only used when nothing is two-dimensional.",
]


# ---------------------------------------------------------------- labels as plain data

def lv(index):
    """Index -> list of (name, values)."""
    if isinstance(index, pd.MultiIndex):
        return [(index.names[k], list(index.get_level_values(k))) for k in range(index.nlevels)]
    return [(index.name, list(index))]


def llen(levels):
    return len(levels[0][1])


def is_def(levels):
    return len(levels) == 1 and levels[0][0] is None and all(
        isinstance(v, (int, np.integer)) and v == i for i, v in enumerate(levels[0][1]))


def rng(n):
    return [(None, list(range(n)))]


def lrepeat(levels, n):
    if is_def(levels):
        return rng(llen(levels) * n)
    return [(nm, [v for v in vs for _ in range(n)]) for nm, vs in levels]


def ltile(levels, n):
    if is_def(levels):
        return rng(llen(levels) * n)
    return [(nm, list(vs) * n) for nm, vs in levels]


def lstack(*parts, drop_duplicates=True, keep="last", drop_redundant=True):
    levels = [x for p in parts for x in p]
    if drop_duplicates:
        order = range(len(levels)) if keep == "first" else range(len(levels) - 1, -1, -1)
        seen, kept = [], []
        for i in order:
            if levels[i] not in seen:
                seen.append(levels[i])
                kept.append(i)
        levels = [levels[i] for i in sorted(kept)]
    if drop_redundant and len(levels) > 1:
        n = llen(levels)
        red = [(n > 1 and len(set(vs)) == 1 and nm is None) or is_def([(nm, vs)]) for nm, vs in levels]
        if not all(red):
            levels = [x for x, r in zip(levels, red) if not r]
    return levels


def lcombine(a, b, **kw):
    return lstack(lrepeat(a, llen(b)), ltile(b, llen(a)), **kw)


def same_labels(index, levels, what):
    got = lv(index)
    need(got == levels, "%s: labels %s, expected %s" % (what, got, levels))


def sel(levels, pos):
    return [(nm, [vs[p] for p in pos]) for nm, vs in levels]


def make_index(kind, n):
    if kind == "letters":
        return pd.Index(list("abcdefgh")[:n])
    if kind == "other":
        return pd.Index(list("stuvwxyz")[:n], name="o")
    if kind == "dates":
        return pd.date_range("2020-01-01", periods=n, freq="D")
    if kind == "named":
        return pd.Index([10 * (i + 1) for i in range(n)], name="bar")
    if kind == "multi":
        return pd.MultiIndex.from_arrays([[1 + i % 2 for i in range(n)], list("pqrstuvw")[:n]], names=["m1", "m2"])
    if kind == "multi2":
        return pd.MultiIndex.from_arrays([list("abcdefgh")[:n], [5] * n], names=[None, "c"])
    if kind == "const":
        return pd.Index(["k"] * n)
    if kind == "constn":
        return pd.Index([7] * n, name="w")
    return pd.RangeIndex(n)


KINDS = weighted((3, "default"), (2, "letters"), (1, "other"), (1, "dates"), (2, "named"), (1, "multi"), (1, "multi2"),
                 (1, "const"), (1, "constn"))


def make(a, i):
    """Argument from its spec; element (r, c) of argument i is 100 * i + 10 * r + c + 1 (or its parity for bool)."""
    n, m = a["n"], a["m"]
    v = np.array([[100 * i + 10 * r + c + 1 for c in range(m)] for r in range(n)])
    v = v % 3 == 0 if a["dtype"] == "bool" else v.astype(np.int64 if a["dtype"] == "int" else float)
    k = a["k"]
    if k == "scalar":
        return v[0, 0].item()
    if k == "0d":
        return np.array(v[0, 0])
    if k == "row":
        return v[0]
    if k == "1d":
        return v[:, 0].copy()
    if k == "list":
        return v[:, 0].tolist()
    if k == "2d":
        return v
    idx = make_index(a["ik"], n)
    if k == "sr":
        return pd.Series(v[:, 0].copy(), index=idx, name=a["name"])
    return pd.DataFrame(v, index=idx, columns=make_index(a["ck"], m))


def arg_st(N, M, two_d):
    kinds = ["scalar", "0d", "sr", "sr", "df", "df", "2d", "row"] if two_d else ["scalar", "0d", "1d", "list", "sr", "sr", "sr"]
    return st.fixed_dictionaries(dict(
        k=st.sampled_from(kinds),
        n=weighted((5, N), (2, 1), (1, N + 1 if N % 2 else max(1, N - 1))) if N > 0 else st.just(1),
        m=weighted((5, M), (3, 1), (1, M + 1)) if two_d else st.just(1),
        dtype=weighted((3, "int"), (2, "float"), (1, "bool")), ik=KINDS, ck=KINDS,
        name=weighted((2, None), (1, "s1"), (1, "s2"), (1, 5))))


@st.composite
def broadcast_case(draw):
    two_d = draw(st.booleans())
    N, M = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    same_labels_ = draw(st.booleans())
    args = draw(st.lists(arg_st(N, M, two_d), min_size=1, max_size=4))
    if same_labels_:
        ik, ck = draw(KINDS), draw(KINDS)
        for a in args:
            a["ik"], a["ck"] = ik, ck
    n = len(args)
    frm = weighted((6, None), (3, "stack"), (2, "strict"), (1, "keep"), (1, "reset"), (2, "arg"), (2, "explicit"))
    return dict(args=args, N=N, M=M, two_d=two_d, index_from=draw(frm), columns_from=draw(frm), pick=draw(st.integers(0, 3)),
                ik=draw(KINDS), ck=draw(KINDS), to_shape=draw(weighted((5, False), (1, True))),
                to_pd=draw(weighted((4, None), (1, True), (1, False), (1, "list"))), flags=draw(vec(st.booleans(), n)),
                to_frame=draw(weighted((4, None), (1, True))), keep_raw=draw(weighted((4, False), (1, True), (2, "list"))),
                raw=draw(vec(st.booleans(), n)), meta=draw(st.booleans()), require=draw(st.booleans()),
                kw=draw(st.fixed_dictionaries(dict(drop_duplicates=weighted((3, True), (1, False)),
                                                   drop_redundant=weighted((3, True), (1, False)),
                                                   keep=weighted((3, "last"), (1, "first")),
                                                   ignore_sr_names=weighted((3, True), (1, False))))))


class ModelError(Exception):
    pass


def arg_levels(a, axis):
    if axis == 0:
        return lv(a.index)
    if isinstance(a, pd.Series):
        return [(None, [a.name if a.name is not None else 0])]
    return lv(a.columns)


def model_labels(args, maxlen, frm, axis, kw, pick, explicit):
    if frm == "keep":
        return None
    strict = False
    if frm == "arg":
        new = arg_levels(args[pick], axis)
    elif frm == "explicit":
        new = lv(explicit)
    elif frm == "reset":
        new = rng(maxlen)
    else:
        strict = frm == "strict"
        pds = [a for a in args if isinstance(a, (pd.Series, pd.DataFrame))]
        alll = [arg_levels(a, axis) for a in pds]
        if all(x == alll[0] for x in alll):
            new = alll[0] if alll else None
        else:
            new = None
            for a, x in zip(pds, alll):
                if axis == 1 and isinstance(a, pd.Series) and kw["ignore_sr_names"]:
                    continue
                if is_def(x) or x == new:
                    continue
                if new is None:
                    new = x
                    continue
                if strict:
                    raise ModelError()
                if llen(x) != llen(new):
                    if llen(x) > 1 and llen(new) > 1:
                        raise ModelError()
                    if llen(x) > llen(new):
                        new = lrepeat(new, llen(x))
                    else:
                        x = lrepeat(x, llen(new))
                new = lstack(new, x, drop_duplicates=kw["drop_duplicates"], keep=kw["keep"],
                             drop_redundant=kw["drop_redundant"])
    if new is None:
        return rng(maxlen)
    if maxlen > llen(new):
        if strict or llen(new) > 1:
            raise ModelError()
        new = lrepeat(new, maxlen)
    return new


def is_pd(a):
    return isinstance(a, (pd.Series, pd.DataFrame))


def check_broadcast(case):
    args = [make(a, i) for i, a in enumerate(case["args"])]
    kw = dict(case["kw"])
    pds = [i for i, a in enumerate(args) if is_pd(a)]
    any2d = any(np.ndim(a) == 2 for a in args)
    to_shape = None
    if case["to_shape"]:
        to_shape = (case["N"], case["M"]) if case["two_d"] else (case["N"],)
    to_frame = case["to_frame"]
    is2d = True if to_frame else any2d or (to_shape is not None and len(to_shape) == 2)
    if case["to_pd"] == "list":
        to_pd, wrap = list(case["flags"]), case["flags"]
    else:
        to_pd = case["to_pd"]
        wrap = [bool(pds) if to_pd is None else to_pd] * len(args)
    keep_raw = case["raw"] if case["keep_raw"] == "list" else [case["keep_raw"]] * len(args)
    keeps = list(case["raw"]) if case["keep_raw"] == "list" else case["keep_raw"]
    pd_mode = any(wrap)
    index_from, columns_from = case["index_from"], case["columns_from"]
    if "arg" in (index_from, columns_from) and not pds:
        index_from = columns_from = None
    pick = pds[case["pick"] % len(pds)] if pds else None

    # values
    as2d = [np.asarray(a)[:, None] if is2d and isinstance(a, pd.Series) else np.asarray(a) for a in args]
    err, shape = None, None
    try:
        lens = [a.shape[1] for a in args if isinstance(a, pd.DataFrame) and a.shape[1] > 1]
        shape = to_shape if to_shape is not None else np.broadcast_shapes(*[x.shape for x in as2d])
        vals = [np.broadcast_to(x, shape) for x in as2d]
        if len(set(lens)) > 1:
            err = "columns cannot be aligned"
    except ValueError as e:
        err = str(e)
    if err is None and shape == ():
        if pd_mode:
            return ["skip"]
    li = lc = None
    ex_i = ex_c = None
    if err is None and pd_mode:
        rows, ncols = shape[0], shape[1] if len(shape) == 2 else 1
        ex_i, ex_c = make_index(case["ik"], rows), make_index(case["ck"], ncols)
        try:
            li = model_labels(args, rows, index_from or "strict", 0, kw, pick, ex_i)
            lc = model_labels(args, ncols, columns_from or "stack", 1, kw, pick, ex_c)
            for x, n in ((li, rows), (lc, ncols)):
                if x is not None and llen(x) > n and any(w and not k for w, k in zip(wrap, keep_raw)) \
                        and not (x is lc and len(shape) == 1):
                    raise ModelError()
        except ModelError:
            err = "labels"

    opts = dict(kw, to_pd=to_pd, to_frame=to_frame, keep_raw=keeps, return_meta=case["meta"], to_shape=to_shape)
    for name, frm, ex in (("index_from", index_from, ex_i), ("columns_from", columns_from, ex_c)):
        if frm == "arg":
            opts[name] = pick
        elif frm == "explicit":
            if ex is not None:
                opts[name] = ex
        elif frm is not None:
            opts[name] = frm
    if case["require"]:
        opts["require_kwargs"] = dict(requirements=["W", "C"])
    before = [a.copy() if isinstance(a, (pd.Series, pd.DataFrame, np.ndarray)) else a for a in args]
    try:
        out = reshape_fns.broadcast(*args, **opts)
    except (ValueError, TypeError) as e:
        need(err is not None, "broadcast raised %r for compatible arguments (expected shape %s)" % (e, shape))
        return ["nt"] if len(args) > 1 else []
    need(err is None, "incompatible arguments were broadcast (%s)" % err)
    for a, b in zip(args, before):
        if is_pd(a):
            need(a.equals(b) and lv(a.index) == lv(b.index), "an argument was modified")
        else:
            need(np.array_equal(a, b), "an argument was modified")
    if case["meta"]:
        out, sh, ri, rc = out
        need(tuple(sh) == tuple(shape), "returned shape %s, expected %s" % (sh, shape))
        for got, want, nm in ((ri, li, "index"), (rc, lc, "columns")):
            if want is None:
                need(got is None, "returned %s is %s, expected None" % (nm, got))
            else:
                same_labels(got, want, "returned " + nm)
    if len(args) == 1:
        out = (out,)
    need(isinstance(out, tuple) and len(out) == len(args), "number of outputs")
    for k, (o, a, x, v) in enumerate(zip(out, args, as2d, vals)):
        what = "argument %d (%s)" % (k, case["args"][k]["k"])
        if keep_raw[k]:
            need(type(o) is np.ndarray and o.shape == x.shape and np.array_equal(o, x), "%s: raw view differs" % what)
            if len(shape) == 2:
                for i, j in itertools.product(range(shape[0]), range(shape[1])):
                    need(reshape_fns.flex_select_auto_nb.py_func(o, i, j, True) == v[i, j],
                         "%s: flexible element (%d, %d)" % (what, i, j)) if o.ndim else None
            continue
        need(np.asarray(o).dtype == x.dtype, "%s: dtype %s, expected %s" % (what, np.asarray(o).dtype, x.dtype))
        if not wrap[k]:
            need(type(o) is np.ndarray, "%s: type %s" % (what, type(o)))
            if case["require"]:
                need(o.flags.writeable and o.flags.c_contiguous, "%s: required flags" % what)
            need(o.shape == v.shape and np.array_equal(o, v), "%s: got %s, expected %s" % (what, o.tolist(), v.tolist()))
            continue
        need(isinstance(o, pd.DataFrame if len(shape) == 2 else pd.Series), "%s: type %s" % (what, type(o)))
        need(np.array_equal(np.asarray(o), v), "%s: got %s, expected %s" % (what, np.asarray(o).tolist(), v.tolist()))
        wi, wc = li, lc
        if wi is None:
            wi = rng(shape[0]) if not is_pd(a) else arg_levels(a, 0)
            wi = wi if llen(wi) == shape[0] else lrepeat(wi, shape[0])
        if wc is None:
            nc = shape[1] if len(shape) == 2 else 1
            wc = rng(nc) if not is_pd(a) else arg_levels(a, 1)
            wc = wc if llen(wc) == nc else lrepeat(wc, nc)
        same_labels(o.index, wi, what + " index")
        if len(shape) == 2:
            same_labels(o.columns, wc, what + " columns")
        else:
            name = wc[0][1][0] if len(wc) == 1 else tuple(x[1][0] for x in wc)
            name = None if llen(wc) != 1 or (len(wc) == 1 and name == 0) else name
            need(o.name == name, "%s: name %r, expected %r" % (what, o.name, name))
    kinds = set(a["k"] for a in case["args"])
    return ["nt"] if len(args) > 1 and len(kinds) > 1 and pds else []


# ---------------------------------------------------------------- alignment through multi-indexes

@st.composite
def align_case(draw):
    n1, n2 = draw(st.integers(1, 3)), draw(st.integers(2, 3))
    tot = n1 * n2
    return dict(n1=n1, n2=n2, order=draw(st.permutations(range(tot))), drop=draw(weighted((3, None), (1, draw(st.integers(0, tot - 1))))),
                sorder=draw(st.permutations(range(n2))), both=draw(weighted((3, False), (1, True))), axis=draw(st.integers(0, 1)),
                rows=draw(st.integers(2, 3)), swap=draw(st.booleans()), missing=draw(weighted((5, False), (1, True))),
                series=draw(st.booleans()))


def check_align(case):
    """The small frame's labels are a level (or both levels) of the big one's."""
    n1, n2 = case["n1"], case["n2"]
    combos = [(10 + i, "xyz"[j]) for i in range(n1) for j in range(n2)]
    big = [combos[p] for p in case["order"]]
    if case["drop"] is not None and len(big) > 2:
        big = [x for k, x in enumerate(big) if k != case["drop"]]
    full = combos if case["both"] else [("xyz"[j],) for j in range(n2)]
    small = [full[p] for p in (case["order"] if case["both"] else case["sorder"])]
    if case["both"]:
        small = [full[p] for p in sorted(case["order"], key=lambda p: (p * 7) % 5)]
        big = [b for b in big] + []
    if case["missing"]:
        small = small[:-1]
    names = ["a", "b"]
    if case["swap"]:
        bigi = pd.MultiIndex.from_tuples([(b, a) for a, b in big], names=["b", "a"])
    else:
        bigi = pd.MultiIndex.from_tuples(big, names=names)
    if len(small) == 0:
        return []
    smalli = pd.MultiIndex.from_tuples(small, names=names) if case["both"] else pd.Index([x[0] for x in small], name="b")
    key = (lambda t: t) if case["both"] else (lambda t: (t[1],))
    try:
        pos = [small.index(key(t)) for t in big]
    except ValueError:
        pos = None
    # positions
    try:
        got = index_fns.align_index_to(smalli, bigi)
        got = list(range(len(small))) if isinstance(got, slice) else [int(x) for x in got]
        need(pos is not None, "align_index_to returned %s although a label is missing in the source" % got)
        need(got == pos, "align_index_to: positions %s, expected %s" % (got, pos))
    except ValueError as e:
        need(pos is None, "align_index_to raised %r, expected positions %s" % (e, pos))
    r = case["rows"]
    sv = np.array([[10 * i + j for j in range(len(small))] for i in range(r)], dtype=float)
    bv = 1000.0 + np.array([[10 * i + j for j in range(len(big))] for i in range(r)])
    if case["axis"] == 1:
        s, b = pd.DataFrame(sv, columns=smalli), pd.DataFrame(bv, columns=bigi)
    else:
        s, b = pd.DataFrame(sv.T, index=smalli), pd.DataFrame(bv.T, index=bigi)
        if case["series"]:
            s, b = s.iloc[:, 0], b.iloc[:, 0]
    if pos is not None:
        a = s.vbt.align_to(b)
        want = sv[:, pos] if case["axis"] == 1 else sv[:, pos].T
        if isinstance(s, pd.Series):
            want = want[:, 0]
            need(a.shape == want.shape, "align_to on Series: shape %s" % (a.shape,))
        need_same(a.values, want, "align_to values")
        need(a.index.equals(b.index), "align_to index")
        if case["axis"] == 1:
            need(a.columns.equals(b.columns) and list(a.columns.names) == list(b.columns.names), "align_to columns")
    if len(small) > 1 and len(big) > 1 and (len(small) < len(big)):
        opts = dict(align_index=True, index_from="stack") if case["axis"] == 0 else {}
        try:
            o1, o2 = reshape_fns.broadcast(s, b, **opts)
        except ValueError as e:
            need(pos is None, "broadcast raised %r although labels align at %s" % (e, pos))
            return ["nt"]
        need(pos is not None, "broadcast aligned labels that are missing in the source")
        want = sv[:, pos] if case["axis"] == 1 else sv[:, pos].T
        if isinstance(s, pd.Series):
            want, bv = want[:, 0], bv[:1]
        need_same(o1.values, want, "aligned broadcast")
        need_same(o2.values, b.values, "aligned broadcast (big)")
        got = o1.columns if case["axis"] == 1 else o1.index
        # every level of the big index must still be there, in order
        for nm in ("a", "b"):
            need(nm in got.names, "level %s lost in %s" % (nm, got.names))
            for k, x in enumerate(got.names):
                if x == nm:
                    need(list(got.get_level_values(k)) == list(bigi.get_level_values(nm)), "level %s of aligned labels" % nm)
    return ["nt"] if pos is not None and pos != list(range(len(pos))) else []


# ---------------------------------------------------------------- flexible indexing

@njit
def read_all_nb(a, n, m, flex_2d):
    out = np.empty((n, m))
    out2 = np.empty((n, m))
    fi, fc = reshape_fns.flex_choose_i_and_col_nb(a, flex_2d)
    for i in range(n):
        for j in range(m):
            out[i, j] = reshape_fns.flex_select_auto_nb(a, i, j, flex_2d)
            out2[i, j] = reshape_fns.flex_select_nb(a, i, j, fi, fc, flex_2d)
    return out, out2


def check_flex(case):
    n, m, k = case["n"], case["m"], case["k"]
    r, c = (1 if case["r1"] else n), (1 if case["c1"] else m)
    v = 1.0 + np.arange(r * c, dtype=float).reshape(r, c)
    if k == 0:
        a, want = np.array(3.5), np.full((n, m), 3.5)
    elif k == 1:
        a = np.ascontiguousarray(v[0])                                  # along columns
        want = np.broadcast_to(a, (n, m))
    elif k == 2:
        a = np.ascontiguousarray(v[:, 0])                               # along rows
        want = np.broadcast_to(a[:, None], (n, m))
    else:
        a, want = v, np.broadcast_to(v, (n, m))
    got, got2 = read_all_nb(a, n, m, k != 2)
    need_same(got, want, "flex_select_auto_nb on shape %s" % (a.shape,))
    need_same(got2, want, "flex_select_nb on shape %s" % (a.shape,))
    return ["nt"] if n > 1 and m > 1 and (r, c) != (n, m) else []


def flex_st():
    return st.fixed_dictionaries(dict(n=st.integers(1, 5), m=st.integers(1, 5), k=st.integers(0, 3), r1=st.booleans(), c1=st.booleans()))


# ---------------------------------------------------------------- reshaping

@st.composite
def reshape_case(draw):
    n, m = draw(st.integers(1, 4)), draw(weighted((2, 1), (1, 2), (2, 3)))
    return dict(a=dict(k=draw(st.sampled_from(["sr", "df", "1d", "2d", "0d"])), n=n, m=m,
                       dtype=draw(weighted((2, "int"), (2, "float"), (1, "bool"))), ik=draw(KINDS), ck=draw(KINDS),
                       name=draw(weighted((2, None), (2, "s1"), (1, 5)))),
                times=draw(st.integers(1, 3)), axis=draw(st.integers(0, 1)), kk=draw(KINDS), keys=draw(st.booleans()))


def labels_of(o):
    if isinstance(o, pd.Series):
        return lv(o.index), [(None, [0 if o.name is None else o.name])]
    return lv(o.index), lv(o.columns)


def expect(o, values, index, columns, what):
    """`o` is a pandas object with these values and labels (index/columns None: plain array)."""
    if index is None:
        need(type(o) is np.ndarray, "%s: type %s" % (what, type(o)))
    elif np.ndim(values) == 1:
        need(isinstance(o, pd.Series), "%s: type %s" % (what, type(o)))
        same_labels(o.index, index, what + " index")
        name = columns[0][1][0] if len(columns) == 1 else tuple(x[1][0] for x in columns)
        got = 0 if o.name is None else o.name
        need(got == name, "%s: name %r, expected %r" % (what, o.name, name))
    else:
        need(isinstance(o, pd.DataFrame), "%s: type %s" % (what, type(o)))
        same_labels(o.index, index, what + " index")
        same_labels(o.columns, columns, what + " columns")
    v = np.asarray(o)
    need(v.shape == np.shape(values) and np.array_equal(v, values), "%s: got %s, expected %s" % (what, v.tolist(), np.asarray(values).tolist()))


def check_reshape(case):
    a = make(case["a"], 0)
    t, axis = case["times"], case["axis"]
    v = np.asarray(a)
    pdm = is_pd(a)
    li, lc = labels_of(a) if pdm else (None, None)
    before = a.copy()
    # to_1d / to_2d / soft_to_ndim
    if v.ndim == 2 and v.shape[1] != 1:
        for fn in (reshape_fns.to_1d, lambda x: reshape_fns.to_1d(x, raw=True)):
            try:
                fn(a)
            except ValueError:
                pass
            else:
                need(False, "to_1d accepted %d columns" % v.shape[1])
        expect(reshape_fns.soft_to_ndim(a, 1), v, li, lc, "soft_to_ndim(1)")
    else:
        flat = v.reshape(-1)
        expect(reshape_fns.to_1d(a), flat, li, lc, "to_1d")
        expect(reshape_fns.to_1d(a, raw=True), flat, None, None, "to_1d raw")
        if v.ndim > 0:
            expect(reshape_fns.soft_to_ndim(a, 1), flat, li, lc, "soft_to_ndim(1)")
    v2 = v.reshape(-1, 1) if v.ndim < 2 else v
    expect(reshape_fns.to_2d(a), v2, li, lc, "to_2d")
    expect(reshape_fns.to_2d(a, raw=True), v2, None, None, "to_2d raw")
    if v.ndim == 1:
        expect(reshape_fns.to_2d(a, expand_axis=0), v[None, :], rng(1) if pdm else None, li, "to_2d(expand_axis=0)")
    if v.ndim > 0:
        expect(reshape_fns.soft_to_ndim(a, 2), v2, li, lc, "soft_to_ndim(2)")
    # repeat / tile, as functions and accessors, with and without keys
    if v.ndim > 0:
        src = v if axis == 0 else v2
        for nm, fn, npf, lf in (("repeat", reshape_fns.repeat, np.repeat, lrepeat), ("tile", reshape_fns.tile, None, ltile)):
            if nm == "repeat":
                want = np.repeat(src, t, axis=axis)
            else:
                want = np.concatenate([src] * t, axis=axis)
            wi = li if not pdm or axis == 1 else lf(li, t)
            wc = lc if not pdm or axis == 0 else lf(lc, t)
            got = fn(a, t, axis=axis)
            if pdm and v.ndim == 1 and axis == 1 and t == 1:
                got = reshape_fns.to_2d(got)
            expect(got, want, wi, wc, "%s(%d, axis=%d)" % (nm, t, axis))
            need(type(fn(a, t, axis=axis, raw=True)) is np.ndarray, "%s raw" % nm)
            if pdm:
                keys = make_index(case["kk"], t) if case["keys"] else None
                got = getattr(a.vbt, nm)(t, keys=keys, axis=axis)
                if keys is not None:
                    own = li if axis == 0 else lc
                    comb = lcombine(own, lv(keys)) if nm == "repeat" else lcombine(lv(keys), own)
                    wi, wc = (comb, wc) if axis == 0 else (wi, comb)
                if v.ndim == 1 and axis == 1 and t == 1:
                    got = reshape_fns.to_2d(got)
                expect(got, want, wi, wc, "accessor %s(%d, keys=%s, axis=%d)" % (nm, t, keys, axis))
    need(np.array_equal(np.asarray(a), np.asarray(before)), "the argument was modified")
    if pdm:
        need(labels_of(a) == labels_of(before), "labels of the argument were modified")
    return ["nt"] if pdm and t > 1 and v.size > 1 else []


@st.composite
def bto_case(draw):
    c = draw(reshape_case())
    c["b"] = dict(k=draw(st.sampled_from(["sr", "df", "1d", "2d"])), n=draw(st.integers(1, 4)), m=draw(weighted((1, 1), (2, 3))),
                  dtype="float", ik=draw(KINDS), ck=draw(KINDS), name=draw(weighted((1, None), (1, "t"))))
    if draw(weighted((3, True), (1, False))):
        c["a"]["n"] = draw(st.sampled_from([1, c["b"]["n"]]))
        c["a"]["m"] = draw(st.sampled_from([1, c["b"]["m"]]))
    c["to_pd"] = draw(weighted((3, None), (1, True), (1, False)))
    return c


def check_broadcast_to(case):
    a, b = make(case["a"], 0), make(case["b"], 1)
    va, vb = np.asarray(a), np.asarray(b)
    # broadcast_to
    if isinstance(a, pd.Series) and vb.ndim == 2:
        va = va[:, None]
    to_pd = is_pd(b) if case["to_pd"] is None else case["to_pd"]
    try:
        want = np.broadcast_to(va, vb.shape)
        ok = True
    except ValueError:
        ok = False
    if is_pd(b) or not to_pd:
        li, lc = labels_of(b) if to_pd else (None, None)
        for f in ([reshape_fns.broadcast_to] + ([lambda x, y, **k: x.vbt.broadcast_to(y, **k)] if is_pd(a) else [])):
            try:
                got = f(a, b, to_pd=case["to_pd"])
            except ValueError as e:
                need(not ok, "broadcast_to raised %r for %s -> %s" % (e, va.shape, vb.shape))
            else:
                need(ok, "broadcast_to accepted %s -> %s" % (va.shape, vb.shape))
                expect(got, want, li, lc, "broadcast_to")
    # broadcast_to_axis_of / broadcast_to_array_of
    one = np.asarray(a).reshape(-1)
    for ax in range(2):
        if vb.ndim < ax + 1:
            if len(one) == 1:
                need(reshape_fns.broadcast_to_axis_of(one, b, ax) == one[0], "broadcast_to_axis_of a missing axis")
            continue
        try:
            got = reshape_fns.broadcast_to_axis_of(one, b, ax, require_kwargs=dict(requirements="W"))
        except ValueError:
            need(len(one) not in (1, vb.shape[ax]), "broadcast_to_axis_of raised")
            continue
        need(got.shape == (vb.shape[ax],) and np.array_equal(got, np.broadcast_to(one, vb.shape[ax])) and got.flags.writeable,
             "broadcast_to_axis_of")
    got = reshape_fns.broadcast_to_array_of(one, vb)
    if one.ndim == vb.ndim + 1 and one.shape[1:] == vb.shape:
        want = one
    else:
        want = np.stack([np.full(vb.shape, x, dtype=one.dtype) for x in one])
    need(got.shape == want.shape and np.array_equal(got, want), "broadcast_to_array_of: %s" % got.tolist())
    cube = np.stack([vb, vb + 1])
    need(np.array_equal(reshape_fns.broadcast_to_array_of(cube, vb), cube), "broadcast_to_array_of with the right shape")
    return ["nt"] if is_pd(b) and ok and va.shape != vb.shape else []


# ---------------------------------------------------------------- unstacking

@st.composite
def unstack_case(draw):
    L = draw(weighted((3, 2), (2, 3)))
    sizes = [draw(st.integers(1, 3)) for _ in range(L)]
    combos = list(itertools.product(*[range(s) for s in sizes]))
    keep = draw(st.lists(st.sampled_from(combos), min_size=1, max_size=12, unique=True))
    levels = draw(st.permutations(range(L)))
    return dict(keep=[list(x) for x in keep], L=L, perm=[draw(st.permutations(range(3))) for _ in range(L)], levels=list(levels),
                cut=draw(st.integers(1, L - 1)), byname=draw(st.booleans()), shape=draw(weighted((3, "sr"), (1, "col"), (1, "row"))),
                sort=draw(st.booleans()), defaults=draw(st.booleans()))


POOL = [["a", "b", "c"], [10, 20, 30], ["x", "y", "z"]]


def check_unstack(case):
    L = case["L"]
    names = ["l0", "l1", "l2"][:L]
    tup = [tuple(POOL[k][case["perm"][k][x[k]]] for k in range(L)) for x in case["keep"]]
    v = [float(i + 1) for i in range(len(tup))]
    sr = pd.Series(v, index=pd.MultiIndex.from_tuples(tup, names=names))
    obj = sr if case["shape"] == "sr" else sr.to_frame() if case["shape"] == "col" and len(sr) > 1 else sr if case["shape"] == "col" else sr.to_frame().T
    where = dict(zip(tup, v))
    uniq = [sorted(set(t[k] for t in tup)) for k in range(L)]
    lvl = case["levels"]
    arg = [names[k] for k in lvl] if case["byname"] else lvl
    if case["defaults"]:
        lvl = list(range(L))
        got = obj.vbt.unstack_to_array()
    else:
        got = obj.vbt.unstack_to_array(levels=tuple(arg))
    want = np.full([len(uniq[k]) for k in lvl], np.nan)
    for t, x in where.items():
        want[tuple(uniq[k].index(t[k]) for k in lvl)] = x
    need_same(got, want, "unstack_to_array")
    # frames: some levels as rows, the others as columns
    if L == 2 and case["defaults"]:
        rows, colsl = [0], [1]
        df = obj.vbt.unstack_to_df()
    else:
        rows, colsl = lvl[:case["cut"]], lvl[case["cut"]:]
        nm = (lambda ks: [names[k] if case["byname"] else k for k in ks])
        one = (lambda ks: nm(ks)[0] if len(ks) == 1 else tuple(nm(ks)))
        df = obj.vbt.unstack_to_df(index_levels=one(rows), column_levels=one(colsl))
    need(list(df.index.names) == [names[k] for k in rows] and list(df.columns.names) == [names[k] for k in colsl], "level names of the frame")
    seen = {}
    for i, r in enumerate(df.index):
        for j, c in enumerate(df.columns):
            rt, ct = (r if len(rows) > 1 else (r,)), (c if len(colsl) > 1 else (c,))
            lab = dict(zip(rows + colsl, list(rt) + list(ct)))
            key = tuple(lab[k] for k in range(L))
            x = df.iloc[i, j]
            if key in where:
                need(x == where[key], "unstack_to_df: %s is %s, expected %s" % (key, x, where[key]))
                seen[key] = 1
            else:
                need(x != x, "unstack_to_df: %s is %s, expected NaN" % (key, x))
    need(len(seen) == len(where), "unstack_to_df lost %s" % (set(where) - set(seen)))
    need(df.index.is_unique and df.columns.is_unique, "duplicate labels")
    # symmetric frame from two levels of one universe
    if L == 2:
        pool = ["a", "b", "c", "d"]
        pairs = {}
        for (i, j), x in zip(case["keep"], v):
            p, q = pool[case["perm"][0][i]], pool[case["perm"][1][j]]
            if (q, p) not in pairs:
                pairs[(p, q)] = x
        s2 = pd.Series(list(pairs.values()), index=pd.MultiIndex.from_tuples(list(pairs), names=["i", "j"]))
        d = s2.vbt.unstack_to_df(symmetric=True, sort=case["sort"])
        labels = sorted(set(x for t in pairs for x in t))
        need(sorted(d.index) == labels and list(d.index) == list(d.columns), "labels of the symmetric frame: %s / %s" % (list(d.index), list(d.columns)))
        if case["sort"]:
            need(list(d.index) == labels, "symmetric frame is not sorted")
        for p in labels:
            for q in labels:
                w = pairs.get((p, q), pairs.get((q, p)))
                x = d.loc[p, q]
                need(x == w if w is not None else x != x, "symmetric frame (%s, %s): %s, expected %s" % (p, q, x, w))
    # duplicates are rejected
    if len(tup) > 1:
        dup = pd.Series(v, index=pd.MultiIndex.from_tuples([tup[0]] + tup[:-1] if len(tup) > 1 else tup, names=names))
        try:
            dup.vbt.unstack_to_array()
            need(False, "duplicate index entries were accepted")
        except ValueError:
            pass
    srt = tup == sorted(tup)
    return ["nt"] if not srt and len(tup) > 2 else []


# ---------------------------------------------------------------- accessor application

@njit
def app_nb(i, a, k):
    return a * k[i] + i


@njit
def comb_nb(a, b, w):
    return a * 2 + b * w


@st.composite
def apply_case(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    two = draw(st.booleans())
    mk = lambda: dict(k=draw(st.sampled_from(["df", "sr", "2d", "scalar"] if two else ["sr", "1d", "scalar"])),
                      n=draw(st.sampled_from([n, n, 1])), m=draw(st.sampled_from([m, m, 1])) if two else 1, dtype="float",
                      ik="letters", ck=draw(st.sampled_from(["letters", "named"])), name=draw(weighted((2, None), (1, "s1"))))
    a = mk()
    a.update(k="df" if two else "sr", n=n, m=m if two else 1)
    ot = [mk() for _ in range(draw(st.integers(1, 3)))]
    for o in ot:
        if o["k"] in ("df", "sr"):
            o["n"] = n
    return dict(a=a, others=ot, ks=[draw(st.integers(1, 4)) for _ in range(draw(st.integers(1, 3)))], keys=draw(st.booleans()),
                kk=draw(KINDS), nb=draw(st.booleans()), concat=draw(st.booleans()), w=draw(st.integers(1, 3)), op=draw(st.integers(0, 12)))


def check_apply(case):
    a = make(case["a"], 0)
    a = a.astype(float)
    others = [make(o, i + 1) for i, o in enumerate(case["others"])]
    li, lc = labels_of(a)
    va = np.asarray(a)
    v2 = va.reshape(len(va), -1)
    ks = np.array(case["ks"], dtype=float)
    t = len(ks)
    # apply
    expect(a.vbt.apply(2.0, apply_func=lambda x, k: x * k), va * 2, li, lc, "apply")
    got = a.vbt.apply(apply_func=lambda x: x + (x.shape[1] if x.ndim == 2 else -9), to_2d=True)
    expect(got, va + v2.shape[1], li, lc, "apply to_2d")
    # apply_and_concat
    keys = make_index(case["kk"], t) if case["keys"] else None
    kw = dict(keys=keys) if keys is not None else {}
    if case["nb"]:
        got = a.vbt.apply_and_concat(t, ks, apply_func=app_nb, numba_loop=True, to_2d=True, **kw)
    else:
        got = a.vbt.apply_and_concat(t, ks, apply_func=app_nb.py_func, **kw)
    want = np.concatenate([v2 * ks[i] + i for i in range(t)], axis=1)
    comb = lcombine(lv(keys) if keys is not None else [("apply_idx", list(range(t)))], lc)
    if isinstance(got, pd.Series):
        need(va.ndim == 1 and t == 1, "apply_and_concat type")
        want = want[:, 0]
    expect(got, want, li, comb, "apply_and_concat")
    # combine: values follow NumPy broadcasting and sequential application
    two = any(np.ndim(x) == 2 for x in [a] + others)
    up = lambda x: np.asarray(x)[:, None] if two and isinstance(x, pd.Series) else np.asarray(x)
    allv = [up(a)] + [up(x) for x in others]
    shape = np.broadcast_shapes(*[x.shape for x in allv])
    bc = [np.broadcast_to(x, shape) for x in allv]
    w = float(case["w"])
    try:
        ref = reshape_fns.broadcast(a, *others)
    except ValueError:
        return []
    ri, rc = labels_of(ref[0])
    f = comb_nb if case["nb"] else comb_nb.py_func
    bk = dict(index_from="strict")
    if len(others) == 1 or not case["concat"]:
        got = a.vbt.combine(others if len(others) > 1 else others[0], w, combine_func=f, broadcast_kwargs=bk,
                            numba_loop=case["nb"] and len(others) > 1)
        want = bc[0]
        for x in bc[1:]:
            want = want * 2 + x * w
        expect(got, want, ri, rc, "combine")
    else:
        got = a.vbt.combine(others, w, combine_func=f, concat=True, numba_loop=case["nb"], **kw) if keys is None or len(keys) == len(others) \
            else a.vbt.combine(others, w, combine_func=f, concat=True, numba_loop=case["nb"])
        kl = lv(keys) if keys is not None and len(keys) == len(others) else [("combine_idx", list(range(len(others))))]
        want = np.concatenate([(bc[0] * 2 + x * w).reshape(shape[0], -1) for x in bc[1:]], axis=1)
        if isinstance(got, pd.Series):
            want = want[:, 0]
        expect(got, want, ri, lcombine(kl, rc), "combine(concat)")
    # operators
    other = others[0]
    ops = [("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.divide), ("gt", np.greater), ("ge", np.greater_equal),
           ("lt", np.less), ("le", np.less_equal), ("eq", np.equal), ("ne", np.not_equal), ("mod", np.mod), ("floordiv", np.floor_divide), ("pow", np.power)]
    import operator
    nm, npf = ops[case["op"]]
    o = other
    try:
        r1 = reshape_fns.broadcast(a, o)
    except ValueError:
        return []
    b1 = up2(a, o)
    with np.errstate(all="ignore"):
        small = (lambda x: x % 7.0 + 1) if nm == "pow" else (lambda x: x)
        got = getattr(operator, nm)(a.vbt, small(o))
        expect(got, npf(b1[0], small(b1[1])), *labels_of(r1[0]), "operator %s" % nm)
        if is_pd(o):
            got = getattr(operator, nm)(a.vbt, small(o).vbt)
            expect(got, npf(b1[0], small(b1[1])), *labels_of(r1[0]), "operator %s with accessor" % nm)
        elif nm in ("add", "sub", "mul") and np.ndim(o) == 0:
            got = getattr(operator, nm)(float(o), a.vbt)
            expect(got, npf(float(o), va), li, lc, "reflected operator %s" % nm)
        expect(-a.vbt, -va, li, lc, "negation")
        expect(abs(a.vbt), abs(va), li, lc, "abs")
    # concat
    dfs = [x for x in [a] + others]
    got = a.vbt.concat(*others, **(dict(keys=[chr(112 + i) for i in range(len(dfs))]) if case["keys"] else {}))
    want = np.concatenate([x.reshape(shape[0], -1) for x in bc], axis=1)
    need(isinstance(got, pd.DataFrame) and np.array_equal(got.values, want), "concat values")
    same_labels(got.index, ri, "concat index")
    if case["keys"]:
        top = [x for x in [chr(112 + i) for i in range(len(dfs))] for _ in range(want.shape[1] // len(dfs))]
        need(list(got.columns.get_level_values(0)) == top, "concat keys: %s" % list(got.columns))
    return ["nt"] if len(others) > 1 and va.size > 1 else []


def up2(a, o):
    two = np.ndim(a) == 2 or np.ndim(o) == 2
    up = lambda x: np.asarray(x)[:, None] if two and isinstance(x, pd.Series) else np.asarray(x)
    return np.broadcast_arrays(up(a), up(o))


FACETS = [
    Facet("broadcast", lambda: broadcast_case(), check_broadcast, 3200, 120000, "several arguments of different kinds, one pandas"),
    Facet("align", lambda: align_case(), check_align, 700, 30000, "labels align through a level in another order"),
    Facet("flexible", flex_st, check_flex, 500, 20000, "an axis is stretched in a 2-D target"),
    Facet("reshape", lambda: reshape_case(), check_reshape, 1200, 50000, "pandas object repeated several times"),
    Facet("broadcast-to", lambda: bto_case(), check_broadcast_to, 1000, 40000, "pandas target of another shape"),
    Facet("unstack", lambda: unstack_case(), check_unstack, 700, 30000, "at least three entries, unsorted"),
    Facet("apply-combine", lambda: apply_case(), check_apply, 700, 30000, "several other arguments"),
]
