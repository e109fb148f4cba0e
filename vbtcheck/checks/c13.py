"""C13: wrapped arrays keep their labels through indexing, grouping and reduction.

Oracle: pandas itself. Frames hold distinct numbers, so the same selection on the plain frame tells which rows and
columns must come back; groupings are described by a list with one label per column."""
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.base.column_grouper import ColumnGrouper, get_groups_and_index
from vectorbt.base.indexing import IndexingError

from vbtcheck.core import Facet
from vbtcheck.util import need, need_same, price_path, vec, weighted

ASSUMPTIONS = [
    "A selection that reduces to a single element, or a Series of one unique position, is rejected (documented).",
    "Selecting one row of a grouped frame as a Series is rejected (documented: rows and columns cannot be flipped).",
    "Every group is selected at most once.",
    "A column label of 0 stands for `no name`.",
]


# ---------------------------------------------------------------- building blocks

def index_of(case):
    n = case["n"]
    return {"dates": lambda: pd.date_range("2020-01-01", periods=n, freq="D"), "letters": lambda: pd.Index(list("uvwxyz")[:n], name="row"),
            "range": lambda: pd.RangeIndex(n), "ints": lambda: pd.Index([10 * (n - i) for i in range(n)])}[case["ik"]]()


def columns_of(case):
    m = case["m"]
    return {"letters": lambda: pd.Index(list("abcdef")[:m], name="sym"), "range": lambda: pd.RangeIndex(m),
            "ints": lambda: pd.Index([7 * (m - j) for j in range(m)]),
            "multi": lambda: pd.MultiIndex.from_arrays([["p", "p", "q", "q", "r", "r"][:m], [1, 2, 1, 2, 1, 2][:m]],
                                                       names=["a", "b"])}[case["ck"]]()


def group_arg(case, columns):
    """(group_by argument, one label per column or None)."""
    g = case["group"]
    m = len(columns)
    if g is None:
        return None, None
    k = g["kind"]
    if k == "true":
        return True, ["group"] * m
    if k in ("level", "levelname", "levels") and isinstance(columns, pd.MultiIndex) and (k != "levels" or m > 2):
        if k == "levels":
            return ["b", "a"], [(c[1], c[0]) for c in columns]
        lvl = g["lvl"]
        return (lvl if k == "level" else columns.names[lvl]), [c[lvl] for c in columns]
    runs = g["labels"][:m]
    if g["coherent"]:
        runs = [x for x in dict.fromkeys(runs) for _ in range(runs.count(x))]
    if k == "named":
        return pd.Index(runs, name="grp"), list(runs)
    if k == "array":
        return np.array(runs), list(runs)
    return list(runs), list(runs)


def group_st():
    return st.one_of(st.none(), st.fixed_dictionaries(dict(
        kind=st.sampled_from(["list", "named", "array", "level", "levelname", "levels", "true"]), lvl=st.integers(0, 1),
        labels=vec(st.sampled_from(["g1", "g2", "g3"]), 6), coherent=weighted((3, True), (1, False)))))


def uniq(labels):
    return list(dict.fromkeys(labels))


def coherent(labels):
    return [k for k, _ in itertools.groupby(labels)] == uniq(labels)


@st.composite
def base_case(draw, min_n=1):
    return dict(n=draw(st.integers(min_n, 4)), m=draw(weighted((1, 1), (3, 4), (2, 3), (1, 2), (1, 6))),
                ik=draw(st.sampled_from(["dates", "letters", "range", "ints"])), ck=draw(st.sampled_from(["letters", "multi", "range", "ints"])),
                group=draw(group_st()))


AX = st.one_of(st.integers(-2, 3).map(lambda i: dict(t="one", i=i)),
               st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True).map(lambda x: dict(t="list", x=x)),
               st.tuples(st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(1, 5))).map(lambda x: dict(t="slice", x=list(x))),
               vec(st.booleans(), 6).map(lambda x: dict(t="mask", x=x)))

SELECTOR = st.one_of(
    st.fixed_dictionaries(dict(t=st.sampled_from(["iloc", "iloc", "loc"]), r=AX, c=st.one_of(st.none(), AX))),
    st.fixed_dictionaries(dict(t=st.just("iloc"), r=st.just(dict(t="slice", x=[None, None])), c=AX)),
    st.fixed_dictionaries(dict(t=st.just("get"), c=AX)),
    st.fixed_dictionaries(dict(t=st.just("xs"), lvl=st.integers(0, 1), i=st.integers(0, 5), drop=st.booleans())))


def ikey(ax, n):
    if ax["t"] == "one":
        return ax["i"]
    if ax["t"] == "list":
        return [i for i in ax["x"] if i < n] or [0]
    if ax["t"] == "slice":
        return slice(*ax["x"])
    return np.array(ax["x"][:n])


def lkey(ax, index):
    """Positions as labels."""
    n = len(index)
    if ax["t"] == "one":
        return index[ax["i"] % n]
    if ax["t"] == "list":
        return [index[i] for i in ikey(ax, n)]
    if ax["t"] == "slice":
        a, b = ax["x"]
        if isinstance(index, pd.MultiIndex):
            return slice(None)
        return slice(None if a is None else index[min(a, n - 1)], None if b is None else index[min(b, n - 1)])
    return np.array(ax["x"][:n])


def pd_func(s, columns_only=False):
    """The selection as a function of any pandas-like object (of the frame, or of the Series of columns)."""
    def axes(o):
        if isinstance(o, (pd.Series, pd.DataFrame)):
            return o.index, getattr(o, "columns", None)
        return o.wrapper.index, o.wrapper.columns if isinstance(o, object) else None

    def f(o):
        index, columns = f.axes
        if s["t"] == "xs":
            if columns_only:
                return o.xs(columns[s["i"] % len(columns)][s["lvl"]], level=s["lvl"], drop_level=s["drop"])
            return o.xs(columns[s["i"] % len(columns)][s["lvl"]], level=s["lvl"], axis=1, drop_level=s["drop"])
        if s["t"] == "get":
            return o[lkey(s["c"], columns)]
        if columns_only:
            return o.iloc[ikey(s["c"] or s["r"], len(columns))] if s["t"] == "iloc" else o.loc[lkey(s["c"] or s["r"], columns)]
        if columns is None or s["c"] is None:
            return o.iloc[ikey(s["r"], len(index))] if s["t"] == "iloc" else o.loc[lkey(s["r"], index)]
        if s["t"] == "iloc":
            return o.iloc[ikey(s["r"], len(index)), ikey(s["c"], len(columns))]
        return o.loc[lkey(s["r"], index), lkey(s["c"], columns)]
    return f


def idx_same(a, b, what):
    need(list(a) == list(b) and list(a.names) == list(b.names), "%s: %s, expected %s" % (what, a, b))


def check_grouping(w, labels, name, what):
    """Grouping of a wrapper: one label per column, in order."""
    if labels is None:
        need(not w.grouper.is_grouped(), "%s: unexpectedly grouped" % what)
        return
    need(w.grouper.is_grouped(), "%s: grouping lost" % what)
    u = uniq(labels)
    need([int(x) for x in w.grouper.get_groups()] == [u.index(x) for x in labels], "%s: groups %s, expected labels %s" % (what, w.grouper.get_groups(), labels))
    need(list(w.grouper.get_columns()) == u, "%s: group labels %s, expected %s" % (what, list(w.grouper.get_columns()), u))
    if name is not None:
        need(list(w.grouper.get_columns().names) == name, "%s: group level names %s, expected %s" % (what, w.grouper.get_columns().names, name))


def gnames(arg, columns):
    if isinstance(arg, pd.Index):
        return list(arg.names)
    if isinstance(arg, (int, str)) and not isinstance(arg, bool):
        return [columns.names[arg] if isinstance(arg, int) else arg]
    if isinstance(arg, list) and arg == ["b", "a"]:
        return ["b", "a"]
    return [None]


# ---------------------------------------------------------------- selection on wrappers and accessors

@st.composite
def select_case(draw):
    c = draw(base_case())
    c.update(sel=draw(SELECTOR), series=draw(weighted((6, False), (1, True))), group_select=draw(weighted((3, True), (2, False))),
             col_only=draw(weighted((3, False), (2, True))), how=draw(st.sampled_from(["ctor", "call", "regroup"])), freq=draw(weighted((2, None), (1, "2h"))))
    if c["sel"]["t"] == "xs" or (c["sel"]["t"] == "get" and draw(st.booleans())):
        c["ck"] = "multi"
    return c


def attempt(f):
    try:
        return f(), None
    except Exception as e:                                             # pandas raises whatever it likes here
        return None, e


def check_select(case):
    index, columns = index_of(case), columns_of(case)
    n, m = case["n"], case["m"]
    if case["series"]:
        columns, m = columns[:1], 1
    v = np.array([[100.0 * i + j for j in range(m)] for i in range(n)])
    df = pd.DataFrame(v, index=index, columns=columns)
    obj = df if not case["series"] else pd.Series(v[:, 0], index=index, name=None if list(columns) == [0] else columns[0])
    garg, labels = group_arg(case, columns)
    if case["series"]:
        garg = labels = None
    gs, co = case["group_select"], case["col_only"]
    opts = dict(column_only_select=co, group_select=gs)
    if case["freq"]:
        opts["freq"] = case["freq"]
    if case["how"] == "ctor":
        acc = df.vbt(group_by=garg, **opts) if not case["series"] else obj.vbt(**opts)
    elif case["how"] == "call":
        acc = obj.vbt(**opts)(group_by=garg) if garg is not None else obj.vbt(**opts)
    else:
        acc = obj.vbt(**opts).regroup(garg)
    w = acc.wrapper
    check_grouping(w, labels, gnames(garg, columns), "source")
    need(w.column_only_select is co and w.group_select is gs, "wrapper options lost")
    sel = case["sel"]
    grouped = labels is not None
    by_group = grouped and gs
    # the axis that the selection addresses
    if by_group:
        gl = get_groups_and_index(columns, garg)[1]
        need(list(gl) == uniq(labels), "group labels")
        ax_cols = gl
    else:
        ax_cols = columns
    k = len(ax_cols)
    one_dim = (k == 1) if by_group else case["series"]
    if sel["t"] == "xs" and not isinstance(ax_cols, pd.MultiIndex):
        return []
    if isinstance(ax_cols, pd.MultiIndex) and sel["t"] in ("get", "loc") and case["sel"]["c"] and case["sel"]["c"]["t"] == "one" \
            and case["m"] % 2 == 0:
        pass
    f = pd_func(sel, columns_only=co)
    f.axes = (index, None if one_dim and not co else ax_cols)
    if one_dim and not co and sel["t"] in ("get", "xs"):
        return []
    ref_vals = np.array([[100.0 * i + j for j in range(k)] for i in range(n)])
    err = None
    if co:
        ref = pd.Series(np.arange(k), index=ax_cols)
        if one_dim:
            err = "one column"
        want, e = attempt(lambda: f(ref)) if not err else (None, None)
        err = err or e
        if err is None:
            rows = list(range(n))
            if isinstance(want, pd.Series):
                cols, new_cols, nd = list(want.values), want.index, 2
            else:
                cols, new_cols, nd = [int(want)], ax_cols[[int(want)]], 1
            new_index = index
    else:
        ref = pd.DataFrame(ref_vals, index=index, columns=ax_cols) if not one_dim else pd.Series(ref_vals[:, 0], index=index, name=ax_cols[0])
        want, err = attempt(lambda: f(ref))
        if err is None:
            flip = False
            if isinstance(want, pd.DataFrame):
                if want.size == 0:
                    return []
                rows, cols = [int(x // 100) for x in want.values[:, 0]], [int(x % 100) for x in want.values[0]]
                new_index, new_cols, nd = want.index, want.columns, 2
            elif isinstance(want, pd.Series):
                if want.size == 0:
                    return []
                rs, cs = [int(x // 100) for x in want.values], [int(x % 100) for x in want.values]
                new_index, nd = want.index, 1
                if one_dim:
                    rows, cols, new_cols = rs, [0], ax_cols
                elif len(set(rs)) == 1 and len(set(cs)) == 1:
                    err = "single position"
                elif len(set(cs)) == 1:
                    rows, cols, new_cols = rs, cs[:1], ax_cols[[cs[0]]]
                elif grouped:
                    err = "flip"
                else:
                    flip, rows, cols, new_cols = True, rs[:1], cs, index[[rs[0]]]
            else:
                err = "scalar"
    if not co and err is None and not len(rows):
        return []
    if co and err is None and not len(cols):
        return []
    if by_group and not coherent(labels):
        got, e = attempt(lambda: f(acc))
        need(e is not None, "group selection worked although groups are not coherent")
        return []
    f2 = pd_func(sel, columns_only=co)
    f2.axes = f.axes
    got, e = attempt(lambda: f2(acc))
    if err is not None:
        need(e is not None, "selection succeeded although %r was expected: %s" % (err, sel))
        if isinstance(err, str):
            need(isinstance(e, IndexingError), "raised %r, expected IndexingError (%s)" % (e, err))
        return []
    need(e is None, "selection raised %r, expected %d rows and columns %s" % (e, len(rows), cols))
    # expected result
    what = "selection %s" % (sel,)
    gw = got.wrapper
    if not co and flip:
        exp = pd.Series(v[rows[0]][cols], index=new_index)
        need(isinstance(got.obj, pd.Series) and np.array_equal(got.obj.values, exp.values), "%s: row as Series is %s" % (what, got.obj.tolist()))
        idx_same(got.obj.index, new_index, what + " index")
        need(got.obj.name == (None if index[rows[0]] == 0 else index[rows[0]]), "%s: name %r" % (what, got.obj.name))
        return ["nt"]
    if by_group:
        ulab = uniq(labels)
        src = [[j for j in range(m) if labels[j] == ulab[g]] for g in cols]
        flat = [j for s in src for j in s]
        exp_cols = columns[flat]
        exp_nd = 1 if nd == 1 and len(flat) == 1 else 2
        exp_lab = [new_cols[p] for p, s in enumerate(src) for _ in s]
        need(gw.grouped_ndim == nd, "%s: grouped_ndim %s, expected %s" % (what, gw.grouped_ndim, nd))
    else:
        flat, exp_cols, exp_nd = cols, new_cols, nd
        exp_lab = [labels[j] for j in flat] if grouped else None
    exp_v = v[rows][:, flat]
    idx_same(gw.index, new_index, what + " wrapper index")
    if exp_nd == 2:
        idx_same(gw.columns, exp_cols, what + " wrapper columns")
    else:                                                              # a Series keeps its name, not the name of the level
        need(list(gw.columns) == list(exp_cols), "%s wrapper columns: %s, expected %s" % (what, gw.columns, exp_cols))
    need(gw.ndim == exp_nd, "%s: ndim %s, expected %s" % (what, gw.ndim, exp_nd))
    need(gw.shape_2d == exp_v.shape and gw.shape == (exp_v.shape if exp_nd == 2 else exp_v.shape[:1]), "%s: shape" % what)
    check_grouping(gw, exp_lab, None, what)
    if case["freq"]:
        need(gw.freq == pd.Timedelta("2h"), "%s: freq lost" % what)
    need(gw.column_only_select is co and gw.group_select is gs, "%s: options lost" % what)
    o = got.obj
    need(o.ndim == exp_nd, "%s: data has %d dimensions, expected %d" % (what, o.ndim, exp_nd))
    need_same(o.values.reshape(len(rows), -1), exp_v, what + " data")
    idx_same(o.index, new_index, what + " data index")
    if exp_nd == 2:
        idx_same(o.columns, exp_cols, what + " data columns")
    else:
        need(o.name == (None if exp_cols[0] == 0 else exp_cols[0]), "%s: name %r, expected %r" % (what, o.name, exp_cols[0]))
    # selecting on the wrapper gives the same wrapper
    f3 = pd_func(sel, columns_only=co)
    f3.axes = f.axes
    need(f3(w) == gw, "%s: wrapper selected directly differs" % what)
    need(w.grouper.is_grouped() == grouped and list(w.columns) == list(columns) and acc.obj.equals(obj), "the source changed")
    part = len(flat) < m or len(rows) < n
    return ["nt"] if part and n > 1 and m > 1 else []


# ---------------------------------------------------------------- grouper

@st.composite
def grouper_case(draw):
    c = draw(base_case())
    c.update(group2=draw(group_st()), off=draw(weighted((3, False), (1, True))), allow=draw(vec(weighted((3, True), (1, False)), 3)))
    return c


def check_grouper(case):
    columns = columns_of(case)
    m = len(columns)
    arg, lab = group_arg(case, columns)
    arg2, lab2 = group_arg(dict(case, group=case["group2"]), columns)
    if case["off"]:
        arg2, lab2 = False, None
    en, dis, mod = case["allow"]
    g = ColumnGrouper(columns, group_by=arg, allow_enable=en, allow_disable=dis, allow_modify=mod)

    def facts(gr, lab, name, **kw):
        if lab is None:
            need(list(gr.get_groups(**kw)) == list(range(m)), "groups of no grouping: %s" % gr.get_groups(**kw))
            idx_same(gr.get_columns(**kw), columns, "group labels of no grouping")
            lens = [1] * m
        else:
            u = uniq(lab)
            need([int(x) for x in gr.get_groups(**kw)] == [u.index(x) for x in lab], "groups %s, expected %s" % (gr.get_groups(**kw), lab))
            need(list(gr.get_columns(**kw)) == u and list(gr.get_columns(**kw).names) == name,
                 "group labels %s, expected %s (%s)" % (gr.get_columns(**kw), u, name))
            ok = coherent(lab)
            need(bool(gr.is_sorted(**kw)) == ok, "is_sorted %s for %s" % (gr.is_sorted(**kw), lab))
            if not ok:
                r, e = attempt(lambda: gr.get_group_lens(**kw))
                need(isinstance(e, ValueError), "lengths of incoherent groups: %s / %r" % (r, e))
                return
            lens = [lab.count(x) for x in u]
        need([int(x) for x in gr.get_group_lens(**kw)] == lens, "group lengths %s, expected %s" % (gr.get_group_lens(**kw), lens))
        need(gr.get_group_count(**kw) == len(lens), "group count")
        ends = list(itertools.accumulate(lens))
        need([int(x) for x in gr.get_group_end_idxs(**kw)] == ends, "group ends")
        need([int(x) for x in gr.get_group_start_idxs(**kw)] == [e - l for e, l in zip(ends, lens)], "group starts")

    facts(g, lab, gnames(arg, columns))
    need(g.is_grouped() == (lab is not None), "is_grouped")
    # another grouping on top: allowed or not
    if arg2 is None:
        need(not g.is_grouping_enabled() and not g.is_grouping_disabled() and not g.is_grouping_modified(), "flags for the same grouping")
        return []
    u = lambda l: [uniq(l).index(x) for x in l]
    enabled = lab is None and lab2 is not None
    disabled = lab is not None and lab2 is None
    modified = (lab is not None and lab2 is not None and u(lab) != u(lab2)) or enabled or disabled
    need(bool(g.is_grouping_enabled(group_by=arg2)) == enabled, "is_grouping_enabled")
    need(bool(g.is_grouping_disabled(group_by=arg2)) == disabled, "is_grouping_disabled")
    need(bool(g.is_grouping_modified(group_by=arg2)) == modified, "is_grouping_modified: %s, groups %s -> %s" % (g.is_grouping_modified(group_by=arg2), lab, lab2))
    if modified:
        need(g.is_grouping_changed(group_by=arg2), "is_grouping_changed must notice %s -> %s" % (lab, lab2))
    forbidden = (enabled and not en) or (disabled and not dis) or (modified and not enabled and not disabled and not mod)
    for nm, fn in (("check_group_by", lambda: g.check_group_by(group_by=arg2)), ("get_groups", lambda: g.get_groups(group_by=arg2)),
                   ("resolve_group_by", lambda: g.resolve_group_by(group_by=arg2))):
        r, e = attempt(fn)
        need((e is not None) == forbidden, "%s with %s -> %s and permissions %s: %r" % (nm, lab, lab2, case["allow"], e))
        if forbidden:
            need(isinstance(e, ValueError), "%s raised %r" % (nm, e))
    df = pd.DataFrame(np.zeros((2, m)), columns=columns)
    w = ArrayWrapper(df.index, columns, 2, group_by=arg, allow_enable=en, allow_disable=dis, allow_modify=mod)
    r, e = attempt(lambda: w.regroup(arg2))
    if e is not None and not forbidden and lab is not None and not coherent(lab):
        need(isinstance(e, ValueError), "regroup raised %r" % e)       # incoherent groups are rejected as soon as they are needed
        return []
    need((e is not None) == forbidden, "regroup with %s -> %s and permissions %s: %r" % (lab, lab2, case["allow"], e))
    if not forbidden:
        facts(g, lab2, gnames(arg2, columns) if lab2 is not None else None, group_by=arg2)
        check_grouping(r, lab2, gnames(arg2, columns) if lab != lab2 else None, "regroup")
        need(r.ndim == 2 and list(r.columns) == list(columns), "regroup changed the columns")
        if lab2 is not None and coherent(lab2):
            k = len(uniq(lab2))
            need(r.grouped_ndim == (2 if k > 1 else 1), "grouped_ndim %s for %d groups" % (r.grouped_ndim, k))
    return ["nt"] if modified and m > 2 else []


# ---------------------------------------------------------------- wrapping

@st.composite
def wrap_case(draw):
    c = draw(base_case())
    if c["group"]:
        c["group"]["coherent"] = True
    c.update(ndim=draw(weighted((3, 2), (1, 1))), late=draw(st.booleans()), nans=draw(st.booleans()), rows=draw(st.integers(1, 3)),
             over=draw(st.booleans()), freq=draw(weighted((1, None), (1, "1D"))), holes=draw(vec(st.booleans(), 24)))
    return c


def check_wrap(case):
    index, columns = index_of(case), columns_of(case)
    if case["ndim"] == 1:
        columns = columns[:1]
    n, m = len(index), len(columns)
    garg, labels = group_arg(case, columns)
    if case["ndim"] == 1 and garg is not None:
        garg, labels = True, ["group"]
    if labels is not None and not coherent(labels):
        return []
    kw = {} if case["late"] or garg is None else dict(group_by=garg)
    call = dict(group_by=garg) if case["late"] and garg is not None else {}
    w = ArrayWrapper(index, columns, case["ndim"], freq=case["freq"], **kw)
    if labels is None:
        rc, rnd = columns, case["ndim"]
    else:
        rc, rnd = get_groups_and_index(columns, garg)[1], (2 if len(uniq(labels)) > 1 else 1)
    k = len(rc)
    name = None if rc[0] == 0 or rnd == 2 else rc[0]
    idx_same(w.get_columns(**call), rc, "get_columns")
    need(w.get_ndim(**call) == rnd and w.get_shape_2d(**call) == (n, k) and w.get_shape(**call) == ((n, k) if rnd == 2 else (n,)),
         "resolved shape %s / ndim %s" % (w.get_shape(**call), w.get_ndim(**call)))
    need(w.get_name(**call) == name, "get_name: %r, expected %r" % (w.get_name(**call), name))
    v = np.array([[10.0 * i + j for j in range(k)] for i in range(n)])
    if case["nans"]:
        v[np.array(case["holes"][:n * k] + [False] * max(0, n * k - 24)).reshape(n, k)] = np.nan

    def framed(o, vals, ix, cols, nm, what):
        if cols is None:
            need(isinstance(o, pd.Series), "%s: type %s" % (what, type(o)))
            idx_same(o.index, ix, what + " index")
            need(o.name == nm, "%s: name %r, expected %r" % (what, o.name, nm))
        else:
            need(isinstance(o, pd.DataFrame), "%s: type %s" % (what, type(o)))
            idx_same(o.index, ix, what + " index")
            idx_same(o.columns, cols, what + " columns")
        need_same(np.asarray(o, dtype=float).reshape(np.shape(vals)), vals, what)

    fr = rc if rnd == 2 else None
    vv = v if rnd == 2 else v[:, 0]
    before = v.copy()
    framed(w.wrap(v, **call), vv, index, fr, name, "wrap")
    if rnd == 1 or k == 1:
        framed(w.wrap(v[:, 0], **call), vv, index, fr, name, "wrap of a flat array")
    framed(w.wrap(v, fillna=-7, **call), np.where(np.isnan(vv), -7, vv), index, fr, name, "wrap with fillna")
    if not np.isnan(v).any():
        o = w.wrap(v, dtype=np.int64, **call)
        need(np.asarray(o).dtype == np.int64, "dtype of wrap")
    if case["over"]:
        ix2 = pd.Index([chr(65 + i) for i in range(n)], name="other")
        c2 = pd.Index(["C%d" % j for j in range(k)], name="cc")
        framed(w.wrap(v, index=ix2, columns=c2, **call), vv, ix2, c2 if rnd == 2 else None, "C0" if rnd == 1 else None, "wrap with own labels")
    need(not w.wrap(v, **call) is None and np.array_equal(v, before, equal_nan=True), "wrap changed its argument")
    bad = np.zeros((n + 1, k))
    r, e = attempt(lambda: w.wrap(bad, **call))
    need(e is not None, "wrap accepted a wrong number of rows")
    if rnd == 2:
        r, e = attempt(lambda: w.wrap(np.zeros((n, k + 1)), **call))
        need(e is not None, "wrap accepted a wrong number of columns")
    framed(w.fill(3.0, **call), np.full_like(vv, 3.0), index, fr, name, "fill")
    d = w.dummy(**call)
    framed(d * 0, np.asarray(d, dtype=float) * 0, index, fr, name, "dummy")
    # reductions
    red = v[0].copy()
    one = w.wrap_reduced(red.copy(), **call) if rnd == 1 else None
    if rnd == 1:
        need(np.ndim(one) == 0 and (one == red[0] or red[0] != red[0]), "wrap_reduced of one column: %r" % (one,))
        need(w.wrap_reduced(5.0, **call) == 5.0, "wrap_reduced of a scalar")
    else:
        framed(w.wrap_reduced(red.copy(), name_or_index="metric", **call), red, rc, None, "metric", "wrap_reduced")
        framed(w.wrap_reduced(red, name_or_index="metric", fillna=-3.0, **call), np.where(np.isnan(red), -3.0, red), rc, None, "metric",
               "wrap_reduced with fillna")
    R = case["rows"]
    red2 = np.array([[1.0 + i * 10 + j for j in range(k)] for i in range(R)])
    names = ["r%d" % i for i in range(R)]
    got = w.wrap_reduced(red2, name_or_index=names, **call)
    if rnd == 1:
        framed(got, red2[:, 0], pd.Index(names), None, name, "wrap_reduced to several rows")
        if R > 1:
            framed(w.wrap_reduced(red2[:, 0], name_or_index=names, **call), red2[:, 0], pd.Index(names), None, name, "wrap_reduced of a flat array")
    else:
        framed(got, red2, pd.Index(names), rc, None, "wrap_reduced to several rows")
    # positions to labels, durations
    pos = np.array([(-1 if case["holes"][j] else j % n) for j in range(k)])
    got = w.wrap_reduced(pos.copy(), to_index=True, **call)
    got = [got] if rnd == 1 else list(got)
    for p, g in zip(pos, got):
        need(g != g if p == -1 else g == index[p], "to_index: position %d became %r" % (p, g))
    if not case["nans"]:
        pm = (v.astype(int) % (n + 1)) - 1
        got = np.asarray(w.wrap(pm, to_index=True, **call), dtype=object).reshape(n, k)
        for (i, j), p in np.ndenumerate(pm):
            g = got[i, j]
            need(g != g if p == -1 else pd.Timestamp(g) == index[p] if case["ik"] == "dates" else g == index[p], "to_index (frame): position %d became %r" % (p, g))
    if case["freq"]:
        need(w.freq == pd.Timedelta(days=1), "freq")
        got = w.wrap_reduced(red2[0], to_timedelta=True, **call)
        for x, g in zip(red2[0], [got] if rnd == 1 else list(got)):
            need(pd.Timedelta(g) == pd.Timedelta(days=x), "to_timedelta: %s became %s" % (x, g))
    elif case["ik"] == "dates" and (n > 2 or index.freq is not None):
        need(w.freq == pd.Timedelta(days=1), "inferred freq %s" % w.freq)
    elif case["ik"] != "dates":
        need(w.freq is None, "freq without dates: %s" % w.freq)
    # construction
    f2 = ArrayWrapper.from_obj(w.wrap(np.zeros((n, m)), group_by=False))
    idx_same(f2.index, index, "from_obj index")
    idx_same(f2.columns, columns if case["ndim"] == 2 else columns, "from_obj columns") if case["ndim"] == 2 else None
    need(f2.ndim == case["ndim"], "from_obj ndim")
    f3 = ArrayWrapper.from_shape((n, m))
    need(f3.shape == (n, m) and list(f3.index) == list(range(n)) and list(f3.columns) == list(range(m)), "from_shape")
    need(ArrayWrapper.from_shape((n,)).ndim == 1, "from_shape 1-D")
    return ["nt"] if labels is not None and len(uniq(labels)) > 1 and n > 1 else []


# ---------------------------------------------------------------- portfolios, records, data

@st.composite
def objects_case(draw):
    n, m = draw(st.integers(2, 6)), draw(st.integers(2, 5))
    c = draw(base_case(min_n=2))
    c.update(n=n, m=m, ck=draw(st.sampled_from(["letters", "multi", "ints"])), price=draw(price_path(n, m)),
             size=draw(vec(vec(st.integers(-3, 3), m), n)), cash=draw(vec(st.sampled_from([50, 100, 1000]), m)), share=draw(st.booleans()),
             pos=draw(AX), by=draw(st.sampled_from(["iloc", "loc", "get"])), seq=draw(st.booleans()), log=draw(st.booleans()),
             unsort=draw(st.booleans()))
    if c["group"]:
        c["group"]["coherent"] = True
    return c


def order_list(recs, col):
    return [tuple(float(r[f]) for f in ("idx", "size", "price", "fees", "side")) for r in recs if r["col"] == col]


def check_objects(case):
    n, m = case["n"], case["m"]
    columns = columns_of(case)
    index = pd.date_range("2020-01-01", periods=n, freq="D")
    close = pd.DataFrame(np.array(case["price"], dtype=float), index=index, columns=columns)
    garg, labels = group_arg(case, columns)
    share = bool(labels is not None and case["share"])
    if labels is not None and not coherent(labels):
        return []
    u = uniq(labels) if labels is not None else list(columns)
    k = len(u)
    kw = dict(group_by=garg, cash_sharing=share) if labels is not None else {}
    cash = [float(x) for x in case["cash"][:(k if share else m)]]
    size = np.array(case["size"], dtype=float)
    pf = vbt.Portfolio.from_orders(close, size, init_cash=cash, fees=0.01, log=case["log"], call_seq="reversed" if case["seq"] else "default",
                                   freq="1D", attach_call_seq=True, **kw)
    gidx = pf.wrapper.get_columns()
    need(list(gidx) == u, "portfolio group labels")
    ax = case["pos"]
    f = (lambda o: o.iloc[ikey(ax, k)]) if case["by"] == "iloc" else (lambda o: o.loc[lkey(ax, gidx)]) if case["by"] == "loc" else \
        (lambda o: o[lkey(ax, gidx)])
    if k == 1 and labels is not None:
        r, e = attempt(lambda: f(pf))
        need(isinstance(e, IndexingError), "selecting from one group: %r" % e)
        return []
    want, err = attempt(lambda: f(pd.Series(np.arange(k), index=gidx)))
    sub, e = attempt(lambda: f(pf))
    if err is not None:
        need(e is not None, "portfolio selection succeeded, pandas raised %r" % err)
        return []
    sel = [int(want)] if np.ndim(want) == 0 else [int(x) for x in want]
    if not sel:
        return []
    need(e is None, "portfolio selection raised %r" % e)
    cols = [[j for j in range(m) if (labels[j] if labels is not None else columns[j]) == u[g]] for g in sel]
    flat = [j for s in cols for j in s]
    what = "portfolio[%s]" % (sel,)
    exp_cols = columns[flat] if np.ndim(want) == 0 or labels is not None else want.index
    need(list(sub.wrapper.columns) == list(exp_cols), "%s columns: %s, expected %s" % (what, sub.wrapper.columns, exp_cols))
    if sub.wrapper.ndim == 2:
        idx_same(sub.wrapper.columns, exp_cols, what + " columns")
    if labels is not None:
        check_grouping(sub.wrapper, [u[g] for g, s in zip(sel, cols) for _ in s], None, what)
    # data of the selection equals the data of the whole
    need_same(np.asarray(sub.close).reshape(n, -1), close.values[:, flat], what + " close")
    for p, j in enumerate(flat):
        need(order_list(sub.order_records, p) == order_list(pf.order_records, j), "%s: orders of column %s" % (what, columns[j]))
        if case["log"]:
            a = [(int(r["idx"]), float(r["cash"]), float(r["position"]), int(r["res_status"])) for r in sub.log_records if r["col"] == p]
            b = [(int(r["idx"]), float(r["cash"]), float(r["position"]), int(r["res_status"])) for r in pf.log_records if r["col"] == j]
            need(a == b, "%s: log of column %s" % (what, columns[j]))
    need(len(sub.order_records) == sum(len(order_list(pf.order_records, j)) for j in flat), "%s: number of orders" % what)
    grp = lambda x, s: np.asarray(x, dtype=float).reshape(n, -1)[:, s]
    for nm in ("assets", "asset_flow"):
        need_same(grp(getattr(sub, nm)(), slice(None)), grp(getattr(pf, nm)(), flat), "%s %s" % (what, nm))
    for nm in ("value", "cash", "returns", "asset_value", "drawdown"):
        need_same(grp(getattr(sub, nm)(), slice(None)), grp(getattr(pf, nm)(), sel), "%s %s" % (what, nm))
    for nm in ("total_return", "total_profit", "final_value"):
        full, part = getattr(pf, nm)(), getattr(sub, nm)()
        need_same(np.atleast_1d(np.asarray(part, dtype=float)), np.asarray(full, dtype=float)[sel], "%s %s" % (what, nm))
        if np.ndim(want) == 0:
            need(np.ndim(part) == 0, "%s %s is not a scalar" % (what, nm))
        else:
            need(list(part.index) == (list(want.index)), "%s %s labels" % (what, nm))
    need_same(np.atleast_1d(np.asarray(sub.init_cash, dtype=float)), np.atleast_1d(np.asarray(pf.init_cash, dtype=float))[sel], what + " init_cash")
    cs, cf = np.asarray(sub.call_seq).reshape(n, -1), np.asarray(pf.call_seq)
    need(np.array_equal(cs, cf[:, flat]), what + " call_seq")
    # records and mapped arrays, sorted by column or not
    recs = pf.orders
    if case["unsort"] and len(recs.values) > 1:
        recs = recs.replace(records_arr=recs.values[np.argsort(-recs.values["idx"], kind="stable")])
    rs = f(recs)
    idx_same(rs.wrapper.columns, sub.wrapper.columns, "records columns")
    for p, j in enumerate(flat):
        need(sorted(order_list(rs.values, p)) == sorted(order_list(pf.order_records, j)), "records[%s] of column %s" % (sel, columns[j]))
        need([x[0] for x in order_list(rs.values, p)] == [x[0] for x in order_list(recs.values, j)], "order of the selected records")
    ma = f(recs.size)
    for p, j in enumerate(flat):
        a = [(float(x), int(i)) for x, c, i in zip(ma.values, ma.col_arr, ma.idx_arr) if c == p]
        b = [(float(r["size"]), int(r["idx"])) for r in recs.values if r["col"] == j]
        need(a == b, "mapped[%s] of column %s: %s, expected %s" % (sel, columns[j], a, b))
        ids = [int(x) for x, c in zip(ma.id_arr, ma.col_arr) if c == p]
        need(ids == [int(r["id"]) for r in recs.values if r["col"] == j], "mapped ids")
    # select_one
    for g in range(k):
        one, e = attempt(lambda: pf.select_one(column=u[g]))
        need(e is None, "select_one(%r) raised %r" % (u[g], e))
        need_same(np.asarray(one.value(), dtype=float).reshape(-1), grp(pf.value(), g), "select_one(%r)" % (u[g],))
        if g not in gidx and not isinstance(u[0], (int, np.integer)):
            one = pf.select_one(column=g)
            need_same(np.asarray(one.value(), dtype=float).reshape(-1), grp(pf.value(), g), "select_one(%d)" % g)
        val = pf.value()
        need_same(pf.select_one_from_obj(val, pf.wrapper, column=u[g]).values, grp(val, g), "select_one_from_obj")
    for bad in (dict(), dict(column="nope")):
        r, e = attempt(lambda: pf.select_one(**bad))
        need(isinstance(e, (TypeError, KeyError)), "select_one(%s) on several columns: %r" % (bad, e))
    first = pf.select_one(column=u[0])
    need(first.select_one() is first or first.select_one() == first, "select_one of one column")
    r, e = attempt(lambda: first.select_one(column=u[0]))
    need(isinstance(e, TypeError), "select_one(column) on one column: %r" % e)
    return ["nt"] if len(sel) < k and len(pf.order_records) > 2 else []


@st.composite
def data_case(draw):
    c = draw(base_case(min_n=2))
    c.update(sel=draw(SELECTOR), syms=draw(st.integers(1, 3)), group=None)
    c["m"] = max(c["m"], 2)
    if c["sel"]["t"] == "xs":
        c["ck"] = "multi"
    return c


def check_data(case):
    index = pd.date_range("2020-01-01", periods=case["n"], freq="D", tz="UTC")
    columns = columns_of(case)
    fr = {"s%d" % s: pd.DataFrame([[1000.0 * s + 10 * i + j for j in range(case["m"])] for i in range(case["n"])], index=index, columns=columns)
          for s in range(case["syms"])}
    data = vbt.Data.from_data(fr, download_kwargs={})
    f = pd_func(case["sel"])
    f.axes = (index, columns)
    want, err = attempt(lambda: {k: f(v) for k, v in fr.items()})
    if err is None:
        w0 = want["s0"]
        if np.ndim(w0) == 0 or w0.size == 0:
            return []
        if isinstance(w0, pd.Series) and (len(w0) < 2 or len(set(int(x) // 10 for x in w0)) == 1):
            return []                                                  # single position or a row turned into a Series
    got, e = attempt(lambda: f(data))
    if err is not None:
        need(e is not None, "data selection succeeded although pandas raises %r" % err)
        return []
    need(e is None, "data selection raised %r" % e)
    need(list(got.data) == list(fr), "symbols")
    for k in fr:
        need(type(got.data[k]) is type(want[k]) and got.data[k].equals(want[k]), "data of %s: %s, expected %s" % (k, got.data[k], want[k]))
        idx_same(got.data[k].index, want[k].index, "index of %s" % k)
    idx_same(got.wrapper.index, want["s0"].index, "wrapper index")
    if isinstance(want["s0"], pd.DataFrame):
        idx_same(got.wrapper.columns, want["s0"].columns, "wrapper columns")
    need(got.wrapper.ndim == want["s0"].ndim, "wrapper ndim")
    return ["nt"] if len(fr) > 1 and want["s0"].size < fr["s0"].size else []


FACETS = [
    Facet("select", lambda: select_case(), check_select, 2600, 100000, "proper part of a frame with several rows and columns"),
    Facet("grouper", lambda: grouper_case(), check_grouper, 1200, 50000, "grouping of three or more columns is modified"),
    Facet("wrap", lambda: wrap_case(), check_wrap, 900, 40000, "several groups and rows"),
    Facet("objects", lambda: objects_case(), check_objects, 260, 9000, "proper part of a portfolio with more than two orders"),
    Facet("data", lambda: data_case(), check_data, 600, 25000, "several symbols, proper part selected"),
]
