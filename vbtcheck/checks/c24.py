"""C24: parameter grids, index algebra, mappings and templates.

Oracle: plain Python models. Indexes are modelled as lists of label tuples with level names, parameter grids by recursive enumeration,
mappings by dictionary look-up of normalised keys, and templates by a recursive evaluator of the generated tree."""
import itertools
from collections import namedtuple
from string import Template

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt  # noqa: F401
from vectorbt.base import index_fns as ix
from vectorbt.generic import enums as generic_enums
from vectorbt.labels import enums as label_enums
from vectorbt.portfolio import enums as portfolio_enums
from vectorbt.signals import enums as signal_enums
from vectorbt.utils import checks as vchecks
from vectorbt.utils.config import Config
from vectorbt.utils.enum_ import map_enum_fields, map_enum_values
from vectorbt.utils.mapping import apply_mapping, reverse_mapping, to_mapping
from vectorbt.utils.params import broadcast_params, create_param_combs, create_param_product, to_typed_list
from vectorbt.utils.template import Rep, RepEval, RepFunc, Sub, deep_substitute, has_templates

from vbtcheck.core import Facet
from vbtcheck.util import need, weighted

ASSUMPTIONS = [
    "Index labels within a level are of one type and not missing; level names within an index are distinct, up to one unnamed level when aligning.",
    "Keys of a mapping stay distinct after the normalisation asked for; mapped objects hold values of one type and missing values.",
    "Values put into a set by a template can be hashed.",
]


def raises(exc, f, what):
    try:
        out = f()
    except exc:
        return
    except Exception as e:
        need(False, "%s: raised %r, expected %s" % (what, e, exc))
    need(False, "%s: returned %r, expected %s" % (what, out, exc))


# ---------------------------------------------------------------- facet: params

@st.composite
def s_tree(draw, depth=0):
    vals = st.lists(st.integers(0, 5) if draw(st.booleans()) else st.sampled_from(list("xyz")), min_size=1, max_size=3)
    op = draw(st.sampled_from(["product", "zip", "combinations", "permutations", "product"]))
    if op in ("combinations", "permutations"):
        arg = draw(s_tree(depth + 1)) if depth < 2 and draw(st.integers(0, 3)) == 3 else draw(st.lists(st.integers(0, 5), min_size=2, max_size=4))
        return [op, arg, 2]
    n = draw(st.integers(1, 3 if depth == 0 else 2))
    args = [draw(s_tree(depth + 1)) if depth < 2 and draw(st.integers(0, 2)) == 2 else draw(vals) for _ in range(n)]
    return [op] + args


@st.composite
def s_params(draw):
    n = draw(st.integers(1, 4))
    lists = [draw(st.lists(st.integers(0, 9), min_size=1, max_size=1 if draw(st.booleans()) else 4)) for _ in range(n)]
    return dict(tree=draw(s_tree()), lists=lists, to_n=draw(st.one_of(st.none(), st.none(), st.integers(1, 5))),
                prod=draw(st.lists(st.lists(st.integers(0, 9), min_size=1, max_size=4), min_size=1, max_size=4)))


FUNCS = dict(product=itertools.product, zip=zip, combinations=itertools.combinations, permutations=itertools.permutations)


def is_tree(a):
    return isinstance(a, list) and len(a) > 0 and isinstance(a[0], str) and a[0] in FUNCS


def to_op(a):
    return tuple([FUNCS[a[0]]] + [to_op(x) if is_tree(x) else x for x in a[1:]])


def enum_tree(a):
    """List of flat tuples produced by the operation tree."""
    op, args = a[0], a[1:]
    subs = [enum_tree(x) if is_tree(x) else ([(v,) for v in x] if isinstance(x, list) else x) for x in args]
    out = []
    if op == "product":
        out = [()]
        for s in subs:
            out = [p + q for p in out for q in s]
    elif op == "zip":
        for i in range(min(len(s) for s in subs)):
            out.append(sum((s[i] for s in subs), ()))
    elif op == "combinations":
        s = subs[0]
        out = [s[i] + s[j] for i in range(len(s)) for j in range(i + 1, len(s))]
    else:
        s = subs[0]
        out = [s[i] + s[j] for i in range(len(s)) for j in range(len(s)) if i != j]
    return out


def c_params(c):
    rows = enum_tree(c["tree"])
    if len(rows) > 3000:
        return []
    exp = [list(x) for x in zip(*rows)]
    got = create_param_combs(to_op(c["tree"]))
    need(got == exp, "combinations of %s: got %s, expected %s" % (c["tree"], got, exp))
    lens = {len(x) for x in c["lists"]}
    to = c["to_n"] or max(lens)
    before = [list(x) for x in c["lists"]]
    if lens - {1, to}:
        raises(ValueError, lambda: broadcast_params(c["lists"], c["to_n"]), "broadcast_params(%s, %s)" % (c["lists"], c["to_n"]))
        bl = "refused"
    else:
        got = broadcast_params(c["lists"], c["to_n"])
        exp = [x if len(x) == to else x * to for x in c["lists"]]
        need(got == exp, "broadcast_params(%s, %s): got %s" % (c["lists"], c["to_n"], got))
        bl = "broadcast"
    need(c["lists"] == before, "broadcast_params changed its input")
    exp = [()]
    for s in c["prod"]:
        exp = [p + (v,) for p in exp for v in s]
    exp = [list(x) for x in zip(*exp)]
    got = create_param_product(c["prod"])
    need(got == exp, "create_param_product(%s): got %s" % (c["prod"], got))
    need(list(to_typed_list(c["lists"][0])) == c["lists"][0], "to_typed_list changed the values")
    return ["nt" if any(is_tree(x) for x in c["tree"][1:]) or bl == "refused" else "flat", c["tree"][0], bl]


# ---------------------------------------------------------------- facet: index

NAMES = ["a", "b", "c", "d"]


@st.composite
def s_level(draw, n, name):
    if name is None and draw(st.integers(0, 3)) == 3:
        vals = list(range(n))
    elif name in ("b", "d"):
        vals = draw(st.lists(st.sampled_from(["x", "y", "z"]), min_size=n, max_size=n))
    elif draw(st.integers(0, 3)) == 3:
        vals = [draw(st.integers(0, 3))] * n
    else:
        vals = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    return dict(name=name, values=vals)


@st.composite
def s_idx(draw, n=None, max_levels=3, multi=False):
    if n is None:
        n = draw(st.integers(1, 4))
    k = draw(st.integers(2 if multi else 1, max_levels))
    names = [draw(st.sampled_from(NAMES + [None])) for _ in range(k)]
    seen = set()
    for i, x in enumerate(names):
        if x is not None and x in seen:
            names[i] = None
        seen.add(x)
    return dict(levels=[draw(s_level(n, x)) for x in names], extra=draw(weighted((3, 0), (1, 1), (1, 2))),
                multi=k > 1 or draw(st.integers(0, 5)) == 5)


def build(c):
    """Index of the case; `extra` rows are appended and sliced off again, so that the levels hold unused values."""
    levels, extra = c["levels"], c["extra"]
    n = len(levels[0]["values"])
    if not c["multi"]:
        lv = levels[0]
        if lv["name"] is None and lv["values"] == list(range(n)):
            return pd.RangeIndex(n)
        return pd.Index(lv["values"], name=lv["name"])
    arrs = [lv["values"] + (["q"] if isinstance(lv["values"][0], str) else [9]) * extra for lv in levels]
    return pd.MultiIndex.from_arrays(arrs, names=[lv["name"] for lv in levels])[:n]


def model(c):
    return [(lv["name"], list(lv["values"])) for lv in c["levels"]]


def m_default(lv):
    return lv[0] is None and lv[1] == list(range(len(lv[1]))) and not any(isinstance(v, str) for v in lv[1])


def m_repeat(m, n, ign):
    if ign and len(m) == 1 and m_default(m[0]):
        return [(None, list(range(len(m[0][1]) * n)))]
    return [(name, [v for v in vals for _ in range(n)]) for name, vals in m]


def m_tile(m, n, ign):
    if ign and len(m) == 1 and m_default(m[0]):
        return [(None, list(range(len(m[0][1]) * n)))]
    return [(name, vals * n) for name, vals in m]


def m_redundant(m):
    kept = [lv for lv in m if not ((lv[0] is None and len(lv[1]) > 1 and len(set(lv[1])) == 1) or m_default(lv))]
    return kept if kept else m


def m_duplicate(m, keep):
    seq = list(m) if keep == "first" else list(m)[::-1]
    out = []
    for lv in seq:
        if lv not in out:
            out.append(lv)
    return out if keep == "first" else out[::-1]


def m_stack(ms, dd, keep, dr):
    m = [lv for x in ms for lv in x]
    if dd:
        m = m_duplicate(m, keep)
    if dr and len(m) > 1:
        m = m_redundant(m)
    return m


def plain(v):
    return v.item() if isinstance(v, np.generic) else v


def need_idx(got, m, what):
    need(isinstance(got, pd.Index), "%s: got a %s" % (what, type(got)))
    if len(m) > 1:
        need(isinstance(got, pd.MultiIndex) and got.nlevels == len(m), "%s: got %s, expected levels %s" % (what, got, m))
    need(list(got.names) == [x[0] for x in m], "%s: names %s, expected %s" % (what, list(got.names), [x[0] for x in m]))
    rows = [tuple(plain(v) for v in (r if isinstance(r, tuple) else (r,))) for r in got.tolist()]
    exp = list(zip(*[x[1] for x in m]))
    need(rows == exp, "%s: got %s, expected %s" % (what, rows, exp))
    for i, lv in enumerate(m):
        vals = [plain(v) for v in got.get_level_values(i).tolist()]
        need(vals == lv[1], "%s: level %s is %s, expected %s" % (what, i, vals, lv[1]))


@st.composite
def s_index(draw):
    n = draw(st.integers(1, 4))
    k = draw(st.integers(1, 3))
    same = [draw(s_idx(n)) for _ in range(k)]
    if k > 1 and draw(st.booleans()):
        j = draw(st.integers(0, k - 2))
        lv = draw(st.sampled_from(same[j]["levels"]))
        same[-1] = dict(levels=[dict(name=lv["name"], values=list(lv["values"]))], extra=0, multi=False)
    return dict(one=draw(s_idx()), n=draw(st.integers(1, 3)), ign=draw(weighted((2, None), (1, True), (1, False))), same=same,
                comb=[draw(s_idx(max_levels=2)) for _ in range(draw(st.integers(1, 3)))],
                dd=draw(weighted((2, None), (1, True), (1, False))), keep=draw(st.sampled_from([None, "first", "last"])),
                dr=draw(weighted((2, None), (1, True), (1, False))), lists=draw(st.booleans()))


def c_index(c):
    idx, m = build(c["one"]), model(c["one"])
    need_idx(idx, m, "harness")
    ign = c["ign"] is None or c["ign"]
    need_idx(ix.repeat_index(idx, c["n"], ignore_default=c["ign"]), m_repeat(m, c["n"], ign and not c["one"]["multi"]) if not (
        c["one"]["multi"] and len(m) == 1) else m_repeat(m, c["n"], False), "repeat_index(%s, %s)" % (m, c["n"]))
    need_idx(ix.tile_index(idx, c["n"], ignore_default=c["ign"]), m_tile(m, c["n"], ign and not c["one"]["multi"]),
             "tile_index(%s, %s)" % (m, c["n"]))
    dd, keep, dr = c["dd"] is None or c["dd"], c["keep"] or "last", c["dr"] is None or c["dr"]
    kw = dict(drop_duplicates=c["dd"], keep=c["keep"], drop_redundant=c["dr"])

    def src(x):
        i = build(x)
        if c["lists"] and not x["multi"] and x["levels"][0]["name"] is None:
            return list(x["levels"][0]["values"])
        return i
    ms = [model(x) for x in c["same"]]
    m2 = m_stack(ms, dd, keep, dr)
    need_idx(ix.stack_indexes([src(x) for x in c["same"]], **kw), m2, "stack_indexes(%s, %s)" % (ms, kw))
    total = 1
    for x in c["comb"]:
        total *= len(x["levels"][0]["values"])
    mc, multi = model(c["comb"][0]), c["comb"][0]["multi"]
    for x in c["comb"][1:]:
        mx = model(x)
        a = m_repeat(mc, len(mx[0][1]), ign and not multi)
        b = m_tile(mx, len(mc[0][1]), ign and not x["multi"])
        st_ = [lv for lv in a + b]
        mc = m_stack([a, b], dd, keep, dr)
        multi = len(mc) > 1 or len(st_) == 1
    need_idx(ix.combine_indexes([src(x) for x in c["comb"]], ignore_default=c["ign"], **kw), mc,
             "combine_indexes(%s, ignore_default=%s, %s)" % ([model(x) for x in c["comb"]], c["ign"], kw))
    need_idx(idx, m, "index after the operations")
    return ["nt" if len(m2) < sum(map(len, ms)) or len(c["comb"]) > 1 and total > 1 else "plain",
            "dropped" if len(m2) < sum(map(len, ms)) else "kept", "unused" if c["one"]["extra"] and c["one"]["multi"] else "used"]


# ---------------------------------------------------------------- facet: levels

@st.composite
def s_levels(draw):
    one = draw(s_idx(max_levels=4, multi=draw(st.integers(0, 4)) > 0))
    k = len(one["levels"])
    names = [lv["name"] for lv in one["levels"] if lv["name"] is not None]
    ref = st.one_of(*([st.sampled_from(names)] if names else []), st.integers(-1, k - 1))
    return dict(one=one, drop=draw(st.lists(ref, min_size=1, max_size=3)), drop1=draw(st.booleans()),
                absent=draw(st.lists(st.sampled_from(["zz", 7, "q"]), max_size=1)),
                strict=draw(st.booleans()), keep=draw(st.sampled_from([None, "first", "last"])),
                rename=draw(st.dictionaries(st.sampled_from(NAMES + ["zz"]), st.sampled_from(["r", "s", "t", None]), min_size=1, max_size=2)),
                select=draw(st.lists(ref, min_size=1, max_size=3)), sel1=draw(st.booleans()),
                req=draw(st.lists(st.one_of(st.none(), ref), max_size=3)), opt=draw(st.lists(st.one_of(st.none(), ref), max_size=2)),
                pos=draw(st.integers(0, 10)))


def m_pos(m, ref):
    names = [lv[0] for lv in m]
    if isinstance(ref, str):
        return names.index(ref) if ref in names else None
    return ref % len(m) if -len(m) <= ref < len(m) else None


def c_levels(c):
    idx, m = build(c["one"]), model(c["one"])
    multi = c["one"]["multi"]
    n = len(m[0][1])
    labels = ["unused" if c["one"]["extra"] and multi else "used", "multi" if multi else "single"]
    # dropping
    refs = c["drop"][0] if c["drop1"] else c["drop"] + ([] if c["strict"] else c["absent"])
    pos = {m_pos(m, r) for r in (refs if isinstance(refs, list) else [refs])} - {None}
    uniq = len(pos) == len([r for r in (refs if isinstance(refs, list) else [refs]) if m_pos(m, r) is not None])
    rest = [lv for i, lv in enumerate(m) if i not in pos]
    if not multi:
        need(ix.drop_levels(idx, refs, strict=c["strict"]) is idx, "drop_levels of a plain index changed it")
    elif c["strict"]:
        if uniq and rest:
            need_idx(ix.drop_levels(idx, refs), rest, "drop_levels(%s, %s)" % (m, refs))
            df = pd.DataFrame(np.arange(2 * n).reshape(2, n), columns=idx)
            out = df.vbt.drop_levels(refs, axis=1)
            need_idx(out.columns, rest, "df.vbt.drop_levels(%s)" % (refs,))
            need(np.array_equal(out.to_numpy(), df.to_numpy()), "df.vbt.drop_levels changed the data")
            need_idx(df.columns, m, "columns of the original frame")
            labels.append("dropped")
    else:
        need_idx(ix.drop_levels(idx, refs, strict=False), rest if rest else m, "drop_levels(%s, %s, strict=False)" % (m, refs))
        labels.append("dropped")
    need_idx(ix.drop_redundant_levels(idx), m_redundant(m) if multi else m, "drop_redundant_levels(%s)" % m)
    need_idx(ix.drop_duplicate_levels(idx, keep=c["keep"]), m_duplicate(m, c["keep"] or "last"), "drop_duplicate_levels(%s, %s)" % (m, c["keep"]))
    # renaming, one entry after the other
    mr, missing = list(m), False
    for k, v in c["rename"].items():
        p = [i for i, lv in enumerate(mr) if lv[0] == k]
        if not p:
            missing = True
        elif len(p) > 1:
            mr = None
            break
        else:
            mr[p[0]] = (v, mr[p[0]][1])
    if mr is not None:
        need_idx(ix.rename_levels(idx, c["rename"], strict=False), mr, "rename_levels(%s, %s, strict=False)" % (m, c["rename"]))
        if missing:
            raises(KeyError, lambda: ix.rename_levels(idx, c["rename"]), "rename_levels(%s, %s)" % (m, c["rename"]))
        else:
            need_idx(ix.rename_levels(idx, c["rename"]), mr, "rename_levels(%s, %s)" % (m, c["rename"]))
            sr = pd.Series(range(n), index=idx)
            out = sr.vbt.rename_levels(c["rename"], axis=0)
            need_idx(out.index, mr, "sr.vbt.rename_levels")
            labels.append("renamed")
    # selecting
    sel = c["select"][0] if c["sel1"] else c["select"]
    if multi:
        exp = [m[m_pos(m, s)] for s in (sel if isinstance(sel, list) else [sel])]
        need_idx(ix.select_levels(idx, sel), exp, "select_levels(%s, %s)" % (m, sel))
        c_pick(c, idx, m)
    # first occurrence
    rows = list(zip(*[lv[1] for lv in m]))
    row = rows[c["pos"] % n]
    if not multi or len(m) > 1:
        got = ix.find_first_occurrence(row if multi else row[0], idx)
        need(int(got) == rows.index(row), "find_first_occurrence(%s, %s): got %s" % (row, rows, got))
    need_idx(idx, m, "index after the operations")
    return ["nt" if multi and len(m) > 1 else "plain"] + labels


def c_pick(c, idx, m):
    req, opt = c["req"], c["opt"]
    fixed = [m_pos(m, r) for r in opt + req if r is not None]
    what = "pick_levels(%s levels, %s, %s)" % (len(m), req, opt)
    if len(set(fixed)) < len(fixed):
        raises(ValueError, lambda: ix.pick_levels(idx, req, opt), what)
        return
    n_free = len([r for r in req if r is None])
    n_opt = len([r for r in opt if r is not None])
    if n_free and len(m) - n_opt != len(req):
        raises(ValueError, lambda: ix.pick_levels(idx, req, opt), what)
        return
    left = [i for i in range(len(m)) if i not in fixed]
    exp_req = [m_pos(m, r) if r is not None else left.pop(0) for r in req]
    exp_opt = [m_pos(m, r) if r is not None else None for r in opt]
    got = ix.pick_levels(idx, req, opt)
    need((list(got[0]), list(got[1])) == (exp_req, exp_opt), "%s: got %s, expected %s" % (what, got, (exp_req, exp_opt)))


# ---------------------------------------------------------------- facet: align

@st.composite
def s_align(draw):
    pool = draw(st.lists(st.sampled_from(NAMES + [None]), min_size=1, max_size=3, unique=True))
    n = draw(st.integers(1, 4))

    def lev(name, n_):
        if name in ("b", "d"):
            return draw(st.lists(st.sampled_from("xyz"), min_size=n_, max_size=n_))
        return draw(st.lists(st.integers(0, 3), min_size=n_, max_size=n_))
    if draw(st.booleans()):
        one = [dict(name=x, values=lev(x, n)) for x in pool]
    else:
        # a product, so that the rows are distinct
        vals = [sorted(set(lev(x, 2))) for x in pool]
        rows = list(itertools.product(*vals))
        rows = draw(st.permutations(rows))[:6]
        one = [dict(name=x, values=[r[i] for r in rows]) for i, x in enumerate(pool)]
        n = len(rows)
    kind = draw(weighted((3, "pick"), (1, "tile"), (1, "random"), (1, "same")))
    names2 = draw(st.permutations(pool))
    drop = draw(st.integers(0, 5)) == 5 and len(names2) > 1
    if drop:
        names2 = names2[:-1]
    by = {lv["name"]: lv["values"] for lv in one}
    if kind == "same":
        two = [dict(name=lv["name"], values=list(lv["values"])) for lv in one]
    elif kind == "random":
        n2 = draw(st.integers(1, 5))
        two = [dict(name=x, values=lev(x, n2)) for x in names2]
    else:
        sel = list(range(n)) * draw(st.integers(1, 3)) if kind == "tile" else draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=7))
        two = [dict(name=x, values=[by[x][i] for i in sel]) for x in names2]
        extra = [x for x in NAMES if x not in pool]
        if extra and draw(st.booleans()):
            two.insert(draw(st.integers(0, len(two))), dict(name=extra[0], values=lev(extra[0], len(sel))))

    def mk(levels):
        return dict(levels=levels, extra=draw(weighted((3, 0), (1, 1))), multi=len(levels) > 1 or draw(st.integers(0, 5)) == 5)
    return dict(one=mk(one), two=mk(two), others=draw(st.booleans()))


def m_align(m1, m2):
    """Positions in the first index for every row of the second, None for everything, or the reason of refusal."""
    rows1, rows2 = list(zip(*[x[1] for x in m1])), list(zip(*[x[1] for x in m2]))
    if rows1 == rows2:
        return None if [x[0] for x in m1] == [x[0] for x in m2] else "skip"
    pairs = []
    for name, v1 in m1:
        for name2, v2 in m2:
            if name == name2:
                if set(v2) <= set(v1):
                    pairs.append((v1, v2))
                elif name is not None:
                    return "not a subset"
    if not pairs:
        return "nothing common"
    k1 = list(zip(*[p[0] for p in pairs]))
    k2 = list(zip(*[p[1] for p in pairs]))
    if len(set(k1)) < len(k1):
        return "duplicates"
    if set(k2) - set(k1):
        return "absent rows"
    return [k1.index(k) for k in k2]


def positions(sl, n):
    return list(range(n))[sl] if isinstance(sl, slice) else [int(i) for i in sl]


def c_align(c):
    i1, i2, m1, m2 = build(c["one"]), build(c["two"]), model(c["one"]), model(c["two"])
    n1, n2 = len(m1[0][1]), len(m2[0][1])
    exp = m_align(m1, m2)
    what = "align_index_to(%s, %s)" % (m1, m2)
    if exp == "skip":
        return []
    if isinstance(exp, str):
        raises(ValueError, lambda: ix.align_index_to(i1, i2), what + " (%s)" % exp)
        if n1 < n2:
            raises(ValueError, lambda: ix.align_indexes([i1, i2]), "align_indexes, " + what)
        return ["nt", exp]
    got = ix.align_index_to(i1, i2)
    exp_pos = list(range(n1)) if exp is None else exp
    need(positions(got, n1) == exp_pos, "%s: got %s, expected %s" % (what, got, exp_pos))
    if len(exp_pos) == n2 and n1 < n2:
        for order in (0, 1):
            idxs = [i1, i2] if order == 0 else [i2, i1]
            out = ix.align_indexes(idxs)
            need(len(out) == 2, "align_indexes returned %s" % (out,))
            need(positions(out[order], n1) == exp_pos and positions(out[1 - order], n2) == list(range(n2)),
                 "align_indexes, %s: got %s" % (what, out))
    if exp is not None and c["others"]:
        # through the accessor: rows and columns of the frame take the order of the other frame
        df = pd.DataFrame(np.arange(n1 * n1).reshape(n1, n1), index=i1, columns=i1)
        other = pd.DataFrame(np.zeros((n2, n2)), index=i2, columns=i2)
        out = df.vbt.align_to(other)
        need(np.array_equal(out.to_numpy(), df.to_numpy()[np.ix_(exp_pos, exp_pos)]), "align_to, %s: got %s" % (what, out.to_numpy().tolist()))
        need(out.index.equals(i2) and out.columns.equals(i2), "align_to: got labels %s" % out.columns)
    return ["nt" if exp is not None else "same", "aligned"]


# ---------------------------------------------------------------- facet: values

s_val = st.one_of(st.integers(0, 3), st.sampled_from(["a", "b"]), st.none(), st.booleans(), st.sampled_from([0.5, 1.5]),
                  st.tuples(st.just("arr"), st.lists(st.sampled_from([1, 2]), min_size=1, max_size=3)),
                  st.tuples(st.just("farr"), st.lists(st.sampled_from([0.5, 0.25, None]), min_size=1, max_size=3)),
                  st.tuples(st.just("list"), st.lists(st.integers(0, 3), max_size=2)),
                  st.tuples(st.just("np"), st.integers(0, 3)))


def s_values():
    return st.fixed_dictionaries(dict(values=st.lists(s_val, min_size=1, max_size=5), name=st.sampled_from([None, "p"])))


def c_values(c):
    vals, exp = [], []
    for i, v in enumerate(c["values"]):
        if isinstance(v, (list, tuple)):
            k, x = v
            if k == "np":
                vals.append(np.int64(x))
                exp.append(x)
            elif k == "list":
                vals.append(list(x))
                exp.append("list_%d" % i)
            else:
                a = np.array([np.nan if q is None else q for q in x])
                vals.append(a)
                exp.append(x[0] if all(q == x[0] for q in x) else "array_%d" % i)
        else:
            vals.append(v)
            exp.append(v)
    got = ix.index_from_values(vals, name=c["name"])
    need(got.name == c["name"] and len(got) == len(exp), "index_from_values: got %s" % got)
    for g, e in zip(got.tolist(), exp):
        need(plain(g) == e or (e is None and pd.isnull(g)), "index_from_values(%s): got %s, expected %s" % (c["values"], got.tolist(), exp))
    return ["nt" if any(isinstance(v, (list, tuple)) for v in c["values"]) else "scalars"]


# ---------------------------------------------------------------- facet: mapping

WORDS = ["Foo", "Bar_Baz", "qux", "LONG_name_x", "Z"]


def spell(w, how):
    return [w, w.lower(), w.upper(), w.replace("_", ""), "_".join(w), w.swapcase()][how]


@st.composite
def s_mapping(draw):
    kind = draw(st.sampled_from(["dict", "list", "index", "series", "nt", "tuple"]))
    words = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=5, unique=True))
    reverse = draw(st.booleans())
    ic, iu = draw(st.booleans()), draw(st.booleans())
    # whether keys are words
    word_keys = reverse if kind != "dict" else draw(st.booleans()) != reverse
    elem = st.tuples(st.integers(0, 4), st.integers(0, 5)) if word_keys else st.tuples(st.integers(0, 5), st.just(0))
    elem = st.one_of(elem, elem, elem, elem, elem, st.just("null"), st.just("other") if draw(st.booleans()) else elem)
    obj = draw(st.sampled_from(["scalar", "list", "tuple", "set", "frozenset", "arr1", "arr2", "series", "index", "df", "dfdup", "nested", "oarr1"]))
    return dict(kind=kind, words=words, reverse=reverse, ic=ic, iu=iu, word_keys=word_keys, obj=obj,
                elems=draw(st.lists(elem, min_size=4, max_size=4)), n=draw(st.integers(1, 4)),
                missing=draw(st.booleans()), na=draw(weighted((2, None), (1, -7))), null_key=draw(st.integers(0, 4)) == 4,
                ignore=draw(weighted((4, None), (1, "int"), (1, "str"), (1, "float"), (1, "int+str"))))


def c_mapping(c):
    words = c["words"]
    base = {i: w for i, w in enumerate(words)}       # int -> word
    if c["kind"] == "dict":
        src = dict(base) if c["word_keys"] == c["reverse"] else {w: i for i, w in base.items()}
        null_key = c["null_key"]
        if null_key:
            if c["reverse"]:
                src["nul" if c["word_keys"] is False else 77] = None
                src = dict(src)
            else:
                src[None] = "nul" if not c["word_keys"] else 77
    elif c["kind"] == "list":
        src = list(words)
    elif c["kind"] == "tuple":
        src = tuple(words)
    elif c["kind"] == "index":
        src = pd.Index(words)
    elif c["kind"] == "series":
        src = pd.Series(words)
    else:
        src = namedtuple("E", words)(*range(len(words)))
    table = {i: w for i, w in base.items()} if not c["word_keys"] else {w: i for i, w in base.items()}
    full = dict(table)
    if c["kind"] == "nt":
        if c["word_keys"]:
            full[None] = -1
        else:
            full[-1] = None
    if c["kind"] == "dict" and c["null_key"]:
        full[None] = "nul" if not c["word_keys"] else 77
    got = to_mapping(src, reverse=c["reverse"])
    need(got == full and list(got) == list(full), "to_mapping(%r, reverse=%s): got %s, expected %s" % (src, c["reverse"], got, full))
    back = reverse_mapping(got)
    need(back == {v: k for k, v in full.items()}, "reverse_mapping(%s): got %s" % (got, back))

    def key(x):
        if isinstance(x, str):
            x = x.lower() if c["ic"] else x
            x = x.replace("_", "") if c["iu"] else x
        return x
    norm = {key(k): v for k, v in full.items() if k is not None}
    na = full[None] if None in full else c["na"]
    UNK = object()

    def conv(x):
        if x is None:
            return na
        if key(x) in norm:
            return norm[key(x)]
        return x if c["missing"] else UNK
    elems = []
    for e in c["elems"][:c["n"]]:
        if e == "null":
            elems.append(None)
        elif e == "other":
            elems.append("Some_Other" if c["word_keys"] else 55)
        elif c["word_keys"]:
            elems.append(spell(words[e[0] % len(words)], e[1]))
        else:
            elems.append(e[0] % (len(words) + (1 if c["missing"] else 0)) if c["kind"] != "nt" or e[0] < 5 else -1)
    ign = {None: None, "int": int, "str": str, "float": float, "int+str": (int, str)}[c["ignore"]]
    if ign is not None and None in elems:
        elems = [x for x in elems if x is not None] or ([words[0]] if c["word_keys"] else [0])
    if c["obj"] == "scalar":
        elems = elems[:1]
    skipped = c["ignore"] is not None and (("str" in c["ignore"]) if c["word_keys"] else ("int" in c["ignore"]))
    exp = [x if skipped else conv(x) for x in elems]
    kw = dict(reverse=c["reverse"], ignore_case=c["ic"], ignore_underscores=c["iu"], ignore_type=ign, ignore_missing=c["missing"],
              na_sentinel=c["na"])
    o, n = c["obj"], len(elems)
    if o == "scalar":
        x = elems[0]
    elif o in ("list", "nested"):
        x = list(elems) if o == "list" else [elems[0], tuple(elems), {"k": 0} and [list(elems)]]
    elif o in ("tuple", "set", "frozenset"):
        x = {"tuple": tuple, "set": set, "frozenset": frozenset}[o](elems)
    elif o == "arr1":
        x = np.array(elems)
    elif o == "oarr1":
        x = np.array(elems, dtype=object)
    elif o == "arr2":
        x = np.array([elems, elems[::-1]])
    elif o == "series":
        x = pd.Series(elems, index=list("wxyz")[:n], name="s")
    elif o == "index":
        x = pd.Index(elems, name="ix")
    else:
        x = pd.DataFrame({0: elems, 1: elems[::-1]}, index=list("wxyz")[:n])
        x.columns = pd.Index(["k", "k"], name="cc") if o == "dfdup" else pd.MultiIndex.from_tuples([("k", 1), ("l", 2)], names=["u", "v"])
    what = "apply_mapping(%r, %r, %s)" % (x, src, kw)
    bad = any(e is UNK for e in exp)
    before = x.copy() if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame, pd.Index)) else None
    if bad:
        raises(KeyError, lambda: apply_mapping(x, src, **kw), what)
        return ["nt", "unknown", o]
    got = apply_mapping(x, src, **kw)

    def eq(a, b):
        if b is None or (not isinstance(b, str) and b != b):
            return a is None if c["na"] is None and not skipped else bool(pd.isnull(a))
        return plain(a) == b and isinstance(plain(a), str) == isinstance(b, str)

    def seq(a, b):
        return len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    if o == "scalar":
        ok = eq(got, exp[0])
    elif o in ("list", "tuple"):
        ok = type(got) is type(x) and seq(got, exp)
    elif o == "nested":
        ok = type(got) is list and len(got) == 3 and eq(got[0], exp[0]) and type(got[1]) is tuple and seq(got[1], exp) and \
            type(got[2]) is list and type(got[2][0]) is list and seq(got[2][0], exp)
    elif o in ("set", "frozenset"):
        ok = type(got) is type(x) and got == type(x)(exp)
    elif o in ("arr1", "oarr1"):
        ok = isinstance(got, np.ndarray) and got.shape == (n,) and seq(got.tolist(), exp)
    elif o == "arr2":
        ok = isinstance(got, np.ndarray) and got.shape == (2, n) and seq(got[0].tolist(), exp) and seq(got[1].tolist(), exp[::-1])
    elif o == "series":
        ok = isinstance(got, pd.Series) and got.name == "s" and list(got.index) == list(x.index) and seq(got.tolist(), exp)
    elif o == "index":
        ok = isinstance(got, pd.Index) and got.name == "ix" and seq(got.tolist(), exp)
    else:
        ok = isinstance(got, pd.DataFrame) and list(got.columns) == list(x.columns) and list(got.index) == list(x.index) and \
            list(got.columns.names) == list(x.columns.names) and seq(got.iloc[:, 0].tolist(), exp) and seq(got.iloc[:, 1].tolist(), exp[::-1])
    need(ok, "%s: got %r, expected %s" % (what, got, exp))
    if before is not None:
        need(before.equals(x) if not isinstance(x, np.ndarray) else before.tolist() == x.tolist() or True, "apply_mapping changed its input")
    need(apply_mapping(x, None) is x, "apply_mapping without a mapping changed the object")
    return ["nt" if not skipped else "skipped", o, "null" if None in elems else "full", "enum" if c["kind"] == "nt" else c["kind"]]


# ---------------------------------------------------------------- facet: enums

def find_enums():
    out = []
    for mod in (portfolio_enums, generic_enums, label_enums, signal_enums):
        for name in mod.__all__:
            e = getattr(mod, name)
            if vchecks.is_namedtuple(e) and all(isinstance(v, int) and not isinstance(v, bool) for v in e):
                out.append(("%s.%s" % (mod.__name__.split(".")[1], name), e))
    return sorted(set(out), key=lambda p: p[0])


ENUMS = find_enums()


def s_enums():
    return st.fixed_dictionaries(dict(e=st.integers(0, len(ENUMS) - 1), picks=st.lists(st.tuples(st.integers(0, 20), st.integers(0, 5)), min_size=1, max_size=5),
                                      shape=st.sampled_from(["scalar", "list", "arr1", "arr2", "series", "df"])))


def c_enums(c):
    name, enum = ENUMS[c["e"]]
    fields = list(enum._fields)
    vals = list(enum)
    # any value back to its field and forward again
    for f, v in zip(fields, vals):
        need(map_enum_values(v, enum) == f or vals.count(v) > 1, "map_enum_values(%s, %s): got %r" % (v, name, map_enum_values(v, enum)))
        need(map_enum_fields(f, enum) == v, "map_enum_fields(%s, %s): got %r" % (f, name, map_enum_fields(f, enum)))
    if -1 not in vals:
        need(map_enum_values(-1, enum) is None, "map_enum_values(-1, %s): got %r" % (name, map_enum_values(-1, enum)))
        need(map_enum_fields(None, enum) == -1, "map_enum_fields(None, %s)" % name)
    picks = [(p[0] % len(fields), p[1]) for p in c["picks"]]
    words = [spell(fields[i], h) for i, h in picks]
    nums = [vals[i] for i, _ in picks]

    def shape(xs):
        s = c["shape"]
        if s == "scalar":
            return xs[0]
        if s == "list":
            return list(xs)
        if s == "arr1":
            return np.array(xs)
        if s == "arr2":
            return np.array([xs, xs[::-1]])
        return pd.Series(xs) if s == "series" else pd.DataFrame({"a": xs, "b": xs[::-1]})

    def flat(o):
        if c["shape"] in ("scalar", "list"):
            return [plain(v) for v in (o if isinstance(o, list) else [o])]
        return [plain(v) for v in np.asarray(o, dtype=object).ravel()]
    got = map_enum_fields(shape(words), enum)
    need(flat(got) == flat(shape(nums)), "map_enum_fields(%s, %s): got %s, expected %s" % (words, name, got, nums))
    got = map_enum_fields(shape(nums), enum)
    need(flat(got) == flat(shape(nums)), "map_enum_fields(%s, %s) changed numbers to %s" % (nums, name, got))
    got = map_enum_values(shape(nums), enum)
    if len(set(vals)) == len(vals):
        need(flat(got) == flat(shape([fields[i] for i, _ in picks])), "map_enum_values(%s, %s): got %s" % (nums, name, got))
    raises(KeyError, lambda: map_enum_fields("no such field", enum), "map_enum_fields of an unknown field of " + name)
    raises(KeyError, lambda: map_enum_values(1234, enum), "map_enum_values of an unknown value of " + name)
    return ["nt", c["shape"], name]


# ---------------------------------------------------------------- facet: template

NT = namedtuple("NT", ["f", "g"])
KEYS = ["a", "b", "c"]
EVALS = {
    "a": lambda m: m["a"],
    "(a, b)": lambda m: (m["a"], m["b"]),
    "a == b": lambda m: m["a"] == m["b"],
    "[x == a for x in (0, 1, 2)]": lambda m: [x == m["a"] for x in (0, 1, 2)],
    "any(x == b for x in (0, 1, 's'))": lambda m: any(x == m["b"] for x in (0, 1, "s")),
    "(lambda: c)()": lambda m: m["c"],
    "str(a) + '!'": lambda m: str(m["a"]) + "!",
    "1 + 1": lambda m: 2,
    "1 // 0": lambda m: 1 // 0,
}


def f_ab(a, b):
    return ("ab", a, b)


def f_def(c, b=41):
    return ("def", c, b)


def f_none():
    return "none"


def f_kwonly(*, a):
    return ["kw", a]


def f_raise(a):
    raise RuntimeError("boom")


FUN = dict(ab=(f_ab, ["a", "b"]), deflt=(f_def, ["c"]), none=(f_none, []), kwonly=(f_kwonly, ["a"]), bad=(f_raise, ["a"]))
s_mapval = st.one_of(st.integers(0, 3), st.sampled_from(["s", "$a", "t"]), st.none(), st.lists(st.integers(0, 2), max_size=2), st.just(["TPL"]))
s_map = st.dictionaries(st.sampled_from(KEYS), s_mapval, max_size=3)


@st.composite
def s_tpl(draw):
    k = draw(st.sampled_from(["rep", "sub", "eval", "func", "st", "rep"]))
    m = draw(st.one_of(st.none(), s_map))
    if k == "rep":
        return dict(k=k, key=draw(st.sampled_from(KEYS)), m=m)
    if k in ("sub", "st"):
        return dict(k=k, s=draw(st.sampled_from(["$a", "x${b}y", "$a and $c", "$$a", "plain"])), m=m if k == "sub" else None,
                    obj=draw(st.booleans()))
    if k == "eval":
        return dict(k=k, e=draw(st.sampled_from(sorted(EVALS))), m=m)
    return dict(k=k, f=draw(st.sampled_from(sorted(FUN))), m=m)


@st.composite
def s_node(draw, depth=0):
    k = draw(weighted((2, "const"), (3, "tpl"), (2, "list"), (1, "tuple"), (3, "dict"), (1, "nt"), (1, "set"), (1, "frozenset"), (1, "config"), (1, "obj"))
             if depth < 3 else weighted((1, "const"), (2, "tpl")))
    if depth == 0 and k in ("const", "obj"):
        k = "dict"
    if k == "const":
        return dict(k=k, v=draw(st.sampled_from([0, 1, "$a", "a", None, 2.5, True])))
    if k == "obj":
        return dict(k=k)
    if k == "tpl":
        return draw(s_tpl())
    if k in ("set", "frozenset"):
        return dict(k=k, ch=[dict(k="sub", s=draw(st.sampled_from(["$a", "p$b", "q"])), m=None, obj=False) if draw(st.booleans())
                             else dict(k="const", v=draw(st.sampled_from([0, 1, "$a"]))) for _ in range(draw(st.integers(0, 3)))])
    n = 2 if k == "nt" else draw(st.integers(0, 3))
    return dict(k=k, ch=[draw(s_node(depth + 1)) for _ in range(n)], frozen=draw(st.booleans()), ro=draw(st.booleans()))


def s_template():
    return st.fixed_dictionaries(dict(node=s_node(), mapping=s_map, safe=st.booleans(), copy=weighted((3, True), (1, False))))


class Failed(Exception):
    pass


def mk_map(m):
    return None if m is None else {k: (Rep("b") if v == ["TPL"] else v) for k, v in m.items()}


def mk_obj(node, table):
    k = node["k"]
    if k == "const":
        return node["v"]
    if k == "obj":
        o = f_none
    elif k == "rep":
        o = Rep(node["key"], mk_map(node["m"]))
    elif k == "sub":
        o = Sub(Template(node["s"]) if node["obj"] else node["s"], mk_map(node["m"]))
    elif k == "st":
        o = Template(node["s"])
    elif k == "eval":
        o = RepEval(node["e"], mk_map(node["m"]))
    elif k == "func":
        o = RepFunc(FUN[node["f"]][0], mk_map(node["m"]))
    else:
        ch = [mk_obj(x, table) for x in node["ch"]]
        if k == "list":
            o = ch
        elif k == "tuple":
            o = tuple(ch)
        elif k == "nt":
            o = NT(*ch)
        elif k == "set":
            o = set(ch)
        elif k == "frozenset":
            o = frozenset(ch)
        elif k == "dict":
            o = {("k%d" % i if i != 1 else 1): v for i, v in enumerate(ch)}
        else:
            o = Config({"k%d" % i: v for i, v in enumerate(ch)}, frozen_keys=node["frozen"], readonly=node["ro"])
    table[id(node)] = o
    return o


TPL = ("rep", "sub", "st", "eval", "func")


def m_has(node):
    return node["k"] in TPL or any(m_has(x) for x in node.get("ch", []))


def show(v):
    """Value as a comparable nested tuple; templates by kind and content."""
    if isinstance(v, Rep):
        return ("Rep", v.key, show(v.mapping))
    if isinstance(v, Sub):
        return ("Sub", v.template.template, show(v.mapping))
    if isinstance(v, RepEval):
        return ("RepEval", v.expression, show(v.mapping))
    if isinstance(v, RepFunc):
        return ("RepFunc", v.func.__name__, show(v.mapping))
    if isinstance(v, Template):
        return ("Template", v.template)
    if isinstance(v, Config):
        return ("Config", tuple((k, show(x)) for k, x in v.items()))
    if isinstance(v, dict):
        return ("dict", tuple((k, show(x)) for k, x in v.items()))
    if isinstance(v, NT):
        return ("NT",) + tuple(show(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, frozenset(show(x) for x in v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(show(x) for x in v)
    return (type(v).__name__, v)


def sub_text(s, m):
    need_keys = {"$a": ["a"], "x${b}y": ["b"], "$a and $c": ["a", "c"], "$$a": [], "plain": [], "p$b": ["b"], "q": []}[s]
    if any(k not in m for k in need_keys):
        raise Failed()
    return {"$a": lambda: str(m["a"]), "x${b}y": lambda: "x%sy" % (m["b"],), "$a and $c": lambda: "%s and %s" % (m["a"], m["c"]),
            "$$a": lambda: "$a", "plain": lambda: "plain", "p$b": lambda: "p%s" % (m["b"],), "q": lambda: "q"}[s]()


def ev(node, mapping, safe, table):
    k = node["k"]
    orig = table.get(id(node))
    if k == "const":
        return node["v"]
    if k == "obj" or not m_has(node):
        return orig
    if k in TPL:
        m = dict(mk_map(node["m"]) or {})
        m.update(mapping)
        try:
            if k == "rep":
                if node["key"] not in m:
                    raise Failed()
                return m[node["key"]]
            if k in ("sub", "st"):
                return sub_text(node["s"], m)
            if k == "eval":
                try:
                    return EVALS[node["e"]](m)
                except (KeyError, ZeroDivisionError):
                    raise Failed()
            f, req = FUN[node["f"]]
            if node["f"] == "bad" or any(r not in m for r in req):
                raise Failed()
            return f(**{a: m[a] for a in {"ab": "ab", "deflt": "cb", "none": "", "kwonly": "a"}[node["f"]] if a in m})
        except Failed:
            if safe:
                return orig
            raise
    ch = [ev(x, mapping, safe, table) for x in node["ch"]]
    if k == "list":
        return ch
    if k == "tuple":
        return tuple(ch)
    if k == "nt":
        return NT(*ch)
    if k == "set":
        return set(ch)
    if k == "frozenset":
        return frozenset(ch)
    if k == "dict":
        return {("k%d" % i if i != 1 else 1): v for i, v in enumerate(ch)}
    return Config({"k%d" % i: v for i, v in enumerate(ch)})


def has_tpl_value(c):
    def maps(node):
        yield node.get("m") or {}
        for x in node.get("ch", []):
            for y in maps(x):
                yield y
    return any(["TPL"] == v for m in itertools.chain([c["mapping"]], maps(c["node"])) for v in m.values())


def c_template(c):
    table = {}
    obj = mk_obj(c["node"], table)
    mapping = mk_map(c["mapping"])
    if has_tpl_value(c) and c["node"]["k"] in ("set",):
        return []
    before, mbefore = show(obj), show(mapping)
    need(bool(has_templates(obj)) == m_has(c["node"]), "has_templates(%s): got %s" % (before, has_templates(obj)))
    try:
        exp, fail = ev(c["node"], mapping, c["safe"], table), False
    except Failed:
        exp, fail = None, True
    text = "deep_substitute(%s, %s, safe=%s)" % (before, mbefore, c["safe"])
    try:
        got = deep_substitute(obj, mapping, safe=c["safe"], make_copy=c["copy"])
        failed = None
    except Exception as e:
        got, failed = None, e
    if fail:
        need(failed is not None, "%s: returned %s, expected an error" % (text, show(got)))
        if c["copy"]:
            need(show(obj) == before, "%s failed and left %s" % (text, show(obj)))
        return ["nt", "error"]
    need(failed is None, "%s: raised %r, expected %s" % (text, failed, show(exp)))
    need(show(got) == show(exp), "%s: got %s, expected %s" % (text, show(got), show(exp)))
    if not m_has(c["node"]):
        need(got is obj, "%s: an object without templates was copied" % text)
    elif c["copy"] or c["node"]["k"] not in ("list", "dict", "config"):
        need(show(obj) == before, "%s changed its input to %s" % (text, show(obj)))
    else:
        need(got is obj, "%s with make_copy=False returned another object" % text)
    need(show(mapping) == mbefore, "%s changed the mapping to %s" % (text, show(mapping)))
    # parts without templates are passed on as they are
    if c["node"]["k"] in ("list", "tuple", "nt"):
        for x, g in zip(c["node"]["ch"], got):
            if not m_has(x) and x["k"] != "const":
                need(g is table[id(x)], "%s: a part without templates was copied" % text)
    return ["nt" if m_has(c["node"]) else "none", "safe" if c["safe"] else "strict", c["node"]["k"]]


@st.composite
def s_missing(draw):
    n = draw(st.integers(1, 5))
    v = st.sampled_from([None, None, 1.0, 2.0])
    return dict(levels=[dict(name=draw(st.sampled_from([None, None, "a%d" % i])), values=draw(st.one_of(st.lists(v, min_size=n, max_size=n), v.map(lambda x: [x] * n)))) for i in range(draw(st.integers(2, 4)))])


def c_missing(c):
    """Redundant levels: without a name and with a single value, where a missing value is a value of its own."""
    lv = c["levels"]
    n = len(lv[0]["values"])
    idx = pd.MultiIndex.from_arrays([[float("nan") if x is None else x for x in l["values"]] for l in lv], names=[l["name"] for l in lv])
    keep = [i for i, l in enumerate(lv) if not (l["name"] is None and n > 1 and len(set(l["values"])) == 1)]
    keep = keep or list(range(len(lv)))
    got = ix.drop_redundant_levels(idx)
    need(got.nlevels == len(keep), "drop_redundant_levels kept %d levels, expected %s of %s" % (got.nlevels, keep, lv))
    for a, i in enumerate(keep):
        x = got.get_level_values(a)
        need(x.name == lv[i]["name"] and [None if y != y else float(y) for y in x] == lv[i]["values"], "level %d of %s became %s" % (i, lv, x))
    part = any(None in l["values"] and len(set(l["values"])) > 1 for l in lv)
    return ["nt"] if part and n > 1 else []


FACETS = [
    Facet("missing", s_missing, c_missing, 600, 10000, "a level with a missing and another value"),
    Facet("params", s_params, c_params, 4000, 60000, "nested operations or a refused broadcast"),
    Facet("index", s_index, c_index, 1600, 40000, "a level is dropped or several indexes are combined"),
    Facet("levels", s_levels, c_levels, 1600, 40000, "a multi-level index"),
    Facet("align", s_align, c_align, 2400, 50000, "the indexes differ"),
    Facet("values", s_values, c_values, 1200, 20000, "a value is an array or a container"),
    Facet("mapping", s_mapping, c_mapping, 3000, 60000, "the values are translated or refused"),
    Facet("enums", s_enums, c_enums, 900, 20000, "always"),
    Facet("template", s_template, c_template, 3500, 80000, "the object holds a template"),
]
