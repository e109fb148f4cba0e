"""Generation of order-simulation inputs in every broadcast form, and their exact reference values."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vbtcheck import refmodel as R
from vbtcheck.util import arr, fl, matrix, price_path, vec, weighted

FORMS = ["scalar", "row", "col", "full", "frame", "series"]


@st.composite
def arg_st(draw, elem, n, m, forms=None):
    form = draw(st.sampled_from(forms or FORMS))
    if form in ("scalar", "cell"):
        v = draw(elem)
    elif form == "row":
        v = draw(vec(elem, m))
    elif form in ("col", "series"):
        v = draw(vec(elem, n))
    else:
        v = draw(matrix(elem, n, m))
    return dict(form=form, v=v)


def const(v):
    return dict(form="scalar", v=v)


def build(a, index, columns, conv=fl, as_series=False):
    """The object passed to the API."""
    f, v = a["form"], a["v"]
    m = len(columns)
    if f == "cell":
        return np.array([conv(v)]) if as_series else np.array([[conv(v)]])
    if f == "scalar":
        return conv(v)
    if f == "row":
        x = np.array([[conv(e) for e in v]])
        return x[:, 0] if as_series and m == 1 else x
    if f == "col":
        x = np.array([conv(e) for e in v])
        return x if as_series else x[:, None]
    if f == "series":
        return pd.Series([conv(e) for e in v], index=index)
    x = np.array([[conv(e) for e in r] for r in v])
    if as_series:
        return x[:, 0] if f == "full" else pd.Series(x[:, 0], index=index)
    if f == "full":
        return x
    return pd.DataFrame(x, index=index, columns=columns)


def at(a, i, j, conv=fl):
    f, v = a["form"], a["v"]
    if f in ("scalar", "cell"):
        return conv(v)
    if f == "row":
        return conv(v[j])
    if f in ("col", "series"):
        return conv(v[i])
    return conv(v[i][j])


def full(a, n, m, conv=fl):
    return np.array([[at(a, i, j, conv) for j in range(m)] for i in range(n)])


@st.composite
def groups_st(draw, m):
    """A list of group lengths summing to m."""
    lens = []
    left = m
    while left:
        k = left - draw(st.integers(0, left - 1))
        lens.append(k)
        left -= k
    return lens


def group_by_of(lens):
    return np.repeat(np.arange(len(lens)), lens)


CONV = dict(size_type=int, direction=int, lock_cash=bool, allow_partial=bool, raise_reject=bool, log=bool)


@st.composite
def order_args(draw, n, m, forms=None, percent=True, errors=True, log=True):
    """Broadcastable order arguments."""
    types = draw(st.sampled_from([[0], [0], [1], [3], [4], [5], [0, 1, 3, 4, 5]] + ([[2]] if percent else [])))
    tp = draw(st.sampled_from(types)) if len(types) == 1 else None
    amount = st.one_of(st.integers(-8, 8), st.sampled_from([0.5, -0.5, 2.25, None, "inf", "-inf", 30, -30]))
    value = st.one_of(st.integers(-9, 9).map(lambda x: x * 10), st.sampled_from([None, 55.5, 400, -400]))
    frac = st.sampled_from([0.0, 0.1, 0.25, 0.5, 1.0, -0.1, -0.5, -1.0, 0.33, None, 1.2])
    elem = {0: amount, 3: amount, 1: value, 4: value, 2: frac, 5: frac}
    out = {}
    if tp is not None:
        out["size"] = draw(arg_st(elem[tp], n, m, forms))
        out["size_type"] = const(tp)
    else:
        out["size"] = draw(arg_st(st.one_of(amount, frac), n, m, forms))
        out["size_type"] = draw(arg_st(st.sampled_from([0, 1, 3, 4, 5]), n, m, forms))
    d = draw(st.integers(0, 9))
    if d < 5:
        out["direction"] = const(2)
    elif d < 9:
        out["direction"] = draw(arg_st(st.integers(0, 2), n, m, ["row"] if forms is None else forms))
    else:
        out["direction"] = draw(arg_st(weighted((4, 2), (1, 0), (1, 1)), n, m, forms))

    def opt(name, elem, p, default):
        if draw(st.integers(0, p - 1)) == p - 1:
            out[name] = draw(arg_st(elem, n, m, forms))
        else:
            out[name] = const(default)

    pe = st.one_of(st.integers(2, 30).map(float), st.sampled_from(["inf", "-inf", None, 7.5]))
    opt("price", pe, 3, "inf")
    opt("fees", st.sampled_from([0.0, 0.01, 0.1]), 3, 0.0)
    opt("fixed_fees", st.sampled_from([0.0, 1.0, 5.0]), 4, 0.0)
    opt("slippage", st.sampled_from([0.0, 0.02, 0.1]), 3, 0.0)
    opt("min_size", st.sampled_from([0.0, 1.0, 3.0]), 6, 0.0)
    opt("max_size", st.sampled_from(["inf", 2.0, 6.0]), 6, "inf")
    opt("size_granularity", st.sampled_from([None, 1.0, 0.25]), 6, None)
    opt("lock_cash", st.booleans(), 4, False)
    opt("allow_partial", st.booleans(), 5, True)
    opt("reject_prob", st.sampled_from([0.0, 1.0]), 10, 0.0)
    if errors:
        opt("raise_reject", weighted((6, False), (1, True)), 12, False)
    else:
        out["raise_reject"] = const(False)
    if log:
        opt("log", st.booleans(), 2, False)
    return out


def fix_signature(case, mode):
    """Numba compiles one version per combination of array kinds: keep to a few combinations.

    "2d": every argument is a two-dimensional array (of any broadcastable shape); "few": only size and price are
    two-dimensional, the rest scalars (taken from the first element); "1d": for a Series close, one-dimensional."""
    n, m = case["n"], case["m"]
    args = dict(case["args"])
    args["val_price"] = case["val_price"]
    for k in list(R.ORDER_DEFAULTS):
        if k not in args and k in CONV:
            args[k] = const(R.ORDER_DEFAULTS[k])
    for k, a in args.items():
        f = a["form"]
        if mode in ("2d", "1d") or k in ("size", "price"):
            f2 = {"scalar": "cell", "series": "col", "frame": "full"}.get(f, f)
            args[k] = dict(form=f2, v=a["v"])
        else:
            args[k] = const(at(a, 0, 0, lambda e: e))
    case["val_price"] = args.pop("val_price")
    case["args"] = args
    return case


@st.composite
def sim_case(draw, max_n=8, max_m=4, forms=None, errors=True, nan_close=True, percent=True, group=True,
             signature=True):
    n = draw(st.sampled_from([x for x in (3, 5, 1, 2, 4, 6, 7, 8) if x <= max_n]))
    m = draw(st.sampled_from([2, 3, 1, 4, 3, 2][:max_m + 2])) if max_m >= 2 else 1
    close = draw(price_path(n, m, nan=nan_close and draw(st.integers(0, 4)) == 4, lo=1, hi=30))
    case = dict(n=n, m=m, close=close)
    case["series"] = m == 1 and draw(weighted((3, False), (1, True)))
    fm = ["scalar", "col", "full", "series"] if case["series"] else forms
    case["args"] = draw(order_args(n, m, fm, errors=errors, percent=percent))
    if draw(st.integers(0, 2)) == 2:
        ve = st.one_of(st.integers(2, 30).map(float), st.sampled_from(["inf", "-inf", "-inf", None]))
        case["val_price"] = draw(arg_st(ve, n, m, fm))
    else:
        case["val_price"] = const(draw(st.sampled_from(["inf", "-inf"])))
    case["group"] = draw(groups_st(m)) if group and draw(st.integers(0, 2)) > 0 else None
    case["cash_sharing"] = draw(weighted((3, True), (1, False))) if case["group"] else False
    k = len(case["group"]) if case["cash_sharing"] else m
    case["init_cash"] = draw(st.one_of(st.sampled_from([100.0, 1000.0, 33.3]),
                                       vec(st.sampled_from([100.0, 50.0, 1000.0, 5.0]), k)))
    case["call_seq"] = draw(st.sampled_from(["default", "reversed", "auto", "auto", "array", "random"]))
    if case["call_seq"] == "array":
        lens = case["group"] or [1] * m
        case["seq"] = [[int(x) for g in lens for x in draw(st.permutations(range(g)))] for _ in range(n)]
    case["ffill_val_price"] = draw(weighted((3, True), (1, False)))
    case["update_value"] = draw(st.booleans())
    if signature:
        fix_signature(case, "1d" if case["series"] else draw(weighted((4, "2d"), (1, "few"))))
    return case


def labels_of(case):
    n, m = case["n"], case["m"]
    index = pd.date_range("2020-01-01", periods=n, freq="D")
    columns = pd.Index(list("abcdefgh"[:m]))
    return index, columns


def close_obj(case):
    index, columns = labels_of(case)
    c = arr(case["close"])
    if case.get("series"):
        return pd.Series(c[:, 0], index=index, name="a")
    return pd.DataFrame(c, index=index, columns=columns)


def api_kwargs(case):
    index, columns = labels_of(case)
    kw = {k: build(a, index, columns, CONV.get(k, fl), as_series=case.get("series", False))
          for k, a in case["args"].items()}
    return kw


def group_kwargs(case):
    if case["group"] is None:
        return {}
    return dict(group_by=pd.Index(group_by_of(case["group"]), name="group"), cash_sharing=case["cash_sharing"])


def seq_arg(case):
    if case["call_seq"] == "array":
        return np.array(case["seq"], dtype=np.int64)
    return case["call_seq"]


def init_cash_arg(case):
    x = case["init_cash"]
    return [float(v) for v in x] if isinstance(x, list) else float(x)


def ref_lens(case):
    return case["group"] if case["cash_sharing"] else [1] * case["m"]


def ref_sim(case, call_seq=None):
    """Run the reference ledger; `call_seq` (relative positions, [n][m]) must be given for random sequences."""
    n, m = case["n"], case["m"]
    lens = ref_lens(case)
    ic = case["init_cash"]
    ic = ic if isinstance(ic, list) else [ic] * len(lens)
    args = case["args"]

    def get(name, i, j):
        a = args.get(name)
        if a is None:
            return R.ORDER_DEFAULTS[name]
        return at(a, i, j, CONV.get(name, fl))

    if call_seq is None:
        full_lens = case["group"] or [1] * m
        call_seq = []
        for i in range(n):
            if case["call_seq"] == "array":
                call_seq.append(case["seq"][i])
            else:
                row = []
                for g in full_lens:
                    r = list(range(g))
                    row += r[::-1] if case["call_seq"] == "reversed" else r
                call_seq.append(row)
    close = [[fl(x) for x in r] for r in case["close"]]
    return R.sim_orders((n, m), lens, ic, call_seq, get, close,
                        lambda i, j: at(case["val_price"], i, j),
                        case["call_seq"] == "auto", case["ffill_val_price"], case["update_value"])
