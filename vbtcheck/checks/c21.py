"""C21: configuration containers merge, freeze, reset and copy as promised.

Oracle: a plain-Python model of the documented rules (contents, saved state, flags, copy modes), driven by the same operation history
with its own objects; sharing of nested values shows up as contents, because the histories also change nested values in place."""
import copy
import os
import pickle
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.utils.config import AtomicConfig, Config, Configured, PickleableDict, atomic_dict, copy_dict, merge_dicts, update_dict

from vbtcheck.core import Facet
from vbtcheck.util import NAN, need, weighted

ASSUMPTIONS = [
    "Keys are strings (also integers for pickling); with attribute access they do not collide with names of the class.",
    "A rejected update is tried with one offending key at a time, so that no order of partial application is assumed.",
    "After reset, the contents are the saved objects and a copy of them (in the configured mode) is the new saved state.",
]

KEYS = ["a", "b", "c", "d"]
SAFE = dir(Config)


class Rejected(Exception):
    pass


# ---------------------------------------------------------------- model

class M:
    def __init__(self, d, flags, reset=None):
        self.f = f = dict(flags)
        self.ck = dict(copy_mode="shallow" if f["readonly"] else "hybrid", nested=f["nested"])
        self.ck.update(f["ck"] or {})
        self.rk = dict(copy_mode="shallow" if f["readonly"] else "hybrid", nested=f["nested"])
        self.rk.update(f["ck"] or {})
        self.rk.update(f["rk"] or {})
        self.attrs = f["attrs"] if f["attrs"] is not None else (f["frozen"] or f["readonly"])
        self.d = m_copy(d, **self.ck)
        if f["convert"]:
            cf = dict(f, ck=self.ck, rk=self.rk, attrs=self.attrs)
            for k, v in self.d.items():
                if isinstance(v, dict):
                    self.d[k] = M(v, cf)
        self.reset_d = m_copy(self.d if reset is None else reset, **self.rk)

    def __copy__(self):
        new = object.__new__(M)
        new.__dict__.update(self.__dict__)
        new.d = dict(self.d)
        return new

    def copy(self, rk=None, **ck):
        new = copy.copy(self)
        new.reset_d = m_copy(self.reset_d, **{**self.rk, **ck, **(rk or {})})
        new.d = m_copy(self.d, **{**self.ck, **ck})
        return new

    def set(self, k, v, force=False):
        self.guard(force, k not in self.d)
        self.d[k] = v

    def guard(self, force, keys_change):
        if not force and self.f["readonly"]:
            raise Rejected("read-only")
        if not force and self.f["frozen"] and keys_change:
            raise Rejected("frozen")

    def reset(self, force=False, **rk):
        self.guard(force, False)
        saved = m_copy(self.reset_d, **{**self.rk, **rk})
        self.d = dict(self.reset_d)
        self.reset_d = saved

    def checkpoint(self, force=False, **rk):
        self.guard(force, False)
        self.reset_d = m_copy(self.d, **{**self.rk, **rk})

    def reload(self):
        """The same through dumps and loads: nothing shared with the original."""
        return M(m_reload(self.d), dict(self.f, ck=self.ck, rk=self.rk, attrs=self.attrs), reset=m_reload(self.reset_d))


def m_reload(d):
    return {k: v.reload() if isinstance(v, M) else copy.deepcopy(v) for k, v in d.items()}


def m_items(x):
    return x.d if isinstance(x, M) else x


def m_copy(d, copy_mode, nested):
    if copy_mode == "deep":
        return copy.deepcopy(d)
    if isinstance(d, M):
        return d.copy(copy_mode=copy_mode, nested=nested)
    out = type(d)()
    for k, v in d.items():
        if nested and isinstance(v, (dict, M)):
            out[k] = m_copy(v, copy_mode, nested)
        else:
            out[k] = copy.copy(v) if copy_mode == "hybrid" else v
    return out


def m_update(x, y, nested, force=False, same_keys=False):
    for k, v in y.items():
        old = m_items(x).get(k)
        if nested and isinstance(old, (dict, M)) and isinstance(v, (dict, M)) and not isinstance(v, atomic_dict):
            m_update(old, m_items(v), nested, force, same_keys)
        elif same_keys and k not in m_items(x):
            continue
        elif isinstance(x, M):
            x.set(k, v, force)
        else:
            x[k] = v


def m_rejects(x, y, nested):
    """Whether updating would be refused."""
    try:
        m_update(copy.deepcopy(x), copy.deepcopy(y), nested)
        return False
    except Rejected:
        return True


# ---------------------------------------------------------------- comparing

FLAGS = ["_copy_kwargs_", "_reset_dct_", "_reset_dct_copy_kwargs_", "_frozen_keys_", "_readonly_", "_nested_", "_convert_dicts_",
         "_as_attrs_"]


def need_like(r, m, what):
    if isinstance(m, M):
        need(isinstance(r, Config), "%s is a %s, expected a configuration" % (what, type(r).__name__))
        got = (r.frozen_keys_, r.readonly_, r.nested_, bool(r.convert_dicts_), r.as_attrs_, r.copy_kwargs_, r.reset_dct_copy_kwargs_)
        exp = (m.f["frozen"], m.f["readonly"], m.f["nested"], m.f["convert"], m.attrs, m.ck, m.rk)
        need(got == exp, "%s has flags %s, expected %s" % (what, got, exp))
        need_like(r.reset_dct_, m.reset_d, what + ".reset_dct_")
        if m.attrs:
            extra = set(vars(r)) - set(FLAGS)
            need(extra == set(m.d), "%s has attributes %s, expected %s" % (what, sorted(extra), sorted(m.d)))
            for k in m.d:
                need(getattr(r, k) is r[k], "attribute %s of %s is not its value" % (k, what))
        else:
            need(set(vars(r)) == set(FLAGS), "%s without attribute access has attributes %s" % (what, sorted(vars(r))))
        m = m.d
    if isinstance(m, dict):
        need(isinstance(r, dict), "%s is %r, expected %r" % (what, r, m))
        need(set(dict.keys(r)) == set(m), "%s has keys %s, expected %s" % (what, sorted(dict.keys(r)), sorted(m)))
        need(len(r) == len(m), "%s has length %d, expected %d" % (what, len(r), len(m)))
        for k in m:
            need_like(r[k], m[k], "%s[%r]" % (what, k))
        return
    need(type(r) is type(m) and r == m, "%s is %r, expected %r" % (what, r, m))


# ---------------------------------------------------------------- building values from specifications

def s_value(depth, cfg=True):
    leaf = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), max_size=2).map(lambda x: ["l", x]))
    if depth == 0:
        return leaf
    child = st.dictionaries(st.sampled_from(KEYS), s_value(depth - 1, cfg), max_size=3)
    opts = [(4, leaf), (3, child.map(lambda x: ["d", x]))]
    if cfg:
        opts.append((2, st.tuples(child, s_flags()).map(lambda x: ["c", x[0], x[1]])))
    return weighted(*[(w, i) for i, (w, _) in enumerate(opts)]).flatmap(lambda i: opts[i][1])


@st.composite
def s_flags(draw):
    mode = st.one_of(st.none(), st.fixed_dictionaries({"copy_mode": st.sampled_from(["shallow", "hybrid", "deep"])}))
    nested = draw(st.booleans())
    return dict(frozen=draw(weighted((3, False), (1, True))), readonly=draw(weighted((5, False), (1, True))), nested=nested,
                convert=nested and draw(weighted((3, False), (1, True))), attrs=draw(st.sampled_from([None, None, True, False])),
                ck=draw(mode), rk=draw(mode))


def build(spec):
    """Returns the real value and the model's value, made of separate objects."""
    if isinstance(spec, int):
        return spec, spec
    if spec[0] == "l":
        return list(spec[1]), list(spec[1])
    pairs = {k: build(v) for k, v in spec[1].items()}
    r, m = {k: v[0] for k, v in pairs.items()}, {k: v[1] for k, v in pairs.items()}
    if spec[0] == "d":
        return r, m
    return make(r, spec[2]), M(m, spec[2])


def make(r, f, reset=None):
    return Config(r, copy_kwargs=f["ck"], reset_dct=reset, reset_dct_copy_kwargs=f["rk"], frozen_keys=f["frozen"], readonly=f["readonly"],
                  nested=f["nested"], convert_dicts=f["convert"], as_attrs=f["attrs"])


def resolve(r, m, path):
    """Descend into nested containers."""
    for k in path:
        if k in m_items(m) and isinstance(m_items(m)[k], (dict, M)):
            r, m = r[k], m_items(m)[k]
    return r, m


# ---------------------------------------------------------------- facet: history

MODES = ["shallow", "hybrid", "deep"]


@st.composite
def s_history(draw):
    flags = draw(s_flags())
    top = draw(st.dictionaries(st.sampled_from(KEYS), s_value(2), min_size=1, max_size=4))
    reset = draw(weighted((3, 0), (1, 1)))
    reset = draw(st.dictionaries(st.sampled_from(KEYS), s_value(1), max_size=3)) if reset else None
    path = st.lists(st.sampled_from(KEYS), max_size=2)
    key = st.sampled_from(KEYS)
    force = weighted((3, False), (1, True))
    mode = st.sampled_from(MODES)
    ops = st.one_of(
        st.tuples(st.just("set"), path, key, s_value(1), force),
        st.tuples(st.just("setattr"), path, key, s_value(1)),
        st.tuples(st.just("setdefault"), path, key, s_value(1)),
        st.tuples(st.just("ior"), path, st.dictionaries(key, s_value(1), max_size=2)),
        st.tuples(st.just("del"), path, key, force),
        st.tuples(st.just("delattr"), path, key),
        st.tuples(st.just("pop"), path, key, force, st.booleans()),
        st.tuples(st.just("popitem"), path, force),
        st.tuples(st.just("clear"), path, force),
        st.tuples(st.just("update"), path, st.dictionaries(key, s_value(2), max_size=3), st.sampled_from([None, True, False]), force,
                  st.booleans()),
        st.tuples(st.just("inplace"), path, key, st.integers(10, 99)),
        st.tuples(st.just("inplace"), path, key, st.integers(10, 99)),
        st.tuples(st.just("reset"), path, force, st.one_of(st.none(), mode)),
        st.tuples(st.just("reset"), path, st.just(True), st.none()),
        st.tuples(st.just("checkpoint"), path, force, st.one_of(st.none(), mode)),
        st.tuples(st.just("copy"), path, st.one_of(st.none(), mode), st.sampled_from([None, True, False]), st.one_of(st.none(), mode)),
        st.tuples(st.just("pycopy"), path, st.booleans()),
        st.tuples(st.just("reload"), path, st.sampled_from(["loads", "pickle", "file", "load_update"])),
        st.tuples(st.just("merge_with"), path, st.dictionaries(key, s_value(2, False), max_size=3), st.sampled_from([None, True, False]),
                  mode),
        st.tuples(st.just("to_dict"), path, st.booleans()),
        st.tuples(st.just("recreate"), path, s_flags()),
    )
    hist = draw(st.lists(st.tuples(st.integers(0, 2), ops), min_size=3, max_size=14))
    return dict(flags=flags, top=top, reset=reset, ops=[[w] + [list(o)] for w, o in hist])


def both(fr, fm, m, what):
    """Run on both sides; a rejection must be one on both. Returns whether it was accepted and both results."""
    try:
        em = None
        xm = fm()
    except (Rejected, KeyError) as e:
        em = e
    try:
        xr = fr()
    except (TypeError, KeyError, AttributeError) as e:
        need(em is not None, "%s raised %s: %s" % (what, type(e).__name__, e))
        return False, None, None
    need(em is None, "%s was accepted although it must be rejected (%s)" % (what, em))
    return True, xr, xm


def check_history(case):
    r0, m0 = build(["d", case["top"]])
    rr = mr = None
    if case["reset"] is not None:
        rr, mr = build(["d", case["reset"]])
    f = case["flags"]
    live = [(make(r0, f, rr), M(m0, f, mr))]
    need_like(live[0][0], live[0][1], "the configuration")
    rejected = changed = spread = 0
    names = set()
    for who, op in case["ops"]:
        name, path = op[0], op[1]
        top_r, top_m = live[who % len(live)]
        r, m = resolve(top_r, top_m, path)
        is_cfg = isinstance(m, M)
        what = "%s %s" % (name, op[2:])
        names.add(name)
        if name == "set":
            vr, vm = build(op[3])
            force = op[4] and is_cfg
            ok, _, _ = both((lambda: r.__setitem__(op[2], vr, force=True)) if force else (lambda: r.__setitem__(op[2], vr)),
                            lambda: m.set(op[2], vm, force) if is_cfg else m.__setitem__(op[2], vm), m, what)
        elif name == "setattr":
            if not is_cfg or not m.attrs:
                continue
            vr, vm = build(op[3])
            ok, _, _ = both(lambda: setattr(r, op[2], vr), lambda: m.set(op[2], vm), m, what)
        elif name == "setdefault":
            vr, vm = build(op[3])

            def fm():
                if op[2] in m_items(m):
                    return m_items(m)[op[2]]
                if is_cfg:
                    m.set(op[2], vm)
                else:
                    m[op[2]] = vm
                return vm
            if is_cfg and m.f["readonly"] and op[2] in m.d:
                continue
            ok, xr, xm = both(lambda: r.setdefault(op[2], vr), fm, m, what)
            if ok:
                need_like(xr, xm, "setdefault")
        elif name == "ior":
            if not is_cfg:
                continue
            vr, vm = build(["d", op[2]])
            if m_rejects(m, vm, False):
                k = next(k for k in vm if m_rejects(m, {k: vm[k]}, False))
                vr, vm = {k: vr[k]}, {k: vm[k]}
            if m_rejects(m, vm, m.f["nested"]) != m_rejects(m, vm, False):
                continue
            if any(isinstance(v, (dict, M)) and isinstance(m.d.get(k), (dict, M)) for k, v in vm.items()) and m.f["nested"]:
                continue
            if not vm:
                continue

            def fr():
                x = r
                x |= vr
                need(x is r, "|= made another object")
            ok, _, _ = both(fr, lambda: m_update(m, vm, False), m, what)
        elif name == "del":
            force = op[3] and is_cfg

            def fm():
                if is_cfg:
                    m.guard(force, True)
                del m_items(m)[op[2]]
            ok, _, _ = both((lambda: r.__delitem__(op[2], force=True)) if force else (lambda: r.__delitem__(op[2])), fm, m, what)
        elif name == "delattr":
            if not is_cfg or not m.attrs:
                continue

            def fm():
                m.guard(False, True)
                del m.d[op[2]]
            ok, _, _ = both(lambda: delattr(r, op[2]), fm, m, what)
        elif name == "pop":
            force = op[3] and is_cfg

            def fm():
                if is_cfg:
                    m.guard(force, True)
                return m_items(m).pop(op[2], *([77] if op[4] else []))
            kw = dict(force=True) if force else {}
            ok, xr, xm = both(lambda: r.pop(op[2], *([77] if op[4] else []), **kw), fm, m, what)
            if ok:
                need_like(xr, xm, "the popped value")
        elif name == "popitem":
            force = op[2] and is_cfg

            def fm():
                if is_cfg:
                    m.guard(force, True)
                return m_items(m).popitem()
            kw = dict(force=True) if force else {}
            if list(dict.keys(r)) != list(m_items(m)):
                continue
            ok, xr, xm = both(lambda: r.popitem(**kw), fm, m, what)
            if ok:
                need(xr[0] == xm[0], "popped key %r, expected %r" % (xr[0], xm[0]))
        elif name == "clear":
            force = op[2] and is_cfg

            def fm():
                if is_cfg:
                    m.guard(force, True)
                m_items(m).clear()
            kw = dict(force=True) if force else {}
            if is_cfg and m.f["frozen"] and not m.d:
                continue
            ok, _, _ = both(lambda: r.clear(**kw), fm, m, what)
        elif name == "update":
            vr, vm = build(["d", op[2]])
            force = op[4]
            if not is_cfg:
                nested = op[3] if op[3] is not None else True
                if not force and m_rejects(m, vm, nested):
                    continue
                ok, _, _ = both(lambda: update_dict(r, vr, nested=nested, force=force), lambda: m_update(m, vm, nested, force), m, what)
            else:
                nested = op[3] if op[3] is not None else m.f["nested"]
                if not force and m_rejects(m, vm, nested):
                    ks = [k for k in vm if m_rejects(m, {k: vm[k]}, nested)]
                    vr, vm = {ks[0]: vr[ks[0]]}, {ks[0]: vm[ks[0]]}
                    if isinstance(vm[ks[0]], (dict, M)) and isinstance(m.d.get(ks[0]), (dict, M)):
                        continue
                kw = {} if op[3] is None else dict(nested=op[3])
                if force:
                    kw["force"] = True
                if op[5]:
                    ok, _, _ = both(lambda: r.update(**vr, **kw), lambda: m_update(m, vm, nested, force), m, what)
                else:
                    ok, _, _ = both(lambda: r.update(vr, **kw), lambda: m_update(m, vm, nested, force), m, what)
        elif name == "inplace":
            vm = m_items(m).get(op[2])
            if not isinstance(vm, list):
                continue
            vm.append(op[3])
            r[op[2]].append(op[3])
            ok = True
        elif name in ("reset", "checkpoint"):
            if not is_cfg:
                continue
            kw = dict(copy_mode=op[3]) if op[3] else {}
            fr = r.reset if name == "reset" else r.make_checkpoint
            fm = m.reset if name == "reset" else m.checkpoint
            ok, _, _ = both(lambda: fr(force=op[2], **kw), lambda: fm(force=op[2], **kw), m, what)
        elif name == "copy":
            kw = {}
            if op[2] is not None:
                kw["copy_mode"] = op[2]
            if op[3] is not None:
                kw["nested"] = op[3]
            if is_cfg:
                rk = dict(copy_mode=op[4]) if op[4] else None
                xr, xm = r.copy(reset_dct_copy_kwargs=rk, **kw), m.copy(rk=rk, **kw)
            else:
                xr, xm = copy_dict(r, **kw), m_copy(m, kw.get("copy_mode", "shallow"), kw.get("nested", True))
            need(xr is not r, "copying returned the same object")
            live.append((xr, xm))
            ok = True
        elif name == "pycopy":
            fn = copy.deepcopy if op[2] else copy.copy
            live.append((fn(r), fn(m)))
            ok = True
        elif name == "reload":
            if not is_cfg:
                continue
            if op[2] == "loads":
                live.append((Config.loads(r.dumps()), m.reload()))
            elif op[2] == "pickle":
                live.append((pickle.loads(pickle.dumps(r)), copy.deepcopy(m)))
            else:
                with tempfile.TemporaryDirectory() as tmp:
                    fname = os.path.join(tmp, "cfg")
                    r.save(fname)
                    if op[2] == "file":
                        live.append((Config.load(fname), m.reload()))
                    else:
                        xr, xm = copy.copy(live[0][0]), m.reload()
                        if not isinstance(xr, Config):
                            continue
                        xr.load_update(fname)
                        live.append((xr, xm))
            ok = True
        elif name == "merge_with":
            if not is_cfg:
                continue
            vr, vm = build(["d", op[2]])
            nested = op[3] if op[3] is not None else m.f["nested"]
            kw = {} if op[3] is None else dict(nested=op[3])
            if not nested and any(isinstance(v, M) for v in m.d.values()):
                continue
            if not nested and op[4] == "hybrid":
                continue
            xr = r.merge_with(vr, copy_mode=op[4], **kw)
            xm = ref_merge([plain(m.d, nested), vm], nested, False)
            need(type(xr) is dict, "merging gave a %s" % type(xr).__name__)
            need_like(xr, xm, "the merged dictionary")
            need(xr is not r and xr is not vr, "merging returned one of its inputs")
            ok = True
        elif name == "to_dict":
            if not is_cfg:
                continue
            if not op[2]:
                xr = r.to_dict(nested=False)
                need(type(xr) is dict, "to_dict gave a %s" % type(xr).__name__)
                need_like(xr, m.d, "to_dict")
            else:
                xr = r.to_dict(nested=True)
                need_like(xr, plain(m.d, True), "to_dict")
                need(no_config(xr), "to_dict left configurations inside: %r" % (xr,))
                live.append((xr, plain(m.d, True, share=True)))
            ok = True
        elif name == "recreate":
            if not is_cfg:
                continue
            fl = op[2]
            # from another configuration: its properties carry over, arguments override them
            kw = {}
            nf = dict(m.f, ck=m.ck, rk=m.rk, attrs=m.attrs)
            if fl["frozen"]:
                kw["frozen_keys"] = nf["frozen"] = True
            if fl["readonly"]:
                kw["readonly"] = nf["readonly"] = True
            if fl["attrs"] is not None:
                kw["as_attrs"] = nf["attrs"] = fl["attrs"]
            xm = M(m.d, nf, reset=m.reset_d)
            live.append((Config(r, **kw), xm))
            ok = True
        if not ok:
            rejected += 1
        else:
            changed += 1
        if len(live) > 4:
            live = live[:1] + live[-3:]
        spread = max(spread, len(live))
        for i, (a, b) in enumerate(live):
            need_like(a, b, "object %d after %s" % (i, what))
        if is_cfg:
            need(r == copy.copy(r) and not (r != copy.copy(r)), "a configuration differs from its copy")
    labels = sorted(names)
    if rejected:
        labels.append("rejected")
    if spread > 1:
        labels.append("copies")
    if changed >= 3 and (rejected or spread > 1):
        labels.append("nt")
    return labels


def plain(d, nested, share=False):
    """Plain dictionaries in place of configurations (sharing the other values)."""
    out = {}
    for k, v in d.items():
        if nested and isinstance(v, (dict, M)):
            out[k] = plain(m_items(v), True)
        else:
            out[k] = v
    return out


def no_config(x):
    return not isinstance(x, Config) and all(no_config(v) for v in x.values() if isinstance(v, dict))


# ---------------------------------------------------------------- facet: merge

def s_tree(depth):
    leaf = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), max_size=2).map(lambda x: ["l", x]), st.none())
    if depth == 0:
        return leaf
    child = st.dictionaries(st.sampled_from(KEYS), s_tree(depth - 1), max_size=3)
    return weighted((3, 0), (3, 1), (1, 2), (1, 3)).flatmap(
        lambda i: leaf if i == 0 else child.map(lambda x: [["d", "at", "cf"][i - 1], x]))


@st.composite
def s_merge(draw):
    k = draw(weighted((4, 2), (3, 3), (1, 4)))
    top = st.dictionaries(st.sampled_from(KEYS), s_tree(2), max_size=4)
    args = []
    for i in range(k):
        kind = draw(weighted((1, "none"), (10, "d"), (2, "cf"), (1, "at")))
        args.append([kind, draw(top) if kind != "none" else {}])
    return dict(args=args, to_dict=draw(weighted((3, True), (1, False))), mode=draw(st.sampled_from(["shallow", "shallow", "hybrid", "deep", None])),
                nested=draw(weighted((3, True), (1, False))), same=draw(weighted((3, False), (1, True))))


def tree(spec):
    if spec is None or isinstance(spec, int):
        return spec
    if spec[0] == "none":
        return None
    if spec[0] == "l":
        return list(spec[1])
    d = {k: tree(v) for k, v in spec[1].items()}
    return d if spec[0] == "d" else (atomic_dict(d) if spec[0] == "at" else Config(d))


def ref_merge(ds, nested, same_keys):
    """Later wins; dictionaries merge key by key unless the later one is atomic."""
    ds = [{} if d is None else d for d in ds]
    x = ds[0]
    for y in ds[1:]:
        if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
            x = y
        else:
            x = ref_merge2(x, y, nested, same_keys)
    return x


def ref_merge2(x, y, nested, same_keys):
    out = dict(x)
    for k, v in y.items():
        if nested and isinstance(x.get(k), dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
            out[k] = ref_merge2(x[k], v, nested, same_keys)
        elif not same_keys or k in x:
            out[k] = v
    return out


def freeze(x):
    """A snapshot of values and types."""
    if isinstance(x, dict):
        return (type(x).__name__ if not isinstance(x, Config) else "Config", {k: freeze(v) for k, v in x.items()})
    return list(x) if isinstance(x, list) else x


def values_only(x):
    if isinstance(x, dict):
        return {k: values_only(v) for k, v in x.items()}
    return x


def scribble(x):
    for k in list(x):
        if isinstance(x[k], dict):
            scribble(x[k])
        elif isinstance(x[k], list):
            x[k].append("scribbled")
    x["scribbled"] = 1


def scribble_keys(x):
    for k in list(x):
        if isinstance(x[k], dict):
            scribble_keys(x[k])
    x["scribbled"] = 1


def check_merge(case):
    args = [tree(a) for a in case["args"]]
    before = [freeze(a) for a in args]
    exp = values_only(ref_merge([tree(a) for a in case["args"]], case["nested"], case["same"]))
    kw = dict(to_dict=case["to_dict"], copy_mode=case["mode"], nested=case["nested"], same_keys=case["same"])
    if not case["to_dict"]:
        if args[0] is None or any(a is None for a in args):
            return []
        if case["mode"] is None:
            return []       # documented: works on the first dictionary itself
    got = merge_dicts(*args, **kw)
    need([freeze(a) for a in args] == before, "merging changed its inputs: %s, were %s" % ([freeze(a) for a in args], before))
    need(values_only(got) == exp, "merge_dicts(%s, %s) is %s, expected %s" % (case["args"], kw, values_only(got), exp))
    if case["to_dict"]:
        need(not isinstance(got, Config), "merging into a dictionary gave a configuration")
        if case["nested"]:
            need(no_config(got), "merging left configurations inside: %r" % (got,))
    elif isinstance(args[0], Config) and not any(isinstance(a, atomic_dict) for a in args):
        need(isinstance(got, Config), "merging into a configuration gave %s" % type(got).__name__)
    isolated = "leaf values" if case["mode"] in ("hybrid", "deep") and (case["nested"] or case["mode"] == "deep") else (
        "dictionaries" if case["nested"] else None)
    if isolated == "leaf values":
        scribble(got)
    elif isolated == "dictionaries":
        scribble_keys(got)
    else:
        got["scribbled"] = 1
    if isolated or case["to_dict"] or case["mode"] is not None:
        need([freeze(a) for a in args] == before, "changing %s of the merged dictionary changed the inputs" % (isolated or "the keys"))
    shared = [set(a or {}) for a in args]
    labels = ["mode:%s" % case["mode"], "nested" if case["nested"] else "flat"]
    if case["same"]:
        labels.append("same_keys")
    if any(shared[0] & s for s in shared[1:]):
        labels.append("nt")
    return labels


# ---------------------------------------------------------------- facet: pickle

@st.composite
def s_pickle(draw):
    scalar = st.one_of(st.integers(-5, 5), st.floats(allow_nan=True, width=32), st.text(max_size=3), st.none(), st.booleans())
    key = st.one_of(st.sampled_from(KEYS), st.integers(0, 3), st.tuples(st.integers(0, 2), st.sampled_from(KEYS)).map(lambda x: ["t"] + list(x)))
    leaf = st.one_of(scalar.map(lambda x: ["s", x]), st.lists(st.integers(0, 9), max_size=3).map(lambda x: ["arr", x]),
                     st.lists(st.integers(0, 9), min_size=1, max_size=3).map(lambda x: ["ser", x]),
                     st.lists(st.integers(0, 9), min_size=1, max_size=3).map(lambda x: ["frame", x]),
                     st.lists(st.integers(0, 9), min_size=1, max_size=3).map(lambda x: ["idx", x]),
                     st.integers(0, 5).map(lambda x: ["fn", x]), st.integers(1, 3).map(lambda x: ["wrap", x]))

    def grow(inner):
        items = st.lists(st.tuples(key, inner), max_size=3)
        return st.one_of(st.lists(inner, max_size=3).map(lambda x: ["list", x]), st.lists(inner, max_size=2).map(lambda x: ["tuple", x]),
                         st.tuples(st.sampled_from(["dict", "cfg", "atomic", "pd", "cfg_ro", "cfg_fr"]), items).map(list))
    return dict(v=draw(st.tuples(st.sampled_from(["cfg", "cfg_ro", "cfg_fr", "atomic", "pd", "conf"]),
                                 st.lists(st.tuples(key, st.recursive(leaf, grow, max_leaves=6)), min_size=1, max_size=4)).map(list)),
                how=draw(st.sampled_from(["loads", "file", "pickle", "load_update"])), mutate=draw(st.integers(0, 3)))


class Thing(Configured):
    def __init__(self, **kw):
        Configured.__init__(self, **kw)
        self._metrics = Config(dict(x=1))

    @property
    def writeable_attrs(self):
        return {"_metrics"}


def add_n(n):
    return lambda x, k=n: x + k


def pval(spec):
    kind, v = spec[0], spec[1]
    if kind == "s":
        return v
    if kind == "arr":
        return np.array(v, dtype=float)
    if kind == "ser":
        return pd.Series(v, name="s")
    if kind == "frame":
        return pd.DataFrame({"x": v, "y": [float(q) / 2 for q in v]})
    if kind == "idx":
        return pd.Index(v, name="i")
    if kind == "fn":
        return add_n(v)
    if kind == "wrap":
        return ArrayWrapper(pd.RangeIndex(v), ["a"], 2)
    if kind == "list":
        return [pval(x) for x in v]
    if kind == "tuple":
        return tuple(pval(x) for x in v)
    d = {}
    for k, x in v:
        k = tuple(k[1:]) if isinstance(k, list) else k
        if kind in ("conf", "cfg_ro", "cfg_fr"):
            k = "k%s" % (k if not isinstance(k, tuple) else "_".join(map(str, k)))
        d[k] = pval(x)
    if kind == "dict":
        return d
    if kind == "cfg":
        return Config(d)
    if kind == "cfg_ro":
        return Config(d, readonly=True)
    if kind == "cfg_fr":
        return Config(d, frozen_keys=True, nested=True)
    if kind == "atomic":
        return AtomicConfig(d)
    if kind == "pd":
        return PickleableDict(d)
    return Thing(**d)


def deep_same(a, b):
    """An independent deep comparison (exact, types included)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if isinstance(a, Config):
            fa = [getattr(a, f) for f in FLAGS if f != "_reset_dct_"]
            fb = [getattr(b, f) for f in FLAGS if f != "_reset_dct_"]
            if fa != fb or not deep_same(dict(a.reset_dct_), dict(b.reset_dct_)):
                return False
        return list(a) == list(b) and all(deep_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (pd.Series, pd.DataFrame)):
        return a.equals(b) and a.index.equals(b.index) and (a.name == b.name if isinstance(a, pd.Series) else a.columns.equals(b.columns))
    if isinstance(a, pd.Index):
        return a.equals(b) and a.name == b.name
    if isinstance(a, Configured):
        return deep_same(dict(a.config), dict(b.config)) and all(deep_same(getattr(a, w), getattr(b, w)) for w in a.writeable_attrs)
    if callable(a):
        return a(3) == b(3)
    return a == b or (a != a and b != b)


def check_pickle(case):
    obj = pval(case["v"])
    keys = list(obj) if isinstance(obj, dict) else list(obj.config)
    how = case["how"]
    if case["mutate"] and keys:
        k = keys[case["mutate"] % len(keys)]
        if isinstance(obj, Config) and not obj.readonly_:
            obj.make_checkpoint()
            obj[k] = 5
        elif isinstance(obj, Thing):
            obj._metrics["x"] = case["mutate"]
            obj._metrics["y"] = [case["mutate"]]
    if how == "loads":
        back = type(obj).loads(obj.dumps())
    elif how == "pickle":
        if isinstance(obj, (Thing,)) or not picklable(obj):
            return []
        back = pickle.loads(pickle.dumps(obj))
    else:
        with tempfile.TemporaryDirectory() as tmp:
            obj.save(os.path.join(tmp, "x"))
            if how == "file" or isinstance(obj, Thing):
                back = type(obj).load(os.path.join(tmp, "x"))
            else:
                back = type(obj)(zz=1) if not isinstance(obj, Config) else type(obj)(dict(zz=1))
                back.load_update(os.path.join(tmp, "x"))
    need(deep_same(obj, back), "%s round trip of %r gave %r" % (how, obj if not isinstance(obj, Thing) else obj.config, back))
    if isinstance(obj, (Config, Thing)):
        need(obj == back and not (obj != back), "the restored object is not equal to the saved one")
    kinds = set(str(case["v"]).replace("'", " ").split())
    return [how, case["v"][0]] + (["nt"] if len(keys) > 1 and kinds & {"cfg", "dict", "atomic", "pd", "list", "wrap", "frame", "cfg_ro", "cfg_fr"} else [])


def picklable(x):
    """Plain pickle cannot store closures."""
    if isinstance(x, dict):
        return all(picklable(v) for v in x.values()) and (not isinstance(x, Config) or picklable(dict(x.reset_dct_)))
    if isinstance(x, (list, tuple)):
        return all(picklable(v) for v in x)
    return not callable(x)


# ---------------------------------------------------------------- facet: configured (equality, replacing, copying)

@st.composite
def s_configured(draw):
    return dict(v=draw(st.lists(st.tuples(st.sampled_from(KEYS), s_pval()), max_size=4)), change=draw(st.integers(0, 9)),
                at=draw(st.integers(0, 5)), new=draw(s_pval()), mode=draw(st.sampled_from(["shallow", "hybrid", "deep", None])),
                nested=draw(st.sampled_from([None, True, False])), cls=draw(st.booleans()))


def s_pval():
    leaf = st.one_of(st.integers(-3, 3).map(lambda x: ["s", x]), st.lists(st.integers(0, 9), max_size=3).map(lambda x: ["arr", x]),
                     st.lists(st.integers(0, 3), min_size=1, max_size=2).map(lambda x: ["ser", x]),
                     st.lists(st.integers(0, 3), min_size=1, max_size=2).map(lambda x: ["frame", x]),
                     st.integers(0, 2).map(lambda x: ["fn", x]), st.sampled_from([NAN, None, "s", True]).map(lambda x: ["s", x]))

    def grow(inner):
        return st.one_of(st.lists(inner, max_size=3).map(lambda x: ["list", x]), st.lists(inner, max_size=3).map(lambda x: ["tuple", x]),
                         st.lists(st.tuples(st.sampled_from(KEYS), inner), max_size=3).map(lambda x: ["dict", x]))
    return st.recursive(leaf, grow, max_leaves=5)


class Other(Thing):
    pass


class Bare(Configured):
    pass


def vary(x, n):
    """A value that differs in one place (or None where there is none)."""
    if isinstance(x, dict):
        if n % 3 == 0 or not x:
            return dict(x, extra=1)
        k = list(x)[n % len(x)]
        if n % 3 == 1:
            return {q: v for q, v in x.items() if q != k}
        return dict(x, **{k: vary(x[k], n // 3)})
    if isinstance(x, (list, tuple)):
        if n % 3 == 0 or not x:
            return type(x)(list(x) + [1])
        if n % 3 == 1:
            return type(x)(list(x)[:-1])
        y = list(x)
        y[n % len(y)] = vary(y[n % len(y)], n // 3)
        return type(x)(y)
    if isinstance(x, np.ndarray):
        return np.append(x, x[-1:] if len(x) else [1.0]) if n % 2 else x + 1 if len(x) else np.array([1.0])
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x + 1 if n % 3 == 0 else (x.rename(index={0: 7}) if n % 3 == 1 else x.astype(np.int8))
    if callable(x):
        return add_n(x(0) + 1)
    return "changed"


def check_configured(case):
    a = {k: pval(v) for k, v in case["v"]}
    b = {k: pval(v) for k, v in case["v"]}
    cls = Thing if case["cls"] else Bare
    x, y = cls(**a), cls(**b)
    need(x == y and y == x and not (x != y), "objects of equal configurations differ: %r" % (a,))
    need(Config(a) == Config(b) and not (Config(a) != Config(b)), "equal configurations differ: %r" % (a,))
    need(x != Other(**b) and not (x == Other(**b)), "objects of different classes are equal")
    need(not (Config(a) == 5) and Config(a) != 5 and not (Config(a) == "ab"), "a configuration equals something else")
    # one difference anywhere
    c = vary(b, case["change"] + 10 * case["at"])
    z = cls(**c)
    need(not deep_same(a, c), "harness: no difference between %r and %r" % (a, c))
    need(x != z and z != x and not (x == z) and not (z == x), "objects of different configurations are equal: %r and %r" % (a, c))
    need(Config(a) != Config(c) and Config(c) != Config(a), "different configurations are equal: %r and %r" % (a, c))
    if cls is Thing:
        y._metrics["x"] = [2]
        need(x != y and not (x == y), "objects with different writeable attributes are equal")
    # replacing
    kw = dict(copy_mode_=case["mode"], nested_=case["nested"])
    new = {k: pval(case["new"]) for k in (list(a)[:1] if case["change"] % 2 else ["zz"])}
    before = {k: freeze(v) for k, v in y.config.items()}
    w = y.replace(**kw, **new)
    need(type(w) is cls and w is not y, "replace returned %r" % (w,))
    exp = {k: pval(v) for k, v in case["v"]}
    nested = case["nested"] if case["nested"] is not None else y.config.nested_
    exp = ref_merge2(exp, {k: pval(case["new"]) for k in new}, nested, False)
    need(deep_same(plain_sorted(w.config), plain_sorted(exp)), "replacing %r in %r gave %r" % (new, b, dict(w.config)))
    if cls is Thing:
        need(w._metrics == y._metrics, "replace lost the writeable attributes")
        w._metrics["q"] = 1
        need("q" not in y._metrics or case["mode"] is None, "the copy shares its writeable attributes")
    cp = y.copy(copy_mode=case["mode"], nested=case["nested"])
    if not (cls is Thing and case["mode"] is None):
        need(cp == y and cp is not y, "a copy differs from its original")
    for k, v in cp.config.items():
        if isinstance(v, list):
            v.append(123)
            isolated = case["mode"] in ("hybrid", "deep")
            need(not isolated or len(y.config[k]) < len(v), "a %s copy shares a list" % case["mode"])
            v.pop()
        if isinstance(v, np.ndarray) and len(v) and case["mode"] == "deep":
            v += 1
            need(not np.array_equal(v, y.config[k]), "a deep copy shares an array")
            v -= 1
    need(deep_same({k: pval(v) for k, v in case["v"]}, dict(y.config)), "the original changed: %r" % (dict(y.config),))
    other = y.replace(cls_=Other)
    need(type(other) is Other, "replacing the class gave %s" % type(other).__name__)
    # read-only configuration, updating by intent
    try:
        y.config["zz"] = 1
        accepted = True
    except TypeError:
        accepted = False
    need(not accepted, "the configuration of an object could be changed")
    y.update_config(zz=[3])
    need(y.config["zz"] == [3], "update_config did not update")
    del before
    return ["mode:%s" % case["mode"]] + (["nt"] if a else [])


def plain_sorted(d):
    return {k: d[k] for k in sorted(d)}


# ---------------------------------------------------------------- facet: settings

def leaf_paths(cfg, pre=()):
    out = []
    for k, v in cfg.items():
        if isinstance(v, dict):
            out += leaf_paths(v, pre + (k,)) or [pre + (k,)]
        else:
            out.append(pre + (k,))
    return out


@st.composite
def s_settings(draw):
    ops = st.one_of(st.tuples(st.just("set"), st.integers(0, 10000), st.integers(0, 5)), st.tuples(st.just("new"), st.integers(0, 10000)),
                    st.tuples(st.just("theme"), st.sampled_from(["light", "dark", "seaborn"])), st.tuples(st.just("reset_theme")),
                    st.tuples(st.just("checkpoint")), st.tuples(st.just("reset")), st.tuples(st.just("reload"), st.booleans()),
                    st.tuples(st.just("sub_reset"), st.integers(0, 50)))
    return dict(ops=[list(o) for o in draw(st.lists(ops, min_size=2, max_size=8))])


def snap(cfg):
    """Contents by path; mutable values as text."""
    return {p: text(get_path(cfg, p)) for p in leaf_paths(cfg)}


def text(v):
    if callable(v) and hasattr(v, "__code__"):
        return "code %s %s" % (v.__code__.co_names, v.__code__.co_consts)
    if type(v).__module__.startswith("vectorbt") and not isinstance(v, (dict, tuple)):
        return "%s %s" % (type(v).__name__, vars(v))
    return repr(v)


def get_path(cfg, p):
    for k in p:
        cfg = cfg[k]
    return cfg


def check_settings(case):
    s = vbt.settings
    pristine = copy.deepcopy(s)
    try:
        base = snap(s)
        saved = dict(snap(s.reset_dct_))
        cur = dict(base)
        sub_saved = {k: snap(v.reset_dct_) for k, v in s.items() if isinstance(v, Config)}
        did = set()
        for op in case["ops"]:
            did.add(op[0])
            if op[0] == "set":
                # the way users do it: settings['section']['key'] = value
                paths = [p for p in sorted(cur, key=str) if len(p) == 2 and p[0] not in ("config", "configured") and p in base
                         and isinstance(get_path(s, p[:1]), Config)]
                p = paths[op[1] % len(paths)]
                if op[2] % 2:
                    get_path(s, p[:-1])[p[-1]] = op[2]
                else:
                    setattr(s[p[0]], p[1], op[2])
                cur[p] = repr(op[2])
            elif op[0] == "new":
                sec = [k for k in s if isinstance(s[k], Config) and s[k].frozen_keys_]
                target = s if op[1] % 3 == 0 else s[sec[op[1] % len(sec)]]
                try:
                    target["brand_new_key"] = 1
                    need(False, "a new key was accepted although keys are frozen")
                except KeyError:
                    pass
            elif op[0] in ("theme", "reset_theme"):
                theme = op[1] if op[0] == "theme" else "light"
                if op[0] == "theme":
                    s.set_theme(theme)
                else:
                    s.reset_theme()
                tpl = s["plotting"]["themes"][theme]
                for k, v in tpl["color_schema"].items():
                    cur[("plotting", "color_schema", k)] = repr(v)
                cur[("plotting", "layout", "template")] = repr("vbt_" + theme)
            elif op[0] == "checkpoint":
                s.make_checkpoint()
                saved = dict(cur)
            elif op[0] == "reset":
                s.reset()
                cur = dict(saved)
            elif op[0] == "reload":
                with tempfile.TemporaryDirectory() as tmp:
                    s.save(os.path.join(tmp, "settings"))
                    if op[1]:
                        s["ohlcv"]["plot_type"] = "zz"
                        s.load_update(os.path.join(tmp, "settings"))
                    else:
                        back = type(s).load(os.path.join(tmp, "settings"))
                        need(snap(back) == cur, "loading saved settings changed them")
                        need(back.frozen_keys_ and back.nested_, "loading saved settings lost their flags")
            elif op[0] == "sub_reset":
                subs = ["returns", "ohlcv", "portfolio", "signals", "caching", "broadcasting"]
                k = subs[op[1] % len(subs)]
                if k not in s or not isinstance(s[k], Config):
                    continue
                exp = snap(s[k].reset_dct_)
                s[k].reset()
                for p in [p for p in cur if p[0] == k]:
                    del cur[p]
                cur.update({(k,) + p: v for p, v in exp.items()})
            got = snap(s)
            diff = {p: (got.get(p), cur.get(p)) for p in set(got) | set(cur) if got.get(p) != cur.get(p)}
            need(not diff, "after %s the settings differ (got, expected): %s" % (op, dict(list(diff.items())[:4])))
        del sub_saved
        return sorted(did) + (["nt"] if len(did) > 1 else [])
    finally:
        s.clear(force=True)
        s.__dict__.clear()
        s.__dict__.update(pristine.__dict__)
        s.update(pristine, nested=False, force=True)
        s.register_templates()


FACETS = [
    Facet("history", s_history, check_history, quick=500, thorough=8000, rule="three accepted operations, and a rejected one or copies",
          shards=2, tshards=4),
    Facet("merge", s_merge, check_merge, quick=600, thorough=10000, rule="a later dictionary overlaps the first", shards=2, tshards=2),
    Facet("pickle", s_pickle, check_pickle, quick=250, thorough=4000, rule="several keys with nested containers or pandas objects", shards=2,
          tshards=2),
    Facet("configured", s_configured, check_configured, quick=200, thorough=4000, rule="a configuration with at least one key", shards=2,
          tshards=2),
    Facet("settings", s_settings, check_settings, quick=40, thorough=600, rule="at least two kinds of operations", shards=1, tshards=2),
]
