"""C29: stateful edit histories on structures and multi-table containers against a plain ordered-mapping model, partitioned tables against the list of tables they were built from, and flatten/rebuild and equality relations"""
import contextlib
import copy
import io
import os
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt

from ..core import *
from ..lib import *
from ..cols import *
from .c21 import scratch

warnings.filterwarnings("ignore")
NAMES = ["a", "b", "c", "dd", "x1", "Ab", "with space", "ba"]
AK = ["int32", "float64", "S", "U", "bool", "int8", "cat", "catn", "date", "dtn", "tspan"]
S_NAME = st.sampled_from(NAMES)


@st.composite
def s_val(draw, depth=2):
    k = draw(st.sampled_from(["arr", "arr", "int", "float", "str", "bool", "np"] + (["st", "st", "ds"] if depth else [])))
    if k == "arr":
        n = draw(st.integers(1, 4))
        return {"t": "arr", "c": draw(scol(n, AK, inv=True, few=True))}
    if k == "ds":
        n = draw(st.integers(1, 3))
        return {"t": "ds", "n": n, "v": draw(st.lists(st.tuples(S_NAME, scol(n, AK, inv=True, few=True)), min_size=1, max_size=3, unique_by=lambda t: t[0]))}
    if k == "st":
        return {"t": "st", "v": draw(st.lists(st.tuples(S_NAME, s_val(depth - 1)), max_size=3, unique_by=lambda t: t[0]))}
    return {"t": k, "v": draw({"int": st.integers(-5, 5), "float": st.sampled_from([0.5, -1.0, 1e300]), "str": st.sampled_from(["", "txt", "é"]), "bool": st.booleans(), "np": st.integers(0, 9)}[k])}


def build(v):
    """(object, model)"""
    t = v["t"]
    if t == "arr":
        o = mkcol(v["c"])
        return o, snap(o)
    if t in ("st", "ds"):
        d, m = {}, {}
        for k, x in v["v"]:
            if t == "ds":
                d[k] = mkcol(x)
                m[k] = snap(d[k])
            else:
                d[k], m[k] = build(x)
        o = (rt.Struct if t == "st" else rt.Dataset)(d)
        return o, (t, m)
    o = np.int32(v["v"]) if t == "np" else v["v"]
    return o, ("scalar", type(o).__name__, repr(o))


def model_of(o):
    if isinstance(o, rt.Dataset):
        return ("ds", {k: snap(o[k]) for k in o.keys()})
    if isinstance(o, rt.Struct):
        return ("st", {k: model_of(o[k]) for k in o.keys()})
    if isinstance(o, np.ndarray):
        return snap(o)
    return ("scalar", type(o).__name__, repr(o))


def same_order(a, b):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict):
        return isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], dict) and a[0] == b[0] and list(a[1]) == list(b[1]) and all(same_order(a[1][k], b[1][k]) for k in a[1])
    return a == b


def invariant(s, m, what, c):
    keys = list(m)
    require(list(s.keys()) == keys, "item names or their order differ from the model", after=what, got=list(s.keys()), want=keys, case=c)
    require(list(s) == keys and list(reversed(s)) == keys[::-1], "iteration differs from the keys", after=what, got=list(s), case=c)
    require(s.get_ncols() == len(keys) and s.shape[1] == len(keys) and s.col_get_len() == len(keys), "the column count differs", after=what, got=(s.get_ncols(), s.shape), want=len(keys), case=c)
    if not isinstance(s, rt.Multiset):
        require(len(s) == len(keys), "len differs", after=what, got=len(s), want=len(keys), case=c)
    require(list(s.asdict()) == keys and [k for k, _ in s.items()] == keys and len(s.values()) == len(keys) and len(s.tolist()) == len(keys), "asdict/items differ from the keys", after=what, case=c)
    for i, k in enumerate(keys):
        require(k in s and s.col_exists(k), "a stored name is not 'in' the structure", after=what, name=k, case=c)
        for got in (s[k], getattr(s, k), s[i], s.col_get_value(k), s.tolist()[i], dict(s.items())[k]):
            require(same_order(model_of(got), m[k]), "an item differs from what was stored", after=what, name=k, got=str(model_of(got))[:200], want=str(m[k])[:200], case=c)
    for k in NAMES:
        if k not in m:
            require(k not in s and not s.col_exists(k), "a name that is not stored is 'in' the structure", after=what, name=k, case=c)


S_OPS = st.lists(st.one_of(
    st.fixed_dictionaries({"op": pick("set", "attr", "set"), "k": S_NAME, "v": s_val()}),
    st.fixed_dictionaries({"op": pick("del", "delattr", "pop", "rename", "front", "back", "remove1"), "k": S_NAME, "k2": S_NAME}),
    st.fixed_dictionaries({"op": pick("fronts", "backs", "removes", "pops", "subset", "popi", "popm", "swap", "move", "filter", "ints"), "ks": st.lists(S_NAME, min_size=1, max_size=3, unique=True), "i": st.integers(0, 5)}),
    st.fixed_dictionaries({"op": st.just("map"), "m": st.dictionaries(S_NAME, S_NAME, min_size=1, max_size=3)}),
    st.fixed_dictionaries({"op": pick("prefix", "suffix", "replace", "copy", "shallow", "deepcopy", "ctor", "multi", "like", "regex", "undo", "labels", "mask", "slice"), "x": st.sampled_from(["p", "a", "b", "x"]), "y": st.sampled_from(["q", "b", "zz"]), "v": s_val(1), "w": s_val(1)}),
), min_size=1, max_size=9)


def perm(keys, i):
    import itertools
    ps = list(itertools.permutations(keys))
    return list(ps[i % len(ps)])


def apply(s, m, o, objs):
    """returns (structure, model) after op, or None when the operation must be refused"""
    op = o["op"]
    if op in ("set", "attr"):
        v, mv = build(o["v"])
        if op == "attr":
            setattr(s, o["k"], v)
        else:
            s[o["k"]] = v
        m = dict(m)
        m[o["k"]] = mv
        return s, m
    if op in ("del", "delattr", "pop", "remove1"):
        if o["k"] not in m and op == "remove1":
            s.col_remove(o["k"])  # warns only
            return s, m
        if o["k"] not in m:
            return None, (lambda: s.__delitem__(o["k"])) if op == "del" else (lambda: delattr(s, o["k"])) if op == "delattr" else (lambda: s.col_pop(o["k"]))
        if op == "del":
            del s[o["k"]]
        elif op == "delattr":
            delattr(s, o["k"])
        elif op == "remove1":
            s.col_remove(o["k"])
        else:
            v = s.col_pop(o["k"])
            require(same_order(model_of(v), m[o["k"]]), "col_pop returned something else than the item", got=str(model_of(v))[:200], want=str(m[o["k"]])[:200])
        return s, {k: v for k, v in m.items() if k != o["k"]}
    if op == "rename":
        if o["k"] == o["k2"]:
            s.col_rename(o["k"], o["k2"])
            return s, m
        if o["k"] not in m or o["k2"] in m:
            return None, lambda: s.col_rename(o["k"], o["k2"])
        s.col_rename(o["k"], o["k2"])
        return s, {(o["k2"] if k == o["k"] else k): v for k, v in m.items()}
    if op in ("front", "fronts", "back", "backs"):
        ks = [o["k"]] if "k" in o else o["ks"]
        if len(ks) > len(m):
            return s, m
        arg = o["k"] if "k" in o else o["ks"]
        ks = [k for k in ks if k in m]
        rest = [k for k in m if k not in ks]
        order = ks + rest if op.startswith("f") else rest + ks
        (s.col_move_to_front if op.startswith("f") else s.col_move_to_back)(arg)
        return s, {k: m[k] for k in order}
    if op == "move":
        ks = [k for k in o["ks"] if k in m]
        if not ks or len(m) < 2:
            return s, m
        s.col_move(ks[:1], ks[1:])
        order = ks[:1] + [k for k in m if k not in ks] + ks[1:]
        return s, {k: m[k] for k in order}
    if op == "removes":
        s.col_remove(o["ks"])
        return s, {k: v for k, v in m.items() if k not in o["ks"]}
    if op in ("pops", "subset", "filter"):
        if not set(o["ks"]) <= set(m):
            return None, (lambda: s.col_pop(o["ks"])) if op == "pops" else (lambda: s[o["ks"]]) if op == "subset" else (lambda: s.col_filter(o["ks"]))
        r = s.col_pop(list(o["ks"])) if op == "pops" else s[list(o["ks"])] if op == "subset" else s.col_filter(o["ks"])
        w = {k: m[k] for k in o["ks"]}
        require(isinstance(r, rt.Struct), "a selection of several items is not a structure", got=type(r).__name__)
        invariant(r, w, op, None)
        return (s, {k: v for k, v in m.items() if k not in o["ks"]}) if op == "pops" else (s, m)
    if op == "popm":
        mask = [k in o["ks"] for k in m]
        if not any(mask):
            return s, m
        r = s.col_pop(np.array(mask) if o["i"] % 2 else [i for i, b in enumerate(mask) if b])
        invariant(r, {k: m[k] for k, b in zip(m, mask) if b}, op, None)
        return s, {k: v for (k, v), b in zip(m.items(), mask) if not b}
    if op in ("popi", "ints"):
        if not m:
            return s, m
        i = o["i"] % len(m)
        k = list(m)[i]
        if op == "ints":
            r = s[[i, 0]] if i else s[[0]]
            invariant(r, {x: m[x] for x in ([k, list(m)[0]] if i else [k])}, op, None)
            return s, m
        v = s.col_pop(i)
        require(same_order(model_of(v), m[k]), "col_pop by position returned another item")
        return s, {x: v for x, v in m.items() if x != k}
    if op == "swap":
        ks = [k for k in o["ks"] if k in m]
        to = perm(ks, o["i"])
        s.col_swap(ks, to)
        new = dict(m)
        for a, b in zip(ks, to):
            new[b] = m[a]
        return s, new
    if op == "map":
        d = o["m"]
        if len(set(d.values())) < len(d):
            return None, lambda: s.col_map(d)
        live = {a: b for a, b in d.items() if a in m}
        if len(live) < len(d):
            return s, m  # names that do not exist: not specified
        keep = [k for k in m if k not in live]
        if set(live.values()) & set(keep):
            return None, lambda: s.col_map(d)
        s.col_map(dict(d))
        new = {live.get(k, k): v for k, v in m.items()}
        # cycles keep the positions of the names and move the values
        order = list(s.keys())
        require(sorted(order) == sorted(new), "col_map: the names differ", got=order, want=list(new))
        return s, {k: new[k] for k in order}
    if op in ("prefix", "suffix"):
        if any(len(k) > 8 for k in m):
            return s, m
        (s.col_add_prefix if op == "prefix" else s.col_add_suffix)(o["x"])
        return s, {(o["x"] + k if op == "prefix" else k + o["x"]): v for k, v in m.items()}
    if op == "replace":
        new = [k.replace(o["x"], o["y"]) for k in m]
        if any(a != b and b in m for a, b in zip(m, new)) or len(set(new)) < len(new):
            return None, lambda: s.col_str_replace(o["x"], o["y"])
        s.col_str_replace(o["x"], o["y"])
        return s, dict(zip(new, m.values()))
    if op in ("copy", "shallow", "deepcopy", "ctor"):
        r = s.copy() if op == "copy" else s.copy(deep=False) if op == "shallow" else copy.deepcopy(s) if op == "deepcopy" else rt.Struct(s)
        require(type(r) is type(s), "a copy has another type", got=type(r).__name__)
        objs.append((s, dict(m), op))
        return r, m
    if op == "multi":
        if len(m) < 2:
            return s, m
        k1, k2 = list(m)[:2]
        (v, mv), (w, mw) = build(o["v"]), build(o["w"])
        s[[k1, k2]] = [v, w]
        m = dict(m)
        m[k1], m[k2] = mv, mw
        return s, m
    if op in ("like", "regex"):
        w = [k for k in m if o["x"] in k]
        if not w:
            return None, lambda: s.col_filter(**{op: o["x"]})
        invariant(s.col_filter(**{op: o["x"]}), {k: m[k] for k in w}, op, None)
        require(list(s.col_str_match(".*" + o["x"])) == [o["x"] in k for k in m], "col_str_match differs")
        return s, m
    if op == "undo":
        if not m or any("/" in k for k in m):
            return s, m
        f = s.flatten()
        before = list(f.keys())
        r = f.flatten_undo()
        require(list(f.keys()) == before, "flatten_undo changed the flattened structure", before=before, after=list(f.keys()))
        g, w = model_of(r), ("st", m)
        require(same_order(noscalartype(g), noscalartype(w)), "flatten_undo(flatten(x)) is not x", got=str(g)[:300], want=str(w)[:300])
        return s, m
    if op == "labels":
        if m:
            ks = list(m)[-2:][::-1]
            s.label_set_names(ks)
            require(s.label_get_names() == ks, "label names differ", got=s.label_get_names(), want=ks)
            s.label_remove()
            require(s.label_get_names() == [], "labels survive label_remove")
        return s, m
    if op == "mask":
        if not m:
            return s, m
        mask = [o["x"] in k for k in m]
        if not any(mask):
            return s, m
        invariant(s[np.array(mask)], {k: v for (k, v), b in zip(m.items(), mask) if b}, op, None)
        return s, m
    if op == "slice":
        if not m:
            return s, m
        for sl in (slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, 2)):
            ks = list(m)[sl]
            if ks:
                invariant(s[sl], {k: m[k] for k in ks}, op, None)
        return s, m
    raise AssertionError(op)


def noscalartype(g):
    if isinstance(g, tuple) and len(g) == 2 and isinstance(g[1], dict):
        return (g[0], {k: noscalartype(v) for k, v in g[1].items()})
    if isinstance(g, tuple) and g and g[0] == "scalar":
        t = g[2]
        return ("scalar", t.split("(")[1].rstrip(")") if "(" in t and t.startswith("np.") else t)
    return g


def run(c, ops, make):
    s, m = make()
    objs = []
    done = 0
    for o in ops:
        with contextlib.redirect_stdout(io.StringIO()):
            r = apply(s, m, o, objs)
        if r[0] is None:
            try:
                r[1]()
            except (IndexError, ValueError, KeyError, AttributeError, TypeError):
                tag("refused:" + o["op"])
            else:
                fail("an impossible edit was accepted", op=o, got=list(s.keys()), case=c)
        else:
            s, m = r
            done += 1
            tag(o["op"])
        invariant(s, m, o["op"], c)
        for so, mo, how in objs:
            invariant(so, mo, "edit of a copy made by " + how, c)
    return s, m, done


@facet("C29", S_OPS, quick=4500, shards=4, rule="at least three edits done and two items held")
def structs(ops):
    """a structure holds what an ordered mapping would hold after every edit, and earlier copies are not affected"""
    s, m, done = run(ops, ops, lambda: (rt.Struct(), {}))
    nt(done >= 3 and len(m) >= 2)


# ------------------------------------------------------------------ structural equality
@st.composite
def s_pair(draw):
    v = draw(st.fixed_dictionaries({"t": st.just("st"), "v": st.lists(st.tuples(S_NAME, s_val(2)), min_size=1, max_size=4, unique_by=lambda t: t[0])}))
    how = draw(pick("same", "leaf", "name", "drop", "order", "extra", "other"))
    return {"a": v, "how": how, "i": draw(st.integers(0, 3)), "o": draw(s_val(1)), "w": draw(s_val(2))}


@facet("C29", s_pair(), quick=1200, shards=2, rule="the two structures are different")
def equality(c):
    """Struct.equals is true exactly for the same names, order and contents, including nested structures"""
    a, ma = build(c["a"])
    v = copy.deepcopy(c["a"])
    i = c["i"] % len(v["v"])
    if c["how"] == "leaf":
        # change the value of one item, possibly inside a nested structure
        cur = v
        while True:
            j = i % len(cur["v"])
            nm, x = cur["v"][j]
            if x["t"] == "st" and x["v"]:
                cur = x
                continue
            cur["v"][j] = (nm, c["o"])
            break
    elif c["how"] == "name":
        v["v"][i] = ("renamed", v["v"][i][1])
    elif c["how"] == "drop":
        del v["v"][i]
    elif c["how"] == "order":
        v["v"] = v["v"][::-1]
    elif c["how"] == "extra":
        v["v"].append(("extra", c["o"]))
    elif c["how"] == "other":
        v["v"][i] = (v["v"][i][0], c["w"])
    b, mb = build(v)
    same = same_order(ma, mb)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            got, rev = a.equals(b), b.equals(a)
        except Exception as x:
            fail("equals raised", error=repr(x), case=c)
    strict = same or comparable(ma, mb)
    if same:
        require(bool(got) and bool(rev), "equal structures compare unequal", got=got, rev=rev, case=c)
    elif strict:
        require(not got and not rev, "different structures compare equal", got=got, rev=rev, a=str(ma)[:200], b=str(mb)[:200], case=c)
    nt(not same, c["how"])


def flat(m, p=()):
    if isinstance(m, tuple) and len(m) == 2 and isinstance(m[1], dict):
        yield p, m[0]
        for k, v in m[1].items():
            yield from flat(v, p + (k,))
    else:
        yield p, m


def comparable(a, b):
    """the difference is in names, structure, or in leaves whose raw data differ (scalars: values that compare unequal)"""
    fa, fb = list(flat(a)), list(flat(b))
    if [p for p, _ in fa] != [p for p, _ in fb]:
        return True
    for (p, x), (_, y) in zip(fa, fb):
        if x == y or isinstance(x, str) or isinstance(y, str):
            continue
        if x[0] == "scalar" and y[0] == "scalar":
            if eval(x[2].replace("np.int32", "")) != eval(y[2].replace("np.int32", "")):
                return True
            continue
        if x[0] == "FastArray" and y[0] == "FastArray" and x[1] == y[1] and x[2] == y[2] and "f" not in x[1]:
            return True
    return False


# ------------------------------------------------------------------ multi-table containers
@st.composite
def s_ms(draw):
    n = draw(st.integers(1, 4))
    tab = st.lists(st.tuples(S_NAME, scol(n, AK, inv=True, few=True)), min_size=1, max_size=3, unique_by=lambda t: t[0])
    return {"n": n, "tabs": draw(st.lists(st.tuples(st.sampled_from(["T1", "T2", "T3"]), tab), min_size=1, max_size=3, unique_by=lambda t: t[0])), "new": draw(tab), "nested": draw(st.booleans()),
            "ops": draw(st.lists(st.tuples(pick("set", "attr", "del", "rename", "front", "back", "copy", "shallow", "bad", "badtype", "cols", "rows", "sub", "one", "flat", "vflat", "sort", "labels", "get"), st.sampled_from(["T1", "T2", "T3", "N"]), st.sampled_from(["T1", "T2", "T4"])), min_size=1, max_size=7)),
            "rows": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)), "b": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "cols": draw(st.lists(S_NAME, min_size=1, max_size=3, unique=True))}


def mktab(t):
    return rt.Dataset({k: mkcol(x) for k, x in t})


def take(m, idx):
    """model of a table restricted to rows: compared through a fresh array"""
    return m


@facet("C29", s_ms(), quick=2000, shards=3, rule="two tables held and a row or column selection or flattening was compared")
def multisets(c):
    """a multi-table container holds the tables an ordered mapping would, all of one length; row/column selections and flattening keep every cell"""
    n = c["n"]
    ms = rt.Multiset({k: mktab(t) for k, t in c["tabs"]})
    src = {k: mktab(t) for k, t in c["tabs"]}
    m = {k: model_of(v) for k, v in src.items()}
    if c["nested"]:
        ms["N"] = rt.Multiset({"I1": mktab(c["new"]), "I2": mktab(c["tabs"][0][1])})
        src["N"] = None
        m["N"] = model_of(ms["N"])
    olds, looked = [], 0
    for op, k, k2 in c["ops"]:
        if op in ("set", "attr"):
            t = mktab(c["new"])
            if op == "set":
                ms[k] = t
            else:
                setattr(ms, k, t)
            src[k], m[k] = mktab(c["new"]), model_of(t)
        elif op == "del":
            if k in m and len(m) > 1:
                del ms[k]
                del m[k], src[k]
        elif op == "rename":
            if k in m and k2 not in m:
                ms.col_rename(k, k2)
                m = {(k2 if x == k else x): v for x, v in m.items()}
                src = {(k2 if x == k else x): v for x, v in src.items()}
        elif op in ("front", "back"):
            if k in m:
                (ms.col_move_to_front if op == "front" else ms.col_move_to_back)(k)
                order = [k] + [x for x in m if x != k] if op == "front" else [x for x in m if x != k] + [k]
                m, src = {x: m[x] for x in order}, {x: src[x] for x in order}
        elif op in ("copy", "shallow"):
            olds.append((ms, dict(m)))
            ms = ms.copy(deep=op == "copy")
            require(isinstance(ms, rt.Multiset), "copy is not a Multiset")
        elif op in ("bad", "badtype"):
            v = rt.Dataset({"q": rt.arange(n + 1)}) if op == "bad" else rt.Struct({"a": 1})
            for f in (lambda: ms.__setitem__(k, v), lambda: setattr(ms, k, v)):
                try:
                    f()
                except (ValueError, TypeError):
                    pass
                else:
                    fail("a table of another length or a wrong type was accepted", op=op, case=c)
        elif op == "rows":
            for idx, w in ((rt.FastArray(np.array(c["rows"], dtype=np.int32)), c["rows"]), (rt.FastArray(np.array(c["b"])), [i for i in range(n) if c["b"][i]]), (slice(0, 2), list(range(n))[0:2])):
                if not w:
                    continue
                r = ms[idx, :]
                require(list(r.keys()) == list(m) and r.shape[0] == len(w), "row selection: tables or row count differ", got=(list(r.keys()), r.shape), want=(list(m), len(w)), case=c)
                for x, t in src.items():
                    if t is not None:
                        e = t[rt.FastArray(np.array(w, dtype=np.int32)), :]
                        require(model_of(r[x]) == model_of(e), "row selection: cells differ", table=x, got=str(model_of(r[x]))[:200], want=str(model_of(e))[:200], case=c)
            looked += 1
        elif op == "one":
            w = {x: {cn: t[cn] for cn in c["cols"][:1] if cn in t.keys()} for x, t in src.items() if t is not None}
            w = {x: d for x, d in w.items() if d}
            if w and not c["nested"]:
                r = ms[c["cols"][0]]
                require({x: model_of(r[x]) for x in r.keys()} == {x: ("ds", {cn: snap(v) for cn, v in d.items()}) for x, d in w.items()} and list(r.keys()) == list(w), "column selection across tables differs", got=list(r.keys()), want=list(w), case=c)
                looked += 1
        elif op == "get":
            if not c["nested"]:
                r = ms.multiget(list(c["cols"]))
                w = {x: ("ds", {cn: snap(t[cn]) for cn in c["cols"] if cn in t.keys()}) for x, t in src.items()}
                w = {x: d for x, d in w.items() if d[1]}
                require({x: model_of(r[x]) for x in r.keys()} == w and list(r.keys()) == list(w), "multiget differs", got=list(r.keys()), want=list(w), case=c)
                looked += 1
        elif op == "sub":
            ks = [x for x in (k, k2) if x in m]
            if ks:
                r = ms[ks[0]]
                require(model_of(r) == m[ks[0]], "table access differs", case=c)
        elif op == "flat":
            if not c["nested"]:
                r = ms.flatten()
                w = {x + "_" + cn: snap(t[cn]) for x, t in src.items() for cn in t.keys()}
                require(list(r.keys()) == list(w) and {q: snap(r[q]) for q in r.keys()} == w, "horizontal flattening loses or moves a column", got=list(r.keys()), want=list(w), case=c)
                looked += 1
        elif op == "vflat":
            if not c["nested"] and len({tuple((cn, str(t[cn].dtype), type(t[cn]).__name__) for cn in t.keys()) for t in src.values()}) == 1 and not any(isinstance(t[cn], rt.Categorical) for t in src.values() for cn in t.keys()):
                r = ms.flatten(horizontal=False)
                require(r.shape[0] == n * len(src) and [to_str(x) for x in r["Column"]] == [x for x in src for _ in range(n)], "vertical flattening: labels differ", case=c)
                for cn in list(src.values())[0].keys():
                    w = [y for t in src.values() for y in canon(t[cn])]
                    require(canon(r[cn]) == w, "vertical flattening: cells differ", column=cn, case=c)
                looked += 1
        invariant(ms, m, op, c)
        require(ms.shape[0] == n and len(ms) == n, "row count of the container", got=ms.shape, want=n, case=c)
        for o, om in olds:
            invariant(o, om, "edit of a copy", c)
    nt(looked > 0 and len(m) >= 2)


def to_str(x):
    return x.decode() if isinstance(x, bytes) else str(x)


# ------------------------------------------------------------------ partitioned tables
@st.composite
def s_pds(draw):
    kinds = draw(st.lists(st.sampled_from(["int32", "float64", "S", "U", "cat", "dtn", "date", "bool"]), min_size=1, max_size=3))
    ns = draw(st.lists(st.integers(0, 5), min_size=1, max_size=5))
    if any(k == "cat" for k in kinds) or sum(ns) == 0:
        ns = [max(1, n) for n in ns]
    parts = [[draw(scol(n, [k], inv=True, few=True)) for k in kinds] for n in ns]
    return {"ns": ns, "parts": parts, "names": draw(pick("auto", "given", "files", "set", "files")), "ops": draw(st.lists(pick("copy", "addcol", "rename", "del", "cat", "names", "show", "setcell", "pgb", "igb", "save", "deepcopy", "subset"), max_size=4)), "digits": draw(st.lists(st.integers(1, 28), min_size=5, max_size=5, unique=True)), "stem": draw(st.sampled_from(["f{}.sds", "2019{}.sds", "d{}/x.sds", "a{}b"]))}


@facet("C29", s_pds(), quick=1500, shards=3, rule="two or more partitions")
def partitions(c):
    """for every partition of a partitioned table: name, rows, slice and category are exactly those of the table it came from"""
    parts = [rt.Dataset({"c%d" % j: mkcol(x) for j, x in enumerate(p)}) for p in c["parts"]]
    ns, P = c["ns"], len(parts)
    names = ["p%d" % i for i in range(P)]
    kw = {}
    if c["names"] == "given":
        names = ["N%d" % d for d in c["digits"][:P]]
        kw["pnames"] = list(names)
    elif c["names"] == "files":
        kw["filenames"] = [c["stem"].format("%02d" % d) for d in c["digits"][:P]]
        names = None
    p = rt.PDataset([d.copy() for d in parts], **kw)
    if c["names"] == "set":
        p.pcat
        names = ["S%d" % d for d in c["digits"][:P]]
        p.set_pnames(list(names))
    if names is None:
        names = p.pnames
        require(len(names) == P and len(set(names)) == P, "names derived from file names are not one per partition", got=names, case=c)
        if P > 1 and all(("%02d" % d) in nm for d, nm in zip(c["digits"], names)) is False and any(ch.isdigit() for ch in "".join(names)) and not names[0].startswith("p"):
            fail("names derived from file names do not match the files in order", names=names, files=kw["filenames"], case=c)
    extra = []

    def check(what):
        require(p.pcount == P and p.pnames == list(names), "partition names differ", after=what, got=p.pnames, want=names, case=c)
        require(list(p.prows) == ns and list(p.pcutoffs) == list(np.cumsum(ns)), "partition row counts differ", after=what, got=(list(p.prows), list(p.pcutoffs)), want=ns, case=c)
        start = 0
        it = list(p.piter)
        require([a for a, _ in it] == list(names), "piter names differ", after=what, case=c)
        pc = p.pcat
        require([to_str(x) for x in pc.expand_array] == [nm for nm, n in zip(names, ns) for _ in range(n)], "the partition category differs", after=what, got=[to_str(x) for x in pc.expand_array], want=names, case=c)
        for i in range(P):
            sl = p.pslice(i)
            require((int(sl.start), int(sl.stop)) == (start, start + ns[i]) and p.pslices[i] == sl and p.pdict[names[i]] == sl, "the partition slice differs", after=what, i=i, got=sl, want=(start, start + ns[i]), case=c)
            start += ns[i]
            for q in (p.partition(i), p.partition(names[i]), it[i][1]) + ((p[names[i]],) if names[i] not in p.keys() else ()):
                require(q.shape[0] == ns[i], "a partition has another number of rows", after=what, i=i, got=q.shape, want=ns[i], case=c)
                for cn in parts[i].keys():
                    require(canon(q[cn]) == canon(parts[i][cn]), "a partition does not hold the rows it contributed", after=what, i=i, column=cn, got=canon(q[cn]), want=canon(parts[i][cn]), case=c)

    check("construction")
    for op in c["ops"]:
        if op == "copy":
            p = p.copy()
        elif op == "deepcopy":
            p = copy.deepcopy(p)
        elif op == "addcol":
            p["z"] = rt.arange(sum(ns))
            st_ = 0
            for d, n in zip(parts, ns):
                d["z"] = rt.arange(st_, st_ + n)
                st_ += n
        elif op == "rename":
            if "c0" in p.keys():
                p.col_rename("c0", "cc")
                for d in parts:
                    d.col_rename("c0", "cc")
        elif op == "del":
            if len(p.keys()) > 1:
                k = p.keys()[-1]
                del p[k]
                for d in parts:
                    del d[k]
        elif op == "names":
            names = ["M%d" % d for d in c["digits"][:P]]
            p.set_pnames(list(names))
        elif op == "show":
            p.showpartitions(False)
            repr(p)
            p.showpartitions(True)
            repr(p)
        elif op == "igb":
            if all(ns):
                r = p.copy().igroupby().count()
                require([int(x) for x in r["Count"]] == ns and [to_str(x) for x in r["Partition"]] == list(names), "grouping by partition: counts differ", got=([int(x) for x in r["Count"]], list(r["Partition"])), want=(names, ns), case=c)
        elif op == "setcell":
            if "z" in p.keys() and ns[-1]:
                p.z[-1] = 77
                parts[-1].z[-1] = 77
        elif op == "save":
            with scratch() as d:
                fs = []
                for i, q in enumerate(parts):
                    f = os.path.join(d, "x%02d.sds" % (i + 10))
                    q.save(f)
                    fs.append(f)
                if all(ns) and len(fs) > 1:
                    r = rt.PDataset(fs)
                    require(list(r.prows) == ns, "partitions loaded from files: row counts differ", got=list(r.prows), want=ns, case=c)
                    for i, q in enumerate(parts):
                        for cn in q.keys():
                            require(canon(r.partition(i)[cn]) == canon(q[cn]), "partitions loaded from files: rows differ", i=i, column=cn, got=canon(r.partition(i)[cn]), want=canon(q[cn]), case=c)
        check(op)
    nt(P >= 2, c["names"], *c["ops"])


# ------------------------------------------------------------------ stacking and comparing structures
@st.composite
def s_stack(draw):
    kinds = draw(st.lists(st.sampled_from(["int32", "float64", "S", "cat", "dtn", "date", "bool", "nest", "tab"]), min_size=1, max_size=4))
    k = draw(st.integers(2, 3))

    def leaf(kd, n):
        return draw(scol(n, [kd], inv=True, few=True))
    out = []
    for _ in range(k):
        n = draw(st.integers(1, 3))
        out.append([{"nest": lambda: leaf("int32", n), "tab": lambda: leaf("float64", n)}.get(kd, lambda: leaf(kd, n))() for kd in kinds])
    return {"kinds": kinds, "st": out}


@facet("C29", s_stack(), quick=600, shards=2, rule="a nested item is present")
def stacking(c):
    """stacking structures with the same items stacks every item, nested ones included, and comparison is item by item"""
    def mk(row):
        d = {}
        for j, (kd, x) in enumerate(zip(c["kinds"], row)):
            v = mkcol(x)
            d["k%d" % j] = rt.Struct({"q": v}) if kd == "nest" else rt.Dataset({"q": v}) if kd == "tab" else v
        return rt.Struct(d)
    ss = [mk(r) for r in c["st"]]
    for f in (rt.Struct.concat_structs, rt.Struct.hstack):
        r = f(ss)
        require(sorted(r.keys()) == sorted(ss[0].keys()), "stacked structures lose items", got=list(r.keys()), want=list(ss[0].keys()), case=c)
        for j, kd in enumerate(c["kinds"]):
            k = "k%d" % j
            g = r[k]["q"] if kd in ("nest", "tab") else r[k]
            w = [y for row in c["st"] for y in canon(mkcol(row[j]))]
            require(canon(g) == w, "a stacked item differs from its pieces", item=k, got=canon(g), want=w, case=c)
    a, b = mk(c["st"][0]), mk(c["st"][0])
    if not any(k in ("nest", "tab") for k in c["kinds"]):
        for j, kd in enumerate(c["kinds"]):
            k = "k%d" % j
            e = (a == b)[k]
            w = all(bool(x) for x in (a[k] == b[k]))
            require(bool(e) == w, "== of structures differs from the item comparison", item=k, got=e, want=w, case=c)
        b.extra = 1
        require(not (a == b)["extra"] and not (b == a)["extra"], "== with an item on one side only is not False", case=c)
        del b[b.keys()[0]]
        require(not (a == b)["k0"] and not (b == a)["k0"], "== with an item on one side only is not False", case=c)
    nt(any(k in ("nest", "tab") for k in c["kinds"]))


# ------------------------------------------------------------------ functions of multi-table containers
CASC = ["sum", "mean", "std", "var", "min", "max", "nansum", "nanmean", "nanstd", "nanvar", "nanmin", "nanmax", "any", "all", "abs", "fillna", "sort_copy", "trim", "keep", "astype", "apply_cols", "quantile", "describe", "dtypes"]


@st.composite
def s_casc(draw):
    n = draw(st.integers(1, 5))
    col = lambda: draw(st.tuples(pick("int32", "float64"), st.lists(st.one_of(st.integers(-3, 5), st.none()), min_size=n, max_size=n)))
    return {"t": [[nm, [[c, *col()] for c in draw(st.sampled_from([["a"], ["a", "b"], ["b", "a", "c"]]))]] for nm in draw(st.sampled_from([["x"], ["x", "y"], ["p", "x", "y"]]))], "lab": draw(st.booleans()), "f": draw(st.sampled_from(CASC)), "k": [draw(st.integers(0, 3)) for _ in range(n)]}


@facet("C29", s_casc(), quick=900, shards=2, rule="two tables or more")
def cascades(c):
    """a function of the container is the function of each of its tables, under the same names"""
    def one(cols):
        d = {"key": rt.FastArray(np.array(c["k"]))} if c["lab"] else {}
        d.update({nm: rt.FastArray(np.array([(INV["int32"] if k == "int32" else np.nan) if x is None else x for x in v], dtype=k)) for nm, k, v in cols})
        o = rt.Dataset(d)
        if c["lab"]:
            o.label_set_names(["key"])
        return o

    tabs = {nm: one(cols) for nm, cols in c["t"]}
    ms = rt.Multiset({nm: t.copy() for nm, t in tabs.items()})
    f = c["f"]
    args = {"fillna": (7,), "sort_copy": ("a",), "keep": (lambda v: v > 0,), "astype": ("float32",), "apply_cols": (lambda v: v + 1,), "quantile": ([0.5],)}.get(f, ())
    nt(len(tabs) > 1, f)
    if f == "dtypes":
        return
    try:
        want_ = {nm: getattr(t, f)(*args) for nm, t in tabs.items()}
    except Exception as e:
        tag("table function raises")
        return
    if any(not isinstance(w, rt.Dataset) for w in want_.values()) or len({w.shape[0] for w in want_.values()}) > 1:
        return
    before = snap(ms)
    got = getattr(ms, f)(*args)
    require(isinstance(got, rt.Multiset) and list(got.keys()) == list(want_), f"{f}: names", got=list(got.keys()), case=c)
    for nm, w in want_.items():
        require(snap(got[nm]) == snap(w), f"{f}: table {nm}", got=got[nm], expected=w, case=c)
    require(snap(ms) == before, f"{f} changed the container", case=c)


def s_truth():
    leaf = st.one_of(
        st.tuples(st.just("arr"), st.lists(pick(0, 1, 2), min_size=0, max_size=3)),
        st.tuples(st.just("bool"), st.lists(st.booleans(), min_size=0, max_size=3)),
        st.tuples(st.just("flt"), st.lists(pick(0.0, 0.5), min_size=0, max_size=3)),
        st.tuples(st.just("num"), pick(0, 1, 5)),
        st.tuples(st.just("txt"), pick("b", "a")),
        st.tuples(st.just("list"), st.lists(pick(0, 1), min_size=1, max_size=2)),
    )
    return st.recursive(st.lists(leaf, max_size=4), lambda x: st.lists(st.one_of(leaf, st.tuples(st.just("st"), x)), max_size=4), max_leaves=8)


@facet("C29", st.tuples(s_truth(), st.lists(st.tuples(pick("S", "U", "int32", "cat", "float64"), st.lists(pick(0, 1, 2), min_size=2, max_size=4)), min_size=1, max_size=4), pick("", "p_", "p_"), st.booleans()), quick=600, shards=2, rule="a nested structure or two or more items")
def truth_and_categories(case):
    """any/all over the items of a structure, converting its text items to category arrays, collecting category lists"""
    tree, cols, prefix, keep = case
    def mk(t):
        d, v = {}, []
        for i, (k, x) in enumerate(t):
            nm = f"k{i}"
            if k == "st":
                o, w = mk(x)
                d[nm] = o
                v.append(w)
                continue
            d[nm] = rt.FastArray(np.array(x, dtype={"arr": "int64", "bool": "?", "flt": "float64"}[k])) if k in ("arr", "bool", "flt") else x
            v.append(x if k in ("arr", "bool", "flt", "list") else bool(x))
        return rt.Struct(d), v
    def isany(v):
        return any(isany(x) if isinstance(x, list) else bool(x) for x in v)
    def isall(v):
        return all(isall(x) if isinstance(x, list) else bool(x) for x in v)
    s, v = mk(tree)
    nt(len(tree) > 1 or any(k == "st" for k, _ in tree))
    require(bool(s.any()) == isany(v), "Struct.any", got=s.any(), case=tree)
    require(bool(s.all()) == isall(v), "Struct.all", got=s.all(), case=tree)
    W = {"S": ["b", "a", "cc"], "U": ["b", "\u00f1", "c"], "cat": ["q", "a", "r"], "int32": [3, 1, 2], "float64": [0.5, 1.5, 2.5]}
    st_ = rt.Struct({})
    exp = {}
    for i, (k, ix) in enumerate(cols):
        vals_ = [W[k][j] for j in ix]
        nm = (prefix if i % 2 == 0 else "z") + f"n{i}"
        a = rt.FastArray(np.array(vals_, dtype={"S": "S2", "U": "U1", "cat": "S1"}.get(k, k)), unicode=k == "U")
        st_[nm] = rt.Categorical(a) if k == "cat" else a
        exp[nm] = (k, vals_)
    st_.make_categoricals()
    require(list(st_.keys()) == list(exp), "make_categoricals: names", got=list(st_.keys()))
    for nm, (k, vv) in exp.items():
        require(isinstance(st_[nm], rt.Categorical) == (k in ("S", "U", "cat")), "make_categoricals: type", name=nm, got=type(st_[nm]))
        require(canon(st_[nm]) == vv, "make_categoricals: values", name=nm, got=canon(st_[nm]), expected=vv)
    r = st_.make_struct_from_categories(**({"prefix": prefix, "keep_prefix": keep} if prefix else {}))
    want_ = {(nm if keep or not prefix else nm[len(prefix):]): vv for nm, (k, vv) in exp.items() if k in ("S", "U", "cat") and nm.startswith(prefix)}
    require(list(r.keys()) == list(want_), "make_struct_from_categories: names", got=list(r.keys()), expected=list(want_))
    for nm, vv in want_.items():
        require(canon(r[nm]) == sorted(set(vv)), "make_struct_from_categories: categories", name=nm, got=canon(r[nm]), expected=sorted(set(vv)))


@st.composite
def s_pnames(draw):
    n = draw(st.integers(1, 4))
    w = draw(st.integers(1, 8))
    d = draw(st.lists(st.integers(0, 10**w - 1), min_size=n, max_size=n, unique=True))
    return {"w": w, "d": d, "pre": draw(pick("/data/day_", "", "x/", "a.b-", "C_v2/f_")), "post": draw(pick("", ".sds", "_end.SDS")), "pos": draw(st.integers(0, 3))}


@facet("C29", s_pnames(), quick=250, rule="two or more partitions")
def partition_names(c):
    """partitions opened from numbered files are named by the numbers, and each name gives its own rows"""
    nums = [str(x).zfill(c["w"]) for x in c["d"]]
    files = [c["pre"] + x + c["post"] for x in nums]
    nt(len(files) > 1, c["pre"], c["post"])
    parts = [rt.Dataset({"x": rt.FA([10 * i, 10 * i + 1][: 1 + (i + c["pos"]) % 2])}) for i in range(len(files))]
    p = rt.PDataset(parts, filenames=files)
    got = [str(x) for x in p.pnames]
    require(len(got) == len(files) and len(set(got)) == len(files), "one name per partition", got=got, files=files)
    require(got == nums, "partition names", got=got, expected=nums, files=files)
    for i, x in enumerate(got):
        require(p[x].x.tolist() == parts[i].x.tolist(), "rows of the named partition", name=x, got=p[x].x.tolist(), expected=parts[i].x.tolist())
