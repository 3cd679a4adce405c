"""C05: sort/argsort/lexsort/issorted/searchsorted and table sorts against a stable Python sort of the keys."""
import re
from functools import cmp_to_key

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.props.c01 import layout, LAYOUT

KD = ["int32", "int64", "float64", "float32", "int8", "int16", "uint8", "uint16", "uint32", "uint64", "bool", "S", "U"]


def raw(spec):
    """comparable raw Python values: integer sentinels order as the numbers they are, NaN stays None"""
    d = spec["d"]
    if d in INTS:
        return [INV[d] if x is None else x for x in spec["v"]]
    if d in "SU":
        return [x or "" for x in spec["v"]]
    return list(spec["v"])


def cmp1(a, b, asc=True):
    if a is None or b is None:  # NaN last in both directions
        return (a is None) - (b is None)
    r = (a > b) - (a < b)
    return r if asc else -r


def order(keys, ascs):
    """stable order of the rows; keys[0] is the primary key"""
    n = len(keys[0])

    def c(i, j):
        for k, a in zip(keys, ascs):
            r = cmp1(k[i], k[j], a)
            if r:
                return r
        return 0

    return sorted(range(n), key=cmp_to_key(c))


def few(d):
    if d in "SU":
        return WORDS_E[:6] + [""]
    if d == "bool":
        return [False, True]
    lo = -1 if d in SINTS else 0
    return [0, 1, 2, lo, None, 3] if d in INTS else [0.0, 1.0, 2.5, -1.5, None, float("inf"), float("-inf")]


@st.composite
def skey(draw, n, dts=KD):
    d = draw(pick(dts))
    if draw(st.booleans()):
        return {"d": d, "v": draw(vals(few(d), n))}
    p = (WORDS_E if d == "S" else UWORDS + [""] if d == "U" else [x for x in pool_for(d, infs=True) if x != 0 or str(x) != "-0.0"])
    return {"d": d, "v": draw(vals(p, n))}


@st.composite
def s_sort1(draw):
    n = draw(sizes(0, 40))
    return {"a": draw(skey(n)), "la": draw(pick(LAYOUT)), "f": draw(pick("rt.sort", "np.sort", "method", "rt.argsort", "np.argsort", "margsort", "stable", "lex1", "lex1d")), "rep": draw(pick(1, 1, 1, 1, 3, 400))}


@facet("C05", s_sort1(), quick=4000, shards=2, rule="at least two distinct values")
def one_key(c):
    """sort/argsort of one array yields exactly the ascending rearrangement and a matching permutation"""
    spec = {"d": c["a"]["d"], "v": c["a"]["v"] * c["rep"]}
    A = np_of(spec)
    v = raw(spec)
    n = len(v)
    a = layout(A, c["la"]).view(rt.FastArray)
    exp = [v[i] for i in order([v], [True])] if n else []
    if len(set(map(str, v))) > 1:
        nt(c["f"], c["a"]["d"], c["la"])
    f = c["f"]

    def out(x):
        x = np.asarray(x)
        if x.dtype.kind in "iu":
            return x.tolist()
        return npy(x)

    if f in ("rt.sort", "np.sort"):
        r = (rt.sort if f[0] == "r" else np.sort)(a)
        require(isinstance(r, rt.FastArray) and r.dtype == A.dtype, "type", got=(type(r), r.dtype))
        same_list(out(r), exp, f, case=c)
        same_list(out(a), v, "input unchanged")
    elif f == "method":
        if c["la"] != "c":
            a = a.copy()
        require(a.sort() is None, "sort() in place")
        same_list(out(a), exp, f, case=c)
    elif f in ("lex1", "lex1d"):
        if n == 0:
            return
        asc = f == "lex1"
        p = rt.lexsort([a], ascending=asc)
        same_list(np.asarray(p).tolist(), order([v], [asc]), f, case=c)
    else:
        p = a.argsort() if f == "margsort" else rt.argsort(a, kind="stable") if f == "stable" else (rt.argsort if f[0] == "r" else np.argsort)(a)
        p = np.asarray(p).tolist()
        require(sorted(p) == list(range(n)), "argsort is not a permutation", got=p, case=c)
        same_list([v[i] for i in p], exp, f, case=c)
        if f == "stable":
            same_list(p, order([v], [True]), "stable argsort", case=c)


@st.composite
def s_lex(draw):
    n = draw(sizes(1, 40))
    k = draw(st.integers(1, 4))
    ks = [draw(skey(n)) for _ in range(k)]
    if draw(st.booleans()):
        for x in ks[1:]:
            if draw(st.booleans()):
                x["v"] = draw(vals(few(x["d"]), n))
    return {"k": ks, "asc": draw(pick("all", "none", "mixed", "default")), "m": draw(st.lists(st.booleans(), min_size=k, max_size=k)), "form": draw(pick("list", "list", "tuple", "np")), "la": draw(pick(LAYOUT)), "rep": draw(pick(1, 1, 1, 1, 1, 300))}


@facet("C05", s_lex(), quick=3000, shards=2, rule="two keys or more and a tie in the primary key")
def lexsort(c):
    """lexsort with several keys and per-key direction equals a stable multi-key sort (last key is primary)"""
    ks = [{"d": x["d"], "v": x["v"] * c["rep"]} for x in c["k"]]
    arrs = [layout(np_of(x), c["la"]).view(rt.FastArray) for x in ks]
    raws = [raw(x) for x in ks]
    n = len(raws[0])
    if len(ks) > 1 and len(set(map(str, raws[-1]))) < n:
        nt(f"keys{len(ks)}", c["asc"], c["form"])
    asc = c["m"] if c["asc"] == "mixed" else [c["asc"] != "none"] * len(ks)
    kw = {}
    if c["asc"] == "none":
        kw = {"ascending": False}
    elif c["asc"] == "all":
        kw = {"ascending": True}
    elif c["asc"] == "mixed":
        if len(ks) == 1:
            kw = {"ascending": c["m"][0]}
        else:
            kw = {"ascending": rt.FastArray(c["m"], dtype=bool)}
    if c["form"] == "np":
        if any(x is None for x in sum(raws, [])) or not all(asc):
            return
        p = np.lexsort(arrs)
    elif c["form"] == "tuple" and not kw:
        p = rt.lexsort(tuple(arrs))
    else:
        p = rt.lexsort(arrs, **kw)
    same_list(np.asarray(p).tolist(), order(raws[::-1], asc[::-1]), "lexsort", case=c)


@st.composite
def s_issorted(draw):
    n = draw(sizes(0, 30))
    return {"a": draw(skey(n)), "how": draw(pick("sorted", "sorted", "swap", "asis")), "i": draw(st.integers(0, 40)), "f": draw(pick("rt", "m")), "rep": draw(pick(1, 1, 1, 500))}


@facet("C05", s_issorted(), quick=1500, rule="at least two elements")
def issorted(c):
    """issorted is true exactly for ascending input (NaN last)"""
    d = c["a"]["d"]
    v = raw(c["a"]) * c["rep"]
    if c["how"] != "asis" and v:
        v = [v[i] for i in order([v], [True])]
        if c["how"] == "swap" and len(v) > 1:
            i = c["i"] % (len(v) - 1)
            v[i], v[i + 1] = v[i + 1], v[i]
    A = np_of({"d": d, "v": v})
    e = all(cmp1(x, y) <= 0 for x, y in zip(v, v[1:]))
    if len(v) > 1:
        nt(c["how"], d)
    a = rt.FastArray(A, unicode=True) if d == "U" else rt.FastArray(A)
    r = rt.issorted(a) if c["f"] == "rt" else a.issorted()
    require(bool(r) == e, "issorted", got=r, expected=e, case=c)


@st.composite
def s_search(draw):
    d = draw(pick("int32", "int64", "float64", "float32", "int8", "uint8", "int16", "S", "bool", "U", "uint64"))
    d2 = draw(pick(d, d, "int64", "float64", "int32", "uint16")) if d not in ("S", "U", "uint64", "bool") else d
    pool = {"S": WORDS, "U": UWORDS, "bool": [False, True]}.get(d) or ([x for x in pool_for(d, inv=False) if x >= 0 or d[0] != "u"])
    h = sorted(draw(vals(pool, draw(sizes(0, 20)))))
    if d in FLOATS and draw(st.booleans()):
        h = h + [None] * draw(st.integers(1, 3))
    pool2 = {"S": WORDS_E, "U": UWORDS, "bool": [False, True]}.get(d2) or pool_for(d2, inv=d2 in FLOATS, infs=True)
    v = draw(vals(pool2 + h if d == d2 else pool2, draw(sizes(0, 16))))
    return {"d": d, "h": h, "d2": d2, "v": v, "side": draw(pick("left", "right")), "form": draw(pick("rt", "m", "np", "scalar", "list", "sorter", "rev")), "la": draw(pick(LAYOUT)), "lb": draw(pick(LAYOUT))}


@facet("C05", s_search(), quick=3000, shards=2, rule="non-empty haystack and needle set")
def searchsorted(c):
    """searchsorted returns the insertion position that keeps the order, for every side, dtype pair and layout"""
    H, V = np_of({"d": c["d"], "v": c["h"]}), np_of({"d": c["d2"], "v": c["v"]})
    h = layout(H, c["la"]).view(rt.FastArray)
    v = layout(V, c["lb"]).view(rt.FastArray)
    hv, vv = raw({"d": c["d"], "v": c["h"]}), raw({"d": c["d2"], "v": c["v"]})
    if c["d2"] in INTS and c["d"] in FLOATS:
        vv = [float(np.dtype(np.float64).type(x)) for x in vv]
    if c["d"] in INTS and c["d2"] in FLOATS:
        hv = [float(x) for x in hv]
    left = c["side"] == "left"
    exp = [sum(1 for y in hv if (cmp1(y, x) < 0 if left else cmp1(y, x) <= 0)) for x in vv]
    if hv and vv:
        nt(c["d"], c["form"], c["side"], "nan" if None in hv else "")
    f = c["form"]
    if f == "scalar":
        for x, e in zip(V, exp):
            r = rt.searchsorted(h, x, side=c["side"])
            require(np.ndim(r) == 0 and int(r) == e, "searchsorted(scalar)", needle=x, got=r, expected=e, case=c)
        return
    if f == "sorter":
        p = np.arange(len(hv))[::-1]
        r = rt.searchsorted(rt.FastArray(H[p]) if c["d"] != "U" else rt.FastArray(H[p], unicode=True), v, side=c["side"], sorter=p)
    elif f == "list":
        if c["d"] != c["d2"] or not c["v"] or None in c["v"] or c["d"] == "uint64":
            return
        r = h.searchsorted([x.encode() for x in c["v"]] if c["d"] == "S" else list(c["v"]), side=c["side"])
    elif f == "m":
        r = h.searchsorted(v, side=c["side"])
    elif f == "np":
        r = np.searchsorted(h, v, side=c["side"])
    else:
        r = rt.searchsorted(h, v, side=c["side"])
    same_list(np.asarray(r).tolist(), exp, "searchsorted", case=c)


COLT = ["int32", "float64", "S", "cat", "catu", "date", "int8", "U", "bool", "uint16", "float32"]


@st.composite
def s_ds(draw):
    n = draw(sizes(0, 16))
    k = draw(st.integers(1, 4))
    cols = []
    for _ in range(k):
        t = draw(pick(COLT))
        p = {"S": WORDS_E[:7] + [""], "U": UWORDS[:5], "cat": WORDS[:5], "catu": WORDS[:5], "date": [18000, 18001, 18400, 7], "bool": [False, True]}.get(t) or few(t)
        cols.append((t, draw(vals(p, n))))
    nb = draw(st.integers(1, k))
    by = draw(st.permutations(list(range(k))))[:nb]
    return {"n": n, "cols": cols, "by": list(by), "asc": draw(pick("all", "none", "mixed", "default")), "m": draw(st.lists(st.booleans(), min_size=nb, max_size=nb)), "f": draw(pick("sort_copy", "sort_inplace", "sort_view", "view_edit", "twice")), "cat_filt": draw(st.booleans())}


def mkcol(t, v):
    n = len(v)
    if t in ("cat", "catu"):
        if n == 0:
            return rt.FastArray(np.array([], dtype="S2")), v
        if t == "cat":
            return rt.Categorical(v), v
        c = rt.Categorical(v, ["zz"] + [w for w in WORDS[:5]][::-1], ordered=False)
        o = ["zz"] + WORDS[:5][::-1]
        return c, [o.index(x) for x in v]  # sorts by code: the given category order
    if t == "date":
        return rt.Date(np.array(v, dtype="int32")), v
    s = {"d": t, "v": v}
    return fa(s), raw(s)


def colvals(x):
    if isinstance(x, rt.Categorical):
        return [y.decode() if isinstance(y, bytes) else y for y in np.asarray(x.expand_array).tolist()]
    return npy(np.asarray(x.view(np.ndarray)))


@facet("C05", s_ds(), quick=3000, shards=2, rule="at least two rows and a key with distinct values")
def table(c):
    """sort_copy / sort_inplace / sort_view move whole rows into the stable multi-key order and keep every row"""
    n = c["n"]
    keys, d = [], {}
    for i, (t, v) in enumerate(c["cols"]):
        d[f"c{i}"], k = mkcol(t, v)
        keys.append(k)
    d["rid"] = rt.FastArray([b"r%03d" % i for i in range(n)], dtype="S4") if n else rt.FastArray(np.array([], dtype="S4"))
    ds = rt.Dataset(d)
    orig = {k: colvals(v) for k, v in ds.items()}
    by = [f"c{i}" for i in c["by"]]
    asc = c["m"] if c["asc"] == "mixed" else [c["asc"] != "none"] * len(by)
    kw = {} if c["asc"] == "default" else {"ascending": (list(asc) if len(asc) > 1 or c["f"] == "sort_copy" else asc[0])} if c["asc"] == "mixed" else {"ascending": c["asc"] == "all"}
    if n > 1 and any(len(set(map(str, keys[i]))) > 1 for i in c["by"]):
        nt(c["f"], c["asc"], f"keys{len(by)}")
    p = order([keys[i] for i in c["by"]], asc) if n else []
    arg = by[0] if len(by) == 1 and c["m"][0] else by
    f = c["f"]

    def check(x, perm, what):
        require(list(x.keys()) == list(orig), what + ": columns", got=list(x.keys()))
        for k in orig:
            require(type(x[k]) is type(d[k]) and x[k].dtype == d[k].dtype, f"{what}: class/dtype of {k}", got=(type(x[k]), x[k].dtype))
            same_list(colvals(x[k]), [orig[k][i] for i in perm], f"{what}: column {k}", case=c)

    ident = list(range(n))
    if f == "sort_copy":
        r = ds.sort_copy(arg, **kw)
        check(r, p, f)
        check(ds, ident, "source of sort_copy")
    elif f == "sort_inplace":
        r = ds.sort_inplace(arg, **kw)
        check(ds, p, f)
        check(r, p, f)
    elif f == "twice":
        r = ds.sort_copy("rid", ascending=False).sort_inplace(arg, **kw)
        p2 = [ident[::-1][i] for i in order([[keys[j][i] for i in ident[::-1]] for j in c["by"]], asc)] if n else []
        check(r, p2, "sorting a reversed copy")
    else:
        if n == 0:
            return
        shown = lambda x=ds: [int(y) for y in re.findall(r"\br(\d\d\d)\b", str(x))]
        r = ds.sort_view(arg, **kw)
        require(r is ds, "sort_view returns the dataset itself")
        s = shown()
        require(s == p, "rows shown by a sorted view", got=s, expected=p, case=c)
        for kk in ds.keys():
            a, b = [getattr(x, "expand_array", x).tolist() for x in (ds.get_sorted_col_data(kk), ds[kk])]
            a, b = [[None if x != x else x for x in y] for y in (a, b)]
            require(a == [b[i] for i in p], "sorted column of a sorted view", column=kk, got=a, case=c)
        check(ds, ident, "data under a sorted view")
        if f == "view_edit":
            # the sort must follow the data, not a stale cache
            k = c["by"][0]
            nv = c["cols"][k][1][::-1]
            if c["cols"][k][0] in ("cat", "catu"):
                return
            na, keys[k] = mkcol(c["cols"][k][0], nv)
            ds[f"c{k}"][:] = na
            p = order([keys[i] for i in c["by"]], asc)
            s = shown()
            require(s == p, "rows shown after the sort column changed", got=s, expected=p, case=c)
            ds.sorts_off()
            s = shown()
            require(s == ident, "rows shown after sorts_off", got=s, expected=ident)
        else:
            require(shown(ds.copy()) == p, "rows shown by a copy of a sorted view", got=shown(ds.copy()), expected=p, case=c)
            sub = c["by"][-1]
            s = shown(ds[[f"c{sub}", "rid"]])
            e = order([keys[sub]], [asc[-1]])
            require(s == e, "rows shown by a column subset of a sorted view", got=s, expected=e, case=c)
            require(sorted(shown(ds.head(3))) == list(range(min(n, 3))), "head of a sorted view", got=shown(ds.head(3)))
            ds.sorts_off()
            require(shown() == ident, "rows shown after sorts_off")


@st.composite
def s_cat(draw):
    n = draw(sizes(1, 20))
    return {"v": draw(vals(WORDS, n)), "ordered": draw(st.booleans()), "num": draw(st.booleans())}


@facet("C05", s_cat(), quick=800, rule="two distinct values")
def categorical(c):
    """argsort of a Categorical orders by value when the categories are sorted, and by first appearance otherwise"""
    v = [len(x) + ord(x[0]) for x in c["v"]] if c["num"] else c["v"]
    x = rt.Categorical(rt.FastArray(v), ordered=c["ordered"])
    k = v if c["ordered"] else [list(dict.fromkeys(v)).index(y) for y in v]
    if len(set(v)) > 1:
        nt("ordered" if c["ordered"] else "unordered")
    p = np.asarray(x.argsort()).tolist()
    require(sorted(p) == list(range(len(v))), "permutation")
    same_list([k[i] for i in p], sorted(k), "argsort", case=c)
    e = colvals(x[x.argsort()])
    same_list(e, [v[i] for i in p], "reordered", case=c)
