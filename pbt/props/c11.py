"""C11: comparisons and membership of Categoricals against the same test on their value lists."""
import operator
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.cols import *

warnings.simplefilter("ignore")
VALS = {"S": ["b", "a", "zz", "c", "B", "bb"], "U": ["b", "ñ", "日本", "a", "zz"], "num": [3, 1, 2, 100, -7], "flt": [1.5, 2.0, -3.0, 0.25], "i8": [3, 1, 2, 100]}
ABS = {"S": ["q", "", "zzz", "A", "longer than all"], "U": ["é", "q", "日"], "num": [5, 0, 1000], "flt": [9.5, 1.0, -99.0], "i8": [5, 0, 101]}
EQ = {"eq": operator.eq, "ne": operator.ne}
ORD = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}


@st.composite
def s_cat(draw, kinds=("S", "S", "U", "num", "flt", "i8"), n=None):
    k = draw(pick(list(kinds)))
    n = draw(sizes(1, 14)) if n is None else n
    base = draw(pick(1, 1, 0))
    return {"k": k, "v": draw(vals(VALS[k], n)), "ord": draw(pick(True, None, False)), "base": base, "filt": draw(st.one_of(st.none(), vals([True, True, False], n))) if base else None, "how": draw(pick("values", "values", "codes")), "rot": draw(st.integers(0, 3)), "extra": draw(st.booleans())}


def arr(k, v):
    return {"S": lambda: np.array([x.encode() for x in v], dtype="S" if v else "S1"), "U": lambda: rt.FastArray(np.array(v, dtype="U"), unicode=True), "num": lambda: rt.FastArray(np.array(v, dtype="int64")), "flt": lambda: rt.FastArray(np.array(v, dtype="float64")), "i8": lambda: rt.FastArray(np.array(v, dtype="int8"))}[k]()


def mkcat(c):
    k, v = c["k"], c["v"]
    kw = {}
    if c["filt"] is not None:
        kw["filter"] = rt.FastArray(np.array(c["filt"], dtype=bool))
    if c["how"] == "codes":
        u = []
        for x in v:
            if x not in u:
                u.append(x)
        if c["extra"]:
            u = [x for x in ABS[k][-1:]] + u
        r = c["rot"] % len(u)
        u = u[r:] + u[:r]
        if c["ord"]:
            u = sorted(u)
        codes = rt.FastArray(np.array([u.index(x) + c["base"] for x in v], dtype="int32"))
        return rt.Categorical(codes, arr(k, u), base_index=c["base"], **kw)
    return rt.Categorical(arr(k, v), ordered=c["ord"], base_index=c["base"], **kw)


def rows_of(c):
    return [x if c["filt"] is None or c["filt"][i] else FILT for i, x in enumerate(c["v"])]


def is_sorted_cat(cat):
    u = canon(cat.category_array)
    return u == sorted(u)


def b(x):
    x = np.asarray(x)
    require(x.dtype == bool, "comparison does not give booleans", got=x)
    return x.tolist()


@st.composite
def s_scalar(draw):
    c = draw(s_cat())
    c["x"] = draw(pick(*(VALS[c["k"]] + ABS[c["k"]])))
    c["form"] = draw(pick("py", "py", "np", "bytes"))
    c["list"] = draw(st.lists(pick(*(VALS[c["k"]] + ABS[c["k"]])), min_size=0, max_size=4, unique=True))
    c["lform"] = draw(pick("list", "array", "tuple", "set", "ncarr"))
    return c


@facet("C11", s_scalar(), quick=4500, shards=3, rule="at least two distinct row values")
def scalars_and_lists(c):
    """==, !=, order comparisons with a scalar and membership in a value list, row by row"""
    cat = mkcat(c)
    k, rows, x = c["k"], rows_of(c), c["x"]
    nt(len(set(rows)) > 1, k, f"base{c['base']}", f"ord{c['ord']}", "filter" if c["filt"] else "nofilter", c["how"])
    before = snap(cat)
    same_list(canon(cat), rows, "construction", case=c)
    if k in ("S", "U"):
        y = x.encode() if c["form"] == "bytes" and x.isascii() else np.str_(x) if c["form"] == "np" else x
        if k == "S" and not x.isascii():
            return
    elif k == "flt":
        y = np.float64(x) if c["form"] == "np" else np.float32(x) if c["form"] == "bytes" else x
    else:
        y = np.int64(x) if c["form"] == "np" else x
    e = [r != FILT and r == x for r in rows]
    for nm, exp in (("eq", e), ("ne", [not t for t in e])):
        g = b(EQ[nm](cat, y))
        require(g == exp, f"{nm} {y!r}", got=g, expected=exp, case=c)
    if k in ("S", "U"):
        g = b(cat[y])
        require(g == e, "cat[string]", got=g, expected=e, case=c)
        g = b(y == cat) if c["form"] != "np" else e
        require(g == e, "scalar == cat", got=g, expected=e, case=c)
    if is_sorted_cat(cat) and c["ord"]:
        for nm, f in ORD.items():
            g = b(f(cat, y))
            for i, r in enumerate(rows):
                if r != FILT:
                    require(g[i] == f(r, x), f"{nm} {y!r} at row {i}", got=g, expected=[None if r == FILT else f(r, x) for r in rows], case=c)
    # membership
    L = c["list"]
    e = [r != FILT and r in L for r in rows]
    form = c["lform"]
    if L and form in ("array", "ncarr"):
        v = arr(k, L)
        if form == "ncarr":
            v = np.repeat(v, 2)[::2]
    elif form == "tuple":
        v = tuple(L)
    elif form == "set":
        v = set(L)
    else:
        v = list(L)
    if k == "S" and any(not t.isascii() for t in L):
        return
    if k != "flt" or L:
        g = b(cat.isin(v))
        require(g == e, f"isin({v!r})", got=g, expected=e, case=c)
    if L and k in ("S", "U"):
        g = b(cat[list(L)])
        require(g == e, "cat[list of strings]", got=g, expected=e, case=c)
        g = b(cat == list(L))
        require(g == e, "cat == list of strings", got=g, expected=e, case=c)
        g = b(cat != list(L))
        require(g == [not t for t in e], "cat != list of strings", got=g, expected=[not t for t in e], case=c)
        g = b(cat.isin([t.encode() for t in L])) if k == "S" else e
        require(g == e, "isin(bytes)", got=g, expected=e, case=c)
    if L:
        g = b(cat.isin(L[0]))
        require(g == [r != FILT and r == L[0] for r in rows], "isin(scalar)", got=g, case=c)
        oc = rt.Categorical(arr(k, L))
        g = b(cat.isin(oc)) if len(L) != len(rows) and False else b(rt.ismember(cat, oc)[0])
        require(g == e, "ismember(cat, cat)", got=g, expected=e, case=c)
    # missing-value tests
    require(b(cat.isfiltered()) == [r == FILT for r in rows], "isfiltered", got=b(cat.isfiltered()), case=c)
    require(b(cat.isnan()) == [False] * len(rows) and b(cat.isnotnan()) == [True] * len(rows), "isnan without an invalid category", case=c)
    require(snap(cat) == before, "the comparison changed the array", case=c)


@st.composite
def s_pair(draw):
    n = draw(sizes(1, 14))
    k = draw(pick("S", "S", "U", "num", "flt", "i8"))
    return {"a": draw(s_cat(kinds=(k,), n=n)), "b": draw(s_cat(kinds=(k,), n=n)), "share": draw(st.booleans())}


@facet("C11", s_pair(), quick=2500, shards=2, rule="some rows equal and some different")
def two_cats(c):
    """comparing two Categoricals of different category order, base index and filter compares their values"""
    ca = mkcat(c["a"])
    ra = rows_of(c["a"])
    if c["share"]:
        # same categories object, permuted rows
        cb, rb = ca[::-1], ra[::-1]
    else:
        cb, rb = mkcat(c["b"]), rows_of(c["b"])
    e = [x == y for x, y in zip(ra, rb)]
    nt(True in e and False in e, c["a"]["k"], f"bases{c['a']['base']}{c['b']['base']}")
    g = b(ca == cb)
    # two filtered rows: both sides agree with the comparison of their expanded values
    require(g == e, "cat == cat", got=g, expected=e, case=c)
    g = b(ca != cb)
    require(g == [not t for t in e], "cat != cat", got=g, expected=[not t for t in e], case=c)
    for nm, f in ORD.items():
        if not (is_sorted_cat(ca) and is_sorted_cat(cb) and c["a"]["ord"] and (c["b"]["ord"] or c["share"])):
            continue
        g = b(f(ca, cb))
        for i, (x, y) in enumerate(zip(ra, rb)):
            if x != FILT and y != FILT:
                require(g[i] == f(x, y), f"cat {nm} cat at row {i}", got=g, case=c)


@st.composite
def s_other(draw):
    kind = draw(pick("cmap", "cmap", "cmulti", "cmulti", "inv", "bool", "cdate"))
    n = draw(sizes(1, 12))
    m = draw(st.integers(0, 2))
    pool = {"cmap": list(MAPS[m]) + [33], "cmulti": [0, 1, 2, 3], "inv": ["a", "b", "Inv", "zz"], "bool": [False, True], "cdate": [18000, 17000, 18001]}[kind]
    return {"kind": kind, "m": m, "v": draw(vals(pool, n)), "w": draw(vals(pool, n)), "sel": draw(st.integers(0, 31)), "filt": draw(st.one_of(st.none(), vals([True, True, False], n)))}


MULTI = [(1, "a"), (2, "a"), (1, "bb"), (3, "c")]


@facet("C11", s_other(), quick=2200, shards=2, rule="at least two distinct values")
def modes(c):
    """mapped, multi-key, invalid-category, boolean and date categories compare by value"""
    kind, v, n = c["kind"], c["v"], len(c["v"])
    nt(len(set(v)) > 1, kind)
    f = None if c["filt"] is None else rt.FastArray(np.array(c["filt"], dtype=bool))
    keep = [True] * n if f is None else c["filt"]
    if kind == "cmap":
        mp = MAPS[c["m"]]
        cat = rt.Categorical(rt.FastArray(np.array(v, dtype="int32")), dict(mp))
        for code, nm in mp.items():
            e = [x == code for x in v]
            for g, w in ((cat == nm, "== name"), (cat == code, "== code"), (cat.isin([nm]), "isin([name])"), (cat[nm], "[name]"), (~(cat != nm), "not != name")):
                require(b(g) == e, f"mapping {w}", got=b(g), expected=e, case=c)
        names = [nm for i, nm in enumerate(mp.values()) if c["sel"] >> i & 1]
        if names:
            e = [mp.get(x) in names for x in v]
            require(b(cat.isin(names)) == e, "mapping isin(names)", got=b(cat.isin(names)), expected=e, case=c)
            require(b(cat == names) == e, "mapping == names", got=b(cat == names), expected=e, case=c)
        require(b(cat.isfiltered()) == [x not in mp for x in v], "mapping isfiltered", case=c)
        o = rt.Categorical(rt.FastArray(np.array(c["w"], dtype="int32")), dict(mp))
        e = [x == y for x, y in zip(v, c["w"])]
        require(b(cat == o) == e and b(cat != o) == [not t for t in e], "mapping == mapping", got=b(cat == o), expected=e, case=c)
        return
    if kind == "cmulti":
        mk = lambda v, f: rt.Categorical([rt.FastArray(np.array([MULTI[i][0] for i in v], dtype="int32")), rt.FastArray(np.array([MULTI[i][1].encode() for i in v], dtype="S2"))], filter=f)
        cat = mk(v, f)
        rows = [MULTI[i] if y else FILT for i, y in zip(v, keep)]
        for t in MULTI + [(9, "a"), (1, "q")]:
            e = [r == t for r in rows]
            require(b(cat == t) == e, f"multikey == {t}", got=b(cat == t), expected=e, case=c)
            require(b(cat != t) == [not y for y in e], f"multikey != {t}", got=b(cat != t), case=c)
            require(b(cat[[t]]) == e, f"multikey [[{t}]]", got=b(cat[[t]]), expected=e, case=c)
        sel = [t for i, t in enumerate(MULTI + [(9, "a")]) if c["sel"] >> i & 1]
        if sel:
            e = [r in sel for r in rows]
            require(b(cat == sel) == e, "multikey == list of tuples", got=b(cat == sel), expected=e, case=c)
            require(b(cat != sel) == [not y for y in e], "multikey != list of tuples", got=b(cat != sel), case=c)
        o = mk(c["w"], None)
        e = [r != FILT and r in [MULTI[i] for i in c["w"]] for r in rows]
        if any(keep):
            require(b(cat.isin(o)) == e, "multikey isin(multikey)", got=b(cat.isin(o)), expected=e, case=c)
        require(b(cat.isfiltered()) == [not y for y in keep], "multikey isfiltered", case=c)
        return
    if kind == "inv":
        cat = rt.Categorical(np.array([x.encode() for x in v]), invalid="Inv", filter=f)
        rows = [x if y else FILT for x, y in zip(v, keep)]
        has = "Inv" in rows
        e = [x == "Inv" for x in rows]
        require(b(cat.isnan()) == e and b(cat.isna()) == e, "isnan with an invalid category", got=b(cat.isnan()), expected=e, case=c)
        require(b(cat.isnotnan()) == [not x for x in e] and b(cat.notna()) == [not x for x in e], "isnotnan with an invalid category", got=b(cat.isnotnan()), case=c)
        require(b(cat.isfiltered()) == [x == FILT for x in rows], "isfiltered with an invalid category", case=c)
        require(b(cat[::-1].isnan()) == e[::-1], "isnan of reversed rows", got=b(cat[::-1].isnan()), expected=e[::-1], case=c)
        ix = rt.FastArray(np.arange(n, dtype="int32"))
        require(b(cat[ix].isnan()) == e, "isnan of fancy rows", got=b(cat[ix].isnan()), expected=e, case=c)
        require(b(cat.copy().isnan()) == e, "isnan of a copy", got=b(cat.copy().isnan()), expected=e, case=c)
        return
    if kind == "bool":
        cat = rt.Categorical(rt.FastArray(np.array(v, dtype=bool)), filter=f)
        rows = [x if y else FILT for x, y in zip(v, keep)]
        for t in (True, False):
            e = [r == t and r != FILT for r in rows]
            require(b(cat == t) == e, f"bool category == {t}", got=b(cat == t), expected=e, case=c)
        return
    cat = rt.Categorical(rt.Date(np.array(v, dtype="int32")), filter=f)
    rows = [x if y else FILT for x, y in zip(v, keep)]
    o = rt.Categorical(rt.Date(np.array(c["w"], dtype="int32")))
    e = [x == y for x, y in zip(rows, c["w"])]
    require(b(cat == o) == e, "date category == date category", got=b(cat == o), expected=e, case=c)
    require(b(cat.isfiltered()) == [x == FILT for x in rows], "date category isfiltered", case=c)
