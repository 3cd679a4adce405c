"""C04: dtype conversions, NA tests, NA replacement, copies and pickling against the sentinel table."""
import pickle

import copy as _copy
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.props.c01 import layout, LAYOUT

DT = ["bool"] + NUMS


def repr_in(x, d):
    """is Python number x exactly representable as a *valid* element of dtype d"""
    if d == "bool":
        return x in (0, 1)
    if d in FLOATS:
        return float(np.dtype(d).type(x)) == x and abs(x) < 1e300 and float(x) == x
    if x != int(x):
        return False
    lo, hi = lo_hi(d)
    return lo <= x <= hi


@st.composite
def s_conv(draw):
    a = draw(sarr(DT, hi=24))
    return {"a": a, "to": draw(pick(DT)), "form": draw(pick("astype", "astype", "ctor", "str", "rtcls", "kw", "nocopy")), "la": draw(pick(LAYOUT))}


@facet("C04", s_conv(), quick=8000, shards=4, rule="at least one element, source and target dtype differ")
def convert(c):
    """astype / rt.<dtype>(array): representable values are kept, invalid maps to the target's invalid, nothing else becomes invalid"""
    d, to = c["a"]["d"], c["to"]
    A = np_of(c["a"])
    v = [None if x is None else x.item() for x in A]
    v = [None if c["a"]["v"][i] is None else x for i, x in enumerate(v)]
    a = layout(A, c["la"]).view(rt.FastArray)
    if len(v) and d != to:
        nt(c["form"], f"{d[0]}>{to[0]}", c["la"])
    f = c["form"]
    if f == "astype":
        r = a.astype(np.dtype(to))
    elif f == "str":
        r = a.astype(to)
    elif f == "rtcls":
        r = getattr(rt, to if to != "bool" else "bool_")(a)
    elif f == "kw":
        r = a.astype(dtype=to, copy=True)
    elif f == "nocopy":
        r = a.astype(to, copy=False)
    else:
        if None in v and d != to:
            return  # the constructor converts like NumPy
        r = rt.FastArray(a, dtype=to)
        if d in FLOATS and to not in FLOATS:
            return
    require(r.dtype == np.dtype(to) and len(r) == len(v), "dtype/length", got=r.dtype, case=c)
    R = np.asarray(r.view(np.ndarray))
    for i, x in enumerate(v):
        g = R[i].item()
        if x is None:
            if to == "bool":
                continue
            require(is_inv(g, to), f"invalid {d} -> {to}: element {i} is {g}", case=c)
        elif to == "bool":
            require(bool(g) == bool(x), f"{d} {x} -> bool gives {g}", case=c)
        elif repr_in(x, to):
            require(g == x and not is_inv(g, to), f"{d} {x} -> {to}: gives {g}", case=c)
        elif d in FLOATS and to in INTS:
            lo, hi = lo_hi(to)
            if lo <= int(x) <= hi and not (to == "uint64" or abs(x) > 2**62) and (to in SINTS or x >= 0):
                require(g == int(x), f"{d} {x} -> {to}: gives {g}, expected truncation", case=c)
        elif d == "float64" and to == "float32":
            require(g == float(np.float32(x)), f"{x} -> float32 gives {g}", case=c)
        elif d in INTS and to in FLOATS:
            require(g == float(np.dtype(to).type(x)), f"{x} -> {to} gives {g}", case=c)
    require(np.asarray(a).tobytes() == A.tobytes(), "source modified")


@st.composite
def s_na(draw):
    return {"a": draw(sarr(DT + ["S", "U"], hi=24, infs=True)), "la": draw(pick(LAYOUT)), "form": draw(pick("method", "rt")), "fancy": draw(st.booleans())}


@facet("C04", s_na(), quick=5000, shards=3, rule="at least one element")
def na_tests(c):
    """isnan/isna/notna/isfinite/isinf/isnanorzero agree with the sentinel table for every dtype and memory layout"""
    d = c["a"]["d"]
    A = np_of(c["a"])
    a = layout(A, c["la"]).view(rt.FastArray)
    v = c["a"]["v"]
    bad = [x == "" if d in "SU" else x is None for x in v]
    inf = [isinstance(x, float) and abs(x) == float("inf") for x in v]
    zero = [(not isinstance(x, str)) and x is not None and x == 0 for x in v]
    if v:
        nt(d, c["la"], c["form"])
    exp = {
        "isnan": bad, "isna": bad, "notna": [not b for b in bad], "isnotnan": [not b for b in bad],
        "isfinite": [not b and not i for b, i in zip(bad, inf)], "isnotfinite": [b or i for b, i in zip(bad, inf)],
        "isinf": inf, "isnotinf": [not i for i in inf], "isnanorzero": [b or z for b, z in zip(bad, zero)],
    }
    for nm, e in exp.items():
        if d in "SU" and nm in ("isinf", "isnotinf", "isnanorzero"):
            continue
        if nm == "isnotinf" and d not in FLOATS:
            continue
        if c["form"] == "rt" and hasattr(rt, nm) and d not in "SU":
            g = getattr(rt, nm)(a)
        else:
            g = getattr(a, nm)()
        require(g.dtype == bool, nm + " dtype", got=g.dtype)
        require(np.asarray(g).tolist() == e, f"{nm} of {d}", got=np.asarray(g).tolist(), expected=e, values=v, layout=c["la"])
        if c["fancy"] and nm not in ("isna", "notna"):
            g = getattr(a, nm)(fancy=True)
            require([int(x) for x in g] == [i for i, b in enumerate(e) if b], f"{nm}(fancy=True)", got=g, expected=e)


@st.composite
def s_fill(draw):
    d = draw(pick("float64", "int32", "int64", "float32", "int8", "uint8", "uint16", "S"))
    n = draw(sizes(0, 20))
    return {"d": d, "v": draw(vals(([1, 2, 3, None, 5, None, 9] if d != "S" else ["a", "", "bb"]), n)), "w": draw(pick(0, 7, 42)), "inp": draw(st.booleans()), "arr": draw(st.booleans()),
            "k": draw(pick("replacena", "fillna", "copy", "pickle", "fill_invalid", "copy_invalid", "deepcopy", "inv", "full", "like", "nan_to_zero", "ctor_list")), "la": draw(pick(LAYOUT)), "n2": draw(st.integers(0, 5))}


@facet("C04", s_fill(), quick=5000, shards=2, rule="at least one element")
def replace_copy(c):
    """replacena/fillna change exactly the invalid elements; copies and pickles preserve everything; fill_invalid invalidates everything"""
    d, v, k = c["d"], c["v"], c["k"]
    A = np_of({"d": d, "v": v})
    a = layout(A, c["la"]).view(rt.FastArray)
    w = c["w"] if d != "S" else b"zz"
    we = c["w"] if d != "S" else "zz"[: A.dtype.itemsize]
    isna = [x is None or x == "" for x in v]
    n = len(v)
    if n:
        nt(k, d, c["la"])

    def eq(g, e, what):
        if d in FLOATS:
            e = [None if x is None else float(x) for x in e]
        same(g, e, what, dtype=A.dtype, case=c)

    if k in ("replacena", "fillna"):
        f = getattr(a, k)
        e = [we if b else x for x, b in zip(v, isna)]
        if c["inp"]:
            r = f(w, inplace=True)
            require(r is None, "in-place form returns None", got=r)
            eq(a, e, f"{k} in place")
        else:
            eq(f(w), e, k)
            eq(a, v, "source untouched")
        if k == "fillna":
            require(raises(a.fillna) is not None, "fillna() without value or method must raise")
            require(raises(a.fillna, method="nope") is not None, "fillna(method='nope') must raise")
    elif k == "copy":
        b = a.copy()
        eq(b, v, "copy")
        b2 = rt.FastArray(a)
        eq(b2, v, "FastArray(a)")
        if n:
            b[0] = b"q" if d == "S" else 55
            eq(a, v, "copy is independent")
    elif k == "deepcopy":
        eq(_copy.deepcopy(a), v, "deepcopy")
        eq(_copy.copy(a), v, "copy.copy")
    elif k == "pickle":
        for proto in (2, pickle.HIGHEST_PROTOCOL):
            b = pickle.loads(pickle.dumps(a, proto))
            require(type(b) is rt.FastArray, "pickle keeps the class", got=type(b))
            eq(b, v, "pickle round trip")
    elif k == "fill_invalid":
        r = a.fill_invalid(inplace=False)
        eq(r, ["" if d == "S" else None] * n, "fill_invalid copy")
        eq(a, v, "source untouched")
        r = a.fill_invalid(shape=c["n2"], inplace=False)
        eq(r, ["" if d == "S" else None] * c["n2"], "fill_invalid(shape)")
        if c["n2"] != n:
            require(raises(a.fill_invalid, shape=c["n2"]) is not None, "in-place with another shape must raise")
        a.fill_invalid()
        eq(a, ["" if d == "S" else None] * n, "fill_invalid in place")
    elif k == "copy_invalid":
        eq(a.copy_invalid(), ["" if d == "S" else None] * n, "copy_invalid")
        eq(a, v, "source untouched")
    elif k == "inv":
        if d != "S":
            require(is_inv(a.inv, d), "inv", got=a.inv)
            require(is_inv(getattr(rt, d).inv, d), "class inv")
    elif k == "full" and d != "S":
        eq(rt.full(c["n2"], c["w"], dtype=d), [c["w"]] * c["n2"], "full")
        eq(rt.zeros(c["n2"], dtype=d), [0] * c["n2"], "zeros")
        eq(rt.ones(c["n2"], dtype=d), [1] * c["n2"], "ones")
        require(len(rt.empty(c["n2"], dtype=d)) == c["n2"], "empty")
        eq(rt.arange(c["n2"], dtype=d), list(range(c["n2"])), "arange")
    elif k == "like":
        eq(rt.zeros_like(a), [0 if d != "S" else ""] * n, "zeros_like")
        if d != "S":
            eq(rt.ones_like(a), [1] * n, "ones_like")
        require(len(rt.empty_like(a)) == n and rt.empty_like(a).dtype == A.dtype, "empty_like")
    elif k == "ctor_list" and d not in ("S",):
        eq(rt.FastArray([INV[d] if x is None else x for x in v], dtype=d), v, "FastArray(list, dtype)")
        eq(rt.FastArray(tuple(INV[d] if x is None else x for x in v), dtype=d), v, "FastArray(tuple, dtype)")
        eq(rt.asanyarray(a), v, "asanyarray")
        eq(rt.asarray(a), v, "asarray")
    elif k == "nan_to_zero" and d != "S":
        eq(rt.nan_to_zero(a.copy()), [0 if x is None else x for x in v], "nan_to_zero")


@st.composite
def s_cls(draw):
    n = draw(sizes(0, 12))
    return {"v": draw(vals([None, 0, 3, 37, 400], n)), "cls": draw(pick("DateTimeNano", "Date", "TimeSpan", "DateSpan", "Categorical", "CatNum", "CatInv"))}


@facet("C04", s_cls(), quick=1500, rule="at least one element")
def classes(c):
    """date, time and category arrays: NA tests, invalidation, copy and pickle"""
    from pbt.props.c03 import mkcls

    v, cls = c["v"], c["cls"]
    if cls == "Categorical":
        if not v:
            return
        a = rt.Categorical([f"k{x}" for x in v], filter=rt.FastArray([x is not None for x in v], dtype=bool))
    elif cls == "CatNum":
        if not [x for x in v if x is not None]:
            return
        a = rt.Categorical(rt.FastArray([0 if x is None else x for x in v]), filter=rt.FastArray([x is not None for x in v], dtype=bool))
    elif cls == "CatInv":
        if not v:
            return
        a = rt.Categorical([f"k{x}" for x in v], invalid="kNone")
    else:
        a = mkcls(v, cls)
    if v:
        nt(cls)
    bad = [x is None for x in v]
    filt = bad
    if cls == "CatInv":
        filt = [False] * len(v)
    elif cls.startswith("Cat"):
        bad = [False] * len(v)  # filtered is not the same as invalid
    for nm, e in (("isnan", bad), ("isna", bad), ("isnotnan", [not b for b in bad]), ("notna", [not b for b in bad])):
        if hasattr(a, nm):
            require(np.asarray(getattr(a, nm)()).tolist() == e, f"{cls}.{nm}", got=getattr(a, nm)(), expected=e, case=c)
    if cls.startswith("Cat"):
        require(np.asarray(a.isfiltered()).tolist() == filt, "isfiltered", got=a.isfiltered(), expected=filt)
    require(np.asarray(rt.isnan(a)).tolist() == bad, "rt.isnan", got=rt.isnan(a), expected=bad)
    raw = np.asarray((a._fa if cls.startswith("Cat") else a).view(np.ndarray))
    for b, what in ((a.copy(), "copy"), (pickle.loads(pickle.dumps(a)), "pickle"), (_copy.deepcopy(a), "deepcopy")):
        require(type(b) is type(a), what + " class", got=type(b))
        raw2 = np.asarray((b._fa if cls.startswith("Cat") else b).view(np.ndarray))
        require(raw.dtype == raw2.dtype and raw.tobytes() == raw2.tobytes(), what + " content", got=raw2, expected=raw)
        if cls.startswith("Cat"):
            require([str(x) for x in b.category_array] == [str(x) for x in a.category_array], what + " categories")
        if cls == "DateTimeNano":
            require([str(x) for x in b.strftime("%Y%m%d %H:%M:%S")] == [str(x) for x in a.strftime("%Y%m%d %H:%M:%S")], what + " keeps the time zone")
    ci = a.copy_invalid()
    require(type(ci) is type(a) and len(ci) == len(v), "copy_invalid class/length", got=type(ci))
    require(np.asarray(ci.isfiltered() if cls.startswith("Cat") else ci.isnan()).all(), "copy_invalid is all NA", got=ci)
    require(raw.tobytes() == np.asarray((a._fa if cls.startswith("Cat") else a).view(np.ndarray)).tobytes(), "source changed")
