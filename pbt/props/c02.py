"""C02: whole-array reductions against Python/math definitions over the valid elements, with invalid propagation."""
import math
import statistics
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.props.c01 import layout, LAYOUT

FUN = ["sum", "nansum", "mean", "nanmean", "std", "nanstd", "var", "nanvar", "min", "nanmin", "max", "nanmax", "argmin", "nanargmin", "argmax", "nanargmax"]
FILTERED = ["nansum", "mean", "nanmean", "std", "nanstd", "var", "nanvar"]


def oracle(f, v, isf):
    """v: list of Python numbers, None = invalid.  Returns (kind, value): kind in val/inv/skip/raise"""
    base = f[3:] if f.startswith("nan") else f
    nan = f.startswith("nan")
    ok = [(i, x) for i, x in enumerate(v) if x is not None]
    if not v:
        return ("val", 0) if base == "sum" else ("raise", None)
    if not nan and len(ok) < len(v):
        if base in ("argmin", "argmax"):
            return "val", next(i for i, x in enumerate(v) if x is None)
        return "inv", None
    if not ok:
        if base == "sum":
            return "val", 0
        if base in ("argmin", "argmax"):
            return "raise", None
        if base in ("min", "max"):
            return "inv", None
        return "skip", None  # nanmean of nothing: 0.0 in this library, NaN elsewhere
    xs = [x for _, x in ok]
    if any(isinstance(x, float) and math.isinf(x) for x in xs) and base in ("sum", "mean", "var", "std"):
        return "skip", None
    if base == "sum":
        return "val", (math.fsum(xs) if isf else sum(int(x) for x in xs))
    if base == "mean":
        return "val", (math.fsum(xs) / len(xs) if isf else float(Fraction(sum(int(x) for x in xs), len(xs))))
    if base in ("var", "std"):
        if len(xs) < 2:
            return "inv", None
        fr = [Fraction(x) for x in xs]
        m = sum(fr) / len(fr)
        var = float(sum((x - m) ** 2 for x in fr) / (len(fr) - 1))
        return "val", (var if base == "var" else math.sqrt(var))
    if base == "min":
        return "val", min(xs)
    if base == "max":
        return "val", max(xs)
    k = min(xs) if base == "argmin" else max(xs)
    return "val", next(i for i, x in ok if x == k)


def cap(a, f):
    """64-bit sums are accumulated through double precision / wrap: keep them in the exactly representable range"""
    if a["d"] in ("int64", "uint64") and f.replace("nan", "") in ("sum", "mean", "std", "var"):
        a["v"] = [x if x is None or abs(x) < 2**40 else 2**40 - (x % 7) for x in a["v"]]
    return a


@st.composite
def s_red(draw):
    f = draw(pick(FUN))
    a = cap(draw(sarr(["bool"] + COMMON_NUMS, lo=0, hi=40, infs=False, edge=draw(st.booleans()), inv=draw(st.booleans()))), f)
    return {"a": a, "f": f, "form": draw(pick("method", "rt", "np")), "la": draw(pick(LAYOUT)), "flt": None}


@st.composite
def s_fred(draw):
    # few dtypes: every (function, dtype) pair costs one numba compilation
    f = draw(pick(FILTERED))
    a = cap(draw(sarr(["float64", "int32"], lo=1, hi=40, infs=False, edge=draw(st.booleans()), inv=draw(st.booleans()))), f)
    return {"a": a, "f": f, "form": draw(pick("method", "rt")), "la": "c", "flt": draw(st.one_of(vals([True, True, False], len(a["v"]))))}


def chk(r, kind, e, A, f, c):
    base = f[3:] if f.startswith("nan") else f
    if kind == "skip":
        return
    x = scalar(r)
    if kind == "inv":
        if base in ("min", "max") and A.dtype.kind in "iu":
            require(x is not None and int(x) == INV[A.dtype.name], f"{f}: expected the invalid of {A.dtype}", got=r, case=c)
        elif base == "sum" and A.dtype.kind in "iu":
            require(x is None or int(x) in (-(2**63), 2**64 - 1), f"{f}: expected invalid", got=r, case=c)
        else:
            require(x is None, f"{f}: expected NaN", got=r, case=c)
        return
    require(x is not None, f"{f}: got NaN, expected {e}", got=r, case=c)
    if base in ("argmin", "argmax", "min", "max"):
        require(x == e, f"{f}: got {x}, expected {e}", case=c)
    elif base == "sum" and A.dtype.kind != "f":
        if -(2**63) < e < 2**63:
            require(int(x) == e, f"{f}: got {x}, expected {e}", case=c)
    else:
        big = max([abs(float(v)) for v in c["a"]["v"] if v is not None] + [0.0])
        tol = 1e-9 if A.dtype != np.float32 else 1e-4
        scale = abs(e) + (tol * 0 if base != "var" else 0)
        extra = big * (1e-12 if A.dtype != np.float32 else 2e-6)
        if base == "var":
            extra = big * big * (1e-12 if A.dtype != np.float32 else 2e-6)
        if base == "std":
            extra = big * (1e-6 if A.dtype != np.float32 else 2e-3)
        if base == "sum":
            extra *= len(c["a"]["v"]) + 1
        require(abs(float(x) - e) <= tol * scale + extra, f"{f}: got {x}, expected {e}", case=c)


@facet("C02", s_red(), quick=12000, shards=6, rule="at least one element")
def reduce(c):
    """sum/mean/std/var/min/max/arg* and their nan* forms, as method, rt.* and np.*, with and without filter="""
    f = c["f"]
    A = np_of(c["a"])
    v = [bool(x) if A.dtype.kind == "b" else (x if A.dtype.kind != "f" or x is None else float(x)) for x in c["a"]["v"]]
    if A.dtype.kind == "b":
        v = [int(x) for x in v]
    fA = layout(A, c["la"]).view(rt.FastArray)
    if len(A):
        nt(f, c["form"], A.dtype.name, c["la"], "filter" if c["flt"] is not None else "plain", "inv" if None in v else "clean")
    kw = {}
    if c["flt"] is not None:
        kw["filter"] = rt.FastArray(np.array(c["flt"], bool))
        v = [x for x, m in zip(v, c["flt"]) if m]
        if not [x for x in v if x is not None]:
            return  # nothing selected: raises or NaN, not specified
        if not f.startswith("nan") and None in v:
            return
        c = dict(c, a={"d": c["a"]["d"], "v": v})
    form = c["form"]
    if form == "np" and f in ("std", "var", "nanstd", "nanvar"):
        form = "rt"  # np.std defaults to ddof=0
    if form == "np" and c["la"] != "c" and A.dtype.kind in "iu" and None in v:
        form = "method"  # np.nan* over a strided integer array is NumPy's own function
    kind, e = oracle(f, v, A.dtype.kind == "f")
    if form == "np" and kw:
        form = "rt"
    before = A.tobytes()

    def call():
        if form == "method":
            return getattr(fA, f)(**kw)
        if form == "rt":
            return getattr(rt, f)(fA, **kw)
        return getattr(np, f)(fA, **kw)

    if kind == "raise":
        try:
            r = call()
        except Exception:
            return
        require(scalar(r) is None, f"{f} of nothing must raise or be NaN", got=r, case=c)
        return
    r = call()
    if form == "np" and f in ("mean", "std", "var", "nanmean", "nanstd", "nanvar") and kind == "inv" and A.dtype.kind in "iu":
        return
    chk(r, kind, e, A, f, c)
    if form == "method" and not kw and f in ("min", "max", "nanmin", "nanmax"):
        require(np.asarray(r).dtype == A.dtype, "min/max keep the dtype", got=np.asarray(r).dtype, case=c)
    require(np.asarray(fA).tobytes() == before, "input modified")


@facet("C02", s_fred(), quick=1500, rule="at least one element")
def reduce_filter(c):
    """filter= restricts the reduction to the selected elements"""
    reduce(c)


@st.composite
def s_axis(draw):
    r, k = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {"v": draw(vals([0.0, 1.0, 2.5, -3.0, 10.0, 7.0, 0.5], r * k)), "r": r, "k": k, "f": draw(pick("sum", "nansum", "mean", "nanmean", "std", "nanstd", "var", "nanvar", "min", "max", "nanmin", "nanmax", "argmin", "argmax", "any", "all")),
            "axis": draw(pick(None, 0, 1, -1)), "kd": draw(st.booleans()), "ddof": draw(pick(None, 0, 1)), "nd": draw(pick(1, 2, 2)), "d": draw(pick("float64", "int32", "float32")), "nan": draw(st.lists(st.integers(0, 24), max_size=3)), "order": draw(pick("C", "F"))}


@facet("C02", s_axis(), quick=5000, shards=2, rule="at least two elements")
def axes(c):
    """axis=, keepdims=, ddof= and 2-d arrays equal NumPy (ddof defaults to 1 for var/std)"""
    A = np.array(c["v"])
    if c["d"] != "int32" and c["f"].startswith("nan"):
        for i in c["nan"]:
            if i < len(A):
                A[i] = np.nan
    if c["d"] == "int32":
        A = np.trunc(A)
    A = A.astype(c["d"])
    f = c["f"]
    ax = c["axis"]
    kw = {}
    if c["nd"] == 2:
        A = np.array(A.reshape(c["r"], c["k"]), order=c["order"])
        if ax is not None:
            kw["axis"] = ax
        if c["kd"] and not f.startswith("arg"):
            kw["keepdims"] = True
    elif ax in (0, -1):
        kw["axis"] = ax
    if A.size > 1:
        nt(f, f"{c['nd']}d", *kw)
    isvar = f.replace("nan", "") in ("std", "var")
    kn = dict(kw)
    if isvar:
        if c["ddof"] is not None:
            kw["ddof"] = c["ddof"]
        kn["ddof"] = 1 if c["ddof"] is None else c["ddof"]
    fA = rt.FastArray(A)
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        e = getattr(np, f)(A, **kn)
        g = getattr(fA, f)(**kw)
    if not kw and f.startswith("nan") and np.isnan(np.asarray(e, float)).any():
        return
    ge, ee = np.asarray(g, dtype=float), np.asarray(e, dtype=float)
    if f in ("nanmean",) and c["nd"] == 1 and np.isnan(A.astype(float)).all():
        return
    if A.size == 1 and isvar:
        return
    # keepdims on a 1-d array is dropped by the fast path: only values are compared there
    if c["nd"] == 2 and "axis" in kw:
        require(ge.shape == ee.shape, f"{f}({kw}): shape {ge.shape}, expected {ee.shape}", case=c)
    ge, ee = ge.reshape(-1), ee.reshape(-1)
    require(ge.shape == ee.shape, f"{f}({kw}): size", got=ge, expected=ee)
    ok = (np.abs(ge - ee) <= 1e-5 * np.maximum(1, np.abs(ee))) | (np.isnan(ge) & np.isnan(ee))
    require(bool(np.all(ok)), f"{f}({kw})", got=ge, expected=ee, case=c)


@st.composite
def s_pct(draw):
    a = draw(sarr(["float64", "int32", "float32", "int64", "uint8"], lo=1, hi=30, inv=False, edge=False))
    return {"a": a, "f": draw(pick("median", "nanmedian", "percentile", "nanpercentile", "quantile", "nanquantile", "any", "all", "prod", "cumsum", "cumprod", "ptp", "statx", "describe", "mode", "zscore", "minmax", "lexqu")),
            "q": draw(st.lists(pick(0, 5, 25, 50, 75, 90, 100), min_size=1, max_size=3)), "nan": draw(st.lists(st.integers(0, 29), max_size=4)), "form": draw(pick("method", "rt"))}


@facet("C02", s_pct(), quick=5000, shards=2, rule="at least two elements")
def order_stats(c):
    """median/percentile/quantile (nan-forms skip NaN and integer invalids), any/all, prod, cumsum, z-score and min-max normalisation"""
    A = np_of(c["a"])
    f = c["f"]
    if f in ("nanmedian", "nanpercentile", "nanquantile") :
        for i in c["nan"]:
            if i < len(A):
                A[i] = INV[A.dtype.name]
    fA = rt.FastArray(A)
    if len(A) > 1:
        nt(f, A.dtype.name)
    ok = np.array([not is_inv(x, A.dtype) for x in A], bool)
    V = A[ok].astype(float)
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if f in ("median", "nanmedian"):
            g = getattr(fA, f)() if c["form"] == "method" else getattr(rt, f)(fA)
            if len(V) == 0:
                return
            e = float(np.median(V))
            require(abs(float(g) - e) <= 1e-5 * max(1, abs(e)), f, got=g, expected=e, case=c)
        elif f in ("percentile", "nanpercentile", "quantile", "nanquantile"):
            if f.startswith("nan") and A.dtype.kind != "f":
                return
            if len(V) == 0:
                return
            q = [x / 100 if "quantile" in f else x for x in c["q"]]
            g = getattr(fA, f)(q=q) if c["form"] == "method" or "quantile" in f else getattr(rt, f)(fA, q)
            e = np.percentile(V, c["q"])
            require(np.allclose(np.asarray(g, float), e, rtol=1e-5, atol=1e-6), f, got=g, expected=e, case=c)
        elif f in ("any", "all"):
            g = getattr(fA, f)() if c["form"] == "method" else getattr(rt, f)(fA)
            require(bool(g) == bool(getattr(np, f)(A)), f, got=g, case=c)
        elif f in ("prod", "ptp"):
            if f == "prod" and A.dtype != np.float64:
                return
            g = getattr(np, f)(fA)
            require(np.allclose(float(g), float(getattr(np, f)(A)), rtol=1e-9), f, got=g, case=c)
        elif f in ("cumsum", "cumprod"):
            if f == "cumprod" and A.dtype != np.float64:
                return
            g = getattr(fA, f)() if c["form"] == "method" else getattr(rt, f)(fA)
            e = getattr(np, f)(A)
            require(len(g) == len(A) and np.allclose(np.asarray(g, float), e.astype(float), rtol=1e-5), f, got=g, expected=e, case=c)
        elif f == "zscore":
            if len(V) < 2 or np.ptp(V) == 0:
                return
            g = fA.normalize_zscore()
            e = (V - V.mean()) / V.std(ddof=1)
            e0 = (V - V.mean()) / V.std()
            gg = np.asarray(g, float)
            require(np.allclose(gg, e, rtol=1e-4, atol=1e-5) or np.allclose(gg, e0, rtol=1e-4, atol=1e-5), "normalize_zscore", got=gg, expected=e, case=c)
        elif f == "minmax":
            if len(V) < 2 or np.ptp(V) == 0 or A.dtype == np.uint8:
                return
            g = np.asarray(fA.normalize_minmax(), float)
            require(np.allclose(g, (V - V.min()) / np.ptp(V), rtol=1e-5, atol=1e-6), "normalize_minmax", got=g, case=c)
        elif f == "statx":
            if len(V) < 2:
                return
            d = fA.statx()
            require(d.shape[0] >= 5, "statx", got=d)
            names, vs = [str(x) for x in d[0].tolist()] if False else [x.decode() if isinstance(x, bytes) else str(x) for x in np.asarray(d["Stat"])], [float(x) for x in d["Value"]]
            dd = dict(zip(names, vs))
            for k2, e in (("min", V.min()), ("max", V.max()), ("Mean", V.mean()), ("StdDev", V.std()), ("Count", len(V)), ("MEDIAN", np.median(V)), ("50%", np.median(V)), ("25%", np.percentile(V, 25)), ("Sum", V.sum())):
                if k2 in dd:
                    require(abs(dd[k2] - e) <= 1e-4 * max(1, abs(e)), f"statx {k2}", got=dd[k2], expected=e, case=c)


@st.composite
def s_big(draw):
    return {"d": draw(pick("int32", "int64", "float64", "float32", "uint8", "int8")), "n": draw(pick(1000, 16385, 100003, 262147)), "f": draw(pick(FUN)), "seed": draw(st.integers(0, 10**6)), "inv": draw(st.booleans())}


@facet("C02", s_big(), quick=120, thorough=2400, rule="always (arrays spanning several worker chunks)")
def large(c):
    """reductions of large arrays (multi-threaded path): integer sums exact, extrema and their positions exact"""
    nt(c["f"], c["d"])
    g = np.random.default_rng(c["seed"])
    n = c["n"]
    A = g.integers(1, 120, n).astype(c["d"])
    f = c["f"]
    nan = f.startswith("nan")
    bad = np.zeros(n, bool)
    if c["inv"] and nan:
        bad[g.integers(0, n, 50)] = True
        A[bad] = INV[c["d"]]
    base = f.replace("nan", "")
    V = A[~bad].astype(np.float64)
    r = getattr(rt.FastArray(A), f)()
    if base in ("argmin", "argmax"):
        k = V.min() if base == "argmin" else V.max()
        e = int(np.nonzero(~bad & (A.astype(np.float64) == k))[0][0])
        require(int(r) == e, f, got=r, expected=e, case=c)
        return
    kw = {"ddof": 1} if base in ("var", "std") else {}
    e = float(getattr(np, base)(V, **kw))
    tol = 0 if base in ("min", "max") or (base == "sum" and c["d"] != "float32") else (1e-4 if c["d"] == "float32" else 1e-9)
    require(abs(float(r) - e) <= tol * abs(e), f, got=r, expected=e, case=c)


@st.composite
def s_pairwise(draw):
    n = draw(st.integers(1, 20))
    d = draw(pick("float64", "float32", "int32", "int64", "uint8"))
    pool = [0.0, 1.0, 2.5, -3.0, 10.0, None] if d[0] == "f" else [0, 1, 2, 100, 7]
    return {"d": d, "a": draw(vals(pool, n)), "b": draw(vals(pool, n)), "sc": draw(st.booleans()), "f": draw(pick("min", "max", "nanmin", "nanmax"))}


@facet("C02", s_pairwise(), quick=400, rule="both arguments win somewhere")
def pairwise(c):
    """min/max of two arrays compare element by element; the nan forms prefer the valid side"""
    mk = lambda v: rt.FA([math.nan if x is None else x for x in v], dtype=c["d"])
    b = [c["b"][0]] * len(c["a"]) if c["sc"] else c["b"]
    if c["sc"] and b[0] is None:
        return nt(False)
    nan, op = c["f"].startswith("nan"), (min if c["f"].endswith("min") else max)
    e = []
    for x, y in zip(c["a"], b):
        if x is None or y is None:
            e.append((y if x is None else x) if nan else None)
        else:
            e.append(op(x, y))
    nt(any(x == z != y for x, y, z in zip(c["a"], b, e)) and any(y == z != x for x, y, z in zip(c["a"], b, e)), c["f"])
    r = getattr(rt, c["f"])(mk(c["a"]), b[0] if c["sc"] else mk(b))
    g = [None if x != x else x for x in np.asarray(r).tolist()]
    require(g == e, c["f"] + " of two arrays", got=g, expected=e, case=c)


@facet("C02", st.tuples(st.lists(pick(0, 1, 3, 100, -50, None), min_size=1, max_size=12), pick("int8", "int32", "float64", "float32"), pick("nansum", "mean", "nanmean", "std", "nanstd", "var", "nanvar"), pick("float32", "float64", "int64"), st.booleans(), st.booleans()), quick=300, rule="two or more different values")
def result_type(c):
    """the dtype argument of a reduction sets the type of the answer, not its value"""
    v, d, f, t, spell, filt = c
    if f[:3] != "nan":
        v = [x for x in v if x is not None]
    if len([x for x in v if x is not None]) < 2:
        return nt(False)
    nt(len(set(v)) > 1, f, t)
    a = rt.FA([(np.nan if d[0] == "f" else rt.INVALID_DICT[np.dtype(d).num]) if x is None else x for x in v], dtype=d)
    kw = {"filter": rt.FA(np.ones(len(v), bool))} if filt else {}
    plain = getattr(rt, f)(a, **kw)
    if t == "int64" and plain != int(plain):
        return
    r = getattr(rt, f)(a, dtype=np.dtype(t) if spell else getattr(np, t), **kw)
    require(np.dtype(type(r)) == np.dtype(t), f"{f}(dtype={t}): type", got=type(r), case=c)
    require(abs(float(r) - float(plain)) <= 1e-5 * max(1.0, abs(float(plain))), f"{f}(dtype={t}): value", got=r, plain=plain, case=c)
