"""Column zoo: generated column specs of every supported column kind, their riptable objects, and canonical Python values."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt

from .core import fail, require
from .lib import *
from .props.c01 import layout, LAYOUT

FILT = "<filtered>"
NS = 86_400_000_000_123
NUMK = ["int32", "float64", "int64", "float32", "int8", "int16", "uint8", "uint16", "uint32", "uint64"]
BASIC = NUMK + ["bool", "S", "U"]
CATK = ["cat", "catU", "catn", "catf", "cat0", "cmap", "cmulti", "cdate"]
TIMEK = ["date", "dtn", "tspan", "dspan"]
ALLK = BASIC + CATK + TIMEK
CLS = {"date": "Date", "dtn": "DateTimeNano", "tspan": "TimeSpan", "dspan": "DateSpan", **{k: "Categorical" for k in CATK}}
MAPS = [{1: "x", 2: "y", 5: "z"}, {1: "x", 3: "w"}, {2: "y", 1: "x", 7: "q"}]
TZS = ["NYC", "GMT", "DUBLIN"]


@st.composite
def scol(draw, n, kinds=ALLK, inv=True, few=False):
    """spec of one column with n rows"""
    k = draw(pick(kinds))
    c = {"k": k}
    if k in NUMK:
        pool = ([0, 1, 2, None] if inv else [0, 1, 2]) if few else pool_for(k, inv=inv)
        if few and k.startswith("f"):
            pool = [None if x is None else x + 0.5 for x in pool]
    elif k == "bool":
        pool = [False, True]
    elif k == "S":
        pool = (["a", "b", ""] if few else WORDS_E) if inv else WORDS
    elif k == "U":
        pool = UWORDS[:4] if few else UWORDS + ([""] if inv else [])
    elif k == "cat":
        pool = ["b", "a", "zz", "c", "longer word"]
    elif k == "catU":
        pool = ["b", "ñ", "日本", "a"]
    elif k == "catn":
        pool = [3, 1, 2, -7]
    elif k == "catf":
        pool = ["b", "a", None, "zz"] if inv else ["b", "a", "zz"]
    elif k == "cat0":
        pool = ["b", "a", "zz", "q"]
    elif k == "cmap":
        m = c["m"] = draw(st.integers(0, 2))
        pool = list(MAPS[m])
    elif k == "cmulti":
        pool = [(1, "a"), (2, "a"), (1, "bb"), (3, "c")]
    elif k == "cdate":
        pool = [18000, 18001, 17000]
    elif k == "date" or k == "dtn" or k == "tspan" or k == "dspan":
        pool = [18000, 18001, 17000, 18000, 18999, 1] + ([None] if inv else [])
        if k == "dtn":
            c["tz"] = 0
    c["v"] = draw(vals(pool, n))
    return c


def mkcol(c, la="c"):
    k, v = c["k"], c["v"]
    n = len(v)
    L = lambda a: layout(a, la).view(rt.FastArray)
    if k in NUMK or k in ("bool", "S", "U"):
        return L(np_of({"d": k, "v": v}))
    if k == "date":
        return rt.Date(L(np.array([0 if x is None else x for x in v], dtype="int32")))
    if k == "dspan":
        return rt.DateSpan(L(np.array([INV["int32"] if x is None else x for x in v], dtype="int32")))
    if k == "dtn":
        return rt.DateTimeNano(L(np.array([0 if x is None else x * NS for x in v], dtype="int64")), from_tz="GMT", to_tz=TZS[c.get("tz", 0)])
    if k == "tspan":
        return rt.TimeSpan(L(np.array([np.nan if x is None else x * 1e9 for x in v], dtype="float64")))
    if k == "cmap":
        return rt.Categorical(rt.FastArray(np.array(v, dtype="int32")), dict(MAPS[c["m"]]))
    if k == "cmulti":
        return rt.Categorical([rt.FastArray(np.array([x[0] for x in v], dtype="int32")), rt.FastArray(np.array([x[1].encode() for x in v], dtype="S2"))])
    if k == "cdate":
        return rt.Categorical(rt.Date(np.array(v, dtype="int32")))
    if k == "catn":
        return rt.Categorical(rt.FastArray(np.array(v, dtype="int64")))
    if k == "catU":
        return rt.Categorical(rt.FastArray(np.array(v, dtype="U"), unicode=True))
    if k == "cat0":
        return rt.Categorical(np.array(v, dtype="S"), base_index=0)
    if k == "catf":
        return rt.Categorical(np.array([b"" if x is None else x.encode() for x in v], dtype="S4"), filter=rt.FastArray(np.array([x is not None for x in v], dtype=bool)))
    return rt.Categorical(np.array(v, dtype="S"))


def want(c):
    """canonical values of the spec"""
    k, v = c["k"], c["v"]
    if k in ("S", "U"):
        return [x or "" for x in v]
    if k == "dtn":
        return [None if x is None else x * NS for x in v]
    if k == "tspan":
        return [None if x is None else x * 1e9 for x in v]
    if k == "cmap":
        return [(x, MAPS[c["m"]][x]) for x in v]
    if k == "catf":
        return [FILT if x is None else x for x in v]
    return list(v)


def missing(kind):
    """canonical value of a missing cell in a column of that kind"""
    return {"S": "", "U": "", "bool": False}.get(kind, FILT if kind in CATK else None)


def canon(a):
    """canonical Python values of a riptable column"""
    if isinstance(a, rt.Categorical):
        ix = np.asarray(a._fa).tolist()
        if a.base_index is None:
            m = {int(k): v for k, v in a.category_mapping.items()}
            return [(i, m[i]) if i in m else FILT for i in ix]
        cols = [canon(x) for x in a.category_dict.values()]
        for x in cols[1:]:
            require(len(x) == len(cols[0]), "category columns of different length", got=cols)
        u = list(zip(*cols)) if len(cols) > 1 else cols[0]
        b = a.base_index
        bad = [i for i in ix if i < 0 or i - b >= len(u)]
        if b == 1:
            return [FILT if i == 0 else ("<bad code %d>" % i) if i < 0 or i > len(u) else u[i - 1] for i in ix]
        return [("<bad code %d>" % i) if i < 0 or i >= len(u) else u[i] for i in ix]
    if isinstance(a, (rt.Date, rt.DateTimeNano)):
        x = np.asarray(a._fa)
        bad = np.asarray(a.isnan()).tolist()
        return [None if b else y for b, y in zip(bad, x.tolist())]
    if hasattr(a, "_fa"):
        return npy(np.asarray(a._fa))
    return npy(np.asarray(a))


def check_col(a, exp, kind, what, dtype=None, tol=0.0, **ctx):
    """column `a` has the right class and the canonical values `exp`"""
    cn = type(a).__name__
    require(cn == CLS.get(kind, "FastArray"), f"{what}: class {cn}, expected {CLS.get(kind, 'FastArray')}", **ctx)
    if dtype is not None:
        require(a.dtype == np.dtype(dtype), f"{what}: dtype {a.dtype}, expected {np.dtype(dtype)}", **ctx)
    same_list(canon(a), exp, what, tol=tol, **ctx)


def cat_sane(c, what="categorical", **ctx):
    """structural invariants of a Categorical: codes in range and distinct categories"""
    if c.base_index is None:
        return
    g = canon(c)
    for x in g:
        if isinstance(x, str) and x.startswith("<bad code"):
            fail(f"{what}: code outside the categories", got=g, **ctx)
    cols = [canon(x) for x in c.category_dict.values()]
    u = list(zip(*cols))
    require(len(set(u)) == len(u), f"{what}: duplicate categories", got=u, **ctx)


def snap(x):
    """deep immutable picture of any riptable value (class, dtype, contents, names, order)"""
    if isinstance(x, rt.Dataset) or isinstance(x, rt.Struct):
        return (type(x).__name__, tuple((k, snap(v)) for k, v in x.items()), tuple(x.label_get_names()))
    if isinstance(x, rt.Categorical):
        cats = tuple(snap(v) for v in x.category_dict.values()) if x.base_index is not None else tuple(sorted((int(k), v) for k, v in x.category_mapping.items()))
        return ("Categorical", np.asarray(x._fa).tobytes(), x.dtype.str, len(x), cats, x.base_index)
    if isinstance(x, np.ndarray):
        extra = (x._timezone._to_tz,) if isinstance(x, rt.DateTimeNano) else ()
        return (type(x).__name__, x.dtype.str, x.shape, np.asarray(x.view(np.ndarray)).tobytes()) + extra
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, snap(v)) for k, v in x.items()))
    return (type(x).__name__, repr(x))
