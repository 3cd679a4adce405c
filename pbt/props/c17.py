"""C17: whole-table operations against the same operation on each column, or against one set of row positions."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *
from pbt.lib import INV

warnings.filterwarnings("ignore")
NAMES = ["a", "b", "cc", "d4", "e", "f"]
NOCAT0 = [k for k in ALLK]
SMALL = {"int8": 5, "uint8": 5}


@st.composite
def s_tab(draw, kinds=ALLK, lo=1, hi=8, minc=1, maxc=5, few=False, inv=True):
    n = draw(sizes(lo, hi))
    kk = [k for k in kinds if n or not k.startswith("c")]
    cols = [[NAMES[i], draw(scol(n, kk, inv=inv, few=few or draw(st.booleans())))] for i in range(draw(st.integers(minc, maxc)))]
    return {"n": n, "cols": cols}


def mk(t, ident=False):
    d = {k: mkcol(c) for k, c in t["cols"]}
    if ident:
        d["idn"] = rt.FastArray(np.arange(t["n"]))
    return rt.Dataset(d)


def check_rows_are(got, ds, ix, what, names=None, **ctx):
    """table got consists of exactly rows ix of ds"""
    names = list(ds.keys()) if names is None else names
    require(list(got.keys()) == names, f"{what}: columns", got=list(got.keys()), expected=names, **ctx)
    require(len(got) == len(ix), f"{what}: number of rows", got=len(got), expected=len(ix), **ctx)
    for k in names:
        a, b = got[k], ds[k]
        require(type(a) is type(b) and a.dtype == b.dtype, f"{what}: kind of column {k}", got=(type(a), a.dtype), expected=(type(b), b.dtype), **ctx)
        cb = canon(b)
        same_list(canon(a), [cb[i] for i in ix], f"{what}: column {k}", rows=ix, **ctx)


# ---------------------------------------------------------------- row selection
@facet("C17", st.tuples(s_tab(lo=0, few=True), st.integers(0, 9), st.integers(0, 5)), quick=900, shards=3, rule="0 < selected rows < n")
def head_tail_sample(case):
    t, k, x = case
    n = t["n"]
    ds = mk(t, True)
    before = snap(ds)
    check_rows_are(ds.head(k), ds, list(range(min(n, k))), f"head({k})")
    check_rows_are(ds.tail(k), ds, list(range(n - min(n, k), n)), f"tail({k})")
    nt(0 < k < n)
    if n:
        got = ds.sample(k, seed=x)
        ix = canon(got.idn)
        require(len(set(ix)) == len(ix) == min(k, n), "sample: distinct rows", got=ix)
        check_rows_are(got, ds, ix, "sample")
        f = [i for i in range(n) if (i + x) % 3]
        if f:
            fa = rt.FastArray(np.array([(i + x) % 3 != 0 for i in range(n)])) if x % 2 else rt.FastArray(np.array(f))
            got = ds.sample(k, filter=fa, seed=x)
            ix = canon(got.idn)
            require(len(set(ix)) == len(ix) == min(k, len(f)) and set(ix) <= set(f), "sample with filter", got=ix, expected=f)
            check_rows_are(got, ds, ix, "sample with filter")
            again = ds.sample(k, filter=fa, seed=x)
            same_list(canon(again.idn), ix, "sample with the same seed")
    require(snap(ds) == before, "source changed")


DUPK = ["int32", "float64", "S", "U", "bool", "int64", "cat", "date", "float32", "uint8", "catn", "dtn", "int8"]


@st.composite
def s_dup(draw):
    t = draw(s_tab(DUPK + ["tspan", "catf"], lo=1, hi=10, minc=1, maxc=4, few=True))
    ok = [k for k, c in t["cols"] if c["k"] in DUPK]
    sub = draw(st.lists(pick(ok), min_size=1, max_size=3, unique=True)) if ok else None
    return {"t": t, "sub": sub, "str": draw(st.booleans()), "cut": draw(st.integers(0, 2)), "keep": draw(pick(["first", "last", False])), "inp": draw(st.booleans())}


@facet("C17", s_dup(), quick=1000, shards=3, rule="some rows are duplicates and some are not")
def duplicates(case):
    t = case["t"]
    ds = mk(t, True)
    n = max(1, t["n"] - case["cut"])  # a slice of a category column has categories without rows
    ds = ds[:n, :]
    cols = {k: dict(c, v=c["v"][:n]) for k, c in t["cols"]}
    sub = case["sub"]
    if sub is None:
        return nt(False)
    arg = sub[0] if len(sub) == 1 and case["str"] else list(sub)
    keys = list(zip(*[[_k(v) for v in want(cols[k])] for k in sub]))
    groups = {}
    for i, k in enumerate(keys):
        groups.setdefault(k, []).append(i)
    keep = case["keep"]
    sel = [(r[0] if keep == "first" else r[-1]) for r in groups.values() if keep is not False or len(r) == 1]
    nt(0 < len(sel) < n and len(sel) > 1, str(keep))
    before = snap(ds)
    dup = ds.duplicated(arg, keep=keep)
    same_list(canon(dup), [i not in sel for i in range(n)], f"duplicated(keep={keep})", keys=keys)
    require(snap(ds) == before, "duplicated changed its table")
    src = ds.copy()
    got = ds.drop_duplicates(arg, keep=keep, inplace=case["inp"])
    ix = canon(got.idn)
    require(sorted(ix) == sorted(sel), f"drop_duplicates(keep={keep}): rows kept", got=ix, expected=sel, keys=keys)
    if keep == "first" and not (len(sub) == 1 and cols[sub[0]]["k"] in CATK):  # one category key: order of the categories
        require(ix == sorted(ix), "drop_duplicates: order of rows", got=ix)
    # column order is not claimed when a subset is given
    require(set(got.keys()) == set(src.keys()), "drop_duplicates: columns", got=list(got.keys()))
    check_rows_are(got[list(src.keys())], src, ix, "drop_duplicates")
    if case["inp"]:
        require(got is ds, "drop_duplicates(inplace) returns its own table", rows=n, kept=len(sel))
        require(sorted(canon(ds.idn)) == sorted(sel) and len(ds) == len(sel), "drop_duplicates(inplace): table", got=canon(ds.idn), expected=sel)
        check_rows_are(ds, src, canon(ds.idn), "drop_duplicates(inplace)")
    else:
        require(snap(ds) == before, "drop_duplicates changed its table")


def _k(v):
    return ("", ) if v is None else v


@st.composite
def s_trim(draw):
    n = draw(sizes(1, 7))
    cols = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(pick(["int32", "float64", "int64", "float32", "S", "cat", "uint8", "int16"]))
        c = {"k": k}
        c["v"] = draw(vals(["a", "b"] if k in ("S", "cat") else [0, None, 0, 3, None], n))
        cols.append([NAMES[i], c])
    return {"n": n, "cols": cols, "zeros": draw(st.booleans()), "nans": draw(st.booleans()), "columns": draw(st.booleans()), "rows": draw(st.booleans()), "keep": draw(pick([False, False, True])), "fn": draw(pick([False, False, True])), "lab": draw(st.booleans()), "ret": draw(st.booleans())}


@facet("C17", s_trim(), quick=900, shards=2, rule="some row and/or column is dropped and something is kept")
def trim(case):
    """rows (columns) whose every computable cell is zero/missing are dropped, all others are kept whole"""
    n = case["n"]
    ds = mk(case, True)
    ds.idn = rt.FastArray(np.arange(n)).astype("S4")
    if case["lab"]:
        ds.label_set_names([case["cols"][0][0]])
    z, na = case["zeros"], case["nans"]
    if not (z or na):
        z = True
    before = snap(ds)
    bad = (lambda v: v == 3) if case["fn"] else (lambda v: (v is None and na) or (v == 0 and v is not None and z))
    keep = case["keep"]
    fn = (lambda a: a == 3) if case["fn"] else None
    comp = [(k, want(c)) for k, c in case["cols"] if c["k"] not in ("S", "cat") and not (case["lab"] and k == case["cols"][0][0])]
    drop = [k for k, v in comp if case["columns"] and (not any(map(bad, v)) if keep else all(map(bad, v)))]
    live = [(k, v) for k, v in comp if k not in drop]
    if case["rows"] and live:
        ix = [i for i in range(n) if (any(bad(v[i]) for _, v in live) if keep else not all(bad(v[i]) for _, v in live))]
    else:
        ix = list(range(n))
    names = [k for k in ds.keys() if k not in drop]
    nt((len(ix) < n or drop) and ix, "function" if case["fn"] else "zeros" if z else "nozeros", "keep" if keep else "drop", "nans" if na else "nonans")
    got = ds.trim(fn, keep=keep, zeros=z, nans=na, columns=case["columns"], rows=case["rows"], ret_filters=case["ret"])
    if case["ret"]:
        got, rf, cf = got
        require(list(cf) == names, "trim: column filter", got=cf, expected=names)
        if rf is not None:
            same_list(canon(rf), [i in ix for i in range(n)], "trim: row filter")
    check_rows_are(got, ds, ix, "trim", names)
    require(snap(ds) == before, "trim changed its table")


@st.composite
def s_sort(draw):
    t = draw(s_tab(["int32", "float64", "S", "int64", "float32", "bool", "uint8", "date", "cat", "U", "dtn", "catf"], lo=1, hi=9, few=True, inv=False))
    names = [k for k, c in t["cols"] if c["k"] not in ("cat", "catf", "U")]
    by = draw(st.lists(pick(names), min_size=1, max_size=3, unique=True)) if names else None
    return {"t": t, "by": by, "asc": draw(st.lists(st.booleans(), min_size=3, max_size=3)), "multi": draw(st.booleans()), "form": draw(pick(["copy", "inplace", "view"]))}


@facet("C17", s_sort(), quick=900, shards=2, rule="sorting changes the order of rows")
def sort_rows(case):
    t, by = case["t"], case["by"]
    if by is None:
        return nt(False)
    n = t["n"]
    ds = mk(t, True)
    src = ds.copy()
    cols = dict(t["cols"])
    asc = case["asc"][: len(by)] if case["multi"] and len(by) > 1 else [case["asc"][0]] * len(by)
    aarg = asc if case["multi"] and len(by) > 1 else asc[0]
    ix = list(range(n))
    for k, a in list(zip(by, asc))[::-1]:
        v = want(cols[k])
        ix = sorted(ix, key=lambda i: v[i], reverse=not a) if a else sorted(ix[::-1], key=lambda i: v[i])[::-1]
    nt(ix != sorted(ix), case["form"])
    arg = by[0] if len(by) == 1 and case["asc"][1] else list(by)
    if case["form"] == "copy":
        got = ds.sort_copy(arg, ascending=aarg)
        check_rows_are(ds, src, list(range(n)), "source of sort_copy")
    elif case["form"] == "inplace":
        got = ds.sort_inplace(arg, ascending=aarg)
        require(got is ds, "sort_inplace does not return the table")
    else:
        ds.sort_view(arg, ascending=aarg)
        check_rows_are(ds, src, list(range(n)), "data under sort_view")
        r = [str(x) for x in ds.get_row_sort_info()[2]]
        require(r == by, "sort_view columns", got=r, expected=by)
        return
    check_rows_are(got, src, canon(got.idn), "rows after sort")
    g = canon(got.idn)
    require(sorted(g) == list(range(n)), "sort is not a permutation of the rows", got=g)
    key = lambda i: [want(cols[k])[i] for k in by]
    same_list([tuple(key(i)) for i in g], [tuple(key(i)) for i in ix], "sort order", by=by, asc=asc)
    if all(asc):
        same_list(g, ix, "stability of the sort")


# ---------------------------------------------------------------- column-wise operations
RED0 = ["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "std", "var", "nanstd", "nanvar", "median", "nanmedian", "argmax", "argmin", "nanargmax", "nanargmin", "count"]
RK = NUMK + ["bool", "S", "cat", "U", "tspan", "date"]


@facet("C17", st.tuples(s_tab(RK, lo=1, maxc=4), pick(RED0), st.booleans(), st.integers(0, 3), pick([None, 0, 1, 2])), quick=1300, shards=3, rule="2 or more columns, one computable")
def reduce_columns(case):
    t, op, asds, lab, ddof = case
    kw = {} if ddof is None or op not in ("std", "var", "nanstd", "nanvar") else {"ddof": ddof}
    ds = mk(t)
    if lab == 1:
        ds.label_set_names([t["cols"][0][0]])
    before = snap(ds)
    cols = dict(t["cols"])
    comp = [k for k, c in cols.items() if c["k"] not in ("S", "U", "cat")]
    nt(len(cols) > 1 and comp, op)
    exp = {}
    keepers = op in ("min", "max", "nanmin", "nanmax", "count")
    for k in cols:
        a = ds[k].copy()
        if k in comp:
            try:
                exp[k] = len(a) if op == "count" else getattr(rt, op)(a, **kw)
            except ValueError:  # no valid value to point at
                return nt(False)
        elif keepers:
            exp[k] = None
    got = getattr(ds, op)(as_dataset=asds, **kw)
    require(type(got) is (rt.Dataset if asds else rt.Struct), f"{op}: class of result", got=type(got))
    require(list(got.keys()) == list(exp), f"{op}: columns in the result", got=list(got.keys()), expected=list(exp))
    for k, e in exp.items():
        g = got[k]
        if asds:
            require(len(g) == 1, f"{op}: one row", got=len(g))
        if k not in comp:
            w = want(cols[k])
            g = canon(g)[0] if asds and not isinstance(g, rt.Categorical) else g
            if op == "count":
                require(int(g if not hasattr(g, "__len__") else g[0]) == t["n"], "count", got=g)
            elif cols[k]["k"] in ("S", "U"):
                g = g.decode() if isinstance(g, bytes) else str(g)
                require(g == (min(w) if op.endswith("min") else max(w)), f"{op} of strings", got=g, expected=w)
            continue
        gl = canon(np.asarray(g._fa if hasattr(g, "_fa") else g).reshape(-1))
        el = canon(np.asarray(e._fa if hasattr(e, "_fa") else e).reshape(-1))
        same_list(gl, el, f"{op}: column {k}", tol=1e-12)
    non = [k for k, c in cols.items() if c["k"] in ("S", "U", "cat")]
    if non:
        for fv, e in ((-7, lambda k: -7), ({non[0]: 9}, lambda k: 9), (lambda c, **kw: len(c) + 1, lambda k: t["n"] + 1)):
            g = getattr(ds, op)(as_dataset=asds, fill_value=fv, **kw)
            miss = [k for k in non if isinstance(fv, dict) and k != non[0]]
            for k in non:
                if k not in miss:
                    x = g[k]
                    require(int(np.asarray(x).reshape(-1)[0]) == e(k), f"{op}(fill_value): column {k}", got=x, expected=e(k))
            for k in comp:
                same_list(canon(np.asarray(g[k]._fa if hasattr(g[k], "_fa") else g[k]).reshape(-1)), canon(np.asarray(got[k]._fa if hasattr(got[k], "_fa") else got[k]).reshape(-1)), f"{op}(fill_value): column {k}")
    require(snap(ds) == before, f"{op} changed its table")


@facet("C17", st.tuples(s_tab(["int32", "float64", "int64", "float32", "bool", "uint8", "S", "cat", "int16"], lo=1, maxc=5, few=True), pick(["sum", "nansum", "mean", "nanmean", "max", "min", "any", "all", "any0", "all0", "anyN", "allN", "nanmax", "median"])), quick=1200, shards=3, rule="2 or more computable columns and 2 or more rows")
def reduce_rows(case):
    """axis=1 equals the reduction over the computable cells of each row"""
    t, op = case
    cols = dict(t["cols"])
    comp = [k for k, c in cols.items() if c["k"] not in ("S", "cat")]
    n = t["n"]
    if op in ("any", "all", "any0", "all0", "anyN", "allN"):
        cols = {k: c for k, c in cols.items() if c["k"] != "cat"}
        if not cols:
            return nt(False)
        ds = mk({"n": n, "cols": list(cols.items())})
        before = snap(ds)
        W = {k: [bool(v) if c["k"] == "S" else v is None or v != 0 for v in want(c)] for k, c in cols.items()}
        f = any if op[:3] == "any" else all
        nt(len(cols) > 1 and n > 1, op)
        if op in ("any", "all"):
            same_list(canon(getattr(ds, op)(axis=1)), [f(W[k][i] for k in W) for i in range(n)], f"{op}(axis=1)")
        elif op[3] == "0":
            g = getattr(ds, op[:3])(axis=0)
            require(list(g.keys()) == list(W), f"{op}: columns")
            same_list([canon(g[k])[0] for k in W], [f(v) for v in W.values()], f"{op[:3]}(axis=0)")
        else:
            g = getattr(ds, op[:3])(axis=None)
            require(bool(g) == f(f(v) for v in W.values()), f"{op[:3]}(axis=None)", got=g)
        require(snap(ds) == before, f"{op} changed its table")
        return
    if op in ("max", "min", "nanmax", "median") and len(comp) != len(cols):
        return nt(False)
    if not comp:
        return nt(False)
    ds = mk(t)
    before = snap(ds)
    nt(len(comp) > 1 and n > 1, op)
    W = [want(cols[k]) for k in comp]
    got = getattr(ds, op)(axis=1)
    require(snap(ds) == before, f"{op}(axis=1) changed its table")
    exp = []
    allint = all(not cols[k]["k"].startswith("f") for k in comp)
    if op in ("max", "min", "nanmax", "median", "sum", "mean") and any(x is None for w in W for x in w) :
        if op not in ("sum", "mean"):
            return
    if allint and any(x is None for w in W for x in w):
        return  # integer sentinels in an all-integer matrix are C02/C04 territory
    for i in range(n):
        r = [w[i] for w in W]
        if op.startswith("nan"):
            r = [x for x in r if x is not None]
            if not r:
                exp.append(0.0 if op == "nansum" else None)
                continue
        elif None in r:
            exp.append(None)
            continue
        r = [float(x) for x in r]
        exp.append({"sum": sum(r), "nansum": sum(r), "mean": sum(r) / len(r), "nanmean": sum(r) / len(r), "max": max(r), "nanmax": max(r), "min": min(r), "median": float(np.median(r))}[op])
    same_list([None if x is None else float(x) for x in canon(np.asarray(got))], exp, f"{op}(axis=1)", tol=1e-6)


BIN = ["__add__", "__sub__", "__mul__", "__truediv__", "__floordiv__", "__mod__", "__pow__", "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__iadd__", "__isub__", "__imul__", "__lt__", "__ge__", "__eq__", "__ne__"]
UN = ["__neg__", "__abs__", "abs", "__pos__"]
AK = ["int32", "float64", "int64", "float32", "S", "cat", "int16", "bool", "U", "tspan"]


@st.composite
def s_arith(draw):
    t = draw(s_tab(["int32", "float64", "int64", "float32", "S", "cat", "int16", "U"], lo=1, maxc=4, few=True))
    n = t["n"]
    rhs = draw(pick(["scalar", "array", "ds", "dsextra", "struct", "list"]))
    if rhs in ("ds", "dsextra"):
        other = [[k, draw(scol(n, [c["k"]] if c["k"] in ("S", "cat", "U") else ["int32", "float64", "int64"], few=True))] for k, c in t["cols"]]
        if rhs == "dsextra":
            other = other[: max(1, len(other) - 1)][::-1] + [["zz", draw(scol(n, ["float64"], few=True))]]
    else:
        other = None
    return {"t": t, "rhs": rhs, "o": other, "s": draw(pick([2, 3, 1.5, 1])), "op": draw(pick(BIN + UN)), "lab": draw(pick([False, False, True])), "arr": draw(scol(n, ["int32", "float64"], few=True))}


@facet("C17", s_arith(), quick=1500, shards=3, rule="a computable and a second column")
def arithmetic(case):
    """table op value == column op value for every computable column, everything else unchanged"""
    t, op, rhs = case["t"], case["op"], case["rhs"]
    ds = mk(t)
    cols = dict(t["cols"])
    src = ds.copy()
    if case["lab"]:
        ds.label_set_names([t["cols"][0][0]])
    labs = ds.label_get_names()
    comp = [k for k, c in cols.items() if c["k"] not in ("S", "U", "cat") and k not in labs]
    if op in ("__lt__", "__ge__", "__eq__", "__ne__"):
        if rhs not in ("ds", "dsextra"):
            try:
                getattr(ds, op)(3)
            except TypeError:
                return nt(False)
            fail(f"{op} with a scalar is documented to raise TypeError")
        other = rt.Dataset({k: mkcol(c) for k, c in case["o"]})
        ocols = dict(case["o"])
        if op in ("__lt__", "__ge__") and any(c["k"] == "cat" for c in cols.values()):
            return nt(False)
        nt(len(cols) > 1, op, rhs)
        got = getattr(ds, op)(other)
        require(set(got.keys()) == set(cols) | set(ocols), f"{op}: columns", got=list(got.keys()))
        for k in got.keys():
            if k in cols and k in ocols:
                e = canon(getattr(src[k].copy(), op)(mkcol(ocols[k])))
            else:
                e = [False] * t["n"]
            same_list(canon(got[k]), e, f"{op}: column {k}")
        require(snap(ds)[1] == snap(src)[1], f"{op} changed its table")
        return
    nt(len(cols) > 1 and comp, op, rhs)
    if op in UN:
        got = getattr(ds, op)()
        f = {"__neg__": "__neg__", "abs": "__abs__"}.get(op, op)
        exp = {k: getattr(src[k].copy(), f)() if k in comp else src[k] for k in cols}
    else:
        val = {"scalar": case["s"], "array": mkcol(case["arr"]), "list": None, "struct": None}.get(rhs)
        if rhs in ("ds", "dsextra"):
            val = rt.Dataset({k: mkcol(c) for k, c in case["o"]})
        elif rhs == "list":
            val = [1 + i % 3 for i in range(t["n"])]
        elif rhs == "struct":
            val = rt.Struct({k: 2 + i for i, k in enumerate(cols)})
        if op == "__mod__" or op == "__floordiv__" or op == "__pow__" or op.startswith("__r"):
            if rhs != "scalar":
                return
        if op.startswith("__i") and rhs in ("list",):
            return

        def one(k):
            a = src[k].copy()
            if k not in comp:
                return a
            if rhs in ("ds", "dsextra"):
                if k not in val:
                    return a
                v = val[k]
            elif rhs == "struct":
                v = val[k]
            else:
                v = val
            return getattr(a, op)(v)

        try:
            exp = {k: one(k) for k in cols}
        except Exception as e:
            tag("column raises")
            exp = e
        if isinstance(exp, dict) and any(v is NotImplemented for v in exp.values()):
            return
        try:
            got = getattr(ds, op)(val)
        except Exception as e:
            if isinstance(exp, Exception):
                return
            fail(f"{op} with {rhs}: {type(e).__name__}: {str(e)[:100]}")
        if isinstance(exp, Exception):
            return
    require(list(got.keys()) == list(cols), f"{op}: columns", got=list(got.keys()))
    require(set(got.label_get_names()) == set(labs), f"{op}: labels", got=got.label_get_names())
    for k, e in exp.items():
        g = got[k]
        if k in comp:
            require(g.dtype == e.dtype, f"{op} {rhs}: dtype of {k}", got=g.dtype, expected=e.dtype)
            same_list(canon(g), canon(e), f"{op} {rhs}: column {k}", tol=0)
        else:
            check_col(g, want(cols[k]), cols[k]["k"], f"{op} {rhs}: column {k}")
    if not op.startswith("__i"):
        require(snap(ds)[1] == snap(src)[1], f"{op} changed its table")


@facet("C17", st.tuples(s_tab(["int32", "float64", "int64", "float32", "S", "cat", "int16", "bool", "U"], lo=1, maxc=4, few=True), pick(["fillna", "ffill", "bfill", "astype", "astype_all", "isin", "apply", "apply_cols", "mask", "crc", "computable", "dtypes", "norm"]), st.integers(0, 5)), quick=1200, shards=3, rule="2 or more columns")
def columnwise(case):
    t, op, x = case
    ds = mk(t)
    cols = dict(t["cols"])
    n = t["n"]
    comp = [k for k, c in cols.items() if c["k"] not in ("S", "U", "cat")]
    before = snap(ds)
    nt(len(cols) > 1, op)
    W = {k: want(c) for k, c in cols.items()}

    def expect(got, exp, what):
        require(list(got.keys()) == list(exp), f"{what}: columns", got=list(got.keys()))
        for k, e in exp.items():
            same_list(canon(got[k]), e, f"{what}: column {k}", tol=1e-9)

    if op == "fillna":
        if any(cols[k]["k"] == "bool" for k in comp):
            return nt(False)
        got = ds.fillna(1)
        expect(got, {k: [1 if v is None and k in comp else v for v in w] for k, w in W.items()}, "fillna")
    elif op in ("ffill", "bfill"):
        if any(cols[k]["k"] == "bool" for k in comp):  # not supported for booleans
            return nt(False)
        lim = x if x in (1, 2) else None
        got = ds.fillna(method=op, limit=lim) if x % 2 else ds.fillna(method={"ffill": "pad", "bfill": "backfill"}[op], limit=lim)
        exp = {}
        for k, w in W.items():
            v = w[::-1] if op == "bfill" else list(w)
            if k in comp:
                out, last, run = [], None, 0
                for y in v:
                    if y is None:
                        run += 1
                        out.append(last if lim is None or run <= lim else None)
                    else:
                        last, run = y, 0
                        out.append(y)
                v = out
            exp[k] = v[::-1] if op == "bfill" else v
        expect(got, exp, op)
    elif op == "astype":
        dt = ["float64", "float32", "int64", "int32"][x % 4]
        got = ds.astype(dt)
        for k in comp:
            require(got[k].dtype == np.dtype(dt), "astype: dtype", got=got[k].dtype)
        expect(got, {k: canon(mkcol(cols[k]).astype(dt)) if k in comp else w for k, w in W.items()}, "astype")
    elif op == "astype_all":
        sub = [k for k in cols if cols[k]["k"] in ("bool", "int32", "float64")]
        if not sub:
            return nt(False)
        got = ds[sub].astype("float64", ignore_non_computable=False)
        expect(got, {k: canon(mkcol(cols[k]).astype("float64")) for k in sub}, "astype")
    elif op == "isin":
        sub = [k for k in cols if cols[k]["k"] in NUMK]
        if not sub:
            return nt(False)
        got = ds[sub].isin([1, 0, 0.5])
        expect(got, {k: [v in (1, 0, 0.5) for v in W[k]] for k in sub}, "isin")
    elif op == "apply":
        got = ds.apply(lambda c: c[::-1], check_op=bool(x % 2))
        expect(got, {k: w[::-1] for k, w in W.items()}, "apply")
        def back(c, step=1):
            return c[::-1][::step]
        def front(c, step=1):
            return c[rt.FA(list(range(1, len(c))) + [0][: len(c)])][::step]
        got = ds.apply([back, front], step=1)
        require(list(got.keys()) == ["Back", "Front"], "apply of several functions: one table per function", got=list(got.keys()))
        expect(got["Back"], {k: w[::-1] for k, w in W.items()}, "apply of several functions")
        expect(got["Front"], {k: w[1:] + w[:1] for k, w in W.items()}, "apply of several functions")
    elif op == "apply_cols":
        got = ds.apply_cols(lambda c: c.isnan(), fill_value=(lambda c: rt.zeros(len(c), dtype=bool)) if x % 2 else None)
        expect(got, {k: ([v is None for v in w] if k in comp else [False] * n if x % 2 else w) for k, w in W.items()}, "apply_cols")
    elif op == "mask":
        if not comp:
            return nt(False)
        N = [[v is None for v in W[k]] for k in comp]
        same_list(canon(ds.mask_or_isnan()), [any(r) for r in zip(*N)], "mask_or_isnan")
        same_list(canon(ds.mask_and_isnan()), [all(r) for r in zip(*N)], "mask_and_isnan")
        fin = [[v is not None and not (isinstance(v, float) and math.isinf(v)) for v in W[k]] for k in comp]
        same_list(canon(ds.mask_or_isfinite()), [any(r) for r in zip(*fin)], "mask_or_isfinite")
        same_list(canon(ds.mask_and_isfinite()), [all(r) for r in zip(*fin)], "mask_and_isfinite")
    elif op == "crc":
        got = ds.crc
        for k in cols:
            require(int(got[k][0]) == int(ds[k].copy().crc), "crc of column", col=k)
    elif op == "computable":
        require(list(ds.computable()) == comp, "computable()", got=list(ds.computable()))
        require(list(ds.noncomputable()) == [k for k in cols if k not in comp], "noncomputable()", got=list(ds.noncomputable()))
    elif op == "dtypes":
        require({k: ds[k].dtype for k in cols} == dict(ds.dtypes), "dtypes")
    elif op == "norm":
        if n < 2 or any(v is None for k in comp for v in W[k]) or any(cols[k]["k"] == "bool" for k in comp):
            return nt(False)
        got = ds.normalize_minmax()
        require(list(got.keys()) == comp, "normalize_minmax: columns", got=list(got.keys()))
        for k in comp:
            w = [float(v) for v in W[k]]
            if max(w) > min(w):
                same_list(canon(got[k]), [(v - min(w)) / (max(w) - min(w)) for v in w], "normalize_minmax", tol=1e-6)
    require(snap(ds) == before, f"{op} changed its table")


@facet("C17", st.tuples(s_tab(["int32", "float64", "S", "cat", "int64", "bool", "uint8", "uint32", "float32", "int8"], lo=1, hi=10, maxc=4, few=True), st.lists(pick([0.0, 0.25, 0.5, 0.1, 0.9, 1.0]), min_size=1, max_size=3, unique=True)), quick=700, shards=2, rule="2 or more valid values in a column")
def quantile_describe(case):
    t, q = case
    cols = dict(t["cols"])
    ds = mk(t)
    before = snap(ds)
    comp = [k for k, c in cols.items() if c["k"] not in ("S", "cat")]
    if not comp:
        return nt(False)
    got = ds.quantile(q)
    require(list(got.keys()) == ["Stats"] + comp, "quantile: columns", got=list(got.keys()))
    same_list(canon(got.Stats), q, "quantile: labels")
    ok = False
    q2 = sorted({round(int(p * 1000) % 101 / 100, 2) for p in q} | {t["n"] * 29 % 101 / 100})
    noncomp = [k for k in cols if k not in comp]
    fv = [None, -1, {k: [5] * (8 + len(q2)) for k in noncomp}][t["n"] % 3]
    d2 = ds.describe(q=q2, fill_value=fv)
    lab2 = [x.decode() if isinstance(x, bytes) else x for x in d2.Stats.tolist()]
    require(lab2 == ["Count", "Valid", "Nans", "Mean", "Std", "Min"] + [f"P{round(p * 100)}" for p in q2] + ["Max", "MeanM"], "describe(q): labels", got=lab2, q=q2)
    require(list(d2.keys()) == ["Stats"] + (comp if fv is None else list(cols)), "describe(fill_value): columns", got=list(d2.keys()), fill=fv)
    neg = rt.Dataset({k: -ds[k].astype("float64") for k in comp}).describe()
    for k in comp:
        v = [float(x) for x in want(cols[k]) if x is not None]
        if v:
            s2 = dict(zip(lab2, canon(d2[k])))
            for p in q2:
                same_list([s2[f"P{round(p * 100)}"]], [float(np.quantile(v, p))], f"describe(q): P{round(p * 100)} of column {k}", tol=1e-9)
            m = s2["MeanM"]
            require(abs(m + canon(neg[k])[-1]) <= 1e-9 * max(1, abs(m)) and min(v) - 1e-9 <= m <= max(v) + 1e-9, "describe: the trimmed mean drops the same share at both ends", got=m, negated=canon(neg[k])[-1], values=v)
    if fv is not None:
        for k in noncomp:
            require([float(x) for x in canon(d2[k])] == [float(fv[k][0] if isinstance(fv, dict) else fv)] * len(lab2), "describe(fill_value): filled column", got=canon(d2[k]), fill=fv)
    d = ds.describe()
    rows = [x.decode() if isinstance(x, bytes) else x for x in d.Stats.tolist()]
    require(list(d.keys()) == ["Stats"] + comp, "describe: columns", got=list(d.keys()))
    for k in comp:
        v = [float(x) for x in want(cols[k]) if x is not None]
        if len(v) > 1:
            ok = True
        e = [float(np.quantile(v, p)) if v else None for p in q]
        same_list(canon(got[k]), e, f"quantile: column {k}", tol=1e-9, q=q)
        s = dict(zip(rows, canon(d[k])))
        exp = {"Count": t["n"], "Valid": len(v)}
        if v:  # (without a valid value, the suite pins every other statistic to NaN)
            exp.update(Nans=t["n"] - len(v), Mean=sum(v) / len(v), Min=min(v), Max=max(v), P50=float(np.quantile(v, 0.5)), P10=float(np.quantile(v, 0.1)), P90=float(np.quantile(v, 0.9)), P25=float(np.quantile(v, 0.25)), P75=float(np.quantile(v, 0.75)))
            if len(v) > 1:
                exp["Std"] = float(np.std(v, ddof=1))
        for r, x in exp.items():
            same_list([s[r]], [x], f"describe: {r} of column {k}", tol=1e-9, values=v)
    nt(ok)
    require(snap(ds) == before, "quantile/describe changed the table")


@st.composite
def s_eq(draw):
    t = draw(s_tab(["int32", "float64", "S", "cat", "int64", "bool", "date", "U"], lo=1, hi=6, maxc=4, few=True))
    return {"t": t, "ch": draw(pick(["none", "cell", "name", "drop", "extra", "rows", "order"])), "x": draw(st.integers(0, 30)), "exact": draw(st.booleans())}


@facet("C17", s_eq(), quick=900, shards=2, rule="tables that differ in exactly one respect, or not at all")
def equality(case):
    t, ch, x = case["t"], case["ch"], case["x"]
    cols = [[k, dict(c, v=list(c["v"]))] for k, c in t["cols"]]
    n = t["n"]
    same = True
    nt(True, ch)
    a = mk(t)
    if ch == "cell":
        k, c = cols[x % len(cols)]
        i = x % n
        old = c["v"][i]
        pool = {"S": ["a", "b"], "U": ["a", "b"], "cat": ["b", "a"], "bool": [True, False]}.get(c["k"], [1, 2, 0, None])
        new = [p for p in pool if p != old]
        c["v"][i] = new[x % len(new)]
        same = False
    elif ch == "name":
        cols[x % len(cols)][0] = "other"
        same = False
    elif ch == "drop":
        if len(cols) < 2:
            return
        del cols[x % len(cols)]
        same = False
    elif ch == "extra":
        cols.append(["other", {"k": "int32", "v": [1] * n}])
        same = False
    elif ch == "rows":
        cols = [[k, dict(c, v=c["v"] + c["v"][:1])] for k, c in cols]
        same = False
    elif ch == "order":
        cols = cols[::-1]
        if case["exact"]:
            return
    b = rt.Dataset({k: mkcol(c) for k, c in cols})
    if case["exact"] and ch == "name":
        return  # exact compares by position and ignores the names
    for p, q in ((a, b), (b, a)):
        got = p.equals(q, exact=case["exact"])
        require(bool(got) == same, f"equals after {ch}", got=got, expected=same)
    require(a.equals(a.copy()) and bool(a.equals(a, exact=True)), "table does not equal its copy")


@facet("C17", st.tuples(s_tab(ALLK, lo=1, maxc=3), s_tab(ALLK, lo=1, maxc=3), st.integers(1, 3), st.booleans(), pick(["raise", "first", "last"])), quick=600, shards=2, rule="disjoint and overlapping names")
def concat_columns(case):
    t1, t2, off, cp, od = case
    n = min(t1["n"], t2["n"])
    cut = lambda c: dict(c, v=c["v"][:n])
    c1 = [[k, cut(c)] for k, c in t1["cols"]]
    c2 = [[NAMES[min(5, i + off)], cut(c)] for i, (k, c) in enumerate(t2["cols"])]
    if len({k for k, _ in c2}) < len(c2):
        return nt(False)
    a, b = (rt.Dataset({k: mkcol(c) for k, c in cc}) for cc in (c1, c2))
    s1, s2 = snap(a), snap(b)
    dup = {k for k, _ in c1} & {k for k, _ in c2}
    nt(True, "overlap" if dup else "disjoint", od)
    try:
        got = rt.Dataset.concat_columns([a, b], do_copy=cp, on_duplicate=od, on_mismatch="ignore")
    except KeyError:
        require(dup and od == "raise", "concat_columns raised without duplicates")
        return
    require(not (dup and od == "raise"), "concat_columns accepted duplicate names")
    exp = dict(c1)
    for k, c in c2:
        if k not in exp or od == "last":
            exp[k] = c
    require(list(got.keys()) == list(exp), "concat_columns: names", got=list(got.keys()), expected=list(exp))
    for k, c in exp.items():
        check_col(got[k], want(c), c["k"], f"concat_columns: column {k}")
    require(snap(a) == s1 and snap(b) == s2, "concat_columns changed an input")


@facet("C17", s_tab(["int32", "float64", "cat", "S", "catn", "int64", "catf"], lo=1, hi=8, maxc=4, few=True), quick=500, shards=2, rule="a categorical column with 2 or more categories")
def one_hot_outliers(case):
    t = case
    cols = dict(t["cols"])
    cats = {k: want(c) for k, c in cols.items() if c["k"] in ("cat", "catf")}
    drop = [k for k, c in cols.items() if c["k"] == "catn"]
    cols = {k: c for k, c in cols.items() if k not in drop}
    if not cols:
        return nt(False)
    ds = rt.Dataset({k: mkcol(c) for k, c in cols.items()})
    nt(any(len(set(w)) > 1 for w in cats.values()))
    ds.one_hot_encode()
    exp = {}
    for k, c in cols.items():
        if k not in cats:
            check_col(ds[k], want(c), c["k"], f"one_hot_encode: column {k}")
            exp[k] = 1
    for k, w in cats.items():
        require(k not in ds, "one_hot_encode keeps the categorical")
        for v in sorted(set(w)):
            if v == FILT:
                continue
            nm = f"{k}__{v}"
            require(nm in ds, "one_hot_encode: missing column", col=nm, got=list(ds.keys()))
            same_list([float(x) for x in canon(ds[nm])], [float(x == v) for x in w], f"one_hot_encode: {nm}")
            exp[nm] = 1
    extra = [k for k in ds.keys() if k not in exp]
    for k in extra:  # categories without rows: all zero
        same_list([float(x) for x in canon(ds[k])], [0.0] * t["n"], f"one_hot_encode: column {k}")


# ---------------------------------------------------------------- remaining operators
INTB = ["__lshift__", "__rshift__", "__and__", "__or__", "__xor__", "__rand__", "__ror__", "__rxor__", "__iand__", "__ior__", "__ixor__", "__ilshift__", "__irshift__"]
REST = ["__rfloordiv__", "__rmod__", "__rpow__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__invert__", "__gt__", "__le__"]


@st.composite
def s_rest(draw):
    n = draw(sizes(1, 7))
    op = draw(pick(INTB + REST))
    num = ["int32", "int64", "int16", "uint8"] if op in INTB or op == "__invert__" else ["float64"] if op == "__itruediv__" else ["int32", "float64", "int64"]
    cols = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(pick(num + num + ["S"]))
        cols.append([NAMES[i], k, draw(st.lists(st.integers(1, 6), min_size=n, max_size=n))])
    return {"op": op, "n": n, "cols": cols, "rhs": draw(pick("scalar", "ds")), "s": draw(st.integers(1, 3)), "o": [draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)) for _ in cols]}


@facet("C17", s_rest(), quick=1200, shards=2, rule="two or more columns, one of them numeric")
def other_operators(case):
    """shifts, bit operators, reflected and in-place operators: the table operator is the column operator"""
    op = case["op"]

    def mkone(k, v):
        return rt.FastArray([f"s{x}" for x in v]) if k == "S" else rt.FastArray(np.array(v, dtype=k))

    ds = rt.Dataset({nm: mkone(k, v) for nm, k, v in case["cols"]})
    src = ds.copy()
    comp = [nm for nm, k, _ in case["cols"] if k != "S"]
    nt(len(case["cols"]) > 1 and comp, op, case["rhs"])
    other = rt.Dataset({nm: mkone(k, o) for (nm, k, _), o in zip(case["cols"], case["o"])})
    if op in ("__gt__", "__le__"):
        got = getattr(ds, op)(other)
        for nm, k, v in case["cols"]:
            o = other[nm]
            e = [bool(getattr(str(a) if k == "S" else a, op)(str(b) if k == "S" else b)) for a, b in zip(canon(src[nm]), canon(o))] if k != "S" else None
            if e is not None:
                same_list(canon(got[nm]), e, f"{op}: column {nm}")
        return
    val = case["s"] if case["rhs"] == "scalar" or op.startswith("__r") else other
    got = getattr(ds, op)() if op == "__invert__" else getattr(ds, op)(val)
    if op.startswith("__i") and op != "__invert__":
        require(all(np.array_equal(np.array(got[k]), np.array(ds[k])) for k in src.keys()), f"{op}: the edited table and the result differ")
    else:
        require(snap(ds) == snap(src), f"{op} changed its table")
    require(list(got.keys()) == list(src.keys()), f"{op}: columns", got=list(got.keys()))
    for nm, k, v in case["cols"]:
        if k == "S":
            same_list(canon(got[nm]), canon(src[nm]), f"{op}: text column {nm}")
            continue
        a = np.array(v, dtype=k)
        b = (np.array(other[nm]) if not np.isscalar(val) else val) if op != "__invert__" else None
        with np.errstate(all="ignore"):
            if op == "__invert__":
                e = ~a
            elif op.startswith("__r") and op not in ("__rshift__",):
                e = getattr(np.asarray(b), "__" + op[3:])(a)
            else:
                f = "__" + op[3:] if op.startswith("__i") else op
                e = getattr(a, f)(b)
        g = np.array(got[nm], dtype="f8")
        require(np.allclose(g, np.asarray(e, dtype="f8")), f"{op}: column {nm}", got=g, expected=e, case=case)


@st.composite
def s_misc(draw):
    n = draw(sizes(1, 7))
    nc = draw(st.integers(1, 4))
    kinds = [draw(pick("int32", "float64", "float64", "int64")) for _ in range(nc)]
    miss = draw(st.booleans())
    return {"n": n, "cols": [[NAMES[i], k, draw(st.lists(st.one_of(st.integers(-3, 9), st.none() if miss else st.integers(0, 3), st.sampled_from(["inf"]) if k == "float64" else st.integers(0, 3)), min_size=n, max_size=n))] for i, k in enumerate(kinds)]}


@facet("C17", s_misc(), quick=900, shards=2, rule="two or more rows and columns")
def extremes_and_masks(case):
    """outliers, the row masks, any/all: positions and values of the extreme cells, and which rows hold missing or infinite cells"""
    n = case["n"]
    conv = lambda k, x: (INV[k] if k != "float64" else math.nan) if x is None else math.inf if x == "inf" else x
    vals_ = {nm: [conv(k, x) for x in v] for nm, k, v in case["cols"]}
    ds = rt.Dataset({nm: rt.FastArray(np.array(vals_[nm], dtype=k)) for nm, k, _ in case["cols"]})
    raw = {nm: v for nm, _, v in case["cols"]}
    nt(n > 1 and len(raw) > 1)
    for fn, rule, agg in (("mask_or_isnan", lambda x: x is None, any), ("mask_and_isnan", lambda x: x is None, all), ("mask_or_isinf", lambda x: x == "inf", any), ("mask_and_isinf", lambda x: x == "inf", all),
                          ("mask_or_isfinite", lambda x: x is not None and x != "inf", any), ("mask_and_isfinite", lambda x: x is not None and x != "inf", all)):
        got = getattr(ds, fn)()
        e = [agg(rule(raw[c][i]) for c in raw) for i in range(n)]
        require(list(np.asarray(got)) == e, f"{fn}", got=got, expected=e, case=case)
    ds["lab"] = rt.FastArray([f"r{i}" for i in range(n)])
    num = {c: [None if x is None else math.inf if x == "inf" else x for x in raw[c]] for c in raw}
    if all(any(x is not None for x in v) for v in num.values()):
        ms = ds.outliers("lab")
        for side, f in (("Min", min), ("Max", max)):
            d = ms[side]
            require(canon(d["Names"]) == list(raw), "outliers: row names", got=d["Names"])
            for j, c in enumerate(raw):
                ok = [i for i in range(n) if num[c][i] is not None]
                p = min(ok, key=lambda i: (num[c][i] if side == "Min" else -num[c][i], i))
                require(int(d["Pos"][j]) == p and float(d["Values"][j]) == num[c][p] and canon(d["lab"])[j] == f"r{p}", f"outliers: {side} of column {c}", got=(d["Pos"][j], d["Values"][j], d["lab"][j]), expected=(p, num[c][p]), case=case)
    # truth of whole structures
    b = rt.Struct({c: rt.FastArray(np.array([x not in (None, 0) for x in v])) for c, v in raw.items()})
    want_any = any(x not in (None, 0) for v in raw.values() for x in v)
    want_all = all(x not in (None, 0) for v in raw.values() for x in v)
    require(bool(b.any()) == want_any and bool(b.all()) == want_all, "any/all of a structure", got=(b.any(), b.all()), expected=(want_any, want_all), case=case)
    db = rt.Dataset(dict(b.items()))
    for ax, cells in ((0, list(raw.values())), (1, [[raw[c][i] for c in raw] for i in range(n)]), (None, [[x for v in raw.values() for x in v]])):
        for fn, agg in (("any", any), ("all", all)):
            g = getattr(db, fn)(axis=ax)
            g = [bool(g)] if ax is None else [bool(np.asarray(x).item()) for x in (g.values() if ax == 0 else g)]
            e = [agg(x not in (None, 0) for x in v) for v in cells]
            require(g == e, f"{fn}(axis={ax}) of a table", got=g, expected=e, case=case)
