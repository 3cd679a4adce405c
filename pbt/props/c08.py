"""C08: every stacking entry point against list concatenation."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.cols import *


def common(dts):
    """documented common type: NumPy's result type (bool/ints/floats; bytes and unicode by the widest)"""
    return np.result_type(*dts)


@st.composite
def s_arrays(draw):
    fam = draw(pick("num", "num", "num", "str", "same"))
    ds = NUMK + ["bool"] if fam == "num" else ["S", "U"] if fam == "str" else None
    d0 = draw(pick(BASIC))
    m = draw(st.integers(1, 4))
    parts = []
    for _ in range(m):
        n = draw(sizes(0, 8))
        parts.append(draw(scol(n, ds or [d0])))
    return {"p": parts, "la": [draw(pick(LAYOUT)) for _ in range(m)], "f": draw(pick("hstack", "hstack", "hstack_any", "stack_rows", "tuple", "vstackrow")), "nd": [draw(pick(False, False, False, True)) for _ in range(m)], "rep": draw(pick(1, 1, 1, 200))}


@facet("C08", s_arrays(), quick=4000, shards=2, rule="at least two non-empty inputs")
def arrays(c):
    """hstack of plain arrays of any dtype mixture, width and layout is their concatenation in the common type"""
    specs = [dict(p, v=p["v"] * c["rep"]) for p in c["p"]]
    arrs = [mkcol(p, la) for p, la in zip(specs, c["la"])]
    if c["f"] not in ("hstack_any", "stack_rows"):  # these insist on one class
        arrs = [np.asarray(a) if nd else a for a, nd in zip(arrs, c["nd"])]
    before = [a.copy() for a in arrs]
    f = c["f"]
    if f == "hstack_any":
        r = rt.hstack_any(arrs)
    elif f == "stack_rows":
        r = rt.stack_rows(arrs)
    elif f == "tuple":
        r = rt.hstack(tuple(arrs))
    elif f == "vstackrow":
        if len({len(a) for a in arrs}) != 1 or len({a.dtype for a in arrs}) != 1 or len(arrs[0]) == 0 or arrs[0].dtype.kind in "SU":
            return
        r = rt.vstack(arrs)
        require(r.shape == (len(arrs), len(arrs[0])), "vstack shape", got=r.shape, case=c)
        for i, p in enumerate(specs):
            same_list(npy(np.asarray(r[i])), want(p), f"vstack row {i}", case=c)
        nt("vstack")
        return
    else:
        r = rt.hstack(arrs)
    dts = [a.dtype for a in arrs]
    exp = [x for p in specs for x in want(p)]
    if sum(len(a) > 0 for a in arrs) >= 2:
        nt(f, "mixed" if len(set(dts)) > 1 else "same", "layouts" if set(c["la"]) != {"c"} else "contig")
    ct = common(dts)
    require(len(r) == len(exp), "stacked length", got=len(r), expected=len(exp), case=c)
    if ct.kind in "SU":
        require(r.dtype.kind == ct.kind, f"stacked dtype {r.dtype}, expected {ct}", case=c)
    else:
        require(r.dtype == ct if len(set(dts)) == 1 else np.promote_types(r.dtype, ct) == r.dtype, f"stacked dtype {r.dtype}, expected {ct} or wider", case=c)
    if r.dtype.kind == "f":
        exp = [x if x is None else float(r.dtype.type(x)) for x in exp]
    same_list(npy(np.asarray(r)), exp, "hstack", case=c)
    for a, b in zip(arrs, before):
        require(a.tobytes() == b.tobytes() and a.dtype == b.dtype, "hstack changed an input", case=c)


@st.composite
def s_cats(draw):
    k = draw(pick(CATK + ["catmix", "catnum"]))
    m = draw(st.integers(1, 4))
    parts = []
    for _ in range(m):
        n = draw(sizes(1, 9))
        if k == "catmix":
            parts.append(draw(scol(n, ["cat", "catU", "catf"])))
        elif k == "catnum":
            parts.append({"k": "catd", "d": draw(pick("int32", "int64", "float64", "int8")), "v": draw(vals([1, 2, 3, 7], n))})
        else:
            parts.append(draw(scol(n, [k])))
    return {"p": parts, "ord": draw(pick(None, None, True, False)), "many": draw(pick(0, 0, 0, 130, 300)), "f": draw(pick("hstack", "hstack_any", "cls")), "cut": [draw(pick(None, None, "rows", "shrink")) for _ in range(m)]}


@facet("C08", s_cats(), quick=3000, shards=2, rule="at least two inputs with different categories")
def categoricals(c):
    """stacking Categoricals keeps every row's value whatever the category sets, dtypes, widths, order and filters"""
    arrs, exp = [], []
    for j, p in enumerate(c["p"]):
        if p["k"] == "catd":
            a = rt.Categorical(rt.FastArray(np.array(p["v"], dtype=p["d"])), ordered=c["ord"] if c["ord"] is not None else True)
            e = list(p["v"])
        elif p["k"] == "cat" and c["many"] and j == 0:
            v = p["v"] + ["w%03d" % i for i in range(c["many"])]
            a = rt.Categorical(np.array(v, dtype="S"))
            e = v
        elif p["k"] == "cat" and c["ord"] is not None:
            a = rt.Categorical(np.array(p["v"], dtype="S"), ordered=c["ord"])
            e = want(p)
        else:
            a = mkcol(p)
            e = want(p)
        if c["cut"][j] == "rows":
            a, e = a[: len(a) // 2 + 1], e[: len(e) // 2 + 1]
        elif c["cut"][j] == "shrink" and p["k"] not in ("cmap",):
            a, e = a[1:], e[1:]
        arrs.append(a)
        exp += e
    befores = [snap(a) for a in arrs]
    if len({(a.category_mode, a.base_index) for a in arrs}) > 1:
        require(raises(rt.hstack, arrs) is not None, "stacking different kinds of Categorical did not raise", case=c)
        return
    if c["f"] == "hstack":
        r = rt.hstack(arrs)
    elif c["f"] == "hstack_any":
        r = rt.hstack_any(arrs)
    else:
        r = rt.Categorical.hstack(arrs)
    if len(arrs) > 1 and len({str(b[4:5]) for b in befores}) > 1:
        nt(c["p"][0]["k"], c["f"])
    require(isinstance(r, rt.Categorical), "stacked class", got=type(r), case=c)
    same_list(canon(r), exp, "stacked Categorical", case=c)
    cat_sane(r, "stacked Categorical", case=c)
    require(r.base_index == arrs[0].base_index, "base index changed", got=r.base_index, case=c)
    for a, b in zip(arrs, befores):
        require(snap(a) == b, "hstack changed an input Categorical", case=c)


@st.composite
def s_times(draw):
    k = draw(pick(TIMEK))
    m = draw(st.integers(1, 4))
    return {"p": [draw(scol(draw(sizes(0, 7)), [k])) for _ in range(m)], "la": [draw(pick(LAYOUT)) for _ in range(m)], "tz": draw(pick(0, 0, 1, 2)), "tz2": draw(pick(False, False, False, True)), "f": draw(pick("hstack", "any", "cls"))}


@facet("C08", s_times(), quick=1500, rule="at least two non-empty inputs")
def times(c):
    """date/time arrays stack to the same class, same zone, same values"""
    specs = [dict(p, tz=c["tz"]) for p in c["p"]]
    if c["tz2"] and len(specs) > 1:
        specs[-1]["tz"] = (c["tz"] + 1) % 3
    arrs = [mkcol(p, la) for p, la in zip(specs, c["la"])]
    k = specs[0]["k"]
    f = {"hstack": rt.hstack, "any": rt.hstack_any, "cls": type(arrs[0]).hstack}[c["f"]]
    if k == "dtn" and c["tz2"] and len(arrs) > 1:
        e = raises(f, arrs)
        if e is None:
            r = f(arrs)
            same_list(canon(r), [x for p in specs for x in want(p)], "stacking different zones changed the instants", case=c)
        return
    if c["f"] == "cls" and len(arrs) == 1:
        return  # the class methods return the list itself for one input
    r = f(arrs)
    if sum(len(a) > 0 for a in arrs) > 1:
        nt(k, c["f"])
    check_col(r, [x for p in specs for x in want(p)], k, "stacked", case=c)
    if k == "dtn":
        require(r._timezone._to_tz == arrs[0]._timezone._to_tz, "stacking lost the zone", case=c)


# ---------------------------------------------------------------- tables
NAMES = ["a", "b", "c", "d"]
GROUPS = {"num": NUMK, "str": ["S", "U"], "cat": ["cat"], "date": ["date"], "dtn": ["dtn"], "tspan": ["tspan"], "bool": ["bool"], "catn": ["catn"], "cmulti": ["cmulti"], "catf": ["catf"], "S": ["S"]}


@st.composite
def s_tables(draw):
    fam = {nm: draw(pick(list(GROUPS))) for nm in NAMES}
    m = draw(st.integers(1, 4))
    parts = []
    for _ in range(m):
        n = draw(sizes(0, 6))
        if any(g in ("cat", "catn", "cmulti", "catf") for g in fam.values()):
            n = max(1, n)
        names = draw(st.lists(pick(NAMES), min_size=1, max_size=4, unique=True))
        parts.append({"n": n, "cols": {nm: draw(scol(n, GROUPS[fam[nm]])) for nm in names}})
    return {"p": parts, "fam": fam, "f": draw(pick("hstack", "any", "Dataset.hstack", "concat_rows", "destroy")), "la": draw(pick(LAYOUT)), "two": draw(pick(False, False, True))}


@facet("C08", s_tables(), quick=3500, shards=2, rule="at least two tables, one column missing somewhere")
def tables(c):
    """stacking tables aligns columns by name, fills absent ones with invalid for exactly those rows and keeps first-seen order"""
    dss, names = [], []
    for p in c["p"]:
        d = {nm: mkcol(col, c["la"]) for nm, col in p["cols"].items()}
        dss.append(rt.Dataset(d))
        for nm in p["cols"]:
            if nm not in names:
                names.append(nm)
    before = [snap(d) for d in dss]
    f = c["f"]
    if f == "hstack":
        r = rt.hstack(dss)
    elif f == "any":
        r = rt.hstack_any(dss)
    elif f == "Dataset.hstack":
        r = rt.Dataset.hstack(dss)
    elif f == "concat_rows":
        r = rt.Dataset.concat_rows(dss)
    else:
        r = rt.Dataset.concat_rows(dss, destroy=True)
    tot = sum(p["n"] for p in c["p"])
    miss = any(nm not in p["cols"] and p["n"] for p in c["p"] for nm in names)
    if len(dss) > 1 and miss:
        nt(f, *[c["fam"][nm] for nm in names])
    require(list(r.keys()) == names, "stacked column names/order", got=list(r.keys()), expected=names, case=c)
    require(r.get_nrows() == tot, "stacked row count", got=r.get_nrows(), expected=tot, case=c)
    for nm in names:
        kinds = [p["cols"][nm]["k"] for p in c["p"] if nm in p["cols"]]
        exp, dts = [], []
        for p in c["p"]:
            if nm in p["cols"]:
                exp += want(p["cols"][nm])
                dts.append(np_of({"d": p["cols"][nm]["k"], "v": p["cols"][nm]["v"]}).dtype if p["cols"][nm]["k"] in BASIC else None)
            else:
                exp += [missing(kinds[0])] * p["n"]
        k = kinds[0]
        g = canon(r[nm])
        if dts[0] is not None and k in NUMK:
            ct = np.result_type(*dts)
            if True:
                require(np.promote_types(r[nm].dtype, ct) == r[nm].dtype, f"column {nm}: dtype {r[nm].dtype}, expected {ct}", case=c)
            if ct.kind == "f" or r[nm].dtype.kind == "f":
                exp = [x if x is None else float(r[nm].dtype.type(x)) for x in exp]
        require(type(r[nm]).__name__ == CLS.get(k, "FastArray"), "column class", got=type(r[nm]), case=c)
        same_list(g, exp, f"column {nm}", case=c)
        if isinstance(r[nm], rt.Categorical):
            cat_sane(r[nm], case=c)
    if f != "destroy":
        require([snap(d) for d in dss] == before, "stacking changed an input table", case=c)
        if len(dss) > 1 and tot and names:  # later writes to the result do not reach the inputs
            nm = names[0]
            if c["fam"][nm] == "num":
                r[nm][:] = 0
                require([snap(d) for d in dss] == before, "stacked column aliases an input", case=c)


@st.composite
def s_colw(draw):
    n = draw(sizes(0, 6))
    m = draw(st.integers(1, 3))
    return {"n": n, "p": [{nm: draw(scol(n, BASIC + (["cat", "date"] if n else ["date"]))) for nm in draw(st.lists(pick(NAMES), min_size=1, max_size=3, unique=True))} for _ in range(m)], "dup": draw(pick("raise", "first", "last")), "copy": draw(st.booleans()), "mis": draw(pick("ignore", "warn", "raise"))}


@facet("C08", s_colw(), quick=1500, rule="at least two tables")
def columns(c):
    """concat_columns keeps each distinct column once, choosing first/last or raising on duplicates"""
    dss = [rt.Dataset({k: mkcol(v) for k, v in p.items()}) for p in c["p"]]
    exp = {}
    dup = False
    for p in c["p"]:
        for k, v in p.items():
            if k in exp:
                dup = True
                if c["dup"] == "last":
                    exp[k] = v
            else:
                exp[k] = v
    fn = lambda: rt.Dataset.concat_columns(dss, do_copy=c["copy"], on_duplicate=c["dup"], on_mismatch=c["mis"])
    if dup and (c["dup"] == "raise" or c["mis"] == "raise"):
        require(raises(fn) is not None, "duplicate columns did not raise", case=c)
        return
    r = fn()
    if len(dss) > 1:
        nt("dup" if dup else "nodup", c["dup"])
    require(list(r.keys()) == list(exp), "column order", got=list(r.keys()), expected=list(exp), case=c)
    for k, v in exp.items():
        check_col(r[k], want(v), v["k"], f"column {k}", case=c)
    if c["copy"] and c["n"]:
        for k, v in exp.items():
            if v["k"] in NUMK:
                r[k][:] = 5
        for p, d in zip(c["p"], dss):
            for k, v in p.items():
                same_list(canon(d[k]), want(v), "do_copy=True still aliases the input", case=c)


@st.composite
def s_struct(draw):
    m = draw(st.integers(2, 3))
    def one(n):
        return {"x": draw(scol(n, ["int32", "int64", "float64"])), "s": draw(scol(n, ["S"])), "t": draw(scol(max(1, n), ["date"])), "c": draw(scol(max(1, n), ["cat"]))}
    return {"p": [one(draw(sizes(1, 5))) for _ in range(m)], "drop": [draw(pick(None, None, "x", "s", "sub")) for _ in range(m)], "sub": [draw(scol(draw(sizes(1, 4)), ["int32"])) for _ in range(m)], "dict": draw(st.booleans())}


@facet("C08", s_struct(), quick=1000, rule="a nested table is stacked")
def structs(c):
    """stacking structures stacks their arrays and nested tables item by item; stacking a dict labels each row with its key"""
    if c["dict"]:
        d = {f"k{i}": mkcol(p["x"]) for i, p in enumerate(c["p"])}
        arr, cat = rt.hstack_any(d)
        same_list(canon(cat), [f"k{i}" for i, p in enumerate(c["p"]) for _ in p["x"]["v"]], "dict stack labels", case=c)
        same_list(canon(arr), [x if x is None else float(x) if arr.dtype.kind == "f" else x for p in c["p"] for x in want(p["x"])], "dict stack values", case=c)
        nt("dict")
        return
    sts, names = [], []
    for p, dr, sub in zip(c["p"], c["drop"], c["sub"]):
        s = rt.Struct({k: mkcol(v) for k, v in p.items() if k != dr})
        if dr != "sub":
            s.sub = rt.Dataset({"q": mkcol(sub)})
        sts.append(s)
        for k in s.keys():
            if k not in names:
                names.append(k)
    r = rt.Struct.hstack(sts)
    require(list(r.keys()) == names, "struct item order", got=list(r.keys()), expected=names, case=c)
    for k in names:
        if k == "sub":
            exp = [x for s, dr in zip(c["sub"], c["drop"]) if dr != "sub" for x in want(s)]
            require(isinstance(r.sub, rt.Dataset), "nested table class", got=type(r.sub), case=c)
            same_list(canon(r.sub.q), exp, "nested table", case=c)
            nt("nested")
        else:
            exp = [x for p, dr in zip(c["p"], c["drop"]) if dr != k for x in want(p[k])]
            if k == "x" and r[k].dtype.kind == "f":
                exp = [y if y is None else float(y) for y in exp]
            same_list(canon(r[k]), exp, f"struct item {k}", case=c)
