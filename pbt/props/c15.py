"""C15: user functions per group, recorded calls and results against the partition of the rows; agg against the single operations."""
import logging
import math

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.gb import *
from pbt.props.c13 import DATAK, FORMS, INTK, check_reduce, cmpv, dvals, run, s_data, s_form
from pbt.props.c14 import rows_of

logging.disable(logging.CRITICAL)

UK = ["int32", "int64", "float64", "float64", "int16", "uint8", "float32", "uint32"]


def lst(x):
    return npy(np.asarray(x))


def z(x):
    return 0 if x is None else x


# order-sensitive and order-insensitive reductions of a list of values (None = invalid)
RED = {
    "wsum": lambda v: float(sum((i + 1) * z(x) for i, x in enumerate(v))),
    "len": lambda v: len(v),
    "first": lambda v: float(z(v[0])),
    "last": lambda v: float(z(v[-1])),
    "nones": lambda v: sum(x is None for x in v),
}
SCAN = {
    "csum": lambda v: [float(sum(z(y) for y in v[: i + 1])) for i in range(len(v))],
    "rev": lambda v: [float(z(x)) for x in v[::-1]],
    "num": lambda v: list(range(len(v))),
    "size": lambda v: [len(v)] * len(v),
}


def labs(c, *more):
    p = partition(rows_of(c), None)
    nt(len(p) > 1 and any(len(r) > 1 for _, r in p), c["fo"]["form"], "filter" if c["fo"]["filt"] else "nofilter", *more)


def usable(c):
    """drop the filters when they leave no row (nothing is claimed for that)"""
    fo = c["fo"]
    rows = rows_of(c)
    if not any(r is not None and (not fo["filt"] or fo["filt"][i]) for i, r in enumerate(rows)):
        fo = dict(fo, filt=None, gf=None)
        c = dict(c, fo=fo)
        if all(r is None for r in rows_of(c)):
            return None
    return c


@st.composite
def s_red(draw):
    n = draw(sizes(1, 24))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=UK, big=False)), "fo": draw(s_form(n)), "f": draw(pick(list(RED))), "ret": draw(pick("py", "np", "arr1")), "dt": draw(pick(0, 0, 0, "str", "np")), "extra": draw(pick(0, 0, "pos", "kw", "fp"))}


def check_calls(calls, c, rows, ff, cols, what, rest=False):
    """the function saw exactly the rows of each group (rest: the rows without a group may be passed as one more group)"""
    exp = []
    if rest:
        calls = list(calls)
        for v in cols:
            x = [v[i] for i in range(len(rows)) if rows[i] is None or (ff and not ff[i])]
            at = [j for j, y in enumerate(calls) if repr(x) == repr(y)]
            if x and at and len(calls) > len(partition(rows, ff)) * len(cols):
                del calls[at[0]]
    for v in cols:
        for k, rr in partition(rows, ff):
            exp.append([v[i] for i in rr])
    key = lambda x: repr(x)
    got = sorted(calls, key=key)
    exp = sorted(exp, key=key)
    require(len(got) == len(exp), f"{what}: the function was called {len(got)} times, expected {len(exp)}", got=got, expected=exp, case=c)
    for a, b in zip(got, exp):
        require(a == b, f"{what}: rows passed to the function", got=got, expected=exp, case=c)


@facet("C15", s_red(), quick=2200, shards=3, rule="at least two groups and a group of at least two rows")
def reduce_calls(c):
    """apply_reduce: calls, arguments, result at the group's label, transform, dtype, extra arguments"""
    c = usable(c)
    if c is None:
        return
    labs(c, c["f"], "transform" if c["fo"]["tr"] else "reduce")
    if not c["fo"]["form"].startswith("gb") and c["fo"]["form"] not in ("catarr", "catlist", "catord", "catds", "catsort", "catdataset", "catdict"):
        c = dict(c, fo=dict(c["fo"], form="catlist"))
    if c["fo"]["form"] == "catdataset":  # the data are given as an argument
        c = dict(c, fo=dict(c["fo"], form="catds"))
    calls = []

    def user(x, *args, **kw):
        if c["extra"]:
            require((args or tuple(kw.values())) == (7,), "apply_reduce: extra arguments", got=(args, kw), case=c)
        v = lst(x)
        calls.append(v)
        r = RED[c["f"]](v)
        return r if c["ret"] == "py" else np.float64(r) if c["ret"] == "np" else np.array([float(r)])

    kw = {"_pre": (user,)}
    args = ()
    if c["dt"]:
        kw["dtype"] = "float64" if c["dt"] == "str" else np.dtype("float64")
    if c["extra"] == "pos":
        args = (7,)
    elif c["extra"] == "kw":
        kw["b"] = 7
    elif c["extra"] == "fp":
        kw["func_param"] = (7,)
    rows, fo = rows_of(c), c["fo"]
    sf = fo["sf"] and not fo["tr"] and not any(k["k"] == "cat0" for k in c["ks"])
    check_reduce(c, c["ks"], c["ds"], "apply_reduce", lambda k, v: RED[c["f"]](v) if v else None, *args, tol=1e-6, skipempty=bool(sf), **kw)
    if not sf:
        check_calls(calls, c, rows, fo["filt"], [dvals(d) for d in c["ds"]], "apply_reduce")


@st.composite
def s_scan(draw):
    n = draw(sizes(1, 24))
    fo = draw(s_form(n))
    fo["tr"] = fo["sf"] = 0
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=UK, big=False)), "fo": fo, "f": draw(pick(list(SCAN))), "dt": draw(pick(0, 0, 0, 1)), "extra": draw(pick(0, 0, "pos", "kw", "fp"))}


@facet("C15", s_scan(), quick=1800, shards=3, rule="at least two groups and a group of at least two rows")
def scan_calls(c):
    """apply_nonreduce: calls, arguments, result back at the rows of the group"""
    c = usable(c)
    if c is None:
        return
    labs(c, c["f"])
    if c["fo"]["form"] in ("catdataset", "dscat"):
        c = dict(c, fo=dict(c["fo"], form="catds"))
    calls = []

    def user(x, *args, **kw):
        if c["extra"]:
            require((args or tuple(kw.values())) == (7,), "apply_nonreduce: extra arguments", got=(args, kw), case=c)
        v = lst(x)
        calls.append(v)
        return rt.FastArray(np.array(SCAN[c["f"]](v), dtype="float64"))

    kw = {"_pre": (user,)}
    args = ()
    if c["dt"]:
        kw["dtype"] = np.float64
    if c["extra"] == "pos":
        args = (7,)
    elif c["extra"] == "kw":
        kw["b"] = 7
    elif c["extra"] == "fp":
        kw["func_param"] = (7,)
    g, r, rows, ff, _ = run(c, c["ks"], c["ds"], "apply_nonreduce", *args, **kw)
    n = len(rows)
    cols = [k for k in r.keys() if not k.startswith("gb_key")]
    require(len(cols) == len(c["ds"]), "apply_nonreduce: result columns", got=list(r.keys()), case=c)
    require(r.shape[0] == n, "apply_nonreduce: rows", got=r.shape[0], case=c)
    for nm, d in zip(cols, c["ds"]):
        v = dvals(d)
        got = canon(r[nm])
        exp = [None] * n
        for k, rr in partition(rows, ff):
            for i, x in zip(rr, SCAN[c["f"]]([v[i] for i in rr])):
                exp[i] = float(x)
        for i in range(n):  # (the repository's tests pin that the rows without a group are treated as one more group)
            if rows[i] is None or (ff and not ff[i]):
                got[i] = None
        same_list(got, exp, f"apply_nonreduce of {nm}", tol=1e-6, case=c)
    check_calls(calls, c, rows, ff, [dvals(d) for d in c["ds"]], "apply_nonreduce", rest=True)


@st.composite
def s_multi(draw):
    n = draw(sizes(1, 24))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=UK, big=False, m=draw(pick(2, 3)))), "fo": {"form": draw(pick("cat", "gb")), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))), "gf": None, "tr": 0, "sf": 0}, "red": draw(pick(0, 1)), "dd": draw(pick(0, 0, 1))}


@facet("C15", s_multi(), quick=1200, shards=2, rule="at least two groups and a group of at least two rows")
def multi_array(c):
    """several arrays per call (tuple form) and several named outputs"""
    c = usable(c)
    if c is None:
        return
    labs(c, "reduce" if c["red"] else "scan", "outputs" if c["dd"] else "single")
    keys = mkkeys(c["ks"])
    data = [mkcol(d, d["la"]) for d in c["ds"]]
    rows = rows_of(c)
    ff = c["fo"]["filt"]
    n = len(rows)
    kw = {} if ff is None else {"filter": rt.FastArray(np.array(ff, dtype=bool))}
    cols = [dvals(d) for d in c["ds"]]
    gbf = c["fo"]["form"] == "gb"
    m = len(data)

    def comb(vs):
        return [float(sum((j + 1) * z(v[i]) for j, v in enumerate(vs))) for i in range(len(vs[0]))]

    def outred(vs):
        return float(sum((i + 1) * x for i, x in enumerate(comb(vs))))

    if gbf:
        # group-by with the data columns of the table; the other arrays are passed along with each of them
        kn = [f"k{i}" for i in range(len(keys))]
        ds = rt.Dataset({**dict(zip(kn, keys)), "x0": data[0]})
        g = ds.gb(kn)
        arg = tuple(data[1:])
    else:
        g = rt.Categorical(keys if len(keys) > 1 else keys[0])
        arg = tuple(data)

    def user(*xs):
        xs = xs[:m]
        require(len(xs) == m and len({len(x) for x in xs}) == 1, "tuple form: arrays passed to the function", got=[lst(x) for x in xs], case=c)
        vs = [lst(x) for x in xs]
        return outred(vs) if c["red"] else rt.FastArray(np.array(comb(vs), dtype="float64"))

    def user2(*xs):
        vs = [lst(x) for x in xs[:m]]
        if not vs[0]:
            return
        if c["red"]:
            xs[m][0] = outred(vs)
            xs[m + 1][0] = len(vs[0])
        else:
            xs[m][:] = np.array(comb(vs))
            xs[m + 1][:] = np.arange(len(vs[0]))

    fn = g.apply_reduce if c["red"] else g.apply_nonreduce
    dd = c["dd"] and not gbf
    if dd:
        kw["dtype"] = {"A": np.float64, "B": np.int64}
    r = fn(user2 if dd else user, arg, **kw)
    part = partition(rows, ff)
    if c["red"]:
        lab = r.label_get_names()
        labels = lab_rows([r[k] for k in lab])
        dc = [k for k in r.keys() if k not in lab]
        exp = {k: [[v[i] for i in rr] for v in cols] for k, rr in part}
        require(set(exp) <= set(labels), "tuple form: labels", got=labels, expected=list(exp), case=c)
        got = canon(r[dc[0]])
        for lb, x in zip(labels, got):
            if lb in exp:
                cmpv(x, outred(exp[lb]), f"tuple form reduce of group {lb}", 1e-6, c)
        if dd:
            require(dc == ["A", "B"], "named outputs", got=dc, case=c)
            for lb, x in zip(labels, canon(r["B"])):
                if lb in exp:
                    cmpv(x, len(exp[lb][0]), f"second named output of group {lb}", 0, c)
        return
    e1, e2 = [None] * n, [None] * n
    for k, rr in part:
        for j, (i, x) in enumerate(zip(rr, comb([[v[i] for i in rr] for v in cols]))):
            e1[i], e2[i] = x, j
    dc = [k for k in r.keys() if not k.startswith("gb_key")]
    got = canon(r[dc[0]])
    if not dd:
        got = [None if y is None else x for x, y in zip(got, e2)]
    same_list(got, e1, "tuple form scan", tol=1e-6, case=c)
    if dd:
        require(dc == ["A", "B"], "named outputs", got=dc, case=c)
        same_list(canon(r["B"]), e2, "second named output", case=c)


@st.composite
def s_apply(draw):
    n = draw(sizes(1, 20))
    cols = [dict(draw(scol(n, kinds=UK + ["S", "date"], few=True)), la=draw(pick(LAYOUT))) for _ in range(draw(pick(1, 2)))]
    return {"ks": draw(s_keys(n)), "ds": cols, "fo": {"form": draw(pick("gb", "gbu", "gblex", "cat")), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))), "gf": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "tr": 0, "sf": 0}, "red": draw(pick(0, 1)), "ret": draw(pick("ds", "dict"))}


@facet("C15", s_apply(), quick=1200, shards=3, rule="at least two groups and a group of at least two rows")
def table_calls(c):
    """apply: a table of the group's rows per call; row-wise results return to their rows, reductions to their label"""
    c = usable(c)
    if c is None:
        return
    labs(c, "reduce" if c["red"] else "rowwise", c["fo"]["form"])
    keys = mkkeys(c["ks"])
    data = [mkcol(d, d["la"]) for d in c["ds"]]
    fo = c["fo"]
    rows, ff = rows_of(c), fo["filt"]
    n = len(rows)
    F = lambda x: None if x is None else rt.FastArray(np.array(x, dtype=bool))
    kw = {} if ff is None else {"filter": F(ff)}
    names = [f"x{i}" for i in range(len(data))]
    kn = [f"k{i}" for i in range(len(keys))]
    cols = [want(d) for d in c["ds"]]
    part = partition(rows, ff)
    calls = []

    def user(d):
        vs = [canon(d[k]) for k in names]
        calls.append(vs)
        if c["red"]:
            out = {"first": d["x0"][:1], "cnt": rt.FastArray(np.array([len(vs[0])]))}
        else:
            out = {"x": d["x0"][::-1].copy() if c["ds"][0]["k"] in UK else d["x0"], "num": rt.arange(len(vs[0]))}
        return rt.Dataset(out) if c["ret"] == "ds" else out

    kk = kn if len(kn) > 1 else kn[0]
    if fo["form"] == "cat":
        g = rt.Categorical(keys if len(keys) > 1 else keys[0], filter=F(fo["gf"]))
        r = g.apply(user, rt.Dataset(dict(zip(names, data))), **kw)
    else:
        ds = rt.Dataset({**dict(zip(kn, keys)), **dict(zip(names, data))})
        g = ds.gbu(kk, filter=F(fo["gf"])) if fo["form"] == "gbu" else ds.gb(kk, filter=F(fo["gf"]), lex=fo["form"] == "gblex")
        r = g.apply(user, **kw)
    exp_calls = sorted(([[v[i] for i in rr] for v in cols] for k, rr in part), key=repr)
    require(sorted(calls, key=repr) == exp_calls, "apply: rows passed to the function", got=calls, expected=exp_calls, case=c)
    if c["red"] or all(len(rr) == 1 for _, rr in part):
        if not c["red"]:
            return  # one row per group: indistinguishable from a reduction
        lab = r.label_get_names()
        if lab == ["gb_key_0"] and fo["form"] == "cat":
            lab = [k for k in r.keys() if k not in ("first", "cnt", "gb_key_0")]
            if len(keys) > 1:
                require(canon(r["gb_key_0"]) == lab_rows([r[k] for k in lab]), "apply: key column does not agree with the labels", got=canon(r["gb_key_0"]), case=c)
            else:
                require(canon(r["gb_key_0"]) == canon(r[lab[0]]), "apply: key column does not agree with the label", got=canon(r["gb_key_0"]), case=c)
        require(len(lab) == len(keys), "apply: label columns", got=list(r.keys()), case=c)
        labels = lab_rows([r[k] for k in lab])
        exp = dict(part)
        require(set(labels) >= set(exp) and len(set(labels)) == len(labels), "apply: labels", got=labels, expected=list(exp), case=c)
        for lb, x, m in zip(labels, canon(r["first"]), canon(r["cnt"])):
            if lb in exp:
                require(x == cols[0][exp[lb][0]] and m == len(exp[lb]), f"apply: reduction of group {lb}", got=(x, m), expected=(cols[0][exp[lb][0]], len(exp[lb])), case=c)
        return
    require(r.shape[0] == n, "apply: rows", got=r.shape[0], expected=n, case=c)
    gx, gn = canon(r["x"]), canon(r["num"])
    ex, en = [None] * n, [None] * n
    for k, rr in part:
        src = rr[::-1] if c["ds"][0]["k"] in UK else rr
        for j, (i, s) in enumerate(zip(rr, src)):
            ex[i], en[i] = cols[0][s], j
    for i in range(n):
        if rows[i] is None or (ff and not ff[i]):
            require(gn[i] is None and gx[i] in (None, ""), f"apply: row {i} without a group has a value", got=(gx, gn), case=c)
        else:
            require(gx[i] == ex[i] and gn[i] == en[i], f"apply: row {i}", got=(gx, gn), expected=(ex, en), case=c)


AGGF = ["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "std", "var", "median", "first", "last", "nanmedian", "count"]
NPF = {"sum": np.sum, "mean": np.mean, "min": np.min, "max": np.max, "std": np.std, "var": np.var, "median": np.median, "nansum": np.nansum, "nanmean": np.nanmean, "nanmax": np.nanmax, "nanmin": np.nanmin}


@st.composite
def s_agg(draw):
    n = draw(sizes(1, 20))
    m = draw(pick(1, 2, 3))
    fs = draw(st.lists(pick(AGGF[:-1]), min_size=1, max_size=4, unique=True))
    d = {f"x{i}": draw(st.lists(pick(AGGF[:-1]), min_size=1, max_size=3, unique=True)) for i in range(m)}
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=UK, big=False, m=m)), "form": draw(pick("gb", "gbu", "gblex", "catds", "catarr", "catdataset")), "sp": draw(pick("list", "dict", "str", "np", "rt")), "fs": fs, "d": d, "flt": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "tr": draw(pick(0, 0, 0, 1)), "fo": {"gf": None, "filt": None, "form": ""}}


@facet("C15", s_agg(), quick=1200, shards=2, rule="at least two groups and a group of at least two rows")
def aggregation(c):
    """agg with several functions (names, numpy or riptable callables, list or per-column dict) equals the functions one by one"""
    labs(c, c["form"], c["sp"])
    keys = mkkeys(c["ks"])
    data = [mkcol(d, d["la"]) for d in c["ds"]]
    names = [f"x{i}" for i in range(len(data))]
    kn = [f"k{i}" for i in range(len(keys))]
    dd = rt.Dataset(dict(zip(names, data)))
    kw = {} if c["flt"] is None else {"filter": rt.FastArray(np.array(c["flt"], dtype=bool))}
    if c["tr"]:
        kw["transform"] = True
    kk = kn if len(kn) > 1 else kn[0]
    form = c["form"]
    if form.startswith("cat"):
        g = rt.Categorical(keys if len(keys) > 1 else keys[0])
        a = (dd,)
    else:
        ds = rt.Dataset({**dict(zip(kn, keys)), **dict(zip(names, data))})
        g = ds.gbu(kk) if form == "gbu" else ds.gb(kk, lex=form == "gblex")
        a = ()

    def sp(f):
        if c["sp"] == "np":
            return NPF.get(f, f)
        if c["sp"] == "rt":
            return getattr(rt, f) if f in NPF else f
        return f

    if c["sp"] == "dict":
        arg = {k: [x for x in v] if i % 2 or len(v) > 1 else v[0] for i, (k, v) in enumerate(c["d"].items())}
        plan = {}
        for k, v in c["d"].items():
            for f in v:
                plan.setdefault(f, []).append(k)
    else:
        fs = c["fs"][:1] if c["sp"] == "str" else c["fs"]
        arg = fs[0] if c["sp"] == "str" else [sp(f) for f in fs]
        plan = {f: names for f in fs}
    if form == "catdataset":
        r = g.agg(arg, dataset=dd, **kw)
    else:
        r = g.agg(arg, *a, **kw)
    require(list(r.keys()) == [f.capitalize() for f in plan], "agg: functions", got=list(r.keys()), expected=list(plan), case=c)
    for f, cols in plan.items():
        one = getattr(g, f)(*a, **kw)
        got = r[f.capitalize()]
        lab = one.label_get_names()
        gd = [k for k in got.keys() if k not in got.label_get_names()]
        require(sorted(gd) == sorted(cols), f"agg {f}: columns", got=gd, expected=cols, case=c)
        for k in cols:
            same_list(canon(got[k]), canon(one[k]), f"agg {f} of {k}", case=c)
        for k in lab:
            require(k in got and canon(got[k]) == canon(one[k]), f"agg {f}: labels", got=list(got.keys()), case=c)


@st.composite
def s_iter(draw):
    n = draw(sizes(1, 18))
    return {"ks": draw(s_keys(n)), "d": draw(scol(n, kinds=UK + ["S", "date"], few=True)), "fo": {"form": draw(pick("gb", "gbu", "gblex", "cat")), "filt": None, "gf": draw(st.one_of(st.none(), vals([True, True, False], n)))}, "cut": draw(pick(False, False, True))}


@facet("C15", s_iter(), quick=1500, shards=2, rule="at least two groups and a group of at least two rows")
def iteration(c):
    """iterating a group-by yields each group's key and exactly its rows, an empty table for a category without rows"""
    c = usable(c)
    if c is None:
        return
    labs(c)
    fo = c["fo"]
    keys = mkkeys(c["ks"])
    F = lambda x: None if x is None else rt.FastArray(np.array(x, dtype=bool))
    n = len(rows_of(c))
    kn = [f"k{i}" for i in range(len(keys))]
    kk = kn if len(kn) > 1 else kn[0]
    ds = rt.Dataset({**dict(zip(kn, keys)), "x": mkcol(c["d"]), "rn": rt.arange(n)})
    rows, W = rows_of(c), want(c["d"])
    if c["cut"] and n > 1:
        # a category column that lost rows keeps categories without rows
        ds = ds[: n - 1, :]
        rows, W = rows[: n - 1], W[: n - 1]
        if fo["gf"]:
            fo = dict(fo, gf=fo["gf"][: n - 1])
        if all(r is None for r in rows):
            return nt(False)
    part = partition(rows, None)
    if fo["form"] == "cat":
        ks2 = [ds[k] for k in kn]
        g = rt.Categorical(ks2 if len(ks2) > 1 else ks2[0], filter=F(fo["gf"]))
        got = [(k, [int(i) for i in np.asarray(rr)], None) for k, rr in g.iter_groups()]
    else:
        g = ds.gbu(kk, filter=F(fo["gf"])) if fo["form"] == "gbu" else ds.gb(kk, filter=F(fo["gf"]), lex=fo["form"] == "gblex")
        got = []
        for k, d in g:
            require(d.shape[0] == len(d.rn) == len(d.x), "iteration: table length", key=k, shape=d.shape, got=len(d.rn), case=c)
            got.append((k, [int(i) for i in np.asarray(d.rn)], canon(d.x)))
        require(np.asarray(ds.rn).tolist() == list(range(len(rows))), "iteration changed the table", case=c)
        second = [(k, [int(i) for i in np.asarray(rr)]) for k, rr in g.iter_groups()]
        require([x[1] for x in second] == [x[1] for x in got], "iter_groups and iteration differ", got=second, expected=got, case=c)
    live = [x for x in got if x[1]]
    require(sorted(x[1] for x in live) == sorted(rr for _, rr in part), "iteration: rows of the groups", got=got, expected=part, case=c)
    for k, rr, xs in live:
        if xs is not None:
            require(xs == [W[i] for i in rr], "iteration: values", key=k, got=xs, case=c)
        t = k if isinstance(k, tuple) else (k,)
        require(isinstance(k, tuple) == (len(keys) > 1), "iteration: key of the group", got=k, case=c)
        e = rows[rr[0]]
        for a, b, kc in zip(t, e, c["ks"]):
            if kc["k"] in ("S", "U", "cat", "int32", "int64", "int8", "int16", "uint8", "uint16", "uint32"):
                a = a.decode() if isinstance(a, bytes) else a
                require(a == b or b is None, "iteration: key of the group", got=k, expected=e, case=c)
