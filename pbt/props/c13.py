"""C13: group reductions against per-group Python reductions of the partition of the rows."""
import logging
import math

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.gb import *

logging.disable(logging.CRITICAL)

INTK = ["int32", "int64", "int8", "int16", "uint8", "uint16", "uint32", "uint64"]
DATAK = INTK + ["float64", "float64", "float32", "bool", "tspan"]


@st.composite
def s_data(draw, n, kinds=DATAK, big=True, m=None):
    out = []
    for _ in range(m or draw(pick(1, 1, 2, 3))):
        k = draw(pick(kinds))
        if k == "bool":
            pool = [True, False]
        elif k in INTK:
            pool = [1, 2, 3, 5, 0, 7, 1, 2] + ([] if k[0] == "u" else [-3, -1])
            if draw(st.integers(0, 3)) == 0:
                pool = pool + [None]
            if big and draw(st.integers(0, 3)) == 0:
                pool = pool + ([120, 127] if k.endswith("t8") else [32000, 32767] if k.endswith("16") else [2**31 - 1, 2**31 - 2])
        elif k == "tspan":
            pool = [1, 2, 3, 5, 0, -7] + ([None] if draw(st.integers(0, 3)) == 0 else [])
        else:
            pool = [1.0, 2.5, -3.0, 0.125, 0.0, 7.0] + ([None] if draw(st.integers(0, 2)) == 0 else [])
        out.append({"k": k, "v": draw(vals(pool, n)), "la": draw(pick(LAYOUT))})
    return out


def dvals(c):
    return [None if x is None else x * 1e9 for x in c["v"]] if c["k"] == "tspan" else list(c["v"])


FORMS = ["gb", "gb", "gbu", "gblex", "gbsel", "catarr", "catlist", "catdict", "catds", "catord", "catsort", "dscat", "catdataset"]


@st.composite
def s_form(draw, n):
    return {"form": draw(pick(FORMS)), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))), "tr": draw(pick(0, 0, 0, 1)), "sf": draw(pick(0, 0, 0, 1)), "gf": draw(st.one_of(st.none(), st.none(), st.none(), vals([True, True, False], n)))}


def run(c, ks, ds_, fn, *args, **kw):
    """call group operation `fn` in the form the case asks for -> (result, label columns, {data column name: array}, rows, call filter)"""
    rep = c.get("rep", 1)
    keys = mkkeys(big(ks, rep))
    data = [mkcol(d, d.get("la", "c")) for d in big(ds_, rep)]
    rows = key_rows(big(ks, rep))
    fo = c["fo"]
    gf = fo["gf"] and list(fo["gf"]) * rep
    ff = fo["filt"] and list(fo["filt"]) * rep
    form = fo["form"]
    F = lambda x: None if x is None else rt.FastArray(np.array(x, dtype=bool))
    names = [f"x{i}" for i in range(len(data))]
    if gf is not None:
        rows = [r if g else None for r, g in zip(rows, gf)]
    if ff is not None:
        kw["filter"] = F(ff)
    if fo["tr"]:
        kw["transform"] = True
    if fo["sf"] and not fo["tr"] and not any(k["k"] == "cat0" for k in ks):  # base-0 categories have no filtered bin
        kw["showfilter"] = True
    kn = [f"k{i}" for i in range(len(keys))]
    before = [canon(k) for k in keys], snap(data)
    if form.startswith("gb") or form == "dscat":
        ds = rt.Dataset(dict(zip(kn + names, keys + data)))
        kk = kn if len(kn) > 1 else kn[0]
        if form == "dscat":
            g = ds.cat(kk, filter=F(gf))
            a = (ds[names],)
        else:
            g = ds.gbu(kk, filter=F(gf)) if form == "gbu" else ds.gb(kk, filter=F(gf), lex=form == "gblex")
            a = ()
            if form == "gbsel":
                g = g[names]
    else:
        extra = {"ordered": True} if form == "catord" else {"sort_gb": True, "ordered": False} if form == "catsort" else {}
        g = rt.Categorical(keys if len(keys) > 1 else keys[0], filter=F(gf), **extra)
        if len(data) == 1 and form == "catarr":
            a = (data[0],)
        elif form in ("catdict", "catord"):
            a = (dict(zip(names, data)),)
        elif form == "catdataset":
            a = ()
            kw["dataset"] = rt.Dataset(dict(zip(names, data)))
        elif form == "catds" or form == "catsort":
            a = (rt.Dataset(dict(zip(names, data))),)
        else:
            a = (data,)
    if fn == "count":
        a = ()
        kw.pop("dataset", None)
        if not form.startswith("gb"):
            kw.pop("showfilter", None)
    r = getattr(g, fn)(*kw.pop('_pre', ()), *a, *args, **kw)
    require(([canon(k) for k in keys], snap(data)) == before, f"{fn} changed its inputs", case=c)
    return g, r, rows, ff, bool(kw.get("showfilter"))


def check_reduce(c, ks, ds_, fn, one, *args, col=None, tol=1e-9, skipempty=False, sfok=True, **kw):
    """result of a reducing operation == one(values) per group. `one(kind, values)` -> canonical value (or a predicate)"""
    rep = c.get("rep", 1)
    g, r, rows, ff, sf = run(c, ks, ds_, fn, *args, **kw)
    allpart = partition(rows)
    n = len(rows)
    keep = [True] * n if ff is None else ff
    grp = {k: [i for i in rr if keep[i]] for k, rr in allpart}
    lab = r.label_get_names()
    dcols = [k for k in r.keys() if k not in lab]
    exp_cols = len(ds_) if col is None else 1
    require(len(dcols) == exp_cols, f"{fn}: result columns", got=list(r.keys()), case=c)
    if c["fo"]["tr"]:
        for nm, d in zip(dcols, big(ds_, rep) if col is None else [None]):
            got = canon(r[nm])
            require(len(got) == n, f"{fn} transform: length", got=len(got), expected=n, case=c)
            v = None if d is None else dvals(d)
            for i in range(n):
                if rows[i] is None:
                    # (the repository's tests pin the filtered bin's own count for count_uniques; a boolean has no invalid)
                    if fn != "count_uniques" and (d is None or d["k"] not in ("bool",)):
                        require(got[i] is None or got[i] in ("", FILT), f"{fn} transform: row {i} has no group but a value", got=got, case=c)
                    continue
                rr = grp[rows[i]]
                if skipempty and not rr:
                    continue
                e = one(d and d["k"], [v[j] for j in rr] if v is not None else rr)
                cmpv(got[i], e, f"{fn} transform of {nm} at row {i}", tol, c)
        return
    require(len(lab) == len(ks), f"{fn}: label columns", got=lab, case=c)
    labels = lab_rows([r[k] for k in lab])
    if sf:
        labels = labels[1:]
    # a category array used as key may keep categories without rows
    extra = set(labels) - set(grp) if any(k["k"] in CATK for k in ks) else set()
    for lb in extra:
        require(len(lb) == len(ks) and all(x in want(k) or k["k"] not in CATK or k["k"] == "catf" for x, k in zip(lb, ks)), f"{fn}: unknown group label", got=labels, case=c)
        grp[lb] = []
    require(len(labels) == len(grp) and set(labels) == set(grp), f"{fn}: group labels", got=labels, expected=list(grp), case=c)
    if c["fo"]["form"] in ("gblex", "catsort") and not any(k["k"] in CATK + FLOATS for k in ks):
        require([skey(x) for x in labels] == sorted(skey(x) for x in labels), f"{fn}: rows are not in key order", got=labels, case=c)
    off = 1 if sf else 0
    for nm, d in zip(dcols, big(ds_, rep) if col is None else [None]):
        got = canon(r[nm])
        require(len(got) == len(labels) + off, f"{fn}: rows", got=len(got), case=c)
        v = None if d is None else dvals(d)
        for lb, x in zip(labels, got[off:]):
            rr = grp[lb]
            if skipempty and not rr:
                continue
            e = one(d and d["k"], [v[j] for j in rr] if v is not None else rr)
            cmpv(x, e, f"{fn} of {nm} for group {lb}", tol, c)
        if sf and sfok:
            kept = {i for rr in grp.values() for i in rr}
            rr = [i for i in range(n) if i not in kept]
            if rr or not skipempty:
                e = one(d and d["k"], [v[j] for j in rr] if v is not None else rr)
                cmpv(got[0], e, f"{fn} of {nm} for the filtered bin", tol, c)


def cmpv(x, e, what, tol, c):
    if callable(e):
        require(e(x), what, got=x, case=c)
    elif isinstance(e, float) and isinstance(x, (int, float)) and not isinstance(x, bool):
        require(abs(x - e) <= tol * max(1.0, abs(e)) or x == e, what, got=x, expected=e, case=c)
    else:
        require(x == e or (x is None and e is None), what, got=x, expected=e, case=c)


def nn(v):
    return [x for x in v if x is not None]


def skipna(f):
    return lambda k, v: f(k, nn(v))


def prop(f):
    return lambda k, v: None if any(x is None for x in v) else f(k, v)


def _sum(k, v):
    return sum(int(x) if k == "bool" else x for x in v)


def _mean(k, v):
    return float(math.fsum(v) / len(v)) if v else None


def _var(k, v):
    if len(v) < 2:
        return None
    m = math.fsum(v) / len(v)
    return math.fsum((x - m) ** 2 for x in v) / (len(v) - 1)


def _std(k, v):
    x = _var(k, v)
    return None if x is None else math.sqrt(x)


def _mm(f):
    return lambda k, v: f(v) if v else None


BASE = {"sum": _sum, "mean": _mean, "var": _var, "std": _std, "min": _mm(min), "max": _mm(max)}
ONE = {**{k: prop(f) for k, f in BASE.items()}, **{"nan" + k: skipna(f) for k, f in BASE.items()}}


@st.composite
def s_red(draw):
    n = draw(sizes(1, 24))
    fn = draw(pick(list(ONE)))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, big="var" not in fn and "std" not in fn)), "fo": draw(s_form(n)), "fn": fn, "rep": draw(pick(*[1] * 14, 40, 300))}


def labs(c):
    p = partition(key_rows(c["ks"]))
    nt(len(p) > 1 and any(len(r) > 1 for _, r in p), c["fo"]["form"], "filter" if c["fo"]["filt"] else "nofilter", "transform" if c["fo"]["tr"] else "reduce", "big" if c.get("rep", 1) > 1 else "small")


@facet("C13", s_red(), quick=3600, shards=4, rule="at least two groups and a group of at least two rows")
def reductions(c):
    """sum/mean/min/max/var/std and their nan-aware forms per group, every call form, filter, transform, showfilter"""
    labs(c)
    tag(c["fn"])
    fn = c["fn"]
    # in float32 the kernels accumulate in double but some return float32
    tol = 1e-5 if any(d["k"] == "float32" for d in c["ds"]) else 1e-9
    if "var" in fn or "std" in fn:
        tol = max(tol, 1e-7)
    # a boolean column has no invalid value for an empty minimum or maximum
    check_reduce(c, c["ks"], c["ds"], fn, ONE[fn], tol=tol, skipempty=fn in ("min", "max", "nanmin", "nanmax") and any(d["k"] == "bool" for d in c["ds"]))


@st.composite
def s_q(draw):
    n = draw(sizes(1, 24))
    fn = draw(pick("quantile", "nanquantile", "percentile", "nanpercentile", "median", "nanmedian"))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=INTK + ["float64", "float64", "float32"], big=False)), "fo": draw(s_form(n)), "fn": fn, "q": draw(st.lists(pick(0.0, 0.25, 0.5, 0.75, 1.0, 0.1, 0.333, 0.9), min_size=1, max_size=3, unique=True)), "rep": draw(pick(*[1] * 14, 40, 300))}


def quant(v, q):
    """midpoint quantile; a predicate, because a level that falls on an element may be rounded to either side"""
    if not v:
        return None
    s = sorted(v)
    h = (len(s) - 1) * q
    near = round(h)
    if q in (0.0, 0.5, 1.0, 0.25, 0.75) or abs(h - near) > 1e-6:
        return float((s[math.floor(h)] + s[math.ceil(h)]) / 2)
    ok = {float(s[near]), (s[near] + s[max(near - 1, 0)]) / 2, (s[near] + s[min(near + 1, len(s) - 1)]) / 2}
    return lambda x: x is not None and any(abs(x - y) <= 1e-5 * max(1, abs(y)) for y in ok)


@facet("C13", s_q(), quick=1800, shards=2, rule="at least two groups and a group of at least two rows")
def quantiles(c):
    """median, quantile, percentile and nan-aware forms, one or several levels, against linear interpolation of each group"""
    labs(c)
    fn = c["fn"]
    nan = fn.startswith("nan")
    wrap = skipna if nan else prop
    tol = 1e-5 if any(d["k"] == "float32" for d in c["ds"]) else 1e-7
    if fn.endswith("median"):
        check_reduce(c, c["ks"], c["ds"], fn, wrap(lambda k, v: quant(v, 0.5)), tol=tol)
        return
    pc = fn.endswith("percentile")
    qs = [q * 100 if pc else q for q in c["q"]]
    if len(qs) == 1:
        check_reduce(c, c["ks"], c["ds"], fn, wrap(lambda k, v: quant(v, c["q"][0])), tol=tol, q=qs[0])
        return
    # several levels: column per (data column, level), each equal to the single-level call
    g, r, rows, ff, sf = run(c, c["ks"], c["ds"], fn, q=qs)
    lab = r.label_get_names()
    dcols = [k for k in r.keys() if k not in lab]
    require(len(dcols) == len(qs) * len(c["ds"]), f"{fn}: result columns", got=list(r.keys()), case=c)
    for j, q in enumerate(qs):
        txt = f"{q:.3g}".replace(".", "_")
        if len({f"{x:.3g}" for x in qs}) == len(qs):
            for i in range(len(c["ds"])):
                require(dcols[i * len(qs) + j].endswith(txt), f"{fn}: column name of level {q}", got=dcols, case=c)
        g1, r1, *_ = run(c, c["ks"], c["ds"], fn, q=q)
        d1 = [k for k in r1.keys() if k not in r1.label_get_names()]
        for i, nm in enumerate(d1):
            same_list(canon(r[dcols[i * len(qs) + j]]), canon(r1[nm]), f"{fn} level {q} of {nm}", case=c)
        for k in lab:
            require(canon(r[k]) == canon(r1[k]), f"{fn}: labels of several levels", case=c)
    check_reduce(c, c["ks"], c["ds"], fn, wrap(lambda k, v: quant(v, c["q"][0])), tol=tol, q=qs[0])


SELK = DATAK + ["S", "S", "U", "date", "dtn", "dspan", "cat", "catn", "catf"]


@st.composite
def s_sel(draw):
    n = draw(sizes(1, 24))
    m = draw(pick(1, 1, 2))
    return {"ks": draw(s_keys(n)), "ds": [dict(draw(scol(n, kinds=SELK, few=True)), la=draw(pick(LAYOUT))) for _ in range(m)], "fo": draw(s_form(n)), "fn": draw(pick("first", "last", "nth", "mode", "min", "max")), "n": draw(pick(0, 1, 2, 5)), "rep": draw(pick(*[1] * 14, 40, 300))}


def wvals(d):
    return want(d)


@facet("C13", s_sel(), quick=2600, shards=4, rule="at least two groups and a group of at least two rows")
def selections(c):
    """first, last, n-th row, mode, and min/max of dates and times, over every column kind"""
    fn = c["fn"]
    ds_ = c["ds"]
    if fn == "mode":
        ds_ = [d for d in ds_ if d["k"] not in ("S", "U")]
    if fn in ("min", "max"):
        ds_ = [d for d in ds_ if d["k"] in ("date", "dtn", "dspan", "tspan") and None not in d["v"]]
    if not ds_:
        return
    labs(c)
    tag(fn)
    args = (c["n"],) if fn == "nth" else ()
    if fn == "nth":  # GroupBy.nth takes nothing else, Categorical.nth needs its data as an argument
        fo = dict(c["fo"])
        if fo["form"].startswith("gb"):
            fo.update(filt=None, tr=0, sf=0)
        elif fo["form"] == "catdataset":
            fo.update(form="catlist")
        c = dict(c, fo=fo)

    def one(k, v):
        if fn == "first":
            return v[0] if v else missing(k)
        if fn == "last":
            return v[-1] if v else missing(k)
        if fn == "nth":
            return v[c["n"]] if len(v) > c["n"] else missing(k)
        if fn in ("min", "max"):
            return (min(v) if fn == "min" else max(v)) if v else None
        if k in FLOATS + ["tspan"]:
            v = nn(v)
            if not v:
                return None
        if not v:
            return missing(k)
        m = max(v.count(x) for x in v)
        return lambda x: v.count(x) == m

    import pbt.props.c13 as me

    old = me.dvals
    me.dvals = wvals
    try:
        check_reduce(c, c["ks"], ds_, fn, one, *args)
    finally:
        me.dvals = old


@st.composite
def s_cnt(draw):
    n = draw(sizes(1, 24))
    return {"ks": draw(s_keys(n)), "ds": [dict(draw(scol(n, kinds=DATAK + ["S", "U", "cat"], few=True)), la=draw(pick(LAYOUT))) for _ in range(draw(pick(1, 2)))], "fo": draw(s_form(n)), "fn": draw(pick("count", "count_uniques")), "rep": draw(pick(1, 1, 1, 1, 1, 40))}


@facet("C13", s_cnt(), quick=1400, shards=2, rule="at least two groups and a group of at least two rows")
def counts(c):
    """row counts and distinct-value counts per group"""
    labs(c)
    if c["fn"] == "count":
        check_reduce(c, c["ks"], c["ds"], "count", lambda k, rr: len(rr), col="Count")
    else:
        check_reduce(c, c["ks"], c["ds"], "count_uniques", lambda k, v: len(set(v)), sfok=False)


HOPS = ["sum", "nanmean", "min", "nanmax", "std", "first", "last", "median", "mode", "count", "cumsum", "rolling_sum", "apply_reduce", "count_uniques", "igroup", "null", "nanmedian", "quantile", "shift", "agg"]


@st.composite
def s_hist(draw):
    n = draw(sizes(2, 20))
    ops = draw(st.lists(st.fixed_dictionaries({"op": pick(HOPS), "filt": st.one_of(st.none(), vals([True, True, False], n)), "tr": pick(0, 0, 1)}), min_size=2, max_size=6))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=["int32", "float64", "int8"], m=2)), "obj": draw(pick("gb", "gbu", "cat", "gblex")), "gf": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "ops": ops}


@facet("C13", s_hist(), quick=900, shards=2, rule="at least two groups and two different filters in the history")
def history(c):
    """a sequence of operations with different filters on one grouping object: each result equals that of a fresh object"""
    p = partition(key_rows(c["ks"]))
    nt(len(p) > 1 and len({repr(o["filt"]) for o in c["ops"]}) > 1, c["obj"])
    F = lambda x: None if x is None else rt.FastArray(np.array(x, dtype=bool))

    def fresh():
        keys = mkkeys(c["ks"])
        data = [mkcol(d, d["la"]) for d in c["ds"]]
        dd = rt.Dataset({"x0": data[0], "x1": data[1]})
        kn = [f"k{i}" for i in range(len(keys))]
        if c["obj"] == "cat":
            return rt.Categorical(keys if len(keys) > 1 else keys[0], filter=F(c["gf"])), dd
        ds = rt.Dataset({**dict(zip(kn, keys)), "x0": data[0], "x1": data[1]})
        kk = kn if len(kn) > 1 else kn[0]
        return (ds.gbu(kk, filter=F(c["gf"])) if c["obj"] == "gbu" else ds.gb(kk, filter=F(c["gf"]), lex=c["obj"] == "gblex")), dd

    def do(g, dd, o):
        a = (dd,) if c["obj"] == "cat" else ()
        kw = {} if o["filt"] is None else {"filter": F(o["filt"])}
        tr = {"transform": True} if o["tr"] else {}
        op = o["op"]
        if op == "igroup":
            it = [np.asarray(r).tolist() for _, r in g.iter_groups()]
            return [it, np.asarray(g.first_fancy).tolist(), np.asarray(g.last_fancy).tolist(), [np.asarray(g.as_filter(i)).tolist() for i in range(1, len(it) + 1)]]
        if op == "null":
            return g.null()
        if op == "count":
            return g.count(**kw, **tr)
        if op == "agg":
            return g.agg(["sum", "max"], *a)
        if op == "apply_reduce":
            return g.apply_reduce(lambda x: x.nansum(), *(a or ()), **kw, **tr)
        if op == "quantile":
            return g.quantile(*a, q=0.25, **kw, **tr)
        if op in ("cumsum", "rolling_sum", "shift"):
            if op == "shift" and c["obj"] == "cat":
                return g.rolling_shift(dd)
            return getattr(g, op)(*(a if op != "shift" else ()), **(kw if op == "cumsum" else {}))
        return getattr(g, op)(*a, **kw, **tr)

    def pict(r):
        if isinstance(r, list):
            return r
        if isinstance(r, rt.Multiset):
            return [(k, pict(v)) for k, v in r.items()]
        return [(k, canon(v) if not (isinstance(v, np.ndarray) and v.dtype == bool) else None) for k, v in r.items()]

    g, dd = fresh()
    for i, o in enumerate(c["ops"]):
        got = pict(do(g, dd, o))
        exp = pict(do(*fresh(), o))
        require(repr(got) == repr(exp), f"operation {i} ({o['op']}) on a used grouping differs from a fresh one", got=got, expected=exp, case=c)


# ------------------------------------------------------------------ lookups of single groups, totals
@st.composite
def s_look(draw):
    n = draw(s_n(12))
    ks = draw(s_keys(n, kinds=["int32", "S", "U", "float64"], inv=False))
    return {"keys": ks, "v": draw(vals([1, 2, 3, 5, -4, 0], n)), "f": draw(st.one_of(st.none(), vals([True, True, False], n))), "u": draw(st.booleans())}


@facet("C13", s_look(), quick=1200, shards=2, rule="at least two groups and a group of at least two rows")
def lookups(c):
    """get_group returns the rows of that group, as_categorical the key of every row, accum1 the totals of the group sums"""
    ks, v = c["keys"], c["v"]
    n = len(v)
    arrs = mkkeys(ks)
    names = [f"k{i}" for i in range(len(arrs))]
    ds = rt.Dataset({**dict(zip(names, arrs)), "v": rt.FastArray(np.array(v, dtype="int64")), "rn": rt.FastArray(np.arange(n))})
    rows = key_rows(ks)
    filt = None if c["f"] is None else rt.FastArray(np.array(c["f"]))
    p = dict(partition(rows, c["f"]))
    nt(len(p) > 1 and any(len(x) > 1 for x in p.values()))
    by = names if len(names) > 1 else names[0]
    g = (ds.gbu if c["u"] else ds.gb)(by, filter=filt)
    cat = g.as_categorical()
    sums = {k: sum(v[i] for i in ix) for k, ix in p.items()}
    r = cat.sum(ds.v)
    got = {k: int(s) for k, s in zip(lab_rows([r[x] for x in r.label_get_names()]), r[[x for x in r.keys() if x not in r.label_get_names()][0]])} if p else {}
    require(got == sums, "as_categorical: group sums", got=got, expected=sums, case=c)
    if not c["u"] and p:
        require(list(got) == sorted(got, key=skey), "as_categorical of gb: results are shown sorted", got=list(got), case=c)
    for key, ix in list(p.items())[:6]:
        if any(isinstance(x, float) for x in key):
            continue
        d = g.get_group(key[0] if len(key) == 1 else key)
        require(canon(d.rn) == ix, f"get_group({key})", got=canon(d.rn), expected=ix, case=c)
    if c["f"] is None and n:
        a = ds.accum1(names).sum()
        lab = a.label_get_names()
        got = {k: int(s) for k, s in zip(lab_rows([a[x] for x in lab]), a.v)}
        require(got == sums, "accum1: group sums", got=got, expected=sums, case=c)
        tot = a.footer_get_values()["Total"]
        require(int(tot[list(a.keys()).index("v")]) == sum(v), "accum1: total", got=tot, expected=sum(v), case=c)


@st.composite
def s_cols(draw):
    n = draw(sizes(1, 12))
    kinds = [draw(pick("int32", "float64", "S", "cat", "date", "bool", "int64", "U")) for _ in range(draw(pick(2, 3, 4)))]
    cols = [draw(scol(n, kinds=[k], few=True)) for k in kinds]
    return {"ks": draw(s_keys(n, nk=1, kinds=["S", "int32", "cat"])), "cols": cols, "fn": draw(pick("sum", "nansum", "mean", "min", "max", "nanmax", "first", "last", "std", "median", "nanmedian", "mode", "nanmin", "nanvar")), "how": draw(pick("idx", "idx", "all", "transform")), "pick": draw(st.lists(st.integers(0, len(kinds) - 1), min_size=1, max_size=3, unique=True)), "obj": draw(pick("gb", "gbu"))}


@facet("C13", s_cols(), quick=900, shards=2, rule="a column is left out or added by the request")
def column_choices(c):
    """col_idx picks columns, return_all keeps the columns that cannot be computed (as invalid), the transform property applies to one call; the computed values stay the same"""
    n = len(c["cols"][0]["v"])
    names = [f"x{i}" for i in range(len(c["cols"]))]
    ds = rt.Dataset({"kk": mkkeys(c["ks"])[0], **{nm: mkcol(d) for nm, d in zip(names, c["cols"])}})
    g = getattr(ds, c["obj"])("kk")
    fn = c["fn"]
    try:
        base = getattr(g, fn)()
    except (ValueError, NotImplementedError, TypeError):
        return nt(False)  # no column of this table can be reduced so
    got0 = [k for k in base.keys() if k != "kk"]
    if c["how"] == "transform":
        ck = rt.Categorical(ds.kk)
        a = mkcol({"k": "float64", "v": [float(i % 5) for i in range(n)]})
        one = ck.transform
        r1 = getattr(one, fn)(a)
        r2 = getattr(ck, fn)(a, transform=True)
        r3 = getattr(ck, fn)(a)
        nt(n > 1, "transform", fn)
        require(r1.shape[0] == n, "transform property: one value per row", got=r1.shape, case=c)
        same_list(canon(r1[list(r1.keys())[-1]]), canon(r2[list(r2.keys())[-1]]), "transform property", case=c)
        require(r3.shape[0] == ck.unique_count, "the transform property applies to one call only", got=r3.shape, case=c)
        return
    if c["how"] == "idx":
        want_ = [names[i] for i in sorted(c["pick"]) if names[i] in got0]
        if not want_:
            return nt(False)
        sel = [names[i] for i in c["pick"]]
        r = getattr(g, fn)(col_idx=sel[0] if len(sel) == 1 else sel)
        nt(len(want_) < len(got0), "idx", fn)
        require([k for k in r.keys() if k != "kk"] == want_, "col_idx: columns", got=list(r.keys()), expected=want_, case=c)
    else:
        r = getattr(g, fn)(return_all=True)
        nt(len(got0) < len(names), "all", fn)
        require([k for k in r.keys()] == ["kk"] + names, "return_all: columns", got=list(r.keys()), case=c)
        want_ = names
    require(r.label_get_names() == base.label_get_names(), "labels", got=r.label_get_names(), case=c)
    same_list(canon(r.kk), canon(base.kk), "labels", case=c)
    for k in want_:
        if k in got0:
            same_list(canon(r[k]), canon(base[k]), f"{fn}: column {k}", case=c)
        else:
            require(len(r[k]) == len(base.kk), "return_all: length", case=c)
