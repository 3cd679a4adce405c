"""C25: generated keys, values, filters and functions against a dictionary-of-cells model; margins and corner against the reduction of all rows they cover."""
import math
import numpy as np
from hypothesis import strategies as st

import riptable as rt

from ..core import *
from ..lib import *
from ..cols import *
from ..gb import *
from .c13 import ONE, cmpv, dvals, quant, s_data

ROWK = ["S", "S", "int32", "int64", "U", "int8", "float64", "cat", "catn", "catf", "catU", "cat0", "date"]
COLK = ["S", "S", "int32", "U", "int8", "cat", "catn", "catf", "cat0"]
VALK = ["float64", "float64", "int32", "int64", "float32", "int8", "uint16", "uint8", "int16", "uint32", "bool"]
FUN = ["sum", "nansum", "mean", "nanmean", "min", "nanmin", "max", "nanmax", "var", "nanvar", "std", "nanstd", "median", "nanmedian", "first", "last", "count", "mode", "quantile", "apply_reduce"]


def nrep(k):
    return k if not isinstance(k, float) else k


def colname(k):
    return str(k)


@st.composite
def s_acc(draw, fun=FUN, nv=1):
    n = draw(sizes(1, 24))
    ks = draw(s_keys(n, kinds=ROWK, nk=draw(pick(1, 1, 1, 2))))
    ck = draw(s_keys(n, kinds=COLK, nk=1))
    vs = [draw(s_data(n, kinds=VALK, big=False, m=1))[0] for _ in range(nv)]
    flt = lambda: draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=n, max_size=n)))
    return {"n": n, "ks": ks, "ck": ck, "v": vs, "fn": draw(st.sampled_from(fun)), "cf": flt(), "ff": flt(), "form": draw(pick("raw", "cat", "ds", "ordered", "unordered", "sort", "sort", "catsort")), "sf": draw(pick(False, False, False, True)),
            "rep": draw(pick(1, 1, 1, 1, 1, 40))}


def F(x):
    return None if x is None else rt.FastArray(np.array(x, dtype=bool))


def big(cs, rep):
    if rep == 1:
        return cs
    out = []
    for c in cs:
        d = dict(c)
        for k in ("v", "i"):
            if k in d and isinstance(d[k], list):
                d[k] = d[k] * rep
        out.append(d)
    return out


def build(c):
    """-> (Accum2, row keys per row, column keys per row)"""
    keys = mkkeys(c["ks"])
    cols = mkkeys(c["ck"])
    form = c["form"]
    kw = {}
    if c["cf"] is not None:
        kw["filter"] = F(c["cf"])
    rk = keys if len(keys) > 1 else keys[0]
    if form == "ds":
        ds = rt.Dataset({**{f"k{i}": k for i, k in enumerate(keys)}, "cc": cols[0]})
        names = [f"k{i}" for i in range(len(keys))]
        return ds.accum2(names if len(names) > 1 else names[0], "cc", **kw)
    if form in ("cat", "catsort"):
        o = {} if form == "cat" else {"ordered": False, "sort_gb": True}
        mk = lambda x, y: x if isinstance(x, rt.Categorical) else rt.Categorical(y, **o)
        return rt.Accum2(mk(keys[0] if len(keys) == 1 else None, rk), mk(cols[0], cols[0]), **kw)
    if form == "ordered":
        kw["ordered"] = True
    elif form == "unordered":
        kw["ordered"] = False
    elif form == "sort":
        kw["sort_gb"] = True
        kw["ordered"] = False
    return rt.Accum2(rk, cols[0], **kw)


def one_of(fn, kind, v, q=None):
    """canonical reduction of the values of one cell"""
    if fn in ONE:
        return ONE[fn](kind, v)
    if fn == "count":
        return len(v)
    if fn in ("median", "nanmedian"):
        w = [x for x in v if x is not None]
        return quant(w, 0.5) if w and (fn == "nanmedian" or len(w) == len(v)) else None
    if fn == "quantile":
        w = [x for x in v if x is not None]
        return quant(w, q) if w and len(w) == len(v) else None
    if fn == "first":
        return v[0] if v else None
    if fn == "last":
        return v[-1] if v else None
    raise KeyError(fn)


def table(c, d, fn, rk, ck, V, kind, keep, keepm=None, margin=True, q=None, sf=False, what="", only=None):
    """check every cell, the margins and the corner of result table d"""
    labs = d.label_get_names()
    summ = d.summary_get_names()
    require(len(labs) == len(c["ks"]), "label columns", got=labs, case=c)
    cols = [x for x in d.keys() if x not in labs and x not in summ]
    rows = lab_rows([d[x] for x in labs])
    off = 0
    if sf:
        require(cols and cols[0] == "Filtered", "the filtered column is not shown first", got=cols, case=c)
        cols = cols[1:]
        off = 1
    n = len(rk)
    if off:
        rows = rows[1:]
    wr = {k for k in rk if k is not None}
    wc = {k for k in ck if k is not None}
    require(len(set(rows)) == len(rows), "two rows with one label", got=rows, case=c)
    extra = set(rows) - wr
    require(wr <= set(rows), "a row key has no row", got=rows, want=wr, case=c)
    require(not extra or any(k["k"] in CATK for k in c["ks"]) or c["cf"] is not None, "a row without a key", got=extra, case=c)
    name = {}
    for i, x in enumerate(cols):
        for k in wc:
            if colname(k) == x or k == "" and x == f"Inv{i}":
                require(k not in name, "two columns for one key", got=cols, case=c)
                name[k] = x
    require(set(name) == wc, "a column key has no column", got=cols, want=wc, case=c)
    G = {x: canon(d[x]) for x in cols}
    for k2, x in name.items():
        for i, k1 in enumerate(rows):
            e = one_of(fn, kind, [V[j] for j in range(n) if keep[j] and rk[j] == k1 and ck[j] == k2], q)
            cmpv(G[x][i + off], e, f"{what}{fn}: cell {k1!r} x {x!r}", 1e-6 if kind == "float32" else 1e-9, c)
    for x in cols:
        if x not in name.values():
            for i in range(len(rows)):
                cmpv(G[x][i + off], one_of(fn, kind, [], q), f"{what}{fn}: cell of an unused column {x!r}", 0, c)
    if not margin:
        return
    require(len(summ) == 1, "one margin column", got=summ, case=c)
    foot = d.footer_get_dict()
    require(len(foot) == 1, "one margin row", got=foot, case=c)
    fd = list(foot.values())[0]
    ok = [keep[j] and (sf or rk[j] is not None and ck[j] is not None) for j in range(n)]
    tol = 1e-5 if kind == "float32" else 1e-9
    M = canon(d[summ[0]])
    for i, k1 in enumerate(rows):
        cmpv(M[i + off], one_of(fn, kind, [V[j] for j in range(n) if ok[j] and rk[j] == k1], q), f"{what}{fn}: margin of row {k1!r}", tol, c)
    for k2, x in name.items():
        cmpv(num(fd[x]), one_of(fn, kind, [V[j] for j in range(n) if ok[j] and ck[j] == k2], q), f"{what}{fn}: margin of column {x!r}", tol, c)
    cmpv(num(fd[summ[0]]), one_of(fn, kind, [V[j] for j in range(n) if ok[j]], q), f"{what}{fn}: corner", tol, c)


def num(x):
    r = canon(rt.FastArray([x]) if not isinstance(x, np.ndarray) else rt.FastArray(x.reshape(-1)))
    return r[0]


def keysof(c):
    rk, ck = key_rows(c["ks"]), [None if t is None else t[0] for t in key_rows(c["ck"])]
    return rk, ck


NOMARGIN = ("first", "last")


@facet("C25", s_acc([f for f in FUN if f not in ("mode", "apply_reduce")]), quick=2500, shards=4, rule="at least two row keys or column keys and one cell with two or more rows")
def cells(c):
    """every cell, margin and corner of Accum2 tables"""
    fn = c["fn"]
    kind = c["v"][0]["k"]
    rk, ck = keysof(c)
    V = dvals(c["v"][0])
    if kind == "bool" and fn in ("first", "last", "min", "max", "nanmin", "nanmax", "median", "nanmedian", "quantile"):
        return
    n = len(rk)
    v = mkcol(c["v"][0])
    keep = [True] * n
    for f in (c["cf"], c["ff"]):
        if f is not None:
            keep = [a and b for a, b in zip(keep, f)]
    sf = c["sf"] and not any(k["k"] == "cat0" for k in c["ks"] + c["ck"])
    kw = {}
    if c["ff"] is not None:
        kw["filter"] = F(c["ff"])
    if sf:
        kw["showfilter"] = True
    a = build(c)
    q = None
    if fn == "count":
        d = a.count(**kw)
        kind, V = None, [1] * n
    elif fn == "quantile":
        q = 0.25
        d = a.quantile(v, q=q, **kw)
    else:
        d = getattr(a, fn)(v, **kw)
    cells_ = {}
    for j in range(n):
        if keep[j]:
            cells_.setdefault((rk[j], ck[j]), []).append(j)
    nt(len(cells_) > 1 and max(map(len, cells_.values())) > 1, fn, c["form"], "sf" if sf else "", "filter" if c["ff"] or c["cf"] else "")
    filtered = sf and (c["cf"] is not None or c["ff"] is not None)
    table(c, d, fn, rk, ck, V, kind, keep, margin=fn not in NOMARGIN and not filtered, q=q, sf=sf)
    require(canon(v) == canon(mkcol(c["v"][0])), "the values changed", case=c)


def fsum(v):
    return sum(x for x in v if x is not None)


@st.composite
def s_tab(draw):
    n = draw(sizes(1, 20))
    c = draw(s_acc(["nansum"], nv=2))
    n = c["n"]
    flt = lambda: draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n)))
    c["ks"] = draw(s_keys(n, kinds=["S", "S", "U", "int32", "cat", "catf"], nk=1))
    c["ck"] = draw(s_keys(n, kinds=["S", "U", "cat", "catf"], nk=1))
    c["v"] = [{"k": "float64", "v": draw(st.lists(st.sampled_from([1.0, 2.0, 0.5, 3.0, -4.0, 0.0, None]), min_size=n, max_size=n))} for _ in range(2)]
    c.update(cf=None, sf=False, f2=flt(), how=draw(pick("table", "ratio", "ratio1", "ratiop", "ratiop1", "cols", "multi")), f1=draw(pick("nansum", "nansum", "nanmean")), f2n=draw(st.sampled_from([None, "nansum", "nanmean"])),
             norm=draw(pick("T", "R", "C")), incl=[draw(st.booleans()), draw(st.booleans())], blanks=draw(pick(False, False, True)), order=draw(st.permutations(["A", "B", "C"])), use=draw(st.sets(st.sampled_from(["A", "B", "C"]), max_size=3)))
    return c


def near(x, y):
    """numbers equal up to rounding; None, nan and a division by zero are alike"""
    x = None if x is None or not np.isfinite(x) else float(x)
    y = None if y is None or not np.isfinite(y) else float(y)
    if x is None or y is None:
        return x is y
    return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))


def div(a, b):
    return None if not b or a is None else a / b


class Model:
    """cells, margins and corner of one function of one value column"""

    def __init__(self, fn, rk, ck, V, keep):
        self.fn, self.rk, self.ck, self.V = fn, rk, ck, V
        self.ok = [k and a is not None and b is not None for k, a, b in zip(keep, rk, ck)]

    def cell(self, r, k):
        v = [x for x, a, b, o in zip(self.V, self.rk, self.ck, self.ok) if o and (r is ANY or a == r) and (k is ANY or b == k)]
        return one_of(self.fn, "float64", v)


ANY = object()


@facet("C25", s_tab(), quick=1200, shards=4, rule="at least two cells hold rows")
def tables(c):
    """AccumTable, accum_ratio, accum_ratiop, accum_cols and several value columns at once"""
    rk, ck = keysof(c)
    rk = [None if k is None else k[0] for k in rk]
    if "" in rk or "" in ck:
        return
    n = len(rk)
    if not any(k is not None for k in rk) or not any(k is not None for k in ck):
        return
    keys, cols = mkkeys(c["ks"])[0], mkkeys(c["ck"])[0]
    R = keys if isinstance(keys, rt.Categorical) else rt.Categorical(keys)
    C = cols if isinstance(cols, rt.Categorical) else rt.Categorical(cols)
    if set(map(str, C.category_array.astype("U"))) & {"Numer", "Denom", "Ratio", "Total", "A", "B", "C"}:
        return
    V = [d["v"] for d in c["v"]]
    v = [mkcol(d) for d in c["v"]]
    ff, f2 = c["ff"], c["f2"]
    keep = ff or [True] * n
    rkeys, ckeys = [x for x in rk if x is not None], [x for x in ck if x is not None]
    how = c["how"]
    nt(len({(a, b) for a, b, k in zip(rk, ck, keep) if k}) > 1, how, c["f1"], c["norm"] if how.startswith("ratiop") else "")
    snap0 = [canon(x) for x in (R, C, *v)]

    def check(d, f, what, mname, rows=None):
        """f(row key, column key) of every cell, margin and corner"""
        lab = d.label_get_names()
        rr = canon(d[lab[0]])
        cc = [x for x in d.keys() if x not in lab and x not in d.summary_get_names()]
        foot = d.footer_get_dict()
        for x in cc:
            g = canon(d[x])
            for i, r in enumerate(rr):
                require(near(g[i], f(r, x)), what + ": cell", row=r, col=x, got=g[i], want=f(r, x), case=c)
            if mname in foot:
                require(near(num(foot[mname][x]), f(ANY, x)), what + ": margin row", col=x, got=foot, want=f(ANY, x), case=c)
        if mname in d:
            g = canon(d[mname])
            for i, r in enumerate(rr):
                require(near(g[i], f(r, ANY)), what + ": margin column", row=r, got=g[i], want=f(r, ANY), case=c)
            if mname in foot:
                require(near(num(foot[mname][mname]), f(ANY, ANY)), what + ": corner", got=foot, want=f(ANY, ANY), case=c)
        return rr, cc

    def labels(d, need_r, need_c, blanks):
        rr, cc = canon(d[d.label_get_names()[0]]), [x for x in d.keys() if x not in d.label_get_names() and x not in d.summary_get_names()]
        require(len(set(rr)) == len(rr) and set(need_r) <= set(rr), "rows of the table", got=rr, want=need_r, case=c)
        require(set(map(str, need_c)) <= set(cc), "columns of the table", got=cc, want=need_c, case=c)

    if how == "multi":
        a = rt.Accum2(R, C)
        m = a.nansum(rt.Dataset({"x": v[0], "y": v[1]}), **({} if ff is None else {"filter": F(ff)}))
        require(list(m.keys()) == ["x", "y"], "one table per column", got=list(m.keys()), case=c)
        for nm, W in zip("xy", V):
            M = Model("nansum", rk, ck, W, keep)
            check(m[nm], M.cell, "several columns, " + nm, m[nm].summary_get_names()[0])
    elif how == "table":
        t = rt.AccumTable(R, C)
        kw = {} if ff is None else {"filter": F(ff)}
        t["A"] = t.nansum(v[0], **kw)
        t["B"] = t.nansum(v[1], **kw)
        t["C"] = t["A"] / t["B"]
        A, B = Model("nansum", rk, ck, V[0], keep), Model("nansum", rk, ck, V[1], keep)
        f = {"A": A.cell, "B": B.cell, "C": lambda r, k: div(A.cell(r, k), B.cell(r, k))}
        use = [x for x in c["order"] if x in c["use"]]
        t.set_margin_columns(use)
        t.set_footer_rows(use)
        for nm in c["order"] + c["order"][:1]:
            d = t.gen(nm, remove_blanks=c["blanks"])
            if c["blanks"] and not any(f[nm](r, k) for k in ckeys for r in rkeys):
                continue  # nothing is left
            require([x for x in d.summary_get_names() if x != nm] == [x for x in use if x != nm], "margin columns of gen()", got=d.summary_get_names(), want=use, case=c)
            require(set(d.footer_get_dict()) == set(use) | {nm}, "margin rows of gen()", got=list(d.footer_get_dict()), want=use, case=c)
            rr, cc = check(d, f[nm], "AccumTable " + nm, nm)
            for o in use:
                if o == nm:
                    continue
                g = canon(d[o])
                for i, r in enumerate(rr):
                    require(near(g[i], f[o](r, ANY)), "margin column of another table", table=nm, of=o, row=r, got=g[i], want=f[o](r, ANY), case=c)
                fd = d.footer_get_dict()[o]
                for x in cc:
                    require(near(num(fd[x]), f[o](ANY, x)), "margin row of another table", table=nm, of=o, col=x, got=fd, want=f[o](ANY, x), case=c)
            if not c["blanks"]:
                labels(d, set(rkeys), set(ckeys), False)
    elif how in ("ratio", "ratio1"):
        two = how == "ratio"
        k2 = ck if two else ["NotGrouped"] * n
        keep2 = f2 or keep
        A = Model(c["f1"], rk, k2, V[0], keep)
        B = Model(c["f2n"] or c["f1"], rk, k2, V[1], keep2)
        kw = {}
        if ff is not None:
            kw["filt1"] = F(ff)
        if f2 is not None:
            kw["filt2"] = F(f2)
        d = rt.accum_ratio(R, C if two else None, v[0], v[1], func1=c["f1"], func2=c["f2n"], include_numer=c["incl"][0], include_denom=c["incl"][1], remove_blanks=c["blanks"], **kw)
        f = {"Ratio": lambda r, k: div(A.cell(r, k), B.cell(r, k)), "Numer": A.cell, "Denom": B.cell}
        rr, cc = check(d, f["Ratio"], how, "Ratio")
        for o, on in zip(("Numer", "Denom"), c["incl"]):
            require((o in d) == on, "included margins", got=list(d.keys()), case=c)
            if on:
                g = canon(d[o])
                for i, r in enumerate(rr):
                    require(near(g[i], f[o](r, ANY)), how + ": " + o, row=r, got=g[i], want=f[o](r, ANY), case=c)
    elif how in ("ratiop", "ratiop1"):
        two = how == "ratiop"
        k2 = ck if two else ["NotGrouped"] * n
        A = Model("nansum", rk, k2, V[0], keep)
        kw = {} if ff is None else {"filter": F(ff)}
        if c["blanks"] and not any(A.cell(r, ANY) for r in rkeys):
            return  # nothing is left of the table
        d = rt.accum_ratiop(R, C if two else None, v[0], norm_by=c["norm"], include_total=c["incl"][0], remove_blanks=c["blanks"], **kw)
        pc = lambda a, b: None if div(a, b) is None else 100 * div(a, b)
        f = {"T": lambda r, k: pc(A.cell(r, k), A.cell(ANY, ANY)), "R": lambda r, k: pc(A.cell(r, k), A.cell(r, ANY)), "C": lambda r, k: pc(A.cell(r, k), A.cell(ANY, k))}[c["norm"]]
        if c["norm"] == "C" and (not A.cell(ANY, ANY) or any(not A.cell(ANY, k) for k in k2 if k is not None)):
            return
        check(d, f, how + c["norm"], "TotalRatio")
        if c["incl"][0]:
            g = canon(d["Total"])
            for i, r in enumerate(canon(d[d.label_get_names()[0]])):
                require(near(g[i], A.cell(r, ANY)), how + ": Total", row=r, got=g[i], want=A.cell(r, ANY), case=c)
    else:
        one = ["x"] * n
        A, B = Model("nansum", rk, one, V[0], keep), Model("nansum", rk, one, V[1], keep)
        M = Model("nanmean", rk, one, V[1], keep)
        spec = {"s": (v[0], "nansum", lambda r: A.cell(r, ANY)), "m": (v[1], "nanmean", lambda r: M.cell(r, ANY)), "r": ([v[0], v[1]], "nansum", lambda r: div(A.cell(r, ANY), B.cell(r, ANY))),
                "p": ((v[0], "p"), "nansum", lambda r: None if div(A.cell(r, ANY), A.cell(ANY, ANY)) is None else 100 * div(A.cell(r, ANY), A.cell(ANY, ANY)))}
        names = [k for k in ("s", "m", "r", "p") if k in "smrp"[len(c["use"]):] or k == "s"]
        if c["incl"][0]:
            names = names[::-1]
        kw = {} if ff is None else {"filt_list": F(ff) if c["incl"][1] else [F(ff)] * len(names)}
        d = rt.accum_cols(R, [spec[k][0] for k in names], names, func_list=[spec[k][1] for k in names], remove_blanks=c["blanks"], **kw)
        rr = canon(d[d.label_get_names()[0]] if d.label_get_names() else d[list(d.keys())[0]])
        foot = d.footer_get_dict().get("Total", {})
        for k in names:
            if k not in d:
                require(c["blanks"], "a column is missing", got=list(d.keys()), case=c)
                continue
            g = canon(d[k])
            for i, r in enumerate(rr):
                require(near(g[i], spec[k][2](r)), "accum_cols " + k, row=r, got=g[i], want=spec[k][2](r), case=c)
            require(near(num(foot[k]), spec[k][2](ANY)), "accum_cols total of " + k, got=foot, want=spec[k][2](ANY), case=c)
        if not c["blanks"]:
            require(set(rkeys) <= set(rr), "rows", got=rr, case=c)
    require([canon(x) for x in (R, C, *v)] == snap0, "inputs changed", case=c)


@facet("C25", s_acc(["mode", "apply_reduce"]), quick=500, shards=2, rule="at least two cells hold rows")
def userfunc(c):
    """mode and user functions: cells, margins and corner"""
    rk, ck = keysof(c)
    n = len(rk)
    c = dict(c)
    V = [float(i * 37 % 11) for i in range(n)]
    keep = [True] * n
    for f in (c["cf"], c["ff"]):
        if f is not None:
            keep = [a and b for a, b in zip(keep, f)]
    kw = {} if c["ff"] is None else {"filter": F(c["ff"])}
    a = build(c)
    v = rt.FastArray(np.array(V))
    nt(len({(x, y) for x, y, k in zip(rk, ck, keep) if k}) > 1, c["fn"], c["form"])
    labs = None
    if c["fn"] == "mode":
        d = a.mode(v, **kw)

        def bad(g, w):
            if not w:
                return g is not None
            m = max(w.count(x) for x in w)
            return g is None or g not in [x for x in w if w.count(x) == m]
    else:
        def spread(x):
            return float(np.max(x._np) - np.min(x._np)) + 100 * len(x) if len(x) else -1.0

        d = a.apply_reduce(spread, v, **kw)

        def bad(g, w):
            return g != (max(w) - min(w) + 100 * len(w)) if w else False
    labs, summ = d.label_get_names(), d.summary_get_names()
    rows = lab_rows([d[x] for x in labs])
    require({k for k in rk if k is not None} <= set(rows), "a row key has no row", got=rows, case=c)
    ok = [k and r is not None and x is not None for k, r, x in zip(keep, rk, ck)]
    cols = [x for x in d.keys() if x not in labs and x not in summ]
    fd = list(d.footer_get_dict().values())[0] if d.footer_get_dict() else None
    for i, x in enumerate(cols):
        kk = [k for k in ck if k is not None and (colname(k) == x or k == "" and x == f"Inv{i}")]
        if not kk:
            continue
        g = canon(d[x])
        for j, r in enumerate(rows):
            w = [V[t] for t in range(n) if ok[t] and rk[t] == r and ck[t] == kk[0]]
            require(not bad(g[j], w), "cell", fn=c["fn"], row=r, col=x, got=g[j], values=w, case=c)
        if fd:
            w = [V[t] for t in range(n) if ok[t] and ck[t] == kk[0]]
            require(not bad(num(fd[x]), w), "margin of a column", fn=c["fn"], col=x, got=fd, values=w, case=c)
    if summ:
        g = canon(d[summ[0]])
        for j, r in enumerate(rows):
            w = [V[t] for t in range(n) if ok[t] and rk[t] == r]
            require(not bad(g[j], w), "margin of a row", fn=c["fn"], row=r, got=g[j], values=w, case=c)
        w = [V[t] for t in range(n) if ok[t]]
        require(not bad(num(fd[summ[0]]), w), "corner", fn=c["fn"], got=fd, values=w, case=c)


@facet("C25", s_acc(["count"]), quick=500, shards=2, rule="at least two cells hold rows")
def row_labels(c):
    """an Accum2 used as an array: one entry per row, naming its column key and its row key"""
    rk, ck = keysof(c)
    cells = {(a, b) for a, b in zip(rk, ck) if a is not None and b is not None}
    nt(len(cells) > 1, c["form"], "filter" if c["cf"] else "nofilter")
    if len(c["ks"]) > 1:
        return
    a = build(c)
    n = len(rk)
    require(len(a) == n, "length", got=len(a), case=c)
    ok = ("S", "cat", "int32", "int64", "U", "int8")
    for i in range(n):
        g = a[i]
        g = tuple(x.decode() if isinstance(x, bytes) else x for x in g)
        for x, e, kd in ((g[0], ck[i], c["ck"][0]["k"]), (g[1], rk[i], c["ks"][0]["k"])):
            dropped = rk[i] is None or ck[i] is None or (c["cf"] and not c["cf"][i])
            if kd in ok and not dropped:
                ev = e[0] if isinstance(e, tuple) else e
                require(x == ev or ev is None, "label of a row", row=i, got=g, expected=(ck[i], rk[i]), case=c)
