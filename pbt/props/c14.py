"""C14: row-wise group operations against a Python model run over each group's rows in row order."""
import logging
import math

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.gb import *
from pbt.props.c13 import DATAK, FORMS, INTK, cmpv, dvals, run, s_data

logging.disable(logging.CRITICAL)

NUMF = INTK + ["float64", "float64", "float32"]


@st.composite
def s_fo(draw, n, forms=FORMS, filt=True):
    return {"form": draw(pick(forms)), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))) if filt else None, "tr": 0, "sf": 0, "gf": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n)))}


def rows_of(c):
    rep = c.get("rep", 1)
    rows = key_rows(big(c["ks"], rep))
    if c["fo"]["gf"]:
        rows = [r if g else None for r, g in zip(rows, list(c["fo"]["gf"]) * rep)]
    return rows


def labs(c):
    p = partition(rows_of(c))
    mixed = any(r != list(range(r[0], r[-1] + 1)) for _, r in p)
    nt(len(p) > 1 and mixed and any(len(r) > 2 for _, r in p), c["fo"]["form"], "filter" if c["fo"]["filt"] else "nofilter", "big" if c.get("rep", 1) > 1 else "small", "groupfilter" if c["fo"]["gf"] else "nogroupfilter", c.get("fn", ""))


def check_rows(c, fn, model, tol=1e-9, ungrouped=None, **kw):
    """result of fn == model(kind, values of the group's rows, row numbers) scattered back; ungrouped(kind) or None = not claimed"""
    g, r, rows, ff, _ = run(c, c["ks"], c["ds"], fn, **kw)
    n = len(rows)
    lab = r.label_get_names()
    dcols = [k for k in r.keys() if k not in lab and not k.startswith("gb_key")]
    require(len(dcols) == len(c["ds"]), f"{fn}: result columns", got=list(r.keys()), case=c)
    require(r.shape[0] == n, f"{fn}: result rows", got=r.shape[0], expected=n, case=c)
    part = partition(rows)
    none = [i for i in range(n) if rows[i] is None]
    for nm, d in zip(dcols, big(c["ds"], c.get("rep", 1))):
        got = canon(r[nm])
        v = dvals(d)
        for k, rr in part:
            e = model(d["k"], [v[i] for i in rr], rr)
            for i, x in zip(rr, e):
                cmpv(got[i], x, f"{fn} of {nm} ({d['k']}) at row {i} of group {k}", tol, c)
        if ungrouped:
            for i in none:
                cmpv(got[i], ungrouped(d["k"], v[i]), f"{fn} of {nm}: row {i} without a group", tol, c)


def ftol(c, t=1e-9):
    return 1e-5 if any(d["k"] == "float32" for d in c["ds"]) else t


INVALID = lambda k, x: None


def excl(ff, rr, f):
    """run f over the kept rows of the group; the others are invalid"""
    keep = [j for j, i in enumerate(rr) if ff is None or ff[i]]
    out = [None] * len(rr)
    for j, x in zip(keep, f(keep)):
        out[j] = x
    return out


@st.composite
def s_roll(draw):
    n = draw(sizes(1, 30))
    fn = draw(pick("rolling_sum", "rolling_nansum", "rolling_mean", "rolling_nanmean", "rolling_median", "rolling_quantile", "rolling_shift", "rolling_diff", "shift", "diff"))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=NUMF, big=False)), "fo": draw(s_fo(n)), "fn": fn, "w": draw(pick(1, 2, 3, 3, 4, 7, 100)), "neg": draw(pick(0, 0, 1)), "q": draw(pick(0.0, 0.25, 0.5, 0.75, 1.0)), "rep": draw(pick(*[1] * 30, 30, 30, 300))}


def poisoned(x, before):
    """the running sum keeps a NaN of an earlier window"""
    return x if None not in before else lambda y: y is None or abs(y - x) <= 1e-5 * max(1, abs(x))


@facet("C14", s_roll(), quick=3000, shards=4, rule="at least two interleaved groups and one of at least three rows")
def rolling(c):
    """rolling sum/mean/median/quantile (and nan-aware forms), shift and difference within each group"""
    fn, w = c["fn"], c["w"]
    labs(c)
    if c["rep"] > 1:
        w = min(w, 7)
    gbf = c["fo"]["form"].startswith("gb")
    kw = {"window": w}
    if fn in ("shift", "rolling_shift", "rolling_diff", "diff") and c["neg"]:
        w = -w
        kw = {"window": w}
    if fn == "diff":
        if not gbf:
            return
        kw = {"period": w}
    if fn == "shift" and not gbf:
        c = dict(c, fo=dict(c["fo"], form="catlist"))
    if fn == "shift" and c["q"] == 1.0:
        kw = {"periods": w}
    if fn == "shift" and c["q"] == 0.0:
        w, kw = 1, {}  # the default
    if fn == "rolling_quantile":
        kw["q"] = c["q"]
    if fn.endswith("diff"):
        c = dict(c, ds=[dict(d, k=d["k"].replace("uint", "int")) for d in c["ds"]])
    if not fn.endswith("shift") and "nan" not in fn:  # (these kernels compute with the raw integer sentinel)
        c = dict(c, ds=[dict(d, v=[1 if x is None and d["k"] in INTK else x for x in d["v"]]) for d in c["ds"]])
    ff = c["fo"]["filt"] and list(c["fo"]["filt"]) * c["rep"]

    def model(k, v, rr):
        def f(keep):
            u = [v[j] for j in keep]
            out = []
            for j in range(len(u)):
                win = u[max(0, j - w + 1): j + 1]
                ok = [x for x in win if x is not None]
                bad = len(ok) < len(win)
                if fn.endswith("shift") or fn.endswith("diff"):
                    o = u[j - w] if 0 <= j - w < len(u) else None
                    out.append(o if fn.endswith("shift") else None if o is None or u[j] is None else u[j] - o)
                elif fn == "rolling_sum":
                    out.append(None if bad else poisoned(sum(win), u[:j]))
                elif fn == "rolling_nansum":
                    out.append(sum(ok))
                elif fn == "rolling_mean":
                    out.append(None if bad else poisoned(float(math.fsum(win) / len(win)), u[:j]))
                elif fn == "rolling_nanmean":
                    out.append(float(math.fsum(ok) / len(ok)) if ok else None)
                else:
                    q = 0.5 if fn == "rolling_median" else c["q"]
                    s = sorted(ok)
                    h = (len(s) - 1) * q
                    out.append(float((s[math.floor(h)] + s[math.ceil(h)]) / 2) if s else None)
            return out

        return excl(ff, rr, f)

    check_rows(c, fn, model, tol=ftol(c), ungrouped=INVALID, **kw)
    if fn == "rolling_quantile" and gbf and c["rep"] == 1:
        # several levels at once are the single levels side by side, named by their level
        qs = [c["q"], 0.125, 0.75]
        if len(set(qs)) == 3:
            many = run(c, c["ks"], c["ds"], fn, window=w, q=qs)[1]
            cols = list(many.keys())
            require(len(cols) == 3 * len(c["ds"]), "several levels: columns", got=cols, case=c)
            for j, q in enumerate(qs):
                one = run(c, c["ks"], c["ds"], fn, window=w, q=q)[1]
                for i, nm in enumerate(one.keys()):
                    require(cols[3 * i + j] == f"{nm}_q{q:.3g}".replace(".", "_"), "several levels: names", got=cols, case=c)
                    same_list(canon(many[cols[3 * i + j]]), canon(one[nm]), f"level {q} of {nm}", case=c)


@st.composite
def s_cum(draw):
    n = draw(sizes(1, 30))
    fn = draw(pick("cumsum", "cumprod", "cummin", "cummax", "cummin", "cummax"))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=NUMF, big=False)), "fo": draw(s_fo(n)), "fn": fn, "rf": draw(st.one_of(st.none(), vals([True, False, False], n))), "skip": draw(pick(0, 1, 2)), "rep": draw(pick(*[1] * 30, 30, 30, 300))}


@facet("C14", s_cum(), quick=3000, shards=4, rule="at least two interleaved groups and one of at least three rows")
def cumulative(c):
    """cumulative sum, product, minimum and maximum within each group, with filter and reset filter"""
    fn = c["fn"]
    labs(c)
    rep = c["rep"]
    if fn == "cumprod" and rep > 1:
        c = dict(c, rep=1)
        rep = 1
    # integers: no invalid values in sums and products (the kernel adds the raw sentinel)
    if fn in ("cumsum", "cumprod"):
        c = dict(c, ds=[dict(d, v=[1 if x is None and d["k"] in INTK else x for x in d["v"]]) for d in c["ds"]])
    ff = c["fo"]["filt"] and list(c["fo"]["filt"]) * rep
    rf = c["rf"] and list(c["rf"]) * rep
    kw = {} if rf is None else {"reset_filter": rt.FastArray(np.array(rf, dtype=bool))}
    if fn in ("cummin", "cummax") and c["skip"] < 2:
        kw["skipna"] = bool(c["skip"])
    tag("reset" if rf else "noreset")

    def model(k, v, rr):
        out = []
        cur = {"cumsum": 0, "cumprod": 1}.get(fn)
        started = fn in ("cumsum", "cumprod")
        for x, i in zip(v, rr):
            if rf and rf[i] and (ff is None or ff[i]):  # an excluded row does not reset
                cur = {"cumsum": 0, "cumprod": 1}.get(fn)
                started = fn in ("cumsum", "cumprod")
            if ff is None or ff[i]:
                if fn == "cumsum":
                    cur = None if cur is None or x is None else cur + x
                elif fn == "cumprod":
                    cur = None if cur is None or x is None else cur * x
                elif kw.get("skipna", True):
                    if x is not None:
                        cur = x if cur is None else min(cur, x) if fn == "cummin" else max(cur, x)
                else:
                    cur = x if not started else None if cur is None or x is None else min(cur, x) if fn == "cummin" else max(cur, x)
                    started = True
            out.append(cur)
        return out

    check_rows(c, fn, model, tol=ftol(c), ungrouped=INVALID, **kw)


@st.composite
def s_num(draw):
    n = draw(sizes(1, 30))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=["int32", "float64"], m=1)), "fo": draw(s_fo(n)), "fn": draw(pick("cumcount", "cumcount_desc", "rolling_count", "findnth")), "rep": draw(pick(*[1] * 30, 30, 30, 300))}


@facet("C14", s_num(), quick=1200, shards=2, rule="at least two interleaved groups and one of at least three rows")
def row_numbers(c):
    """row number within the group, ascending, descending and one-based"""
    fn = c["fn"]
    labs(c)
    ff = c["fo"]["filt"] and list(c["fo"]["filt"]) * c["rep"]
    if fn == "findnth":
        check_rows(c, fn, lambda k, v, rr: [x or 0 for x in excl(ff, rr, lambda keep: range(1, len(keep) + 1))], ungrouped=lambda k, x: 0)
        return
    if fn == "rolling_count":
        fo = dict(c["fo"], form="catarr" if not c["fo"]["form"].startswith("gb") else c["fo"]["form"])
        g, r, rows, ff, _ = run(dict(c, fo=fo), c["ks"], c["ds"], "rolling_count")
    else:
        kw = {"ascending": False} if fn.endswith("desc") else {}
        g, r, rows, ff, _ = run(dict(c, fo=dict(c["fo"], form=c["fo"]["form"].replace("catdataset", "catarr"))), c["ks"], c["ds"], "cumcount", **kw)
    got = canon(r)
    require(len(got) == len(rows), "cumcount: length", got=len(got), case=c)
    exp = [None] * len(rows)
    for k, rr in partition(rows, ff):
        for j, i in enumerate(rr):
            exp[i] = len(rr) - 1 - j if fn.endswith("desc") else j
    require(got == exp, f"{fn}", got=got, expected=exp, case=c)


@st.composite
def s_ema(draw):
    n = draw(sizes(1, 30))
    steps = draw(vals([0, 1, 1, 2, 5], n))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=["int32", "int64", "float64", "float64", "float32", "int16"], big=False)), "fo": draw(s_fo(n)), "fn": draw(pick("ema_decay", "ema_normal", "ema_weighted")), "t": steps, "tk": draw(pick("int64", "int32", "float64", "int16")), "rf": draw(st.one_of(st.none(), st.none(), vals([True, False, False], n))), "dr": draw(pick(0.1, 0.5, 1.0, 0.25)), "rep": draw(pick(*[1] * 30, 30))}


def no_leading(c):
    """known finding: ema_weighted lets an excluded first row of a group influence the rest"""
    ff = c["fo"]["filt"] and list(c["fo"]["filt"]) * c.get("rep", 1)
    if c["fn"] == "ema_weighted" and ff and "known" not in c and any(not ff[r[0]] for _, r in partition(rows_of(c))):
        return dict(c, fo=dict(c["fo"], filt=None))
    return c


@facet("C14", s_ema(), quick=2000, shards=2, rule="at least two interleaved groups and one of at least three rows")
def ema(c):
    """exponential decays follow their documented recurrences within each group"""
    fn = c["fn"]
    labs(c)
    rep = c["rep"]
    c = no_leading(c)
    c = dict(c, ds=[dict(d, v=[1 if x is None else x for x in d["v"]]) for d in c["ds"]])
    ff = c["fo"]["filt"] and list(c["fo"]["filt"]) * rep
    rf = c["rf"] and list(c["rf"]) * rep
    t = np.cumsum(list(c["t"]) * rep).tolist()
    dr = c["dr"]
    kw = {"decay_rate": dr}
    if fn != "ema_weighted":
        kw["time"] = rt.FastArray(np.array(t, dtype=c["tk"] if fn == "ema_normal" or c["tk"] != "int16" else "int64"))
    if rf and fn != "ema_decay":  # where the weighted averages restart is not documented (the isolation facet covers them)
        rf = None
    if rf and (ff or c["fo"]["gf"]) and "known" not in c:  # known finding: filter together with reset_filter
        rf = None
    if rf:
        kw["reset_filter"] = rt.FastArray(np.array(rf, dtype=bool))
    tag("reset" if rf else "noreset")

    def model(k, v, rr):
        out = []
        first = True
        last = lt = 0.0
        lv = math.nan
        for x, i in zip(v, rr):
            inc = ff is None or ff[i]
            if rf and rf[i] and inc:
                last, lt = 0.0, 0.0
            if fn == "ema_decay":
                w = math.exp(-dr * (t[i] - lt))
                last = (x if inc else 0.0) + last * w
            else:
                if first:
                    last = x if inc else 0.0
                    first = False
                    lv = last
                else:
                    w = dr if fn == "ema_weighted" else math.exp(-dr * (t[i] - lt))
                    if inc:
                        lv = x
                    elif fn == "ema_weighted":
                        lv = 0.0
                    last = lv * (1 - w) + last * w
            lt = t[i]
            out.append(float(last))
        return out

    check_rows(c, fn, model, tol=ftol(c), ungrouped=INVALID, **kw)


@st.composite
def s_fill(draw):
    n = draw(sizes(1, 30))
    ds = draw(s_data(n, kinds=NUMF, big=False))
    for d in ds:
        d["v"] = draw(vals([None, None, 1, 2, 3] if d["k"] in INTK else [None, None, 1.5, 2.5], n))
    return {"ks": draw(s_keys(n)), "ds": ds, "fo": draw(s_fo(n, filt=False)), "fn": draw(pick("fill_forward", "fill_backward", "pad", "backfill")), "lim": draw(pick(0, 0, 1, 2, 3)), "fv": draw(pick(None, None, 9)), "inplace": draw(pick(0, 0, 0, 1)), "rep": draw(pick(*[1] * 30, 30))}


@facet("C14", s_fill(), quick=1400, shards=2, rule="at least two interleaved groups and one of at least three rows")
def fills(c):
    """fill forward and backward within each group, with limit and fill value"""
    fn = c["fn"]
    gbf = c["fo"]["form"].startswith("gb")
    if not gbf:
        fn = {"pad": "fill_forward", "backfill": "fill_backward"}.get(fn, fn)
        if c["fo"]["form"] == "catdataset":
            c = dict(c, fo=dict(c["fo"], form="catdict"))
    labs(c)
    kw = {}
    if c["lim"]:
        kw["limit"] = c["lim"]
    if c["fv"] is not None:
        kw["fill_val"] = c["fv"]

    def model(k, v, rr):
        if fn in ("fill_backward", "backfill"):
            v = v[::-1]
        out, last, cnt = [], c["fv"], 0
        for x in v:
            if x is not None:
                last, cnt = x, 0
                out.append(x)
            else:
                cnt += 1
                out.append(last if not c["lim"] or cnt <= c["lim"] else None)
        return out[::-1] if fn in ("fill_backward", "backfill") else out

    check_rows(c, fn, model, ungrouped=lambda k, x: x, **kw)


@st.composite
def s_iso(draw):
    n = draw(sizes(3, 30))
    fn = draw(pick("cumsum", "cumprod", "cummin", "cummax", "ema_decay", "ema_normal", "ema_weighted", "rolling_sum", "rolling_mean", "rolling_median", "rolling_shift", "rolling_diff", "rolling_nansum", "rolling_nanmean"))
    return {"ks": draw(s_keys(n)), "ds": draw(s_data(n, kinds=["float64", "int64", "int32"], big=False, m=1)), "fo": draw(s_fo(n)), "fn": fn, "at": draw(st.integers(0, n - 1)), "new": draw(pick(11, 17, 4)), "rf": draw(st.one_of(st.none(), st.none(), vals([True, False, False], n)))}


@facet("C14", s_iso(), quick=1400, shards=2, rule="at least two interleaved groups and one of at least three rows")
def isolation(c):
    """changing one row's value changes only that row and later rows of the same group, and nothing if the row is excluded"""
    labs(c)
    fn = c["fn"]
    n = len(c["ds"][0]["v"])
    c = no_leading(c)
    c = dict(c, ds=[dict(d, v=[1 if x is None else x for x in d["v"]]) for d in c["ds"]])
    kw = {}
    if fn.startswith("ema"):
        kw["decay_rate"] = 0.5
        if fn != "ema_weighted":
            kw["time"] = rt.arange(n)
    if fn.startswith("rolling"):
        kw["window"] = 2
    elif c["rf"] and not (fn.startswith("ema") and (c["fo"]["filt"] or c["fo"]["gf"])):
        kw["reset_filter"] = rt.FastArray(np.array(c["rf"], dtype=bool))
    d2 = [dict(c["ds"][0], v=[c["new"] if i == c["at"] else x for i, x in enumerate(c["ds"][0]["v"])])]
    _, r1, rows, ff, _ = run(c, c["ks"], c["ds"], fn, **kw)
    _, r2, *_ = run(c, c["ks"], d2, fn, **kw)
    a, b = canon(r1[0]), canon(r2[0])
    at = c["at"]
    free = rows[at] is not None and (ff is None or ff[at])
    for i in range(n):
        if free and rows[i] == rows[at] and i >= at:
            continue
        require(a[i] == b[i] or (isinstance(a[i], float) and isinstance(b[i], float) and (a[i] != a[i] and b[i] != b[i])), f"{fn}: row {i} changed with the value of row {at}", got=[a, b], case=c)
