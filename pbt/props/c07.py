"""C07: shift/diff/transitions/rolling/time windows/fills/cumulative operations against direct per-position definitions."""
import math

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.props.c01 import layout, LAYOUT
from pbt.props.c05 import raw, few

KINDS = COMMON_NUMS + ["S", "U", "bool", "date", "dtn", "tspan", "dspan"]


@st.composite
def sval(draw, n, kinds=KINDS):
    d = draw(pick(kinds))
    if d in ("date", "dtn", "tspan", "dspan"):
        return {"d": d, "v": draw(vals([18000, 18001, 17000, 18000, 18999, 3], n))}
    if draw(st.booleans()):
        return {"d": d, "v": draw(vals(few(d), n))}
    p = WORDS_E if d == "S" else UWORDS + [""] if d == "U" else pool_for(d, infs=False)
    return {"d": d, "v": draw(vals(p, n))}


NS = 86_400_000_000_123
CLS = {"date": "Date", "dtn": "DateTimeNano", "tspan": "TimeSpan", "dspan": "DateSpan"}


def mk(s, la="c"):
    d = s["d"]
    if d == "date":
        return rt.Date(layout(np.array(s["v"], dtype="int32"), la).view(rt.FastArray))
    if d == "dspan":
        return rt.DateSpan(layout(np.array(s["v"], dtype="int32"), la).view(rt.FastArray))
    if d == "dtn":
        return rt.DateTimeNano(layout(np.array(s["v"], dtype="int64") * NS, la).view(rt.FastArray), from_tz="GMT", to_tz="NYC")
    if d == "tspan":
        return rt.TimeSpan(layout(np.array(s["v"], dtype="float64") * 1e9, la).view(rt.FastArray))
    return layout(np_of(s), la).view(rt.FastArray)


def under(s):
    """underlying Python numbers"""
    return [x * NS for x in s["v"]] if s["d"] == "dtn" else [x * 1e9 for x in s["v"]] if s["d"] == "tspan" else list(s["v"])


def base(x):
    return py(x._fa if hasattr(x, "_fa") else x)


@st.composite
def s_shift(draw):
    n = draw(sizes(0, 20))
    return {"a": draw(sval(n)), "la": draw(pick(LAYOUT)), "p": draw(st.one_of(st.integers(-4, 4), st.integers(-25, 25))), "f": draw(pick("shift", "diff", "transitions", "differs")), "fancy": draw(pick(False, False, True)), "inv": draw(pick(False, False, False, True))}


@facet("C07", s_shift(), quick=5000, shards=2, rule="some element has a partner at that distance")
def positional(c):
    """shift moves, diff/transitions/differs compare with the element `periods` before"""
    s, p, f = c["a"], c["p"], c["f"]
    d, n = s["d"], len(s["v"])
    a = mk(s, c["la"])
    v = under(s)
    if d == "S" or d == "U":
        v = [x or "" for x in v]
    if 0 < abs(p) < n:
        nt(f, "string" if d in "SU" else "datetime" if d in CLS else d)
    src = [i - p if 0 <= i - p < n else None for i in range(n)]
    empty_val = "" if d in "SU" else False if d == "bool" else None
    if f == "shift":
        if c["inv"] and d in NUMS:
            r = a.shift(p, invalid=7)
            empty_val = 7
        else:
            r = a.shift(p)
        require(type(r).__name__ == CLS.get(d, "FastArray"), "shift changed the class", got=type(r), case=c)
        require(len(r) == n and r.dtype == a.dtype, "shift changed length or dtype", got=r.dtype, case=c)
        if p != 0:
            require(not np.shares_memory(np.asarray(r), np.asarray(a)) or n == 0, "shift result shares the input's memory", case=c)
        same_list(base(r), [empty_val if j is None else v[j] for j in src] if p else v, f"shift({p})", case=c)
        if d == "dtn":
            require(r._timezone._to_tz == a._timezone._to_tz, "shift lost the time zone", case=c)
    elif f == "diff":
        if d in "SU" or d == "bool":
            return
        r = a.diff(p)
        require(len(r) == n, "diff changed the length", case=c)
        if d in CLS:
            exp = {"date": "DateSpan", "dtn": "TimeSpan", "tspan": None, "dspan": None}[d]
            if exp is None:
                return
            require(type(r).__name__ == exp, f"diff of {d} returned {type(r).__name__}", case=c)
            same_list(base(r), [None if j is None else v[i] - v[j] for i, j in enumerate(src)], f"diff({p})", tol=1e-15, case=c)
        else:
            require(r.dtype == a.dtype, "diff changed the dtype", got=r.dtype, case=c)
            A = np_of(s)
            e = np.empty(n, A.dtype)
            with np.errstate(all="ignore"):
                for i, j in enumerate(src):
                    e[i] = INV[d] if j is None else np.subtract(A[i : i + 1], A[j : j + 1])[0]
            same_list(base(r), npy(e), f"diff({p})", case=c)
    else:
        if p == 0:
            require(raises(getattr(a, f), 0) is not None, f"{f}(0) did not raise", case=c)
            return
        r = getattr(a, f)(p, fancy=c["fancy"])
        ne = [j is not None and (v[i] is None and d in FLOATS or v[i] != v[j]) for i, j in enumerate(src)]
        exp = ne if f == "transitions" else [j is not None and not x for j, x in zip(src, ne)]
        if c["fancy"]:
            same(r, [i for i, x in enumerate(exp) if x], f"{f}({p}, fancy)", case=c)
        else:
            same(r, exp, f"{f}({p})", case=c)


@st.composite
def s_roll(draw):
    n = draw(sizes(1, 24))
    d = draw(pick(["int32", "int64", "float64", "float32", "int8", "int16", "uint8", "uint16", "uint32", "uint64", "bool"]))
    f = draw(pick("sum", "nansum", "mean", "nanmean", "quantile", "quantile", "var", "std", "nanstd"))
    pool = [False, True] if d == "bool" else [0, 1, 2, 3, 5, 7, 10, 100, None, 4] if d in INTS else [0.0, 1.0, 2.5, -1.5, None, 100.25, 3.0, -7.0]
    if d in SINTS:
        pool = pool + [-1, -9]
    return {"a": {"d": d, "v": draw(vals(pool, n))}, "la": draw(pick(LAYOUT)), "f": f, "w": draw(st.one_of(st.integers(1, 5), st.integers(1, 30))), "q": draw(pick(0.0, 0.25, 0.5, 0.75, 1.0, 0.1, 0.33)), "rep": draw(pick(1, 1, 1, 1, 30))}


def quant_mid(w, q):
    w = sorted(w)
    if not w:
        return None
    # the parameter travels to the kernel with nine decimals
    h = int(q * 1e9) / 1e9 * (len(w) - 1)
    lo, hi = math.floor(h + 1e-9), math.ceil(h - 1e-9)
    return (w[lo] + w[hi]) / 2


@facet("C07", s_roll(), quick=5000, shards=2, rule="window between 2 and the length")
def rolling(c):
    """the value at i is the statistic of the window ending at i"""
    s = {"d": c["a"]["d"], "v": c["a"]["v"] * c["rep"]}
    d, f, w = s["d"], c["f"], c["w"]
    v = s["v"]
    n = len(v)
    hasinv = any(x is None for x in v)
    if f in ("sum", "mean", "var", "std") and hasinv and "known" not in c:
        # the plain forms see integer sentinels as numbers and never recover from a NaN (known finding): the part before is exact
        k = v.index(None)
        v = v[:k]
    if f == "nanmean" and d in INTS and hasinv and "known" not in c:
        v = v[: v.index(None)]  # known finding: nanmean does not skip integer invalids
    a = mk(s, c["la"])
    if f == "quantile":
        r = a.rolling_quantile(c["q"], w)
    else:
        r = getattr(a, "rolling_" + f)(w)
    require(len(r) == n, "rolling changed the length", got=len(r), case=c)
    if f == "nanstd":
        x = a.rolling_nanvar(w)
        same_list(py(r), [None if y is None or y < 0 else math.sqrt(y) for y in py(x)], "rolling_nanstd is not sqrt(rolling_nanvar)", tol=1e-6, case=c)
        return
    if 2 <= w <= n:
        nt(f, "inv" if hasinv else "full", d)
    exp = []
    for i in range(len(v)):
        win = [x for x in v[max(0, i - w + 1) : i + 1]]
        if f in ("nansum", "nanmean", "quantile"):
            win = [x for x in win if x is not None]
        if f in ("sum", "nansum"):
            exp.append(sum(win))
        elif f in ("mean", "nanmean"):
            exp.append(sum(win) / len(win) if win else None)
        elif f == "quantile":
            exp.append(quant_mid(win, c["q"]))
        else:
            if i >= w and "known" not in c:  # known finding: beyond the first full window the divisor is wrong
                break
            if len(win) < 2:
                exp.append(None)
            else:
                m = math.fsum(win) / len(win)
                x = math.fsum((y - m) ** 2 for y in win) / (len(win) - 1)
                exp.append(x if f == "var" else math.sqrt(x))
    got = py(r)[: len(exp)]
    if d in INTS and f in ("sum", "nansum"):
        require(r.dtype == (np.uint64 if d in UINTS and False else r.dtype), "dtype", case=c)
    tol = 2e-5 if d == "float32" else 1e-9
    if d == "float32" and f in ("std", "var"):
        tol = 5e-3
    same_list(got, exp, f"rolling_{f}({w})", tol=tol, case=c)


@st.composite
def s_tw(draw):
    n = draw(sizes(1, 24))
    d = draw(pick(["int64", "float64", "int32", "float32"]))
    inc = draw(vals([1, 1, 2, 3, 10, 0, 0], n))
    return {"d": d, "v": draw(vals([0, 1, 2, 3, -1, 5], n)), "t": [int(x) for x in np.cumsum(inc)], "dist": draw(st.integers(0, 12)), "f": draw(pick("sum", "prod")), "la": draw(pick(LAYOUT)), "lt": draw(pick(LAYOUT))}


@facet("C07", s_tw(), quick=1500, rule="some window holds at least two rows")
def timewindow(c):
    """timewindow_sum/prod at i cover exactly the rows j <= i with t[i]-t[j] <= dist"""
    v, t, D = c["v"], c["t"], c["dist"]
    a = layout(np.array(v, dtype=c["d"]), c["la"]).view(rt.FastArray)
    ta = layout(np.array(t, dtype="int64"), c["lt"]).view(rt.FastArray)
    r = a.timewindow_sum(ta, D) if c["f"] == "sum" else a.timewindow_prod(ta, D)
    exp = []
    for i in range(len(v)):
        w = [v[j] for j in range(i + 1) if t[i] - t[j] <= D]
        if len(w) > 1:
            nt(c["f"])
        exp.append(sum(w) if c["f"] == "sum" else math.prod(w))
    if c["f"] == "prod" and max(abs(x) for x in exp) > 2**22:
        return
    same(r, exp, f"timewindow_{c['f']}({D})", tol=1e-6, case=c)


FILL_D = ["int32", "float64", "int64", "int8", "uint8", "float32", "uint64", "int16"]


@st.composite
def s_fill(draw):
    n = draw(sizes(0, 20))
    d = draw(pick(FILL_D))
    pool = [1, 2, 3, None, None, None, None, 5] if d in INTS else [1.5, 2.0, None, None, None, None, 7.0]
    return {"a": {"d": d, "v": draw(vals(pool, n))}, "la": draw(pick("c", "c", "stride")), "dir": draw(pick("f", "b")), "limit": draw(pick(0, 0, 1, 2, 3, None)), "fv": draw(pick(None, None, 9, 0)), "inplace": draw(st.booleans()), "via": draw(pick("method", "fillna", "rt"))}


@facet("C07", s_fill(), quick=3000, rule="some invalid run is filled from a neighbour")
def fills(c):
    """fill_forward/fill_backward (method, fillna, function) fill each invalid run from its valid neighbour up to the limit"""
    s = c["a"]
    v = list(s["v"])
    if c["dir"] == "b":
        v = v[::-1]
    lim = c["limit"] or 0
    last, cnt, exp = c["fv"], 0, []
    for x in v:
        if x is None:
            if lim and cnt >= lim:
                exp.append(None)
            else:
                exp.append(last)
                if last is not None:
                    nt(c["dir"], f"limit{lim}", s["d"])
            cnt += 1
        else:
            last, cnt = x, 0
            exp.append(x)
    if c["dir"] == "b":
        exp = exp[::-1]
    a = mk(s, c["la"])
    before = base(a)
    kw = {"inplace": c["inplace"]}
    nm = "fill_forward" if c["dir"] == "f" else "fill_backward"
    if c["via"] == "fillna":
        r = a.fillna(c["fv"], method={"f": "ffill", "b": "bfill"}[c["dir"]], limit=c["limit"], **kw)
    elif c["via"] == "method":
        r = getattr(a, nm)(fill_val=c["fv"], limit=c["limit"], **kw)
    else:
        r = getattr(rt, nm)(a, fill_val=c["fv"], limit=c["limit"], **kw) if hasattr(rt, nm) else getattr(a, nm)(c["fv"], limit=c["limit"], **kw)
    require(r.dtype == np.dtype(s["d"]), "fill changed the dtype", got=r.dtype, case=c)
    same_list(base(r), exp, f"{nm}", case=c)
    if c["inplace"]:
        same_list(base(a), exp, f"{nm} inplace: the array itself", case=c)
    else:
        same_list(base(a), before, f"{nm} modified its input", case=c)


@st.composite
def s_cum(draw):
    n = draw(sizes(0, 20))
    d = draw(pick(["int32", "float64", "int64", "int8", "uint8", "float32", "uint32", "uint64"]))
    pool = [1, 2, 3, None, 5, 10, 0] if d in INTS else [1.5, 2.0, None, 7.0, -3.0, 0.0]
    return {"a": {"d": d, "v": draw(vals(pool + ([-4] if d in SINTS else []), n))}, "la": draw(pick("c", "c", "stride")), "f": draw(pick("cummin", "cummax")), "skipna": draw(st.booleans())}


@facet("C07", s_cum(), quick=2500, rule="an invalid lies between valid elements")
def running_extremes(c):
    """cummin/cummax at i are the extreme of the valid elements up to i (or invalid once one was seen, when not skipping)"""
    s = c["a"]
    v = s["v"]
    a = mk(s, c["la"])
    r = getattr(a, c["f"])(skipna=c["skipna"])
    g = min if c["f"] == "cummin" else max
    exp = []
    for i in range(len(v)):
        w = v[: i + 1]
        k = [x for x in w if x is not None]
        if len(k) not in (0, len(w)) and v[i] is not None:
            nt(c["f"], str(c["skipna"]))
        exp.append(None if not k or (not c["skipna"] and len(k) < len(w)) else g(k))
    require(r.dtype == a.dtype, "dtype changed", case=c)
    same_list(base(r), exp, f"{c['f']}(skipna={c['skipna']})", case=c)


@st.composite
def s_ema(draw):
    n = draw(sizes(0, 14))
    return {"v": draw(vals([1.0, 2.0, 0.5, None, -3.0, 10.0], n)), "t": [int(x) for x in np.cumsum(draw(vals([1, 0, 2, 5], n)))], "rate": draw(pick(0.5, 1.0, 0.1, 0.0)), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))), "reset": draw(st.one_of(st.none(), vals([False, False, True], n)))}


@facet("C07", s_ema(), quick=1000, rule="at least three rows")
def ema(c):
    """FastArray.ema_decay follows its recurrence row by row (filtered rows contribute 0, reset rows restart)"""
    v, t, n = c["v"], c["t"], len(c["v"])
    if c["filt"] is not None:
        v = [x if x is not None else 1.0 for x in v]
    a = rt.FastArray(np.array([np.nan if x is None else x for x in v], dtype="float64"))
    ta = rt.FastArray(np.array(t, dtype="int64"))
    kw = {}
    if c["filt"] is not None:
        kw["filter"] = rt.FastArray(np.array(c["filt"], dtype=bool))
        if c["reset"] is not None:
            kw["reset"] = rt.FastArray(np.array(c["reset"], dtype=bool))
    r = a.ema_decay(ta, c["rate"], dtype=np.float64, **kw)
    e = lt = 0.0
    exp = []
    for i in range(n):
        x = v[i] if v[i] is not None else 0.0
        if c["filt"] is not None:
            if not c["filt"][i]:
                x = 0.0
            elif c["reset"] is not None and c["reset"][i]:
                e = lt = 0.0
        e = x + e * math.exp(-c["rate"] * (t[i] - lt))
        lt = t[i]
        exp.append(e)
    if n >= 3:
        nt("filter" if kw else "plain")
    same(r, exp, "ema_decay", tol=1e-9, case=c)
