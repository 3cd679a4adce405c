"""C20: as-of joins against a direct search of every left row's nearest permitted right row."""
import datetime
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from riptable.rt_merge_asof import merge_asof2
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *
from .c19 import check_cols, expected_names, missing

warnings.filterwarnings("ignore")
ONP = {"int32": [0, 1, 2, 3, 5, 8, -4, 100], "int64": [0, 1, 2, 3, 5, 8, -4, 2**40], "float64": [0.0, 1.5, 2.0, 2.5, 7.25, -3.0, 1e9], "float32": [0.0, 1.5, 2.0, 2.5, 7.25, -3.0], "int16": [0, 1, 2, 3, 5, 8, -4], "dtn": [1, 2, 3, 5, 9, 18000], "date": [1, 2, 3, 5, 9, 18000], "tspan": [0, 1, 2, 3, 5, 9], "uint32": [0, 1, 2, 3, 5, 8], "int8": [0, 1, 2, 3, 5, 8, -4]}
BYP = {"S": ["a", "b", "cc"], "U": ["a", "b", "cc"], "cat": ["a", "b", "cc"], "int32": [1, 2, 3], "int64": [1, 2, 3], "date": [18000, 18001], "catf": ["a", "b", None], "int8": [1, 2, 3]}
BYPAIR = [("S", "S"), ("cat", "cat"), ("int32", "int32"), ("cat", "S"), ("S", "cat"), ("int32", "int64"), ("date", "date"), ("U", "S"), ("U", "U"), ("int8", "int8"), ("catf", "catf"), ("cat", "catf")]
VK = ["int32", "float64", "S", "cat", "date", "bool", "dtn", "int64"]


@st.composite
def s_asof(draw, two, kinds=("int32", "int64", "float64", "float32", "dtn", "date", "tspan", "uint32"), mixed=()):
    onk = draw(pick(list(kinds)))
    pair = (onk, onk)
    if mixed and draw(st.integers(0, 2)) == 0:
        pair = draw(pick(list(mixed)))
    nb = draw(pick([0, 0, 1, 1, 1, 2]))
    by = [draw(pick([b for b in BYPAIR if two or 'catf' not in b])) for _ in range(nb)]
    base = draw(pick([ONP[pair[0]], ONP[pair[0]][:4]]))
    side = []
    for s in range(2):
        n = draw(sizes(0, 9))
        if not n and any(b[s].startswith("c") for b in by):
            n = 1
        on = draw(vals(base if pair[0] == pair[1] else [0, 1, 2, 3, 5, 8], n))
        srt = draw(pick([True, True, True, False]))
        if srt:
            on = sorted(on)
        side.append({"n": n, "on": {"k": pair[s], "v": on}, "by": [{"k": b[s], "v": draw(vals(BYP[b[s]], n))} for b in by],
                     "vals": [draw(scol(n, [k for k in VK if n or k != "cat"], few=True)) for _ in range(draw(st.integers(0, 1)))]})
    return {"L": side[0], "R": side[1], "dir": draw(pick(["backward", "forward", "nearest"])), "exact": draw(pick([True, True, False])), "same": draw(st.booleans()), "sameby": draw(st.booleans()),
            "x": draw(st.integers(0, 15)), "tol": draw(pick([None, None, 0, 1, 2, 5])), "mo": draw(pick([None, True, "mt"])), "copy": draw(st.booleans())}


def asof_tables(case):
    out = []
    for s in "lr":
        side = case[s.upper()]
        on = "t" if case["same"] else s + "t"
        by = [f"b{i}" if case["sameby"] else f"{s}b{i}" for i in range(len(side["by"]))]
        d = {on: side["on"], **dict(zip(by, side["by"]))}
        for i, c in enumerate(side["vals"]):
            d[f"v{i}"] = c
        d[s + "i"] = {"k": "int64", "v": list(range(side["n"]))}
        out.append((rt.Dataset({k: mkcol(c) for k, c in d.items()}), on, by, d))
    return out


def bykey(side, i):
    r = tuple(c["v"][i] for c in side["by"])
    return None if None in r else r


def scale(k, x):
    return x * NS if k == "dtn" else x * 1e9 if k == "tspan" else x


def asof_model(L, R, direction, exact, tol, ix):
    """for every left row the right row, searching right rows in time order (ix: stable sort order)"""
    out = []
    for i in range(L["n"]):
        t, k = L["on"]["v"][i], bykey(L, i)
        cand = [j for j in ix if k is not None and bykey(R, j) == k]
        T = {j: R["on"]["v"][j] for j in cand}
        b = [j for j in cand if (T[j] <= t if exact else T[j] < t)]
        f = [j for j in cand if (T[j] >= t if exact else T[j] > t)]
        b, f = (b[-1] if b else None), (f[0] if f else None)
        if tol is not None:
            if b is not None and t - T[b] > tol:
                b = None
            if f is not None and T[f] - t > tol:
                f = None
        if direction == "backward":
            r = b
        elif direction == "forward":
            r = f
        elif b is None or f is None:
            r = f if b is None else b
        else:
            r = f if T[f] - t < t - T[b] else b
        out.append((i, r))
    return out


def call_args(case, lo, ro, lb, rb):
    kw = {}
    x = case["x"]
    if lo == ro and x % 2:
        kw["on"] = lo
    elif x % 4 < 2:
        kw["on"] = (lo, ro)
    else:
        kw["left_on"], kw["right_on"] = lo, ro
    if lb:
        if lb == rb and x % 3:
            kw["by"] = lb[0] if len(lb) == 1 else lb
        elif x % 3 == 1:
            kw["by"] = [(a, b) for a, b in zip(lb, rb)]
        else:
            kw["left_by"], kw["right_by"] = lb, rb
    return kw


def asof(case, two):
    L, R = case["L"], case["R"]
    (ls, lo, lb, ld), (rs, ro, rb, rd) = asof_tables(case)
    kw = call_args(case, lo, ro, lb, rb)
    tol = case["tol"] if two else None
    ix = sorted(range(R["n"]), key=lambda j: R["on"]["v"][j])
    lsort = L["on"]["v"] == sorted(L["on"]["v"])
    rsort = R["on"]["v"] == sorted(R["on"]["v"])
    ok = {L["on"]["k"], R["on"]["k"]}
    if two:
        if tol is not None:
            if ok == {"dtn"}:
                ns = tol * NS
                kw["tolerance"] = rt.TimeSpan(ns)[0] if case["x"] % 2 else datetime.timedelta(microseconds=ns // 1000)
                if not case["x"] % 2 and ns % 1000:
                    kw["tolerance"] = datetime.timedelta(microseconds=ns // 1000 + 1)
            elif ok & {"date", "tspan"}:
                tol = None
            elif any(k.startswith("f") for k in ok):
                tol = tol + 0.5 if case["x"] % 2 else tol
                kw["tolerance"] = float(tol)
            else:
                kw["tolerance"] = tol
    else:
        if not (lsort and rsort):
            kw["action_on_unsorted"] = "sort" if case["x"] % 4 else "raise"
    if case["mo"]:
        kw["matched_on"] = case["mo"]
    mo = "matched_on" if case["mo"] is True else case["mo"]
    kw["copy"] = case["copy"]
    kw["suffixes"] = ("_x", "_y")
    inter, ml, mr = expected_names(ld, rd, [lo] + lb, [ro] + rb, None, None, ("_x", "_y"))
    pairs = asof_model(L, R, case["dir"], case["exact"], tol, ix)
    m = sum(b is not None for a, b in pairs)
    nt(0 < m and len({b for a, b in pairs}) > 1, case["dir"], f"by{len(lb)}", f"tol{tol is not None}", *ok)
    before = snap(ls), snap(rs)
    wr = [(k, c.flags.writeable) for t in (ls, rs) for k, c in t.items()]
    fn = merge_asof2 if two else rt.merge_asof
    what = ("merge_asof2 " if two else "merge_asof ") + case["dir"]
    try:
        got = fn(ls, rs, direction=case["dir"], allow_exact_matches=case["exact"], **kw)
    except ValueError:
        if two:
            # rows must be in time order (at least within each by-group)
            require(not (lsort and rsort), f"{what} raised for tables in order")
        else:
            require(kw.get("action_on_unsorted") == "raise" and not (lsort and rsort), f"{what} raised")
        return
    require((snap(ls), snap(rs)) == before, f"{what} changed an input table")
    require([(k, c.flags.writeable) for t in (ls, rs) for k, c in t.items()] == wr, f"{what} changed whether the input columns are writable")
    if kw.get("action_on_unsorted") == "raise":
        require(lsort and rsort, f"{what} accepted unsorted tables with action_on_unsorted='raise'")
    if two:
        def grp_sorted(s):
            ks = [bykey(s, i) for i in range(s["n"])]
            return all([s["on"]["v"][i] for i in range(s["n"]) if ks[i] == k] == sorted(s["on"]["v"][i] for i in range(s["n"]) if ks[i] == k) for k in set(ks))
        if not (grp_sorted(L) and grp_sorted(R)):
            return nt(False)  # sortedness is only checked as far as the search goes
    g = [None if x is None else int(x) for x in canon(got.ri)]
    require(canon(got.li) == list(range(L["n"])), f"{what}: every left row once and in order", got=canon(got.li))
    e = [b for a, b in pairs]
    if not two:
        # which of several right rows at the same time is taken: see ties
        pass
    require(g == e, f"{what}: right row of every left row", got=g, expected=e)
    check_cols(got, pairs, inter, ml, mr, ld, rd, "left", what, [mo] if mo else [])
    if mo:
        W = want(rd[ro])
        same_list(canon(got[mo]), [None if b is None else W[b] for b in e], f"{what}: matched_on")


@facet("C20", s_asof(False), quick=1600, shards=4, rule="left rows match 2 or more different right rows, or some match and some do not")
def merge_asof(case):
    asof(case, False)


# every combination of key dtypes is compiled separately (seconds each), so one process per family of dtypes
RULE2 = "left rows match 2 or more different right rows, or some match and some do not"


@facet("C20", s_asof(True, ["int32"]), quick=500, rule=RULE2)
def asof2_int(case):
    asof(case, True)


@facet("C20", s_asof(True, ["float64"]), quick=400, rule=RULE2)
def asof2_float(case):
    asof(case, True)


@facet("C20", s_asof(True, ["dtn"]), quick=400, rule=RULE2)
def asof2_time(case):
    asof(case, True)


@facet("C20", s_asof(True, ["int64"], [("int32", "int64")]), quick=150, rule=RULE2)
def asof2_wide(case):
    asof(case, True)


@facet("C20", s_asof(True, ["uint32", "date", "tspan", "float32", "int8", "int16"], [("int64", "int32"), ("float64", "float32"), ("int32", "float64"), ("int16", "int32")]), quick=25, rule=RULE2)
def asof2_other(case):
    asof(case, True)


@facet("C20", st.tuples(st.integers(0, 2**31), pick([200, 3000, 50000]), pick([0, 1, 2]), pick(["backward", "forward", "nearest"]), st.booleans(), st.booleans(), pick([10, 1000, 10**6])), quick=60, shards=2, rule="at least 200 rows")
def large(case):
    seed, n, nb, direction, exact, two, span = case
    r = np.random.default_rng(seed)
    m = int(r.integers(1, n))
    tl, tr = np.sort(r.integers(0, span, n)), np.sort(r.integers(0, span, m))
    kl, kr = (r.integers(0, 7, n), r.integers(0, 9, m)) if nb else (np.zeros(n, int), np.zeros(m, int))
    ls = rt.Dataset({"t": tl, "li": np.arange(n)})
    rs = rt.Dataset({"t": tr, "ri": np.arange(m)})
    nt(True, direction, f"by{nb}")
    kw = {}
    if nb:
        ls.b, rs.b = rt.FastArray((kl // (2 if nb == 2 else 1)).astype("int32")), rt.Categorical((kr // (2 if nb == 2 else 1)).astype("int32")) if seed % 2 and nb == 1 else rt.FastArray((kr // (2 if nb == 2 else 1)).astype("int32"))
        kw["by"] = ["b"]
        if nb == 2:
            ls.c, rs.c = np.char.add(b"k", (kl % 2).astype("S")), np.char.add(b"k", (kr % 2).astype("S"))
            kw["by"] = ["b", "c"]
    e = np.full(n, -1)
    for k in np.unique(kl):
        a, b = np.nonzero(kl == k)[0], np.nonzero(kr == k)[0]
        if not len(b):
            continue
        t = tr[b]
        bi = np.searchsorted(t, tl[a], "right" if exact else "left") - 1
        fi = np.searchsorted(t, tl[a], "left" if exact else "right")
        B = np.where(bi >= 0, b[np.maximum(bi, 0)], -1)
        F = np.where(fi < len(b), b[np.minimum(fi, len(b) - 1)], -1)
        if direction == "backward":
            e[a] = B
        elif direction == "forward":
            e[a] = F
        else:
            e[a] = np.where(B < 0, F, np.where(F < 0, B, np.where(tr[F] - tl[a] < tl[a] - tr[B], F, B)))
    fn = merge_asof2 if two else rt.merge_asof
    got = fn(ls, rs, on="t", direction=direction, allow_exact_matches=exact, **kw)
    g = np.where(np.asarray(got.ri.isnan()), -1, np.asarray(got.ri))
    w = np.nonzero(g != e)[0]
    if len(w):
        fail(f"merge_asof large {direction}: right row", row=int(w[0]), got=int(g[w[0]]), expected=int(e[w[0]]))
    require(canon(got.li) == list(range(n)), "merge_asof large: left rows")
