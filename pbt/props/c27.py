"""C27: generated contents, edges, bin counts and quantiles; each element against the bin that contains it, edges and labels against exact arithmetic on the sorted data."""
import bisect
import math
import datetime as pdt
import zoneinfo
import numpy as np
from fractions import Fraction
from hypothesis import strategies as st

import riptable as rt

from ..core import *
from ..lib import *
from ..cols import *
from .c01 import LAYOUT

XK = ["float64", "float64", "float32", "int32", "int64", "int8", "int16", "uint8", "uint16", "uint32", "uint64"]


@st.composite
def s_x(draw, lo=1, infs=True):
    k = draw(st.sampled_from(XK))
    n = draw(sizes(lo, 30))
    if k[0] == "f":
        base = draw(pick([0.0, 1.0, 2.0, 2.5, -1.0, 4.0, 10.0], [0.5, 1e-3, 7.25, 100.0, -3.0, 2.0], [float(i) for i in range(-8, 9)]))
        base = base + [None] + ([float("inf"), float("-inf")] if infs and draw(pick(False, False, True)) else [])
    else:
        lo_ = -8 if k[0] == "i" else 0
        base = draw(pick([1, 2, 3], list(range(lo_, 12)), [0, 5, 100, 127 if k == "int8" else 120])) + draw(pick([], [None]))
    v = draw(st.lists(st.sampled_from(base), min_size=n, max_size=n))
    return {"k": k, "v": v, "la": draw(pick(LAYOUT)), "rep": draw(pick(1, 1, 1, 1, 300)), "fl": draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=n, max_size=n)))}


def mkx(c):
    v = c["v"] * c["rep"]
    k = c["k"]
    a = rt.FastArray(np.array([(np.nan if k[0] == "f" else INV[k]) if x is None else x for x in v], dtype=k))
    if c["la"] == "stride":
        t = np.empty(2 * len(a), dtype=k)
        t[:] = 3
        t[::2] = a._np
        a = t[::2].view(rt.FastArray)
    elif c["la"] == "rev":
        a = a._np[::-1].copy()[::-1].view(rt.FastArray)
    f = c["fl"]
    w = [x if x is None else float(np.dtype(k).type(x)) for x in v]
    if f is not None:
        f = f * c["rep"]
        w = [x if y else None for x, y in zip(w, f)]
    return a, w, None if f is None else rt.FastArray(np.array(f, dtype=bool))


def binof(x, e):
    """bins are (a, b]; the first one includes its left edge; 0: no bin"""
    if x is None or x < e[0] or x > e[-1]:
        return 0
    return max(1, bisect.bisect_left(e, x))


def ids(r):
    return np.asarray(r).tolist()


def finite(w):
    return sorted(x for x in w if x is not None and math.isfinite(x))


def check_labels(cat, edges, labels, c, clipped):
    la = [x.decode() if isinstance(x, bytes) else str(x) for x in np.asarray(cat.category_array).tolist()]
    if clipped:
        require(la[0] == "Clipped", "the first category is not Clipped", got=la, case=c)
        la = la[1:]
    require(len(la) == len(edges) - 1, "one label per bin", got=la, edges=edges, case=c)
    if labels is not None:
        require(la == labels, "labels", got=la, want=labels, case=c)
        return
    for i, s in enumerate(la):
        p = s.split("->")
        require(len(p) == 2, "label", got=s, case=c)
        for t, e in zip(p, edges[i:i + 2]):
            require(float(t) == e or abs(float(t) - e) <= 10.0 ** -c["prec"] * max(1.0, 0), "label does not show its edges", got=s, edges=edges[i:i + 2], case=c)
    if len(set(edges)) == len(edges):
        require(len(set(la)) == len(la), "two bins with one label", got=la, edges=edges, case=c)


@st.composite
def s_cut(draw):
    c = draw(s_x())
    e = draw(st.one_of(st.lists(st.sampled_from([-1, 0, 1, 2, 3, 5, 8, 10, 100]), min_size=2, max_size=6, unique=True), st.lists(st.sampled_from([-1.0, 0.0, 0.5, 1.0, 2.0, 2.5, 4.0, 7.25, 10.0, 1e-3]), min_size=2, max_size=6, unique=True)))
    e = sorted(e)
    if draw(pick(False, False, False, True)):
        e = [float("-inf")] + e if draw(st.booleans()) else e + [float("inf")]
    return {**c, "e": e, "lab": draw(pick("T", "T", "F", "N", "L")), "prec": draw(pick(3, 3, 1, 6)), "rb": draw(st.booleans()), "how": draw(pick("list", "np", "fa"))}


@facet("C27", s_cut(), quick=2500, shards=2, rule="values in two bins or more")
def edges(c):
    """cut by explicit edges"""
    a, w, f = mkx(c)
    e = c["e"]
    if any(math.isinf(x) for x in e) and any(x is not None and math.isinf(x) for x in w):
        return
    n = len(e) - 1
    labels = {"T": True, "F": False, "N": None, "L": [f"L{i}" for i in range(n)]}[c["lab"]]
    before = [x for x in np.asarray(a).tolist()]
    b = e if c["how"] == "list" else np.array(e) if c["how"] == "np" else rt.FastArray(e)
    r = rt.cut(a, b, labels=labels, retbins=c["rb"], precision=c["prec"], filter=f)
    if c["rb"]:
        r, rb = r
        require(np.asarray(rb).tolist() == [float(x) for x in e], "returned edges", got=rb, want=e, case=c)
    want = [binof(x, e) for x in w]
    nt(len({x for x in want if x}) > 1, c["k"], c["lab"], "inf" if any(math.isinf(x) for x in e) else "", c["la"])
    require(ids(r) == want, "bin", got=ids(r)[:40], want=want[:40], case=c)
    if labels is False:
        require(not isinstance(r, rt.Categorical), "labels=False returns bin numbers", got=type(r), case=c)
    else:
        require(isinstance(r, rt.Categorical), "a category array", got=type(r), case=c)
        check_labels(r, [float(x) for x in e], labels if isinstance(labels, list) else None, c, False)
        cat_sane(r)
    require(repr(np.asarray(a).tolist()) == repr(before), "input changed", case=c)


@st.composite
def s_cutn(draw):
    c = draw(s_x(infs=False))
    return {**c, "nb": draw(st.integers(1, 7)), "prec": draw(pick(3, 3, 1, 6)), "lab": draw(pick("T", "F"))}


@facet("C27", s_cutn(), quick=1500, rule="at least two different valid values and two bins")
def widths(c):
    """cut into n bins of equal width"""
    a, w, f = mkx(c)
    fin = finite(w)
    if not fin:
        return
    nb = c["nb"]
    nt(len(set(fin)) > 1 and nb > 1, c["k"], c["lab"], "one" if len(set(fin)) == 1 else "")
    r, e = rt.cut(a, nb, labels=c["lab"] == "T", retbins=True, precision=c["prec"], filter=f)
    e = np.asarray(e).tolist()
    require(len(e) == nb + 1 and e == sorted(set(e)), "edges", got=e, case=c)
    lo, hi = fin[0], fin[-1]
    if lo < hi:
        require(e[0] == lo and e[-1] == hi, "the bins span the data", got=e, lo=lo, hi=hi, case=c)
    else:
        require(e[0] < lo < e[-1] and e[-1] - e[0] <= max(0.002 * abs(lo), 0.002) * 1.0001, "the bins surround the only value", got=e, value=lo, case=c)
    wd = (e[-1] - e[0]) / nb
    for x, y in zip(e, e[1:]):
        require(abs((y - x) - wd) <= 1e-9 * max(1, abs(e[0]), abs(e[-1])), "equal widths", got=e, case=c)
    want = [binof(x, e) for x in w]
    require(ids(r) == want, "bin", got=ids(r)[:40], want=want[:40], edges=e, case=c)
    require(all(b for b, x in zip(want, w) if x is not None), "every valid value has a bin", case=c)
    if c["lab"] == "T":
        check_labels(r, e, None, c, False)


def qv(fin, q, how):
    i = Fraction(q) * (len(fin) - 1)
    lo = int(i)
    if i == lo:
        return Fraction(fin[lo])
    if how == "lower":
        return Fraction(fin[lo])
    if how == "higher":
        return Fraction(fin[lo + 1])
    return Fraction(fin[lo]) + (Fraction(fin[lo + 1]) - Fraction(fin[lo])) * (i - lo)


QS = [0.0, 0.25, 0.5, 0.75, 1.0, 0.125, 0.0625, 0.9375]


@st.composite
def s_q(draw):
    c = draw(s_x())
    return {**c, "fl": None, "q": draw(st.one_of(st.sampled_from(QS), st.lists(st.sampled_from(QS), min_size=1, max_size=4))), "how": draw(pick("fraction", "fraction", "lower", "higher"))}


@facet("C27", s_q(), quick=1500, rule="at least two different finite values")
def quantiles(c):
    """quantile by interpolation, lower and higher"""
    a, w, f = mkx(c)
    fin = finite(w)
    q = c["q"]
    nt(len(set(fin)) > 1, c["k"], c["how"], "inv" if None in w else "")
    r, order, counts = rt.quantile(a, q, interpolation_method=c["how"])
    qs = q if isinstance(q, list) else [q]
    R = np.asarray(r).reshape(-1).tolist()
    require(len(R) == len(qs), "one result per quantile", got=R, case=c)
    for x, y in zip(R, qs):
        if not fin:
            require(math.isnan(x), "quantile of nothing", got=x, case=c)
            continue
        e = float(qv(fin, y, c["how"]))
        require(abs(x - e) <= (1e-6 if c["k"] == "float32" else 1e-12) * max(1, abs(e)), "quantile", q=y, got=x, want=e, case=c)
    require(sorted(np.asarray(order).tolist()) == list(range(len(w))), "the returned order is a permutation", case=c)


@st.composite
def s_qcut(draw):
    c = draw(s_x())
    q = draw(st.one_of(st.integers(1, 6), st.lists(st.sampled_from(QS), min_size=2, max_size=5, unique=True).map(sorted)))
    return {**c, "q": q, "lab": draw(pick("T", "T", "F", "L")), "prec": draw(pick(3, 3, 6)), "dup": draw(pick("raise", "drop"))}


@facet("C27", s_qcut(), quick=2000, shards=2, rule="at least two bins hold values")
def qcuts(c):
    """qcut: edges are the quantiles of the data, every value is in the bin that contains it, values outside are clipped"""
    a, w, f = mkx(c)
    fin = finite(w)
    if not fin:
        return
    q = c["q"]
    qs = np.linspace(0, 1, q + 1).tolist() if isinstance(q, int) else q
    labels = {"T": True, "F": False, "L": [f"L{i}" for i in range(len(qs) - 1)]}[c["lab"]]
    ex = [float(qv(fin, Fraction(y), "fraction")) for y in qs]
    try:
        r, e = rt.qcut(a, q, labels=labels, retbins=True, precision=c["prec"], duplicates=c["dup"], filter=f)
    except ValueError:
        u = sorted(ex)
        tight = any(abs(x - y) <= 1e-12 * max(1, abs(x)) for x, y in zip(u, u[1:]))
        require(tight and (c["dup"] == "raise" or c["lab"] == "L" or len(set(ex)) < 2), "refused", edges=ex, case=c)
        return
    e = np.asarray(e).tolist()
    tol = 1e-6 if c["k"] == "float32" else 1e-12
    if c["dup"] == "drop":
        u = []
        for x in ex:
            if not u or x - u[-1] > tol * max(1, abs(x)):
                u.append(x)
        if len(u) == 1:
            return
        if len(u) != len(e):
            return  # nearly equal edges
        ex = u
    require(len(e) == len(ex) and all(abs(x - y) <= tol * max(1, abs(y)) for x, y in zip(e, ex)), "edges are the quantiles", got=e, want=ex, case=c)
    want = [0 if x is None else 1 if not binof(x, e) else binof(x, e) + 1 for x in w]
    nt(len({x for x in want if x > 1}) > 1, c["k"], c["lab"], c["dup"], "clip" if 1 in want else "")
    G = ids(r)
    for i, x in enumerate(w):
        if x is not None and math.isinf(x):
            require(G[i] in (0, 1), "an infinite value has a bin", got=G[i], value=x, case=c)
            continue
        require(G[i] == want[i], "bin", value=x, got=G[i], want=want[i], edges=e, case=c)
    if labels is not False:
        check_labels(r, e, labels if isinstance(labels, list) else None, c, True)
        cat_sane(r)


ZON = {"NYC": "America/New_York", "UTC": "UTC", "GMT": "UTC", "DUBLIN": "Europe/Dublin", "Asia/Tokyo": "Asia/Tokyo"}
NS = 10**9


@st.composite
def s_ct(draw):
    n = draw(sizes(1, 12))
    day = st.integers(17000, 19000)
    sec = st.one_of(st.sampled_from([0, 9 * 3600, 9 * 3600 + 1800, 34200 + 60, 16 * 3600, 43200, 86399, 1]), st.integers(0, 86399))
    v = draw(st.lists(st.one_of(st.tuples(day, sec, st.sampled_from([0, 1, 500_000_000, 999_999_999])).map(list), st.none()), min_size=n, max_size=n))
    hm = st.tuples(st.integers(0, 23), st.sampled_from([0, 15, 30]))
    b = draw(st.one_of(st.sampled_from([5, 60, 90, 7]).map(lambda x: ["m", x]), st.sampled_from([1, 2, 5]).map(lambda x: ["h", x]), st.lists(hm, min_size=2, max_size=5, unique=True).map(lambda x: ["l", sorted(map(list, x))])))
    s = draw(hm)
    return {"v": v, "b": b, "s": [s[0] % 12, s[1]], "e": [12 + draw(st.integers(0, 11)), draw(pick(0, 1, 30))], "pre": draw(st.booleans()), "post": draw(st.booleans()), "lab": draw(pick("left", "right")), "tz": draw(st.sampled_from(["NYC", "UTC", "DUBLIN"])), "la": draw(pick("c", "c", "stride"))}


@facet("C27", s_ct(), quick=700, rule="values in two buckets or more")
def daytime(c):
    """cut_time: the bucket of the local time of day"""
    tz = zoneinfo.ZoneInfo(ZON[c["tz"]])
    ns, tod = [], []
    for x in c["v"]:
        if x is None:
            ns.append(0)
            tod.append(None)
            continue
        t = x[0] * 86400 + x[1]
        d = pdt.datetime.fromtimestamp(t, tz)
        ns.append(t * NS + x[2])
        tod.append((d.hour * 3600 + d.minute * 60 + d.second) * NS + x[2])
    arr = np.array(ns, dtype=np.int64)
    if c["la"] == "stride":
        t = np.full(2 * len(arr), 10**18, dtype=np.int64)
        t[::2] = arr
        a = rt.DateTimeNano(t, from_tz="UTC", to_tz=c["tz"])[::2]
    else:
        a = rt.DateTimeNano(arr, from_tz="UTC", to_tz=c["tz"])
    kind, b = c["b"]
    hm = lambda t: (t[0] * 3600 + t[1] * 60) * NS
    kw = {}
    if kind == "l":
        pts = [hm(t) for t in b]
        r = a.cut_time([tuple(t) for t in b], add_pre_bucket=c["pre"], add_post_bucket=c["post"], label=c["lab"])
    else:
        step = b * (60 if kind == "m" else 3600) * NS
        pts = list(range(hm(c["s"]), hm(c["e"]), step)) + [hm(c["e"])]
        r = a.cut_time(b if kind == "m" else rt.TimeSpan(b, "h"), start_time=tuple(c["s"]), end_time=tuple(c["e"]), add_pre_bucket=c["pre"], add_post_bucket=c["post"], label=c["lab"])
    lab = [f"{p // NS // 3600:02d}:{p // NS % 3600 // 60:02d}" for p in pts]
    lab = lab[:-1] if c["lab"] == "left" else lab[1:]
    if c["pre"]:
        pts, lab = [0] + pts, ["pre"] + lab
    if c["post"]:
        pts, lab = pts + [86400 * NS], lab + ["post"]
    if len(set(pts)) < len(pts):
        return
    G = canon(r)
    W = []
    for x in tod:
        W.append(FILT if x is None or x <= pts[0] or x > pts[-1] else lab[bisect.bisect_left(pts, x) - 1])
    nt(len({x for x in W if x != FILT}) > 1, kind, c["lab"], c["tz"])
    for i, x in enumerate(tod):
        if x == pts[0]:
            continue  # the left edge of the first bucket: not stated
        g, w = G[i], W[i]
        ok = g == w or (w not in (FILT, "pre", "post") and g != FILT and str(g).startswith(w))
        require(ok, "bucket", time=x, got=g, want=w, case=c)


@st.composite
def s_rs(draw):
    n = draw(sizes(1, 10))
    base = draw(st.integers(10**18, 10**18 + 10**15))
    u = draw(st.sampled_from([["H", 3600 * NS], ["T", 60 * NS], ["min", 60 * NS], ["S", NS], ["L", 10**6], ["ms", 10**6], ["U", 1000], ["us", 1000], ["N", 1], ["ns", 1]]))
    m = draw(st.sampled_from(["", "1", "2", "3", "20", "7", "1.5", "0.5"]))
    if m in ("1.5", "0.5") and u[0] in ("N", "ns"):
        m = "3"
    v = draw(st.lists(st.one_of(st.integers(0, 40 * u[1]), st.integers(0, 6).map(lambda k: k * u[1])), min_size=n, max_size=n))
    return {"v": [base + x for x in v], "u": u, "m": m, "tz": draw(st.sampled_from(["NYC", "UTC"])), "drop": draw(st.booleans())}


@facet("C27", s_rs(), quick=600, rule="at least two different stamps")
def resample(c):
    """resample: a regular grid covering the data, or every stamp rounded down to it"""
    step = int(Fraction(c["m"] or 1) * c["u"][1])
    a = rt.DateTimeNano(np.array(c["v"], dtype=np.int64), from_tz="UTC", to_tz=c["tz"])
    r = a.resample(c["m"] + c["u"][0], dropna=c["drop"])
    nt(len(set(c["v"])) > 1, c["u"][0], c["m"], c["drop"])
    require(isinstance(r, rt.DateTimeNano) and r._timezone._to_tz == a._timezone._to_tz, "class and zone", got=type(r), case=c)
    R = np.asarray(r).tolist()
    lo, hi = min(c["v"]), max(c["v"])
    want = [x - x % step for x in c["v"]] if c["drop"] else list(range(lo - lo % step, hi - hi % step + step, step))
    require(R == want, "stamps", got=R[:12], want=want[:12], case=c)
