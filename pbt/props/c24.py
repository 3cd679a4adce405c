"""C24: date and time arithmetic, comparisons, differences and shifts compared with exact Python integers and the documented result types."""
import math
import operator
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *

warnings.filterwarnings("ignore")
DAY = 86400 * 10**9
CLS = {"D": rt.Date, "S": rt.DateSpan, "N": rt.DateTimeNano, "T": rt.TimeSpan}
I32 = -(2**31)
TZ = ["UTC", "NYC", "Asia/Kolkata", "DUBLIN"]


def one(draw, k):
    """a value in nanoseconds (T, N), days (D, S) or a plain number; None is invalid"""
    if draw(st.integers(0, 7)) == 0:
        return None
    if k == "D":
        return draw(pick(1, 2, 365, 18262, 20000, 11016)) + draw(st.integers(0, 400))
    if k == "S":
        return draw(pick(0, 1, -1, 7, -365, 1000)) + draw(st.integers(-3, 3))
    if k == "N":
        return draw(pick(1, DAY, 20000 * DAY, 18262 * DAY, 15000 * DAY + 123456789012345)) + draw(st.integers(0, 10**9))
    if k == "T":
        return draw(st.sampled_from([0, 1, -1, DAY, -DAY, 3600 * 10**9, 86399999999999, 1500, -2 * DAY + 7, 10**15 + 1])) + draw(st.integers(-5, 5))
    if k == "i":
        return draw(st.integers(-50, 50))
    return draw(st.sampled_from([0.5, -2.0, 3.0, 1.25, 10.0, -0.25]))


def mk(k, v, tz):
    if k == "D":
        return rt.Date(np.array([0 if x is None else x for x in v], dtype=np.int32))
    if k == "S":
        return rt.DateSpan(np.array([I32 if x is None else x for x in v], dtype=np.int32))
    if k == "N":
        return rt.DateTimeNano(np.array([0 if x is None else x for x in v], dtype=np.int64), from_tz="UTC", to_tz=tz)
    if k == "T":
        return rt.TimeSpan(np.array([np.nan if x is None else float(x) for x in v]))
    if k == "i":
        return rt.FastArray(np.array([-(2**63) if x is None else x for x in v], dtype=np.int64))
    return rt.FastArray(np.array([np.nan if x is None else x for x in v]))


def spread(k, v, tz, la):
    """the same contents in another memory layout (mixed arithmetic with plain integers is stated for contiguous arrays)"""
    if la == "stride":
        return mk(k, [x for y in v for x in (y, 7)], tz)[::2]
    if la == "rev":
        return mk(k, v[::-1], tz)[::-1]
    return mk(k, v, tz)


def vals(r):
    """values of a result, invalid as None"""
    k = next((k for k, c in CLS.items() if type(r) is c), None)
    R = np.asarray(r.view(np.ndarray)).tolist()
    if k in ("D", "N"):
        return [None if x in (0, I32, -(2**63)) else x for x in R]
    return [None if x in (I32, -(2**63)) or (isinstance(x, float) and math.isnan(x)) else x for x in R]


# documented result kinds; the entry gives (result, left multiplier, right multiplier)
ADD = {"DS": ("D", 1, 1), "SD": ("D", 1, 1), "DT": ("N", DAY, 1), "TD": ("N", 1, DAY), "Di": ("D", 1, 1), "iD": ("D", 1, 1), "SS": ("S", 1, 1), "ST": ("T", DAY, 1), "TS": ("T", 1, DAY), "Si": ("S", 1, 1),
       "SN": ("N", DAY, 1), "NS": ("N", 1, DAY), "NT": ("N", 1, 1), "TN": ("N", 1, 1), "Ni": ("N", 1, 1), "iN": ("N", 1, 1), "TT": ("T", 1, 1), "Ti": ("T", 1, 1), "iT": ("T", 1, 1)}
SUB = {"DD": ("S", 1, 1), "DS": ("D", 1, 1), "DN": ("T", DAY, 1), "DT": ("N", DAY, 1), "Di": ("D", 1, 1), "SS": ("S", 1, 1), "ST": ("T", DAY, 1), "TS": ("T", 1, DAY), "Si": ("S", 1, 1), "NN": ("T", 1, 1), "ND": ("T", 1, DAY),
       "NT": ("N", 1, 1), "NS": ("N", 1, DAY), "Ni": ("N", 1, 1), "TT": ("T", 1, 1), "Ti": ("T", 1, 1), "iT": ("T", 1, 1)}
BADADD = ["DD", "DN", "ND", "NN"]
BADSUB = ["SD", "SN", "TD", "TN", "iD", "iN"]
ALLP = [("+", p) for p in ADD] + [("-", p) for p in SUB] + [("+", p) for p in BADADD] + [("-", p) for p in BADSUB]


@st.composite
def s_arith(draw):
    op, p = draw(st.sampled_from(ALLP))
    n = draw(pick(1, 2, 3, 5, 40))
    form = draw(pick("aa", "aa", "aa", "as", "a1", "sa", "1a", "in", "ss"))
    if form == "sa" and p[0] not in "NT":
        form = "aa"
    if form == "ss" and (p[0] not in "NT" or p[1] in "i"):
        form = "aa"
    if form in ("sa", "1a") and p[0] == "i" or form in ("as", "a1") and False:
        form = "aa"
    la = 1 if form in ("sa", "1a", "ss") else n
    lb = 1 if form in ("as", "a1", "ss") else n
    return {"op": op, "p": p, "form": form, "a": [one(draw, p[0]) for _ in range(la)], "b": [one(draw, p[1]) for _ in range(lb)], "tz": draw(st.sampled_from(TZ)), "tz2": draw(st.sampled_from(TZ)), "la": draw(pick("c", "c", "c", "stride", "rev")), "lb": draw(pick("c", "c", "c", "stride", "rev"))}


@facet("C24", s_arith(), quick=5000, shards=2, rule="the combination is documented and has at least one element with two valid operands")
def arith(c):
    """+ and - between dates, spans, stamps and integers, arrays and scalars: exact units, documented class, invalid in -> invalid out"""
    op, p, form = c["op"], c["p"], c["form"]
    tz = c["tz"]
    if "i" in p:
        c = {**c, "la": "c", "lb": "c"}
    if "D" in p and "N" in p:
        tz = "UTC"  # a date and a stamp are only on one scale in UTC
    A, B = c["a"], c["b"]
    if form == "ss" and None in A + B:
        return
    a, b = spread(p[0], A, tz, c.get("la", "c")), spread(p[1], B, tz, c.get("lb", "c"))
    sa, sb = a.copy(), b.copy()
    left = a[0] if form in ("sa", "ss") else a
    right = b[0] if form in ("as", "ss") else b
    if p[0] == "i" and form in ("as", "ss") or p[1] == "i" and form == "sa" and None in B:
        return  # a plain NumPy array with a scalar: not the library's operator
    if form == "as" and p[1] == "i":
        if B[0] is None:
            return
        right = int(B[0])
    tab, bad = (ADD, BADADD) if op == "+" else (SUB, BADSUB)
    f = operator.add if op == "+" else operator.sub
    if p in bad:
        if form in ("sa", "ss") and p[0] in "DS" or form in ("as", "ss") and p[0] == "i":
            return
        try:
            r = f(left, right)
        except (TypeError, NotImplementedError):
            return
        fail("a meaningless combination was computed", got=type(r), case=c)
    k, ml, mr = tab[p]
    n = max(len(A), len(B))
    AA = A * n if len(A) == 1 else A
    BB = B * n if len(B) == 1 else B
    W = [None if x is None or y is None else f(x * ml, y * mr) for x, y in zip(AA, BB)]
    nt(any(w is not None for w in W), op + p, form, "inv" if None in W else "clean")
    if form == "in":
        if k != p[0] or p[0] == "i" or p in ("SD", "ST") or n != len(A):
            return
        t = left.copy()
        r = operator.iadd(t, right) if op == "+" else operator.isub(t, right)
    else:
        r = f(left, right)
    if form == "ss":
        require(np.ndim(r) == 0 or len(r) == 1, "scalar result", got=type(r), case=c)
        want_cls = {"N": (rt.DateTimeNano, rt.rt_datetime.DateTimeNanoScalar), "T": (rt.TimeSpan, rt.rt_datetime.TimeSpanScalar)}[k]
        require(isinstance(r, want_cls), "scalar result class", got=type(r), want=k, case=c)
        g = float(np.asarray(r).reshape(-1)[0]) if k == "T" else int(np.asarray(r).reshape(-1)[0])
        if W[0] is not None and (k == "T" or W[0] > 0):
            require(g == (float(W[0]) if k == "T" else W[0]), "scalar arithmetic", got=g, want=W[0], case=c)
        if k == "N" and "N" in p:
            require(r._timezone._to_tz == mk("N", [1], tz)._timezone._to_tz, "scalar arithmetic changed the displayed zone", got=r._timezone._to_tz, case=c)
        return
    require(type(r) is CLS[k], "result class", got=type(r), want=k, case=c)
    G = vals(r)
    require(len(G) == n, "result length", got=len(G), want=n, case=c)
    for i in range(n):
        w = W[i]
        if w is None:
            require(G[i] is None, "invalid operand gave a value", i=i, got=G[i], case=c)
        elif k in "DN" and w <= 0:
            continue  # before the epoch
        elif k == "T":
            require(G[i] is not None and abs(G[i] - w) <= 2e-16 * max(abs(AA[i] * ml), abs(BB[i] * mr), abs(w)) * 4, "span arithmetic", i=i, got=G[i], want=w, case=c)
        else:
            require(G[i] == w, "arithmetic", i=i, got=G[i], want=w, case=c)
    if k == "N" and "N" in p:
        require(r._timezone._to_tz == (a if p[0] == "N" else b)._timezone._to_tz, "displayed zone changed", got=r._timezone._to_tz, case=c)
    require(vals(a) == vals(sa) and vals(b) == vals(sb), "operands changed", case=c)


@st.composite
def s_cmp(draw):
    p = draw(st.sampled_from(["DD", "NN", "TT", "SS", "ND", "DN", "TS", "ST", "DT", "DS", "NT", "NS", "TD", "SD", "TN", "SN"]))
    n = draw(pick(1, 2, 3, 5, 40))
    form = draw(pick("aa", "as", "a1", "sa"))
    A = [one(draw, p[0]) for _ in range(1 if form == "sa" else n)]
    B = []
    for i in range(1 if form in ("as", "a1") else n):
        x = A[i % len(A)]
        if draw(st.integers(0, 2)) == 0 and x is not None:
            q = {"D": DAY, "S": DAY}.get(p[0], 1)
            y = x * q // {"D": DAY, "S": DAY}.get(p[1], 1) + draw(pick(0, 0, 1, -1))
            B.append(max(y, 1) if p[1] in "DN" else y)
        else:
            B.append(one(draw, p[1]))
    return {"p": p, "form": form, "a": A, "b": B, "op": draw(pick("lt", "le", "gt", "ge", "eq", "ne")), "tz": draw(st.sampled_from(TZ)), "la": draw(pick("c", "c", "c", "stride", "rev")), "lb": draw(pick("c", "c", "c", "stride", "rev"))}


@facet("C24", s_cmp(), quick=3500, rule="a comparable pair with at least one element valid on both sides")
def compare(c):
    """comparisons use the same unit on both sides, are false for invalid operands (!= is true) and refuse a stamp against a span"""
    p, form = c["p"], c["form"]
    tz = "UTC" if set(p) == {"D", "N"} else c["tz"]
    A, B = c["a"], c["b"]
    a, b = spread(p[0], A, tz, c.get("la", "c")), spread(p[1], B, tz, c.get("lb", "c"))
    left = a[0] if form == "sa" else a
    right = b[0] if form == "as" else b
    if form == "sa" and (p[0] != p[1] or None in A):
        return  # a NumPy scalar on the left compares raw numbers
    f = getattr(operator, c["op"])
    point, span = set("DN"), set("ST")
    if (p[0] in point) != (p[1] in point):
        try:
            r = f(left, right)
        except TypeError:
            return
        fail("a point in time was compared with a span", got=r, case=c)
    u = {"D": DAY, "S": DAY, "N": 1, "T": 1}
    n = max(len(A), len(B))
    AA = A * n if len(A) == 1 else A
    BB = B * n if len(B) == 1 else B
    W = []
    for x, y in zip(AA, BB):
        if x is None or y is None:
            W.append(c["op"] == "ne")
        else:
            x, y = x * u[p[0]], y * u[p[1]]
            if "T" in p:
                x, y = float(x), float(y)
            W.append(bool(f(x, y)))
    nt(any(x is not None and y is not None for x, y in zip(AA, BB)), p, c["op"], form)
    r = f(left, right)
    require(np.asarray(r).dtype == bool and np.shape(r) == (n,), "shape of the comparison", got=np.shape(r), case=c)
    require(np.asarray(r).tolist() == W, "comparison", got=np.asarray(r).tolist(), want=W, case=c)


@st.composite
def s_seq(draw):
    k = draw(st.sampled_from("DSNT"))
    n = draw(pick(1, 2, 3, 6, 12))
    return {"k": k, "v": [one(draw, k) for _ in range(n)], "p": draw(pick(1, 1, 2, -1, -2, 3, 5)), "q": draw(st.sampled_from([2, -3, 0.5, 4, 1])), "tz": draw(st.sampled_from(TZ)), "m": [one(draw, "T") for _ in range(n)]}


@facet("C24", s_seq(), quick=3000, rule="at least two valid elements")
def sequences(c):
    """diff, shift, min/max, hstack, repeat/tile, indexing, sorting and span scaling keep class, units, zone and invalid"""
    k, v, n = c["k"], c["v"], len(c["v"])
    a = mk(k, v, c["tz"])
    nt(sum(x is not None for x in v) > 1, k, c["p"])
    d = a.diff(c["p"])
    dk = {"D": "S", "N": "T", "S": "S", "T": "T"}[k]
    require(type(d) is CLS[dk], "diff class", got=type(d), case=c)
    src = [v[i - c["p"]] if 0 <= i - c["p"] < n else None for i in range(n)]
    W = [None if x is None or y is None else x - y for x, y in zip(v, src)]
    G = vals(d)
    require([None if g is None else float(g) for g in G] == [None if w is None else float(w) for w in W], "diff", got=G, want=W, case=c)
    s = a.shift(c["p"])
    require(type(s) is CLS[k] and vals(s) == vals(mk(k, src, c["tz"])), "shift", got=vals(s), want=src, case=c)
    if k == "N":
        require(s._timezone._to_tz == a._timezone._to_tz, "shift changed the zone", case=c)
    good = [x for x in v if x is not None]
    if len(good) == n:
        b = mk(k, good, c["tz"])
        mn, mx = b.min(), b.max()
        for r, w in (mn, min(good)), (mx, max(good)):
            ok = isinstance(r, CLS[k]) or type(r).__name__ == CLS[k].__name__ + "Scalar"
            require(ok and np.asarray(r).reshape(-1).tolist() == [w], "min/max", got=repr(r), want=w, case=c)
    h = rt.hstack([a, a[:1]])
    require(type(h) is CLS[k] and vals(h) == vals(a) + vals(a)[:1], "hstack", got=vals(h), case=c)
    x = a[0]
    t = x.repeat(3)
    require(type(t) is CLS[k] and np.asarray(t).tolist() == [np.asarray(a).tolist()[0]] * 3 or v[0] is None, "scalar repeat", got=t, case=c)
    if k == "N":
        require(h._timezone._to_tz == a._timezone._to_tz, "hstack changed the zone", case=c)
        T = mk("T", c["m"], "UTC")
        for nm, r, w in ("stamp + span - stamp", (a + T) - a, [None if x is None or y is None or x + y <= 0 else y for x, y in zip(v, c["m"])]),:
            g = vals(r)
            for i in range(n):
                if v[i] is None or c["m"][i] is None:
                    require(g[i] is None, "invalid operand gave a value", what=nm, got=g, case=c)
                elif w[i] is not None:
                    require(g[i] == float(w[i]), nm, got=g[i], want=w[i], case=c)
    if k == "T":
        q = c["q"]
        for nm, r, w in [
            ("*", a * q, [None if x is None else x * q for x in v]),
            ("r*", q * a, [None if x is None else x * q for x in v]),
            ("/", a / q, [None if x is None else x / q for x in v]),
            ("neg", -a, [None if x is None else -x for x in v]),
            ("abs", abs(a), [None if x is None else abs(x) for x in v]),
            ("*arr", a * rt.FastArray([q] * n), [None if x is None else x * q for x in v]),
        ]:
            require(type(r) is rt.TimeSpan, "scaled span class", what=nm, got=type(r), case=c)
            g = vals(r)
            require(all((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-15 * abs(y)) for x, y in zip(g, w)), "scaled span", what=nm, got=g, want=w, case=c)
        m = c["m"]
        b = mk("T", m, "UTC")
        for nm, r in ("/", a / b), ("//", a // b):
            require(type(r) is rt.FastArray, "span ratio class", what=nm, got=type(r), case=c)
            R = np.asarray(r).tolist()
            for i in range(n):
                if v[i] is None or m[i] is None:
                    require(math.isnan(R[i]), "ratio of invalid", what=nm, got=R[i], case=c)
                elif m[i]:
                    w = v[i] / m[i] if nm == "/" else float(v[i]) // float(m[i])
                    require(abs(R[i] - w) <= 1e-12 * max(1, abs(w)), "span ratio", what=nm, got=R[i], want=w, case=c)
        for bad in (lambda: a * b, lambda: a * mk("D", [1] * n, "UTC"), lambda: 1 / a):
            try:
                bad()
            except (TypeError, NotImplementedError):
                continue
            fail("a meaningless product was computed", case=c)
    require(vals(a) == vals(mk(k, v, c["tz"])), "the source changed", case=c)
