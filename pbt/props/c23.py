"""C23: calendar fields, text and parsing compared with Python's datetime and zoneinfo on generated instants, including DST edges."""
import datetime as D
import math
import warnings
import zoneinfo

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *

warnings.filterwarnings("ignore")
ZONES = ["UTC", "GMT", "America/New_York", "Europe/Dublin", "Australia/Sydney", "Asia/Hong_Kong", "Asia/Tokyo", "Asia/Seoul", "Asia/Kolkata", "NYC", "DUBLIN", "Sydney", "Tokyo"]
FULL = {"NYC": "America/New_York", "DUBLIN": "Europe/Dublin", "Sydney": "Australia/Sydney", "Tokyo": "Asia/Tokyo"}
ZI = {z: zoneinfo.ZoneInfo(FULL.get(z, z)) for z in ZONES}
U = D.timezone.utc
E0 = D.datetime(1970, 1, 1, tzinfo=U)
DAY = 86400 * 10**9
TOP = int((D.datetime(2040, 1, 1, tzinfo=U) - E0).total_seconds()) * 10**9
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def transitions(z, y):
    """UTC seconds at which the offset of zone z changes in year y (bisected from zoneinfo, cached)"""
    k = (z, y)
    if k not in TR:
        out = []
        t = int((D.datetime(y, 1, 1, tzinfo=U) - E0).total_seconds())
        f = lambda s: (E0 + D.timedelta(seconds=s)).astimezone(ZI[z]).utcoffset()
        for d in range(366):
            a, b = t + d * 86400, t + (d + 1) * 86400
            if f(a) != f(b):
                while b - a > 1:
                    m = (a + b) // 2
                    a, b = (m, b) if f(m) == f(a) else (a, m)
                out.append(b)
        TR[k] = out
    return TR[k]


TR = {}


@st.composite
def s_ns(draw, z):
    """one instant (ns): anything, DST edges of the zone, local midnights, month/year ends, sub-second ends"""
    k = draw(pick("any", "edge", "mid", "leap", "second"))
    if k == "edge" and ZI[z].utcoffset(D.datetime(2019, 1, 1)) != ZI[z].utcoffset(D.datetime(2019, 7, 1)):
        y = draw(st.integers(1972, 2039))
        tr = transitions(z, y)
        if tr:
            return draw(st.sampled_from(tr)) * 10**9 + draw(pick(0, -1, 1, 10**9, -10**9, 3600 * 10**9, -3600 * 10**9, 1799 * 10**9))
    if k in ("edge", "mid", "leap"):
        y = draw(st.integers(1971, 2039))
        m, d = draw(pick((1, 1), (12, 31), (2, 28), (3, 1), (2, 29), (6, 30), (7, 1), (3, 31))) if k != "mid" else (draw(st.integers(1, 12)), draw(st.integers(1, 28)))
        if (m, d) == (2, 29) and y % 4:
            y -= y % 4
            y = max(y, 1972)
        t = D.datetime(y, m, d, tzinfo=ZI[z]).astimezone(U)
        return int((t - E0).total_seconds()) * 10**9 + draw(pick(0, -1, 1, 999, -1000, DAY - 1, 86399 * 10**9))
    s = draw(st.integers(3 * 86400, TOP // 10**9 - 86400))
    return s * 10**9 + (draw(pick(0, 1, 999, 1000, 999999999, 999999500, 500000000)) if k == "second" else draw(st.integers(0, 10**9 - 1)))


def local(ns, z):
    """(aware datetime in the zone truncated to the second, nanoseconds)"""
    return (E0 + D.timedelta(seconds=ns // 10**9)).astimezone(ZI[z]), ns % 10**9


@st.composite
def s_dtn(draw):
    z = draw(st.sampled_from(ZONES))
    n = draw(pick(1, 1, 2, 3, 5, 17))
    v = draw(st.lists(s_ns(z), min_size=n, max_size=n))
    for i in range(n):
        if draw(st.integers(0, 7)) == 0:
            v[i] = 0
    return {"z": z, "v": v}


def build(c):
    return rt.DateTimeNano(np.array(c["v"], dtype=np.int64), from_tz="UTC", to_tz=c["z"])


def midnight_ns(t, f):
    return (t.hour * 3600 + t.minute * 60 + t.second) * 10**9 + f


FIELDS = {
    "year()": lambda t, f: t.year,
    "month()": lambda t, f: t.month,
    "monthyear()": lambda t, f: f"{MON[t.month - 1]}{t.year}",
    "day_of_year": lambda t, f: t.timetuple().tm_yday,
    "day_of_month": lambda t, f: t.day,
    "day_of_week": lambda t, f: t.weekday(),
    "is_weekend": lambda t, f: t.weekday() > 4,
    "is_weekday": lambda t, f: t.weekday() < 5,
    "yyyymmdd": lambda t, f: t.year * 10000 + t.month * 100 + t.day,
    "days_since_epoch": lambda t, f: (t.date() - D.date(1970, 1, 1)).days,
    "seconds_since_epoch": lambda t, f: (t.date() - D.date(1970, 1, 1)).days * 86400 + midnight_ns(t, 0) // 10**9,
    "nanos_since_midnight()": midnight_ns,
    "millis_since_midnight()": lambda t, f: midnight_ns(t, f) / 1e6,
    "nanos_since_start_of_year()": lambda t, f: (t.timetuple().tm_yday - 1) * DAY + midnight_ns(t, f),
    "day": lambda t, f: midnight_ns(t, f) / DAY,
    "hour": lambda t, f: midnight_ns(t, f) / 3.6e12,
    "minute": lambda t, f: (t.minute * 60 * 10**9 + t.second * 10**9 + f) / 6e10,
    "second": lambda t, f: (t.second * 10**9 + f) / 1e9,
    "millisecond": lambda t, f: f / 1e6,
    "microsecond": lambda t, f: f % 10**6 / 1e3,
    "nanosecond": lambda t, f: float(f % 1000),
    "time_since_midnight()": midnight_ns,
    "time_since_start_of_year()": lambda t, f: (t.timetuple().tm_yday - 1) * DAY + midnight_ns(t, f),
    "hour_span": midnight_ns,
    "minute_span": lambda t, f: t.minute * 60 * 10**9 + t.second * 10**9 + f,
    "second_span": lambda t, f: t.second * 10**9 + f,
    "millisecond_span": lambda t, f: f,
    "microsecond_span": lambda t, f: f % 10**6,
    "nanosecond_span": lambda t, f: f % 1000,
    "tz_offset": lambda t, f: t.utcoffset().total_seconds() / 3600,
}


def get(o, f):
    return getattr(o, f[:-2])() if f.endswith("()") else getattr(o, f)


def invalid(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, float):
        return math.isnan(x)
    return x in (-(2**31), -(2**63))


def listed(w):
    """array text: every element, or five at each end of more than ten"""
    q = [f"'{x}'" for x in w]
    return ", ".join(q if len(q) <= 10 else q[:5] + ["..."] + q[-5:])


def near(g, w):
    if isinstance(w, float):
        return abs(g - w) <= 1e-12 * max(1.0, abs(w))
    return g == (float(w) if isinstance(g, float) else w)  # spans are stored as doubles


@facet("C23", s_dtn(), quick=1500, shards=2, rule="at least one valid instant in a zone other than UTC")
def stamp_fields(c):
    """every calendar and clock field of a DateTimeNano array and of its scalars is that of zoneinfo's local time"""
    a = build(c)
    nt(any(c["v"]) and c["z"] not in ("UTC", "GMT"), c["z"], "inv" if 0 in c["v"] else "clean", "one" if len(c["v"]) == 1 else "many")
    L = [None if v == 0 else local(v, c["z"]) for v in c["v"]]
    for f, fn in FIELDS.items():
        r = get(a, f)
        require(isinstance(r, np.ndarray) and len(r) == len(L), "field is not one value per element", field=f, got=type(r), case=c)
        if "span" in f or f.startswith("time_"):
            require(type(r) is rt.TimeSpan, "span field is not a TimeSpan", field=f, got=type(r), case=c)
        R = [x.decode() if isinstance(x, bytes) else x for x in np.asarray(r.view(np.ndarray)).tolist()]
        for i, l in enumerate(L):
            if l is None:
                if f not in ("monthyear()", "tz_offset"):
                    require(invalid(R[i]), "field of an invalid stamp is a number", field=f, got=R[i], i=i, case=c)
                continue
            require(near(R[i], fn(*l)), "wrong field", field=f, got=R[i], want=fn(*l), i=i, local=l[0].isoformat(), case=c)
        if L[0] is not None:
            g = get(a[0], f)
            g = g.decode() if isinstance(g, bytes) else g
            require(np.ndim(g) == 0 and near(g if isinstance(g, str) else g.item(), fn(*L[0])), "wrong scalar field", field=f, got=g, want=fn(*L[0]), case=c)
        elif f not in ("monthyear()", "tz_offset"):
            g = get(a[0], f)
            require(invalid(g.item() if hasattr(g, "item") else g), "scalar field of an invalid stamp is a number", field=f, got=g, case=c)
    for nm, r, fn in [
        ("date()", a.date(), lambda t: t.replace(hour=0, minute=0, second=0, fold=0)),
    ]:
        require(type(r) is rt.DateTimeNano, "date() type", case=c)
        for i, l in enumerate(L):
            if l is None:
                require(bool(r.isnan()[i]), "date() of invalid", case=c)
            else:
                w = fn(l[0])
                if w.astimezone(U).astimezone(w.tzinfo).replace(tzinfo=None) != w.replace(tzinfo=None):
                    continue  # no such local midnight
                ok = {int((w.replace(fold=k).astimezone(U) - E0).total_seconds()) * 10**9 for k in (0, 1)}
                require(int(r._fa[i]) in ok, "date() is not local midnight", got=str(r[i]), want=w.isoformat(), case=c)
    for nm, r in [("Date()", rt.Date(a)), ("start_of_week", a.start_of_week)]:
        require(type(r) is rt.Date and len(r) == len(L), "type", what=nm, case=c)
        for i, l in enumerate(L):
            if l is None:
                require(bool(r.isnan()[i]), "invalid stamp gives a date", what=nm, got=str(r), case=c)
            else:
                w = (l[0].date() - D.date(1970, 1, 1)).days - (l[0].weekday() if nm == "start_of_week" else 0)
                require(w <= 0 or int(r._fa[i]) == w, "wrong date", what=nm, got=str(r[i]), local=l[0].isoformat(), case=c)
    isd = a.is_dst
    std = {1: 0}
    for i, l in enumerate(L):
        if l is not None:
            base = min(ZI[c["z"]].utcoffset(D.datetime(2019, 1, 1)), ZI[c["z"]].utcoffset(D.datetime(2019, 7, 1)))
            require(bool(isd[i]) == (l[0].utcoffset() != base), "is_dst", got=bool(isd[i]), local=l[0].isoformat(), case=c)
    require(a._fa.tolist() == c["v"], "fields changed the stamps", case=c)


FMT = ["%Y-%m-%d %H:%M:%S.%f", "%Y%m%d", "%H:%M:%S", "%d %b %Y %I:%M %p", "%j %w %y", "%Y-%m-%dT%H:%M:%S%z"]


@st.composite
def s_text(draw):
    c = draw(s_dtn())
    c["fmt"] = draw(st.sampled_from(FMT))
    c["z2"] = draw(st.sampled_from(ZONES))
    c["dt"] = draw(pick("O", "U", "S"))
    return c


@facet("C23", s_text(), quick=1500, shards=2, rule="at least one valid instant")
def stamp_text(c):
    """str, repr, strftime, to_iso show the local civil time; changing the displayed zone keeps the instant"""
    a = build(c)
    nt(any(c["v"]), c["z"], c["fmt"][:5])
    L = [None if v == 0 else local(v, c["z"]) for v in c["v"]]
    full = ["Inv" if l is None else l[0].strftime("%Y%m%d %H:%M:%S") + f".{l[1]:09d}" for l in L]
    require(str(a) == listed(full), "str", got=str(a), want=full, case=c)
    iso = ["NaT" if l is None else l[0].strftime("%Y-%m-%dT%H:%M:%S") + f".{l[1]:09d}" for l in L]
    require([x.decode() for x in a.to_iso().tolist()] == iso, "to_iso", got=a.to_iso().tolist(), want=iso, case=c)
    for i, x in enumerate(full):
        if L[i] is not None:
            require(str(a[i]) == x, "scalar str", got=str(a[i]), want=x, case=c)
    if all(c["v"]):
        w = [l[0].replace(microsecond=l[1] // 1000).strftime(c["fmt"]) for l in L]
        g = a.strftime(c["fmt"], dtype=c["dt"])
        g = [x.decode() if isinstance(x, bytes) else x for x in g.tolist()]
        require(g == w, "strftime", got=g, want=w, case=c)
        require(a[-1].strftime(c["fmt"]) == w[-1], "scalar strftime", got=a[-1].strftime(c["fmt"]), want=w[-1], case=c)
    # the same wall clock text read back in the zone gives the instant (or its twin when the wall time is ambiguous)
    keep = [i for i, l in enumerate(L) if l is not None]
    if keep:
        for txt, nm in ([full[i] for i in keep], "str"), ([iso[i] for i in keep], "iso"):
            b = rt.DateTimeNano(txt, from_tz=c["z"], to_tz=c["z2"])
            for j, i in enumerate(keep):
                t = L[i][0]
                ok = {int((t.replace(fold=k).astimezone(U) - E0).total_seconds()) * 10**9 + L[i][1] for k in (0, 1)}
                require(int(b._fa[j]) in ok, "text read back gives another instant", form=nm, text=txt[j], got=int(b._fa[j]), want=ok, case=c)
    b = a.astimezone(c["z2"])
    require(b._fa.tolist() == c["v"] and str(a) == listed(full), "astimezone changed the instant or the source", case=c)
    L2 = [None if v == 0 else local(v, c["z2"]) for v in c["v"]]
    full2 = ["Inv" if l is None else l[0].strftime("%Y%m%d %H:%M:%S") + f".{l[1]:09d}" for l in L2]
    require(str(b) == listed(full2), "astimezone text", got=str(b), want=full2, case=c)
    s = a[: len(a)]
    s.set_timezone(c["z2"])
    require(str(s) == str(b) and str(a) == listed(full), "set_timezone on a slice", got=str(s), src=str(a), case=c)


WALL = ["%Y-%m-%d %H:%M:%S", "%Y%m%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M", "%Y%m%d", "%Y-%m-%d"]
STRP = ["%Y-%m-%d %H:%M:%S", "%m/%d/%Y %H:%M", "%d/%m/%Y %H:%M:%S", "%Y%m%d", "%H:%M:%S %Y-%m-%d"]


@st.composite
def s_wall(draw):
    z = draw(st.sampled_from(ZONES))
    n = draw(pick(1, 2, 4, 9))
    v = []
    for _ in range(n):
        ns = draw(s_ns(z))
        t, f = local(max(ns, 2 * DAY), z)
        t = t.replace(tzinfo=None)
        if draw(st.integers(0, 4)) == 0 and z not in ("UTC", "GMT"):
            t = t.replace(hour=draw(st.integers(0, 4)), minute=draw(pick(0, 0, 30, 59)), second=draw(pick(0, 59)))
        v.append([t.isoformat(), draw(pick(0, 0, f))])
    return {"z": z, "z2": draw(st.sampled_from(ZONES)), "v": v, "f": draw(pick("text", "text", "strp", "obj", "dt64", "int", "span", "spanstr", "spandate", "cat", "matlab", "bytes"))
            , "fmt": draw(st.integers(0, 5)), "dig": draw(pick(0, 3, 6, 9)), "unit": draw(pick("ns", "us", "ms", "s", "m"))}


@facet("C23", s_wall(), quick=2500, shards=2, rule="at least one value kept (an existing wall clock time)")
def stamp_parse(c):
    """text, datetime objects, datetime64, integers, day plus time of day and Matlab days denote the wall clock instant of from_tz"""
    z = c["z"]
    vals = []
    for s, f in c["v"]:
        t = D.datetime.fromisoformat(s)
        form = c["f"]
        if form in ("text", "cat", "bytes"):
            fmt = WALL[c["fmt"]]
            keepf = fmt.endswith("%S") and c["dig"]
            f = f // 10 ** (9 - c["dig"]) * 10 ** (9 - c["dig"]) if keepf else 0
        elif form == "strp":
            fmt = STRP[c["fmt"] % 5]
            f = 0
        elif form == "obj":
            f = f // 1000 * 1000
        elif form == "dt64":
            q = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "m": 10**9}[c["unit"]]
            f = f // q * q
            if c["unit"] == "m":
                t = t.replace(second=0)
        elif form == "matlab":
            t, f = t.replace(minute=0 if c["fmt"] < 3 else 30, second=0), 0
        elif form == "spanstr":
            f = f // 1000 * 1000
        if form in ("text", "cat", "bytes", "strp"):
            t = D.datetime.strptime(t.strftime(fmt), fmt)
        if t.year < 1970 or t < D.datetime(1970, 1, 2):
            continue
        ok = set()
        for k in (0, 1):
            u = t.replace(tzinfo=ZI[z], fold=k).astimezone(U)
            if u.astimezone(ZI[z]).replace(tzinfo=None) == t:
                ok.add(int((u - E0).total_seconds()) * 10**9 + f)
        if ok:
            vals.append((t, f, ok))
    if not vals:
        return
    nt(c["f"], z)
    N = [int((t - D.datetime(1970, 1, 1)).total_seconds()) * 10**9 + f for t, f, _ in vals]
    kw = dict(from_tz=z, to_tz=c["z2"])
    form = c["f"]
    if form in ("text", "cat", "bytes"):
        fmt = WALL[c["fmt"]]
        txt = [t.strftime(fmt) + (f".{f:09d}"[: c["dig"] + 1] if fmt.endswith("%S") and c["dig"] else "") for t, f, _ in vals]
        if form == "cat":
            a = rt.DateTimeNano(rt.Categorical(txt), **kw)
        elif form == "bytes":
            a = rt.DateTimeNano(np.array(txt, dtype="S"), **kw)
        else:
            a = rt.DateTimeNano(txt, **kw)
    elif form == "strp":
        fmt = STRP[c["fmt"] % 5]
        a = rt.DateTimeNano([t.strftime(fmt) for t, _, _ in vals], format=fmt, **kw)
    elif form == "obj":
        a = rt.DateTimeNano([t.replace(microsecond=f // 1000) for t, f, _ in vals], **kw)
    elif form == "dt64":
        a = rt.DateTimeNano(np.array(N, dtype="datetime64[ns]").astype(f"datetime64[{c['unit']}]"), **kw)
    elif form == "int":
        a = rt.DateTimeNano(np.array(N, dtype=np.int64), **kw)
    elif form == "matlab":
        a = rt.DateTimeNano(np.array([719529 + x / DAY for x in N]), from_matlab=True, **kw)
    else:
        days = [x // DAY for x in N]
        tod = [x % DAY for x in N]
        if form == "span":
            N2 = [d for d in days if d == days[0]]
            idx = [i for i, d in enumerate(days) if d == days[0]]
            vals = [vals[i] for i in idx]
            a = rt.DateTimeNano(rt.TimeSpan([float(tod[i]) for i in idx]), start_date=vals[0][0].strftime("%Y%m%d"), **kw)
        elif form == "spandate":
            a = rt.DateTimeNano(rt.TimeSpan([float(x) for x in tod]), start_date=rt.Date(days), **kw)
        else:
            a = rt.DateTimeNano([f"{x // 3600000000000:02d}:{x // 60000000000 % 60:02d}:{x // 10**9 % 60:02d}.{x % 10**9 // 1000:06d}" for x in tod], start_date=rt.Date(days), **kw)
    require(type(a) is rt.DateTimeNano and len(a) == len(vals), "length/type", got=type(a), case=c)
    for i, (t, f, ok) in enumerate(vals):
        g = int(a._fa[i])
        good = g in ok or (form == "matlab" and min(abs(g - x) for x in ok) <= 20000)
        require(good, "wrong instant", got=g, want=ok, wall=t.isoformat(), i=i, off=(g - min(ok)) / 3.6e12, case=c)
    require(a._timezone._to_tz == FULL.get(c["z2"], c["z2"]), "displayed zone", got=a._timezone._to_tz, case=c)


DTOP = (D.date(2098, 12, 31) - D.date(1970, 1, 1)).days
DF = {
    "year": lambda d: d.year,
    "month": lambda d: d.month,
    "monthyear": lambda d: f"{MON[d.month - 1]}{d.year}",
    "is_leapyear": lambda d: d.year % 4 == 0,
    "day_of_year": lambda d: d.timetuple().tm_yday,
    "day_of_month": lambda d: d.day,
    "day_of_week": lambda d: d.weekday(),
    "is_weekend": lambda d: d.weekday() > 4,
    "is_weekday": lambda d: d.weekday() < 5,
    "seconds_since_epoch": lambda d: (d - D.date(1970, 1, 1)).days * 86400,
    "yyyymmdd": lambda d: d.year * 10000 + d.month * 100 + d.day,
}
DFMT = ["%Y%m%d", "%Y-%m-%d", "%m/%d/%Y", "%d %m %Y", "%Y/%m/%d"]


@st.composite
def s_date(draw):
    def one():
        if draw(st.booleans()):
            return draw(st.integers(1, DTOP))
        y = draw(st.integers(1971, 2098))
        m, d = draw(pick((1, 1), (12, 31), (2, 28), (3, 1), (2, 29), (11, 30), (12, 1), (1, 31)))
        return ((D.date(y, m, d) if (m, d) != (2, 29) or y % 4 == 0 else D.date(y, 3, 1)) - D.date(1970, 1, 1)).days

    n = draw(pick(1, 1, 2, 3, 8, 20))
    v = [one() if draw(st.integers(0, 6)) else 0 for _ in range(n)]
    return {"v": v, "fmt": draw(st.sampled_from(DFMT)), "b": draw(pick("S", "U", "cat", "list")), "step": draw(st.integers(1, 5)), "k": draw(st.integers(1, 40)), "closed": draw(pick(None, "left", "right"))}


@facet("C23", s_date(), quick=2000, shards=2, rule="at least one valid date")
def dates(c):
    """every field, text form, parsing, range and start-of-period of a Date array is that of the Gregorian calendar"""
    v = c["v"]
    nt(any(v), "inv" if 0 in v else "clean", c["b"])
    a = rt.Date(np.array(v, dtype=np.int32))
    E = D.date(1970, 1, 1)
    P = [None if x == 0 else E + D.timedelta(days=x) for x in v]
    for f, fn in DF.items():
        r = getattr(a, f)
        R = [x.decode() if isinstance(x, bytes) else x for x in np.asarray(r.view(np.ndarray)).tolist()]
        require(len(R) == len(v), "length", field=f, case=c)
        for i, p in enumerate(P):
            if p is None:
                require(f == "monthyear" or invalid(R[i]), "field of an invalid date is a number", field=f, got=R[i], i=i, case=c)
            else:
                require(R[i] == fn(p), "wrong field", field=f, got=R[i], want=fn(p), date=p.isoformat(), case=c)
    for f, fn in ("start_of_month", lambda p: p.replace(day=1)), ("start_of_week", lambda p: p - D.timedelta(days=p.weekday())):
        r = getattr(a, f)
        require(type(r) is rt.Date, "type", field=f, case=c)
        for i, p in enumerate(P):
            w = 0 if p is None else (fn(p) - E).days
            require(bool(r.isnan()[i]) if w <= 0 and p is None else w <= 0 or int(r._fa[i]) == w, "wrong start of period", field=f, got=str(r), case=c)
    txt = ["Inv" if p is None else p.isoformat() for p in P]
    require(str(a) == listed(txt), "str", got=str(a), want=txt, case=c)
    keep = [p for p in P if p is not None]
    if keep:
        W = [(p - E).days for p in keep]
        b = rt.Date(W)
        require([str(x) for x in b] == [p.isoformat() for p in keep], "scalar text", case=c)
        g = b.strftime(c["fmt"]).tolist()
        s = [p.strftime(c["fmt"]) for p in keep]
        require(g == s and b[0].strftime(c["fmt"]) == s[0], "strftime", got=g, want=s, case=c)
        src = {"S": lambda s: np.array(s, dtype="S"), "U": lambda s: np.array(s), "cat": lambda s: rt.Categorical(s), "list": lambda s: s}[c["b"]]
        if c["b"] != "cat" or c["fmt"] in ("%Y%m%d", "%Y-%m-%d"):
            r = rt.Date(src(s), format=None if c["fmt"] in ("%Y%m%d", "%Y-%m-%d") and c["k"] % 2 else c["fmt"])
            require(r._fa.tolist() == W, "parsing", got=str(r), want=s, case=c)
        require(rt.Date(np.array([719529.0 + x for x in W]), from_matlab=True)._fa.tolist() == W, "matlab days", case=c)
        d = rt.DateTimeNano(b)
        require(d._fa.tolist() == [x * DAY for x in W] and rt.Date(d)._fa.tolist() == W, "Date <-> DateTimeNano", case=c)
        p0, k, step = keep[0], c["k"], c["step"]
        e = p0 + D.timedelta(days=k)
        r = rt.Date.range(p0.strftime("%Y%m%d"), days=k, step=step)
        require(r._fa.tolist() == [W[0] + i * step for i in range(k)], "range with days", got=r._fa.tolist(), case=c)
        r = rt.Date.range(p0.strftime("%Y%m%d"), e.strftime("%Y%m%d"), closed=c["closed"])
        w = list(range(W[0] + (c["closed"] == "right"), W[0] + k + (c["closed"] != "left")))
        require(type(r) is rt.Date and r._fa.tolist() == w, "range", got=r._fa.tolist(), want=w, case=c)
    require(a._fa.tolist() == v, "the dates changed", case=c)


UNITS = {"W": 7 * DAY, "D": DAY, "h": 3600 * 10**9, "m": 60 * 10**9, "s": 10**9, "ms": 10**6, "us": 1000, "ns": 1}


@st.composite
def s_span(draw):
    n = draw(pick(1, 2, 3, 9))
    v = [None if draw(st.integers(0, 6)) == 0 else draw(st.integers(-1, 1)) * draw(pick(0, 1, 999, 10**9 - 1, 10**9, 60 * 10**9 - 1, 3600 * 10**9, 3661 * 10**9, DAY - 1, DAY, 3 * DAY + 5, 86399999999)) + draw(pick(0, 0, 1, 10**6)) for _ in range(n)]
    return {"v": v, "u": draw(st.sampled_from(list(UNITS))), "k": draw(st.lists(st.integers(-500, 500), min_size=1, max_size=4)), "dig": draw(pick(0, 3, 6, 9)), "src": draw(pick("list", "np", "i"))}


@facet("C23", s_span(), quick=1500, rule="at least one valid span that is not zero")
def spans(c):
    """units, unit properties, clock digits, text and parsing of TimeSpans"""
    v = c["v"]
    nt(any(v), "neg" if any(x and x < 0 for x in v) else "pos", "inv" if None in v else "clean")
    a = rt.TimeSpan(np.array([np.nan if x is None else float(x) for x in v]))
    for f, q in ("days", DAY), ("hours", 3600 * 10**9), ("minutes", 60 * 10**9), ("seconds", 10**9), ("milliseconds", 10**6), ("microseconds", 1000), ("nanoseconds", 1):
        R = np.asarray(getattr(a, f)).tolist()
        for g, x in zip(R, v):
            require(math.isnan(g) if x is None else abs(g - x / q) <= 1e-12 * max(1, abs(x / q)), "unit property", field=f, got=g, ns=x, case=c)
    hh = np.asarray(a.hhmmss).tolist()
    for i, (g, x) in enumerate(zip(hh, v)):
        if x is None:
            require(invalid(g), "hhmmss of invalid", got=g, case=c)
        else:
            s = abs(x) // 10**9
            w = (s // 3600 * 10000 + s // 60 % 60 * 100 + s % 60) * (-1 if x < 0 else 1)
            require(g == w, "hhmmss", got=g, want=w, ns=x, case=c)

    def clock(x):
        if x is None:
            return "Inv"
        y = abs(x)
        d, r = divmod(y, DAY)
        return ("-" if x < 0 else "") + (f"{d}d " if d else "") + f"{r // 3600000000000:02d}:{r // 60000000000 % 60:02d}:{r // 10**9 % 60:02d}.{r % 10**9:09d}"

    w = [clock(x) for x in v]
    require(str(a) == listed(w), "str", got=str(a), want=w, case=c)
    require([str(x) for x in a] == w, "scalar str", got=[str(x) for x in a], want=w, case=c)
    if None not in v:
        g = a.strftime("%H:%M:%S.%f").tolist()
        ww = [("-" if x < 0 else "") + (D.datetime(1970, 1, 1) + D.timedelta(microseconds=abs(x) // 1000)).strftime("%H:%M:%S.%f") for x in v]
        require(g == ww and a[0].strftime("%H:%M:%S.%f") == ww[0], "strftime", got=g, want=ww, case=c)
        fmt = "%H:%M:%S.%f" if any(x % 10**9 for x in v) else "%H:%M:%S" if any(x % (60 * 10**9) for x in v) else "%H:%M"
        if all(abs(x) < 10**15 for x in v):  # (beyond that a fraction of a minute is below the precision of a float)
            require(a.clock_format_short() == fmt, "the shortest clock format that loses nothing", got=a.clock_format_short(), want=fmt, case=c)
    day = [x for x in v if x is not None and 0 <= x < DAY]
    if day:
        q = 10 ** (9 - c["dig"])
        day = [x // q * q for x in day]
        txt = [clock(x)[: 9 + c["dig"]].rstrip(".") if c["dig"] else clock(x)[:8] for x in day]
        require(rt.TimeSpan(txt)._fa.tolist() == [float(x) for x in day], "parsing", text=txt, got=rt.TimeSpan(txt)._fa.tolist(), case=c)
    u, k = c["u"], c["k"]
    src = k if c["src"] == "list" else np.array(k, dtype=float if c["src"] == "np" else np.int32)
    r = rt.TimeSpan(src, unit=u)
    require(type(r) is rt.TimeSpan and r._fa.tolist() == [float(x * UNITS[u]) for x in k], "unit constructor", got=r._fa.tolist(), case=c)
