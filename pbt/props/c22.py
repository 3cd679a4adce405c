"""C22: conversions compared with the values written down before conversion, on the foreign side and after coming back."""
import collections
import copy
import csv
import io
import math
import os
import pickle
import tempfile
import warnings

import numpy as np
import pandas as pd
import pyarrow as pa
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *
from pbt.props.c17 import NAMES, mk, s_tab

warnings.filterwarnings("ignore")
PDK = NUMK + ["bool", "S", "U", "cat", "catU", "catn", "catf", "cat0", "dtn", "tspan"]
TZN = {"NYC": "America/New_York", "GMT": "GMT", "DUBLIN": "Europe/Dublin"}


def pyval(x):
    """one foreign cell as plain Python (missing -> None)"""
    if x is None or x is pd.NaT or x is pd.NA:
        return None
    if isinstance(x, pd.Timestamp):
        return x.value
    if isinstance(x, pd.Timedelta):
        return x.value
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float) and math.isnan(x):
        return None
    if isinstance(x, bytes):
        return x.decode()
    return x


def foreign(c):
    """what each cell of spec c has to be on the other side"""
    k = c["k"]
    w = want(c)
    if k == "tspan":
        return [None if x is None else int(x) for x in w]
    return [None if x == FILT and k in CATK else x for x in w]


# ---------------------------------------------------------------- pandas
@st.composite
def s_pd(draw):
    t = draw(s_tab(kinds=PDK, lo=1, hi=8, maxc=4))
    for _, c in t["cols"]:
        if c["k"] == "dtn":
            c["tz"] = draw(st.integers(0, 2))
    return {"t": t, "nullable": draw(pick([True, True, False])), "how": draw(st.integers(0, 2))}


@facet("C22", s_pd(), quick=900, shards=4, rule="two rows or more")
def pandas_out_and_back(case):
    t = case["t"]
    ds = mk(t)
    before = snap(ds)
    nt(t["n"] > 1, *[c["k"] for _, c in t["cols"]])
    df = ds.to_pandas(use_nullable=case["nullable"])
    require(snap(ds) == before, "to_pandas changed the table")
    require(list(df.columns) == list(ds.keys()), "to_pandas: columns", got=list(df.columns))
    require(len(df) == t["n"], "to_pandas: rows", got=len(df))
    for nm, c in t["cols"]:
        k = c["k"]
        exp = foreign(c)
        got = [pyval(x) for x in df[nm]]
        if k in NUMK and not k.startswith("f") and not case["nullable"]:
            got = [None if x == INV[k] else x for x in got]  # documented: sentinels stay as they are
        same_list(got, exp, f"to_pandas: column {nm} ({k})")
        if k == "dtn":
            tz = str(df[nm].dt.tz)
            require(tz == TZN[TZS[c["tz"]]] or pd.Timestamp(0, tz="UTC").tz_convert(tz).utcoffset() == pd.Timestamp(0, tz="UTC").tz_convert(TZN[TZS[c["tz"]]]).utcoffset(), "time zone", got=tz)
    pic = df.copy(deep=True)
    back = rt.Dataset.from_pandas(df) if case["how"] == 0 else rt.Dataset(df) if case["how"] == 1 else rt.Dataset.from_pandas(df, preserve_index=None)
    require(pic.equals(df), "from_pandas changed the frame")
    require(list(back.keys()) == list(ds.keys()), "back from pandas: columns", got=list(back.keys()))
    for nm, c in t["cols"]:
        k = c["k"]
        if case["how"] == 1 and k == "tspan":
            continue  # only from_pandas promises to recognise time differences
        exp = want(c)
        if k == "U" or k == "S":
            a = back[nm]
            require(type(a) is rt.FastArray and a.dtype.char in "SU", "back from pandas: string column", got=a.dtype)
        elif k in NUMK or k == "bool":
            require(back[nm].dtype == np.dtype(k), f"back from pandas: dtype of {nm}", got=back[nm].dtype, expected=k)
        else:
            require(type(back[nm]).__name__ == CLS[k], f"back from pandas: class of {nm}", got=type(back[nm]))
        same_list(canon(back[nm]), exp, f"back from pandas: column {nm} ({k})")


PSER = ["obj", "string", "Int8", "Int64", "UInt16", "int", "float", "Float64", "boolean", "cat", "catnum", "dt_ns", "dt_us", "dt_s", "dt_tz", "td_ns", "td_us", "objnum", "bool", "S"]


@st.composite
def s_ser(draw):
    n = draw(sizes(1, 7))
    out = []
    for i in range(draw(st.integers(1, 3))):
        k = draw(pick(PSER))
        pool = {"obj": ["a", "bcd", "", "ñ", "NaN"], "string": ["a", "bcd", "ñ"], "Int8": [0, 1, -5, 127], "Int64": [0, 1, -5, 2**62 + 1], "UInt16": [0, 1, 65534], "int": [0, 5, -3],
                "float": [0.5, -1.0, 3.0], "Float64": [0.5, -1.0], "boolean": [True, False], "cat": ["x", "yy", "a"], "catnum": [3, 1, 2], "objnum": [1, 2.5, -3], "bool": [True, False], "S": ["a", "bc"]}
        vals = draw(st.lists(pick(pool.get(k, [0, 1, 1000, 1_600_000_000, 86400 * 365])), min_size=n, max_size=n))
        if k not in ("int", "bool", "boolean", "S"):
            vals = [None if draw(st.integers(0, 4)) == 0 else v for v in vals]
        out.append([k, vals])
    return {"n": n, "cols": out, "idx": draw(pick(["range", "range", "str", "perm"])), "pres": draw(pick([False, None, True]))}


def mkser(k, v, idx):
    if k == "obj":
        return pd.Series(v, dtype=object, index=idx)
    if k in ("string", "Int8", "Int64", "UInt16", "Float64", "boolean"):
        return pd.Series(v, dtype=k, index=idx)
    if k == "int":
        return pd.Series(v, dtype="int64", index=idx)
    if k == "float":
        return pd.Series([np.nan if x is None else x for x in v], dtype="float64", index=idx)
    if k == "objnum":
        return pd.Series(v, dtype=object, index=idx)
    if k in ("cat", "catnum"):
        return pd.Series(pd.Categorical(v), index=idx)
    if k == "bool":
        return pd.Series(v, dtype=bool, index=idx)
    if k == "S":
        return pd.Series(np.array([x.encode() for x in v], dtype=object), index=idx)
    unit = k[3:]
    if k == "dt_tz":
        return pd.Series(pd.DatetimeIndex([pd.NaT if x is None else pd.Timestamp(x, unit="s", tz="UTC") for x in v], tz="UTC").tz_convert("America/New_York"), index=idx)
    if k.startswith("dt"):
        return pd.Series(np.array([np.datetime64("NaT") if x is None else np.datetime64(x, "s") for x in v], dtype=f"datetime64[{unit}]"), index=idx)
    return pd.Series(np.array([np.timedelta64("NaT") if x is None else np.timedelta64(x, "s") for x in v], dtype=f"timedelta64[{unit}]"), index=idx)


@facet("C22", s_ser(), quick=900, shards=4, rule="at least one missing cell")
def pandas_in(case):
    n = case["n"]
    ix = {"range": None, "str": [f"r{i}" for i in range(n)], "perm": list(range(n))[::-1]}[case["idx"]]
    df = pd.DataFrame({NAMES[i]: mkser(k, v, ix) for i, (k, v) in enumerate(case["cols"])})
    nt(any(x is None for _, v in case["cols"] for x in v), *[k for k, _ in case["cols"]])
    pic = df.copy(deep=True)
    got = rt.Dataset.from_pandas(df, preserve_index=case["pres"])
    require(pic.equals(df), "from_pandas changed the frame")
    names = NAMES[: len(case["cols"])]
    keep = case["pres"] is True or case["pres"] is None and case["idx"] != "range"
    require(list(got.keys()) == (["index"] if keep else []) + names, "from_pandas: columns", got=list(got.keys()))
    if keep:
        same_list(canon(got["index"]), list(range(n)) if ix is None else ix, "from_pandas: index")
    for nm, (k, v) in zip(names, case["cols"]):
        a = got[nm]
        if k.startswith("dt"):
            require(isinstance(a, rt.DateTimeNano), f"from_pandas {k}: class", got=type(a))
            exp = [None if x is None or x == 0 else x * 10**9 for x in v]
        elif k.startswith("td"):
            require(isinstance(a, rt.TimeSpan), f"from_pandas {k}: class", got=type(a))
            exp = [None if x is None else x * 1e9 for x in v]
        elif k in ("cat", "catnum"):
            require(isinstance(a, rt.Categorical), f"from_pandas {k}: class", got=type(a))
            exp = [FILT if x is None else x for x in v]
        elif k in ("obj", "string", "S"):
            if all(x is None for x in v):
                continue
            exp = [x or "" for x in v]
        else:
            exp = v
            if k in ("Int8", "Int64", "UInt16"):
                require(a.dtype == np.dtype(k.lower()), f"from_pandas {k}: dtype", got=a.dtype)
        same_list([float(x) if isinstance(x, int) and k in ("objnum",) else x for x in canon(a)], [float(x) if k == "objnum" and x is not None else x for x in exp], f"from_pandas: {k}", dtype=a.dtype)


# ---------------------------------------------------------------- arrow
ARK = NUMK + ["bool", "S", "U", "cat", "catU", "catn", "catf", "cat0", "cmap", "date", "dtn", "tspan"]


@facet("C22", st.tuples(s_tab(kinds=ARK, lo=1, hi=8, maxc=4), st.booleans(), st.booleans(), st.booleans()), quick=900, shards=4, rule="two rows or more")
def arrow_out_and_back(case):
    t, fixed, e2n, writable = case
    for i, (_, c) in enumerate(t["cols"]):
        if c["k"] == "dtn":
            c["tz"] = (t["n"] + i) % 3
    ds = mk(t)
    before = snap(ds)
    nt(t["n"] > 1, *[c["k"] for _, c in t["cols"]])
    tbl = ds.to_arrow(preserve_fixed_bytes=fixed, empty_strings_to_null=e2n)
    require(snap(ds) == before, "to_arrow changed the table")
    require(tbl.column_names == list(ds.keys()) and tbl.num_rows == t["n"], "to_arrow: names and rows", got=tbl.column_names)
    for nm, c in t["cols"]:
        k = c["k"]
        got = tbl[nm].to_pylist()
        if k == "cmap":
            got = [None if x is None else (x["val"], x["name"]) for x in got]
        elif k == "dtn" or k == "tspan":
            got = tbl[nm].cast(pa.int64()).to_pylist()
        elif k == "date":
            got = tbl[nm].cast(pa.int32()).to_pylist()
        else:
            got = [pyval(x) for x in got]
        exp = foreign(c)
        if k in ("S", "U"):
            exp = [None if x == "" and e2n else x for x in exp]
            got = [x.rstrip("\0") if isinstance(x, str) else x for x in got]
        same_list(got, exp, f"to_arrow: column {nm} ({k})")
    back = rt.Dataset.from_arrow(tbl, zero_copy_only=False, writable=writable)
    require(list(back.keys()) == list(ds.keys()), "back from arrow: columns", got=list(back.keys()))
    for nm, c in t["cols"]:
        k = c["k"]
        a = back[nm]
        require(type(a).__name__ == CLS.get(k, "FastArray"), f"back from arrow: class of {nm} ({k})", got=type(a))
        if k in NUMK or k == "bool":
            require(a.dtype == np.dtype(k), f"back from arrow: dtype of {nm}", got=a.dtype, expected=k)
        same_list(canon(a), want(c), f"back from arrow: column {nm} ({k})")
        if k == "dtn":
            require(a._timezone._to_tz == ds[nm]._timezone._to_tz, "back from arrow: time zone", got=a._timezone._to_tz, expected=ds[nm]._timezone._to_tz)
        if k in CATK:
            cat_sane(a, f"back from arrow: {nm}")


AIN = ["int8", "uint8", "int16", "int32", "uint32", "int64", "uint64", "float64", "float32", "bool", "string", "large_string", "binary2", "dict8", "dictu8", "dict32", "dictnum", "date32", "date64", "ts_ns", "ts_us", "ts_s", "ts_nyc", "dur_ns", "dur_ms"]


@st.composite
def s_ain(draw):
    k = draw(pick(AIN))
    n = draw(sizes(1, 9))
    if k in NUMK:
        pool = pool_for(k, inv=False) + ([INV[k]] if not k.startswith("f") else [])
    elif k == "bool":
        pool = [True, False]
    elif k in ("string", "large_string"):
        pool = ["a", "bcd", "", "ñé", "zz"]
    elif k == "binary2":
        pool = ["ab", "xy", "zz"]
    elif k == "dictnum":
        pool = [3, 1, 2]
    elif k.startswith("dict"):
        pool = ["x", "yy", "a", "ñ"]
    elif k.startswith("date"):
        pool = [18000, 1, 17000]
    elif k.startswith("dur"):
        pool = [1, 1000, 0, -5, 86400 * 99]
    else:
        pool = [1, 1000, 1_600_000_000, 86400 * 365]
    v = draw(st.lists(pick(pool), min_size=n, max_size=n))
    if draw(st.booleans()) and k != "bool":
        v = [None if draw(st.integers(0, 3)) == 0 else x for x in v]
    return {"k": k, "v": v, "form": draw(pick(["plain", "slice", "chunks", "chunks1"])), "cut": draw(st.integers(0, 9)), "widen": draw(st.booleans()), "writable": draw(st.booleans())}


def mkarrow(k, v):
    if k in NUMK or k == "bool":
        return pa.array(v, type=pa.from_numpy_dtype(np.dtype(k)))
    if k == "string":
        return pa.array(v, type=pa.string())
    if k == "large_string":
        return pa.array(v, type=pa.large_string())
    if k == "binary2":
        return pa.array([None if x is None else x.encode() for x in v], type=pa.binary(2))
    if k.startswith("dict"):
        it = {"dict8": pa.int8(), "dictu8": pa.uint8(), "dict32": pa.int32(), "dictnum": pa.int32()}[k]
        cats = [3, 1, 2] if k == "dictnum" else ["x", "yy", "a", "ñ"]
        return pa.DictionaryArray.from_arrays(pa.array([None if x is None else cats.index(x) for x in v], type=it), pa.array(cats))
    if k == "date32":
        return pa.array(v, type=pa.int32()).cast(pa.date32())
    if k == "date64":
        return pa.array(v, type=pa.int32()).cast(pa.date32()).cast(pa.date64())
    if k.startswith("dur"):
        u = k[4:]
        return pa.array([None if x is None else x * {"ns": 10**9, "ms": 1000}[u] for x in v], type=pa.int64()).cast(pa.duration(u))
    u = {"ts_nyc": "ns"}.get(k, k[3:])
    tz = "America/New_York" if k == "ts_nyc" else "UTC"
    return pa.array([None if x is None else x * {"ns": 10**9, "us": 10**6, "s": 1}[u] for x in v], type=pa.int64()).cast(pa.timestamp(u, tz=tz))


@facet("C22", s_ain(), quick=1200, shards=4, rule="missing cells, a slice or several chunks")
def arrow_in(case):
    k, v, form = case["k"], case["v"], case["form"]
    n = len(v)
    cut = case["cut"] % (n + 1)
    nt(form in ("slice", "chunks") or None in v, k, form)
    if form == "slice":
        arr = mkarrow(k, [v[0]] * 3 + v + [v[-1]] * 2).slice(3, n)
    elif form == "chunks":
        arr = pa.chunked_array([mkarrow(k, v[:cut]), mkarrow(k, v[cut:])]) if 0 < cut < n else mkarrow(k, v)
    elif form == "chunks1":
        arr = pa.chunked_array([mkarrow(k, v)])
    else:
        arr = mkarrow(k, v)
    require(arr.to_pylist() == (mkarrow(k, v)).to_pylist(), "harness: arrow array")
    lossy = k in NUMK and not k.startswith("f") and INV[k] in v
    try:
        a = rt.FastArray.from_arrow(arr, zero_copy_only=False, writable=case["writable"], auto_widen=case["widen"])
    except (ValueError, pa.ArrowInvalid) as e:
        require(lossy and (not case["widen"] or k in ("int64", "uint64")), "from_arrow refused a convertible array", error=e)
        return
    if lossy:
        require(case["widen"], "from_arrow accepted the sentinel without widening", got=a)
    if k.startswith("dict"):
        require(isinstance(a, rt.Categorical), "class", got=type(a))
        cat_sane(a)
        exp = [FILT if x is None else x for x in v]
    elif k.startswith("date"):
        require(isinstance(a, rt.Date), "class", got=type(a))
        exp = v
    elif k.startswith("ts"):
        require(isinstance(a, rt.DateTimeNano), "class", got=type(a))
        exp = [None if x is None else x * 10**9 for x in v]
    elif k.startswith("dur"):
        require(isinstance(a, rt.TimeSpan), "class", got=type(a))
        exp = [None if x is None else x * 1e9 for x in v]
    elif k in ("string", "large_string", "binary2"):
        exp = [x or "" for x in v]
    else:
        exp = v
        if not lossy:
            require(a.dtype == np.dtype(k), "dtype", got=a.dtype)
    same_list(canon(a), exp, f"from_arrow {k} {form}", dtype=a.dtype)
    if case["writable"] and type(a) is rt.FastArray:
        require(a.flags.writeable, "writable=True gives a read-only array", kind=k)


# ---------------------------------------------------------------- pickle and deep copy through pickle
@facet("C22", st.tuples(s_tab(lo=1, hi=8, maxc=5), st.integers(2, 5), st.integers(0, 3), st.booleans()), quick=800, shards=4, rule="two rows or more")
def pickles(case):
    t, proto, what, comp = case
    ds = mk(t)
    nt(t["n"] > 1, *[c["k"] for _, c in t["cols"]])
    before = snap(ds)
    old = rt.FastArray.CompressPickle
    rt.FastArray.CompressPickle = comp
    try:
        if what == 0:
            back = pickle.loads(pickle.dumps(ds, protocol=proto))
            cmpsnap(back, ds, "pickled table")
        elif what == 1:
            s = rt.Struct({"x": 1, "s": "text", "d": ds, "n": rt.Struct({"a": ds[0]})})
            back = pickle.loads(pickle.dumps(s, protocol=proto))
            cmpsnap(back, s, "pickled structure")
        elif what == 2:
            for k in ds.keys():
                back = pickle.loads(pickle.dumps(ds[k], protocol=proto))
                cmpsnap(back, ds[k], f"pickled array {k}")
        else:
            for nm, c in t["cols"]:
                a = ds[nm]
                b = a[::2] if type(a) is rt.FastArray else a
                back = pickle.loads(pickle.dumps(b, protocol=proto))
                cmpsnap(back, b, f"pickled strided array {nm}")
    finally:
        rt.FastArray.CompressPickle = old
    require(snap(ds) == before, "pickling changed the table")


def cmpsnap(a, b, what):
    if isinstance(b, rt.Struct):
        require(type(a) is type(b) and list(a.keys()) == list(b.keys()), f"{what}: names", got=list(a.keys()), expected=list(b.keys()))
        for k in b.keys():
            cmpsnap(a[k], b[k], f"{what}: {k}")
    else:
        require(snap(a) == snap(b), what, got=a, expected=b, gtype=type(a))


# ---------------------------------------------------------------- rows, dicts, record arrays
@facet("C22", st.tuples(s_tab(kinds=NUMK + ["bool", "S", "U"], lo=1, hi=6, maxc=4), st.integers(0, 6)), quick=900, shards=3, rule="two rows or more")
def rows_and_dicts(case):
    t, how = case
    if how in (0, 2, 6):  # NumPy itself makes a float array of a list with large unsigned integers
        t = dict(t, cols=[[k, {"k": "int64", "v": [0 if x is None else x % 1000 for x in c["v"]]} if c["k"] == "uint64" else c] for k, c in t["cols"]])
    ds = mk(t)
    n = t["n"]
    names = [k for k, _ in t["cols"]]
    cols = {k: want(c) for k, c in t["cols"]}
    nt(n > 1, f"form {how}")
    before = snap(ds)
    raw = {k: [x.decode() if isinstance(x, bytes) else x for x in np.asarray(ds[k]).tolist()] for k in names}
    if how == 0:
        got = ds.tolist()
        require(len(got) == n, "tolist: rows", got=len(got))
        for i, r in enumerate(got):
            r = [x.decode() if isinstance(x, bytes) else x for x in r]
            same_list([pyv(x) for x in r], [pyv(raw[k][i]) for k in names], f"tolist: row {i}")
        back = rt.Dataset.from_rows(ds.tolist(), names)
        require(list(back.keys()) == names, "from_rows: names", got=list(back.keys()))
        for k in names:
            same_list([pyv(x) for x in strs(back[k])], [pyv(x) for x in raw[k]], f"from_rows: column {k}")
    elif how == 1:
        d = ds.asdict()
        require(list(d) == names, "asdict: names", got=list(d))
        for k in names:
            require(snap(d[k]) == snap(ds[k]), f"asdict: {k}", got=d[k])
        require(snap(rt.Dataset(d)) == before, "table from its own dict", got=rt.Dataset(d))
        sub = names[::2][::-1]
        d = ds.asdict(sublist=sub)
        require(sorted(d) == sorted(sub), "asdict(sublist): names", got=list(d), expected=sub)
        for k in sub:
            require(snap(d[k]) == snap(ds[k]), f"asdict: {k}", got=d[k])
        d = ds.asdict(copy=True)
        for k in names:
            require(snap(d[k]) == snap(ds[k]) and not np.shares_memory(d[k], ds[k]), f"asdict(copy): {k}", got=d[k])
    elif how == 2:
        rows = [{k: raw[k][i] for k in names} for i in range(n)]
        back = rt.Dataset.from_tagged_rows(iter(rows))
        require(sorted(back.keys()) == sorted(names), "from_tagged_rows: names", got=list(back.keys()))
        for k in names:
            same_list([pyv(x) for x in strs(back[k])], [pyv(x) for x in raw[k]], f"from_tagged_rows: {k}")
        T = collections.namedtuple("T", names)
        back = rt.Dataset.from_tagged_rows([T(*[raw[k][i] for k in names]) for i in range(n)])
        for k in names:
            same_list([pyv(x) for x in strs(back[k])], [pyv(x) for x in raw[k]], f"from_tagged_rows of named tuples: {k}")
        back = rt.Dataset.from_tagged_rows([rt.Struct(r) for r in rows])
        for k in names:
            same_list([pyv(x) for x in strs(back[k])], [pyv(x) for x in raw[k]], f"from_tagged_rows of structures: {k}")
    elif how == 3:
        ra = ds.as_recordarray()
        require(list(ra.dtype.names) == names and len(ra) == n, "as_recordarray: names", got=ra.dtype)
        for k in names:
            require(ra[k].dtype == ds[k].dtype and ra[k].tolist() == np.asarray(ds[k]).tolist() or np.array_equal(ra[k], np.asarray(ds[k]), equal_nan=True), f"as_recordarray: {k}", got=ra[k], expected=ds[k])
        back = rt.Dataset(ra)
        require(list(back.keys()) == names, "table from a record array: names", got=list(back.keys()))
        for k in names:
            same_list(canon(back[k]), cols[k], f"table from a record array: {k}")
    elif how == 4:
        got = list(ds.asrows("dict")) if False else ds.asrows(dict)
        got = list(got)
        require(len(got) == n, "asrows(dict)", got=len(got))
        for i, r in enumerate(got):
            require(list(r) == names, "asrows(dict): names", got=list(r))
            same_list([pyv(x) for x in strs(list(r.values()))], [pyv(raw[k][i]) for k in names], f"asrows(dict): row {i}")
    elif how == 5:
        s = ds.as_struct()
        require(type(s) is rt.Struct and list(s.keys()) == names, "as_struct: names", got=list(s.keys()))
        for k in names:
            if n == 1:
                same_list([pyv(s[k])], [pyv(raw[k][0])], f"as_struct: {k}")
            else:
                require(snap(s[k]) == snap(ds[k]), f"as_struct: {k}", got=s[k])
    else:
        back = rt.Dataset({k: raw[k] for k in names})
        for k in names:
            same_list([pyv(x) for x in strs(back[k])], [pyv(x) for x in raw[k]], f"table from lists: {k}")
    require(snap(ds) == before, "the conversion changed the table")


def pyv(x):
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, float) and math.isnan(x):
        return None
    return x


def strs(a):
    out = a.tolist() if isinstance(a, np.ndarray) else list(a)
    return [x.decode() if isinstance(x, bytes) else x for x in out]


# ---------------------------------------------------------------- jagged rows
CELL = ["a", "bb", "", "ccc", "ñ"]


@facet("C22", st.tuples(st.lists(st.lists(pick(CELL), min_size=1, max_size=4), min_size=1, max_size=5), pick([None, "", "zz", "longfill"]), st.booleans()), quick=300, rule="rows of different lengths")
def jagged_rows(case):
    rows, fill, num = case
    nt(len({len(r) for r in rows}) > 1)
    if num:
        rows = [[len(x) for x in r] for r in rows]
    uni = any("ñ" in str(x) for r in rows for x in r)
    data = [rt.FastArray(np.array(r, dtype="U" if uni else None)) if uni and not num else rt.FastArray(r) for r in rows] if not num else rows
    got = rt.Dataset.from_jagged_rows(data, column_name_base="Q", fill_value=fill)
    w = max(map(len, rows))
    require(list(got.keys()) == [f"Q{i}" for i in range(w)], "from_jagged_rows: names", got=list(got.keys()))
    for i in range(w):
        same_list(canon(got[f"Q{i}"]), [str(r[i]) if i < len(r) else (fill or "") for r in rows], f"from_jagged_rows: column {i}")


@facet("C22", st.tuples(st.integers(1, 4), st.integers(1, 3), st.randoms(use_true_random=False), st.booleans()), quick=300, rule="always")
def jagged_dict(case):
    n, m, rnd, allow_scalar = case
    dct = {}
    for j in range(m):
        dct[NAMES[j]] = [rnd.randint(0, 9) if allow_scalar and rnd.random() < 0.3 else [rnd.randint(0, 9) for _ in range(rnd.randint(1, 3))] for _ in range(n)]
    nt()
    got = rt.Dataset.from_jagged_dict(dct, stacked=True)
    exp = []
    for i in range(n):
        prod = [()]
        for k in reversed(list(dct)):
            v = dct[k][i]
            v = v if isinstance(v, list) else [v]
            prod = [(y,) + p for p in prod for y in v]
        exp += prod
    g = list(zip(*[canon(got[k]) for k in dct]))
    require(sorted(g) == sorted(exp), "from_jagged_dict(stacked): the combinations of every row", got=g, expected=exp)
    # rows stay together in input order
    i = 0
    for r in range(n):
        cnt = 1
        for k in dct:
            cnt *= len(dct[k][r]) if isinstance(dct[k][r], list) else 1
        blk = [tuple(x) for x in g[i : i + cnt]]
        require(all(x[j] in (dct[k][r] if isinstance(dct[k][r], list) else [dct[k][r]]) for x in blk for j, k in enumerate(dct)), "rows of one input row", got=blk, row=r)
        i += cnt


# ---------------------------------------------------------------- CSV
@st.composite
def s_csv(draw):
    n = draw(sizes(1, 6))
    cols = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(pick(["int", "float", "str"]))
        pool = {"int": [0, 1, -7, 123456], "float": [0.5, -2.25, 1e10, 3.0], "str": ["a", "b,c", 'q"x', "two words", "ñ", "end "]}[k]
        cols.append([k, draw(st.lists(pick(pool), min_size=n, max_size=n))])
    return {"n": n, "cols": cols, "ver": draw(st.integers(0, 4)), "hdr": draw(st.booleans()), "skip": draw(st.integers(0, 2)), "file": draw(st.booleans()), "conv": draw(st.booleans())}


@facet("C22", s_csv(), quick=400, shards=2, rule="two rows or more")
def csv_files(case):
    cols = case["cols"]
    names = [NAMES[i] for i in range(len(cols))][::-1]
    nt(case["n"] > 1, f"version {case['ver']}")
    buf = io.StringIO()
    w = csv.writer(buf)
    for i in range(case["skip"]):
        buf.write(f"comment {i}\n")
    if case["hdr"]:
        w.writerow(names)
    for r in zip(*[v for _, v in cols]):
        w.writerow(r)
    conv = {nm: {"int": int, "float": float, "str": str}[k] for nm, (k, _) in zip(names, cols)} if case["conv"] else None
    kw = dict(column_names=None if case["hdr"] else names, converters=conv, skip_rows=case["skip"], version=case["ver"])
    if case["ver"] == 0 and conv:
        pass
    d = None
    try:
        if case["file"]:
            d = tempfile.mkdtemp(prefix="c22_")
            p = os.path.join(d, "x.csv")
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(buf.getvalue())
            got = rt.rt_csv.load_csv_as_dataset(p, **kw)
        else:
            got = rt.rt_csv.load_csv_as_dataset(io.StringIO(buf.getvalue()), **kw)
    finally:
        if d:
            import shutil

            shutil.rmtree(d, ignore_errors=True)
    require(list(got.keys()) == names, "csv: names", got=list(got.keys()), expected=names)
    for nm, (k, v) in zip(names, cols):
        g = strs(got[nm])
        typed = case["conv"] or case["ver"] == 4 and case["hdr"]
        if not typed and k != "str":
            g = [{"int": int, "float": float}[k](x) for x in g]
        elif k == "float":
            g = [float(x) for x in g]
        require(g == v, f"csv: column {nm}", got=g, expected=v)


# ---------------------------------------------------------------- numpy views and copies
@facet("C22", st.tuples(s_tab(kinds=BASIC, lo=0, hi=8, maxc=3), st.booleans()), quick=300, rule="two rows or more")
def numpy_in_out(case):
    t, fort = case
    nt(t["n"] > 1)
    for nm, c in t["cols"]:
        a = np_of({"d": c["k"], "v": c["v"]})
        f = rt.FastArray(a, unicode=True) if c["k"] == "U" else rt.FastArray(a)
        require(f.dtype == a.dtype and f.tobytes() == a.tobytes(), "FastArray of a NumPy array", got=f, expected=a)
        b = np.array(f)
        require(type(b) is np.ndarray and b.dtype == a.dtype and b.tobytes() == a.tobytes(), "np.array of a FastArray", got=b, expected=a)
        require(f.tolist() == a.tolist() or repr(f.tolist()) == repr(a.tolist()), "tolist", got=f.tolist(), expected=a.tolist())
        b = f._np
        require(type(b) is np.ndarray and b.tobytes() == a.tobytes(), "_np", got=b)
        a2 = np.frombuffer(f.tobytes(), dtype=f.dtype) if len(f) else a
        require(a2.tobytes() == a.tobytes(), "tobytes")


EDGE = [1, 3, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257]


@facet(
    "C22",
    st.tuples(pick(EDGE), pick("int8", "uint8", "int16", "uint16", "int32", "int64"), st.booleans(), st.booleans(), pick("arrow", "arrow", "pandas"), st.integers(0, 10**6)),
    quick=400,
    shards=2,
    rule="as many categories as the narrow code type can number, or nearly",
)
def code_width(case):
    """dictionary-encoded columns whose categories fill the range of their code type keep every code"""
    import pandas as pd
    import pyarrow as pa

    m, it, nulls, chunks, how, seed = case
    if m - 1 > np.iinfo(it).max:
        m = np.iinfo(it).max + 1
    rng = np.random.default_rng(seed)
    cats = [f"v{i:03d}" for i in range(m)]
    ix = [0, m - 1, m // 2] + rng.integers(0, m, 5).tolist()
    ix = [None if nulls and j % 4 == 1 else i for j, i in enumerate(ix)]
    nt(m > 120, how, it, "null" if nulls else "full")
    if how == "pandas":
        s = pd.Series(pd.Categorical.from_codes([-1 if i is None else i for i in ix], categories=cats))
        got = rt.Dataset.from_pandas(pd.DataFrame({"a": s})).a
        back = rt.Dataset({"a": got}).to_pandas().a
    else:
        dic = pa.array(cats) if how == "arrow" else pa.StructArray.from_arrays([pa.array(cats), pa.array(list(range(m)), type=pa.int32())], names=["p", "q"])
        a = pa.DictionaryArray.from_arrays(pa.array(ix, type=getattr(pa, it)()), dic)
        if chunks and how == "arrow":
            a = pa.chunked_array([a[:4], a[4:]])
        got = rt.FastArray.from_arrow(a, zero_copy_only=False)
    require(isinstance(got, rt.Categorical) and len(got) == len(ix), "category array expected", got=type(got))
    exp = [FILT if i is None else cats[i] if how != "multi" else (cats[i], i) for i in ix]
    same_list(canon(got), exp, f"{how} {it} codes with {m} categories")
    if how == "arrow" and not nulls:
        b = got.to_arrow()
        same_list([x for x in b.to_pylist()], exp, "back to Arrow")
    if how == "pandas":
        same_list([None if x != x else x for x in back.tolist()], [None if x == FILT else x for x in exp], "back to pandas")


# ---------------------------------------------------------------- missing values of an Arrow table replaced on the way in
FILLK = {"int32": [5, -7, 0], "int64": [5, -7, 0], "uint8": [5, 7, 0], "int16": [5, -7, 0], "float64": [0.25, -3.0, 0.0], "float32": [0.25, -3.0, 0.0], "string": ["q", "", "xyz"], "bool": [True, False, True]}


@st.composite
def s_arrow_fill(draw):
    n = draw(sizes(1, 8))
    cols = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(pick(sorted(FILLK)))
        pool = ["a", "b", "cde"] if k == "string" else [True, False] if k == "bool" else [1, 2, 3]
        cols.append([f"c{i}", k, draw(vals(pool + [None], n)), draw(st.integers(-1, 2)), draw(st.booleans())])
    return {"n": n, "cols": cols, "chunks": draw(st.booleans()), "none": draw(pick(False, False, False, True))}


@facet("C22", s_arrow_fill(), quick=500, rule="a filled column has a missing value, or a column without a fill has one")
def arrow_fill(case):
    """from_arrow(fill_value=...) replaces the missing values of the named columns only"""
    import pyarrow as pa

    d, exp, fill = {}, {}, {}
    hit = False
    for name, k, v, f, _ in case["cols"]:
        if k == "bool" and (f < 0 or case["none"]):
            v = [bool(x) for x in v]  # a boolean has no missing value of its own
        a = pa.array(v, pa.bool_() if k == "bool" else getattr(pa, k)())
        if case["chunks"]:
            a = pa.chunked_array([a.slice(0, len(v) // 2), a.slice(len(v) // 2)])
        d[name] = a
        if f >= 0 and not case["none"]:
            fill[name] = FILLK[k][f]
        miss = "" if k == "string" else None
        exp[name] = [(fill[name] if name in fill else miss) if x is None else x for x in v]
        hit = hit or None in v
    tbl = pa.table(d)
    nt(hit, "chunked" if case["chunks"] else "whole", "fill" if fill else "nofill")
    got = rt.Dataset.from_arrow(tbl, zero_copy_only=False, fill_value=None if case["none"] else fill)
    require(list(got.keys()) == list(d), "from_arrow(fill_value): columns", got=list(got.keys()))
    for k, e in exp.items():
        same_list(canon(got[k]), e, f"from_arrow(fill_value): column {k}", tol=0, fill=fill.get(k))


@facet("C22", st.tuples(st.lists(st.tuples(st.integers(1, 20000), st.integers(1, 86400 * 10**9), st.integers(-400, 400)), min_size=1, max_size=6), st.booleans()), quick=200, rule="two or more different rows")
def record_dates(case):
    """dates and spans in a record array: NumPy dates on request, the stored numbers otherwise"""
    rows, conv = case
    nt(len(set(rows)) > 1, "converted" if conv else "raw")
    ds = rt.Dataset({"d": rt.Date([r[0] for r in rows]), "t": rt.DateTimeNano([r[0] * 86400 * 10**9 + r[1] for r in rows], from_tz="GMT", to_tz="GMT"), "s": rt.TimeSpan([float(r[1]) for r in rows]), "p": rt.DateSpan([r[2] for r in rows])})
    before = snap(ds)
    ra = ds.as_recordarray(allow_conversions=conv)
    want_t = {"d": "datetime64[D]" if conv else "int32", "t": "datetime64[ns]", "s": "timedelta64[ns]" if conv else "float64", "p": "timedelta64[D]" if conv else "int32"}
    for k, dt in want_t.items():
        require(ra[k].dtype == np.dtype(dt), f"as_recordarray: type of {k}", got=ra[k].dtype, expected=dt)
        w = {"d": [r[0] for r in rows], "t": [r[0] * 86400 * 10**9 + r[1] for r in rows], "s": [r[1] for r in rows], "p": [r[2] for r in rows]}[k]
        same_list([int(x) for x in ra[k].astype("int64")], w, f"as_recordarray: {k}")
    require(snap(ds) == before, "as_recordarray changed its table")
