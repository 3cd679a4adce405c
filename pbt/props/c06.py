"""C06: unique/nunique/duplicated/count/ismember/isin/map/assoc against Python dictionaries keyed by the element (or key tuple)."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.props.c01 import layout, LAYOUT
from pbt.props.c05 import KD, raw, few, cmp1, order, colvals

KD2 = KD + ["cat", "date", "dtn"]


@st.composite
def skey(draw, n, dts=KD2):
    d = draw(pick(dts))
    if d == "cat":
        return {"d": d, "v": draw(vals(WORDS[:6], n))}
    if d in ("date", "dtn"):
        return {"d": d, "v": draw(vals([18000, 18001, 17000, 3, 18999], n))}
    if draw(st.booleans()):
        return {"d": d, "v": draw(vals([x for x in few(d)], n))}
    p = WORDS_E if d == "S" else UWORDS + [""] if d == "U" else [x for x in pool_for(d, infs=True) if str(x) != "-0.0"]
    return {"d": d, "v": draw(vals(p, n))}


def mk(s, la="c"):
    d = s["d"]
    if d == "cat":
        return rt.Categorical(s["v"])
    if d == "date":
        return rt.Date(np.array(s["v"], dtype="int32"))
    if d == "dtn":
        return rt.DateTimeNano(np.array(s["v"], dtype="int64") * 86_400_000_000_123, from_tz="GMT", to_tz="NYC")
    return layout(np_of(s), la).view(rt.FastArray)


def rv(s):
    if s["d"] in ("cat", "date"):
        return list(s["v"])
    if s["d"] == "dtn":
        return [x * 86_400_000_000_123 for x in s["v"]]
    return raw(s)


def out(x):
    if isinstance(x, rt.Categorical):
        return colvals(x)
    x = np.asarray(x.view(np.ndarray))
    return x.tolist() if x.dtype.kind in "iu" else npy(x)


@st.composite
def s_unique(draw):
    n = draw(sizes(0, 30))
    k = draw(pick(1, 1, 1, 2, 2, 3))
    return {"k": [draw(skey(n)) for _ in range(k)], "sorted": draw(st.booleans()), "lex": draw(pick(False, False, True)), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))), "la": draw(pick(LAYOUT)),
            "ri": draw(st.booleans()), "rv": draw(st.booleans()), "rc": draw(st.booleans()), "rep": draw(pick(1, 1, 1, 1, 200)), "form": draw(pick("rt", "method", "list")), "dt": draw(pick(None, None, "q"))}


@facet("C06", s_unique(), quick=5000, shards=3, rule="a repeated key")
def unique(c):
    """unique with index/inverse/counts/filter for one or several keys reconstructs the input"""
    ks = [dict(x, v=x["v"] * c["rep"]) for x in c["k"]]
    n = len(ks[0]["v"])
    if n == 0 and any(x["d"] == "cat" for x in ks):
        return
    arrs = [mk(x, c["la"]) for x in ks]
    rows = list(zip(*[rv(x) for x in ks]))
    filt = None if c["filt"] is None else c["filt"] * c["rep"]
    single = len(ks) == 1
    if n == 0 and (not single or ks[0]["d"] == "cat"):
        return
    first = {}
    count = {}
    for i, r in enumerate(rows):
        if filt is None or filt[i]:
            first.setdefault(r, i)
            count[r] = count.get(r, 0) + 1
    uniq = list(first)
    so = c["sorted"] or c["lex"]
    iscat = single and ks[0]["d"] == "cat"
    if iscat:
        so = True  # a Categorical keeps its category order
        if filt is not None and not any(filt):
            return
    if so and uniq:
        cols = list(zip(*uniq))
        uniq = [uniq[i] for i in order([list(x) for x in cols], [True] * len(cols))]
    if len(uniq) < n:
        nt(f"keys{len(ks)}", "sorted" if so else "unsorted", "filter" if filt else "all", "lex" if c["lex"] else "")
    kw = dict(sorted=c["sorted"], lex=c["lex"])
    if filt is not None:
        kw["filter"] = rt.FastArray(filt, dtype=bool)
    if c["dt"]:
        kw["dtype"] = c["dt"]
    kw.update(return_index=c["ri"], return_inverse=c["rv"], return_counts=c["rc"])
    if single:
        x = arrs[0]
        r = x.unique(**kw) if c["form"] == "method" and not iscat else rt.unique(x, **kw)
    else:
        r = rt.unique(arrs, **kw)
    if not (c["ri"] or c["rv"] or c["rc"]):
        r = (r,)
    require(isinstance(r, tuple), "return type", got=type(r))
    got = [out(x) for x in (r[0] if not single else [r[0]])]
    require(len(got) == len(ks), "number of key arrays")
    gu = list(zip(*got))
    same_list([str(x) for x in gu], [str(x) for x in uniq], "unique values", case=c)
    if single and ks[0]["d"] in ("date", "dtn"):
        require(type(r[0]) is type(arrs[0]), "class of the uniques", got=type(r[0]))
    j = 1
    if c["ri"]:
        same_list([int(x) for x in r[j]], [first[u] for u in uniq], "return_index", case=c)
        require(not c["dt"] or r[j].dtype == np.dtype(c["dt"]), "type of return_index", got=r[j].dtype, asked=c["dt"])
        j += 1
    if c["rv"]:
        pos = {u: i for i, u in enumerate(uniq)}
        e = [pos[x] if filt is None or filt[i] else -1 for i, x in enumerate(rows)]
        same_list([int(x) for x in r[j]], e, "return_inverse", case=c)
        require(not c["dt"] or r[j].dtype == np.dtype(c["dt"]), "type of return_inverse", got=r[j].dtype, asked=c["dt"])
        j += 1
    if c["rc"]:
        same_list([int(x) for x in r[j]], [count[u] for u in uniq], "return_counts", case=c)
        j += 1
    require(len(r) == j, "number of results", got=len(r))


@st.composite
def s_dup(draw):
    n = draw(sizes(1, 30))
    k = draw(pick(1, 1, 2, 3))
    return {"k": [draw(skey(n)) for _ in range(k)], "keep": draw(pick("first", "last", False)), "sub": draw(st.integers(1, k)), "la": draw(pick(LAYOUT)), "hu": draw(st.booleans()), "inp": draw(st.booleans()), "filt": draw(st.one_of(st.none(), vals([True, True, False], n)))}


@facet("C06", s_dup(), quick=3000, shards=2, rule="a repeated key")
def duplicates(c):
    """duplicated / drop_duplicates / nunique / count flag, keep and count exactly the repeated keys"""
    ks, keep = c["k"], c["keep"]
    arrs = [mk(x, c["la"]) for x in ks]
    cols = [rv(x) for x in ks]
    n = len(cols[0])

    def flags(rows):
        f = {}
        for i, r in enumerate(rows):
            f.setdefault(r, []).append(i)
        if keep == "first":
            k = {v[0] for v in f.values()}
        elif keep == "last":
            k = {v[-1] for v in f.values()}
        else:
            k = {v[0] for v in f.values() if len(v) == 1}
        return [i not in k for i in range(n)]

    a, v = arrs[0], cols[0]
    if len(set(v)) < n:
        nt(str(keep), ks[0]["d"], f"keys{len(ks)}")
    if ks[0]["d"] != "cat":
        same_list(np.asarray(a.duplicated(keep=keep, high_unique=c["hu"])).tolist(), flags(v), "FastArray.duplicated", case=c)
        bad = None if ks[0]["d"] in FLOATS else "" if ks[0]["d"] in "SU" else INV.get(ks[0]["d"], 0 if ks[0]["d"] in ("date", "dtn") else None)
        if ks[0]["d"] != "bool":
            u = {x for x in v if x != bad}
            require(a.nunique() == len(u), "nunique", got=a.nunique(), expected=len(u), case=c)
        kw = {} if c["filt"] is None else {"filter": rt.FastArray(c["filt"], dtype=bool)}
        t = a.count(sorted=c["hu"], **kw)
        cnt = {}
        for i, x in enumerate(v):
            if c["filt"] is None or c["filt"][i]:
                cnt[x] = cnt.get(x, 0) + 1
        kk = list(cnt)
        if c["hu"] and kk:
            kk = [kk[i] for i in order([kk], [True])]
        tk, tc = list(t.keys())
        require(tc == "Count", "count(): columns", got=(tk, tc))
        same_list([str(x) for x in out(t[tk])], [str(x) for x in kk], "count(): keys", case=c)
        same_list([int(x) for x in t["Count"]], [cnt[x] for x in kk], "count(): counts", case=c)
    else:
        require(a.nunique() == len(set(v)), "Categorical.nunique", got=a.nunique(), expected=len(set(v)))
    d = {f"c{i}": x for i, x in enumerate(arrs)}
    d["row"] = rt.FastArray(np.arange(n, dtype="int64") * 3)
    ds = rt.Dataset(d)
    sub = [f"c{i}" for i in range(c["sub"])]
    e = flags(list(zip(*cols[: c["sub"]])))
    arg = sub[0] if len(sub) == 1 and c["hu"] else sub
    for rep in range(2):  # a second call must not be affected by the first
        r = ds.duplicated(arg, keep=keep)
        same_list(np.asarray(r).tolist(), e, "Dataset.duplicated", case=c, call=rep)
    x = ds.copy() if c["inp"] else ds
    r = x.drop_duplicates(arg, keep=keep, inplace=c["inp"])
    target = x if c["inp"] else r
    want = [i for i in range(n) if not e[i]]
    require(sorted(target.keys()) == sorted(d), "drop_duplicates: columns", got=list(target.keys()))
    got = [int(y) // 3 for y in target["row"]]
    require(sorted(got) == want, "drop_duplicates: rows kept", got=got, expected=want, case=c)
    for i in range(len(ks)):
        same_list([str(y) for y in out(target[f"c{i}"])], [str(cols[i][j]) for j in got], f"drop_duplicates: column {i}", case=c)
    if keep == "first" and not (c["sub"] == 1 and ks[0]["d"] == "cat"):  # one category key: in category order
        require(got == want, "drop_duplicates(keep='first') keeps the row order", got=got, expected=want, case=c)
    require(len(ds) == n, "source untouched")


@st.composite
def s_mem(draw):
    na, nb = draw(sizes(0, 24)), draw(sizes(0, 24))
    k = draw(pick(1, 1, 1, 2, 3))
    keys = []
    for _ in range(k):
        t = draw(pick("num", "num", "num", "str", "cat", "catstr"))
        if t == "num":
            d1, d2 = draw(pick(NUMS)), draw(pick(NUMS))
            if draw(st.booleans()):
                d2 = d1
            p = draw(pick("few", "edge"))

            def pl(d):
                q = [0, 1, 2, 3, 5] + ([-1, -2] if d[0] != "u" else []) if p == "few" else [x for x in pool_for(d, inv=False) if str(x) != "-0.0"]
                if d in FLOATS:
                    q = q + [1.5, 2.5]
                return q + [None] if d1 == d2 else q

            keys.append(("num", d1, draw(vals(pl(d1), na)), d2, draw(vals(pl(d2), nb))))
        elif t == "str":
            d1, d2 = draw(pick("S", "U")), draw(pick("S", "U"))
            w = WORDS_E + (["ñ", "日本"] if d1 == d2 == "U" else [])
            keys.append(("str", d1, draw(vals(w, na)), d2, draw(vals(w[2:], nb))))
        else:
            keys.append((t, "S", draw(vals(WORDS, na)), "S", draw(vals(WORDS[3:], nb))))
    return {"k": keys, "la": draw(pick(LAYOUT)), "lb": draw(pick(LAYOUT)), "op": draw(pick("ismember", "ismember", "isin", "assoc", "base1")), "catside": draw(pick("a", "b", "both"))}


def mkside(kind, d, v, la, cat):
    if kind in ("cat", "catstr") and cat and v:
        return rt.Categorical(v)
    s = {"d": d, "v": v}
    return layout(np_of(s), la).view(rt.FastArray)


@facet("C06", s_mem(), quick=6000, shards=3, rule="some elements are members and some are not")
def membership(c):
    """ismember / isin / assoc_index / assoc_copy: member flags and first positions for single and multiple keys of mixed types"""
    ks = c["k"]
    multi = len(ks) > 1
    A, B, ra, rb = [], [], [], []
    for kind, d1, v1, d2, v2 in ks:
        A.append(mkside(kind, d1, v1, c["la"], c["catside"] != "b"))
        B.append(mkside(kind, d2, v2, c["lb"], c["catside"] != "a"))
        ra.append(v1)
        rb.append(v2)
    na, nb = len(ra[0]), len(rb[0])
    if multi and (na == 0 or nb == 0):
        return
    # NaN is not a member of anything in a single float key; with several keys all NaNs are one key
    pos = {}
    fl = [k[1] in FLOATS for k in ks]
    for i, r in enumerate(zip(*rb)):
        pos.setdefault(r, i)
    exp = []
    for r in zip(*ra):
        if not multi and fl[0] and r[0] is None:
            exp.append(None)
        else:
            exp.append(pos.get(r))
    if any(x is None for x in exp) and any(x is not None for x in exp):
        nt(c["op"], f"keys{len(ks)}", *(k[0] for k in ks))
    # integers and floats without a common lossless type must be refused, never guessed
    mix = False
    for kind, d1, v1, d2, v2 in ks:
        if kind == "num" and d1 != d2:
            mix = True
    a, b = (A, B) if multi else (A[0], B[0])
    op = c["op"]

    def chk_idx(ix, what):
        ix = np.asarray(ix)
        same_list([None if x == INV[ix.dtype.name] else int(x) for x in ix.tolist()], exp, what, case=c)

    try:
        if op == "isin" and not multi:
            r = a.isin(b)
            same_list(np.asarray(r).tolist(), [x is not None for x in exp], "isin", case=c)
            if not isinstance(a, rt.Categorical):
                r = a.isin(b, invert=True)
                same_list(np.asarray(r).tolist(), [x is None for x in exp], "isin(invert)", case=c)
            return
        if op == "assoc":
            chk_idx(rt.assoc_index(a, b), "assoc_index")
            p = rt.FastArray(np.arange(nb) * 2.5)
            r = rt.assoc_copy(a, b, p)
            same(r, [None if x is None else x * 2.5 for x in exp], "assoc_copy", case=c)
            if nb:
                ds = rt.Dataset({"x": p, "s": rt.FastArray([b"w%d" % i for i in range(nb)])})
                r = rt.assoc_copy(a, b, ds)
                same(r["x"], [None if x is None else x * 2.5 for x in exp], "assoc_copy(Dataset)", case=c)
                same(r["s"], ["" if x is None else f"w{x}" for x in exp], "assoc_copy(Dataset) strings", case=c)
            return
        if op == "base1" and not multi and not isinstance(a, rt.Categorical) and not isinstance(b, rt.Categorical):
            if na == 0 or nb == 0:
                return
            miss, r = rt.ismember(a, b, base_index=1)
            same_list([int(x) for x in r], [0 if x is None else x + 1 for x in exp], "ismember(base_index=1)", case=c)
            require(bool(miss) == any(x is None for x in exp), "ismember(base_index=1): missing flag", got=miss)
            return
        m, ix = rt.ismember(a, b)
    except TypeError as e:
        if mix and "lossless" in str(e):
            tag("refused")
            return
        raise
    same_list(np.asarray(m).tolist(), [x is not None for x in exp], "ismember flags", case=c)
    chk_idx(ix, "ismember index")


@st.composite
def s_map(draw):
    kind = draw(pick("int", "str", "float", "cat", "isinlist"))
    n = draw(sizes(0, 20))
    p = {"int": [1, 2, 3, 4, 5, -7], "float": [0.5, 1.0, 2.0, -3.25], "str": WORDS, "cat": WORDS, "isinlist": [1, 2, 3, 4, 5]}[kind]
    keys = draw(st.lists(pick(p[:5] + ([99, 1.5] if kind == "isinlist" else [])), min_size=1, max_size=5, unique=True))
    return {"kind": kind, "v": draw(vals(p, n)), "keys": keys, "out": draw(pick("int", "float", "str")), "o": draw(vals([3, 5, 8, 1], len(keys))), "d": draw(pick("int64", "int32", "int16")), "c": draw(pick("list", "set", "nparray"))}


@facet("C06", s_map(), quick=2000, rule="some keys are mapped and some are not")
def mapping(c):
    """map(dict) gives each element the dictionary's value and invalid for absent keys; isin accepts lists and sets"""
    v, kind = c["v"], c["kind"]
    keys = c["keys"]
    if v and any(x in keys for x in v) and any(x not in keys for x in v):
        nt(kind, c["out"])
    if kind == "isinlist":
        a = rt.FastArray(np.array(v, dtype=c["d"]))
        x = set(keys) if c["c"] == "set" else np.array(keys) if c["c"] == "nparray" else list(keys)
        same_list(np.asarray(a.isin(x)).tolist(), [y in keys for y in v], "isin", case=c)
        return
    o = {"int": c["o"], "float": [x + 0.5 for x in c["o"]], "str": [f"m{x}" for x in c["o"]]}[c["out"]]
    d = dict(zip(keys, o))
    if kind == "cat":
        if not v:
            return
        r = rt.Categorical(v).map(d)
        miss = "Inv" if c["out"] == "str" else None
    else:
        a = rt.FastArray(np.array(v, dtype={"int": c["d"], "float": "float64"}[kind])) if kind != "str" else fa({"d": "S", "v": v})
        r = a.map(d)
        miss = "" if c["out"] == "str" else None
    same(r, [d.get(x, miss) for x in v], "map", case=c)
    if c["out"] == "float":
        require(r.dtype == np.float64, "map dtype", got=r.dtype)
