"""C19: joins against a nested-loop join over the key tuples, followed row by row through identity columns of both sides."""
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *

warnings.filterwarnings("ignore")
INTS = ["int32", "int64", "int8", "int16", "uint8"]
PAIRS = [("int", "int"), ("float", "float"), ("str", "str"), ("cat", "cat"), ("cat", "cat"), ("cat", "S"), ("S", "cat"), ("date", "date"), ("dtn", "dtn"), ("mix", "mix"), ("cmulti", "cmulti"), ("tspan", "tspan")]
POOL = {"S": ["a", "b", "cc", ""], "U": ["a", "b", "cc", ""], "cat": ["a", "b", "cc"], "catf": ["a", "b", "cc", None], "catU": ["a", "b", "cc"],
        "date": [18000, 18001, None, 17000], "dtn": [18000, 18001, None, 17000], "bool": [True, False], "cmulti": [(1, "a"), (2, "a"), (1, "bb"), (3, "c")], "tspan": [1, 2, None, 5]}
VK = ["int32", "float64", "S", "cat", "date", "bool", "int64", "U", "dtn", "catf", "tspan", "float32", "int8", "uint16"]


@st.composite
def s_keykinds(draw, multi):
    a, b = draw(pick([p for p in PAIRS if not multi or p[0] != "cmulti"]))
    r = []
    for s in (a, b):
        if s == "int":
            r.append(draw(pick(INTS)))
        elif s == "float":
            r.append(draw(pick(["float64", "float32"])))
        elif s == "mix":
            r.append(draw(pick(["float64", "int32"])))
        elif s == "str":
            r.append(draw(pick(["S", "U"])))
        elif s == "cat":
            r.append(draw(pick(["cat", "catf", "catU"])))
        else:
            r.append(s)
    return r


def pool(k):
    if k in POOL:
        return POOL[k]
    return [1, 2, None, 3] if k in NUMK else None


@st.composite
def s_join(draw, lo=0, uniq_right=False):
    nk = draw(pick([1, 1, 1, 2, 2, 3]))
    kk = [draw(s_keykinds(nk > 1)) for _ in range(nk)]
    same = draw(st.lists(st.booleans(), min_size=nk, max_size=nk))
    side = []
    for s in range(2):
        n = draw(sizes(lo, 9))
        if not n and any(k[s].startswith("c") for k in kk):
            n = 1
        inv = draw(pick([True, True, False]))
        keys = [{"k": k[s], "v": draw(vals([x for x in pool(k[s]) if inv or x is not None], n))} for k in kk]
        if uniq_right and s:
            seen, keep = set(), []
            for i in range(n):
                t = tuple(c["v"][i] for c in keys)
                if t not in seen:
                    seen.add(t)
                    keep.append(i)
            keys = [{"k": c["k"], "v": [c["v"][i] for i in keep]} for c in keys]
            n = len(keep)
        vk = [k for k in VK if n or not k.startswith("c")]
        side.append({"n": n, "keys": keys, "vals": [draw(scol(n, vk, few=True)) for _ in range(draw(st.integers(0, 2)))]})
    return {"L": side[0], "R": side[1], "same": same, "x": draw(st.integers(0, 30)), "onform": draw(st.integers(0, 3)), "overlap": draw(st.booleans())}


def tables(case):
    """left and right Dataset, their key names, and {column: spec} for both"""
    out = []
    for s, side in (("l", case["L"]), ("r", case["R"])):
        kn = [f"k{i}" if case["same"][i] else f"{s}k{i}" for i in range(len(side["keys"]))]
        d = dict(zip(kn, side["keys"]))
        for i, c in enumerate(side["vals"]):
            d[f"v{i}" if case["overlap"] else f"{s}v{i}"] = c
        t = rt.Dataset({**{k: mkcol(c) for k, c in d.items()}, ("li" if s == "l" else "ri"): rt.FastArray(np.arange(side["n"], dtype="int64"))})
        d["li" if s == "l" else "ri"] = {"k": "int64", "v": list(range(side["n"]))}
        out.append((t, kn, d))
    return out


def kt(side, i):
    """key tuple of a row: None when any part is missing, as such a row matches nothing"""
    r = []
    for c in side["keys"]:
        x = c["v"][i]
        if c["k"] in ("S", "U"):
            x = x or ""
        if x is None:
            return None
        r.append(x)
    return tuple(r)


def raw(side, i):
    return tuple((c["v"][i] or "") if c["k"] in ("S", "U") else c["v"][i] for c in side["keys"])


def kept(side, keep):
    """rows left after keeping only the first / last row of every distinct key"""
    n = side["n"]
    if keep is None:
        return list(range(n))
    d = {}
    for i in range(n) if keep == "last" else reversed(range(n)):
        d[raw(side, i)] = i
    return sorted(d.values())


def model(L, R, how, keep=(None, None)):
    li, ri = kept(L, keep[0]), kept(R, keep[1])
    kl, kr = {i: kt(L, i) for i in li}, {j: kt(R, j) for j in ri}
    out = []
    if how == "right":
        for j in ri:
            m = [i for i in li if kr[j] is not None and kl[i] == kr[j]]
            out += [(i, j) for i in m] or [(None, j)]
        return out
    hit = set()
    for i in li:
        m = [j for j in ri if kl[i] is not None and kl[i] == kr[j]]
        hit.update(m)
        out += [(i, j) for j in m] or ([] if how == "inner" else [(i, None)])
    if how == "outer":
        out += [(None, j) for j in ri if j not in hit]
    return out


def onargs(case, lk, rk):
    f = case["onform"]
    same = lk == rk
    one = len(lk) == 1
    if f == 0 and same:
        return {"on": lk[0] if one else lk}
    if f == 1:
        return {"left_on": lk[0] if one else lk, "right_on": rk[0] if one else rk}
    if f == 2 and one:
        return {"on": (lk[0], rk[0])}
    return {"on": [a if a == b else (a, b) for a, b in zip(lk, rk)]}


def expected_names(ld, rd, lk, rk, cl, cr, suf):
    inter = [k for k in lk if k in rk]
    cl = [c for c in (ld if cl is None else cl) if c not in inter]
    cr = [c for c in (rd if cr is None else cr) if c not in inter]
    ov = set(cl) & set(cr)
    return inter, {c: c + suf[0] if c in ov else c for c in cl}, {c: c + suf[1] if c in ov else c for c in cr}


def check_cols(got, pairs, inter, ml, mr, ld, rd, how, what, extra=()):
    names = set(inter) | set(ml.values()) | set(mr.values()) | set(extra)
    require(set(got.keys()) == names and len(got.keys()) == len(names), f"{what}: columns", got=list(got.keys()), expected=sorted(names))
    require(len(got) == len(pairs) or not names, f"{what}: number of rows", got=len(got), expected=len(pairs))
    for mp, d, s in ((ml, ld, 0), (mr, rd, 1)):
        for old, new in mp.items():
            W = want(d[old])
            check_col(got[new], [missing(d[old]["k"]) if p[s] is None else W[p[s]] for p in pairs], d[old]["k"], f"{what}: column {new}", dtype=None if d[old]["k"].startswith("c") or d[old]["k"] in "SU" else mkcol(d[old]).dtype, rows=pairs)
    for k in inter:
        wl, wr = want(ld[k]), want(rd[k])
        f = lambda x: x if isinstance(x, (bool, str, tuple)) or x is None else float(x)
        e = [wr[p[1]] if p[0] is None or (how == "right" and p[1] is not None) else wl[p[0]] for p in pairs]
        g = [f(x) for x in canon(got[k])]
        # S and categorical keys join each other: '' stays '' and the filtered bin stays filtered
        same_list(g, [f(x) for x in e], f"{what}: key column {k}", rows=pairs)


def order(got, ln, rn, pairs, exact, what):
    """the row pairs of the result, in its order, which must be the pairs of the model"""
    g = list(zip([None if x is None else int(x) for x in canon(got[ln])], [None if x is None else int(x) for x in canon(got[rn])]))
    if exact:
        require(g == pairs, f"{what}: rows and their order", got=g, expected=pairs)
    else:
        key = lambda p: tuple(-1 if x is None else x for x in p)
        require(sorted(g, key=key) == sorted(pairs, key=key), f"{what}: rows", got=g, expected=pairs)
    return g


HOW = ["left", "inner", "right", "outer"]


def bad_mix(case, how):
    """outer joins stack the key columns: only kinds that can be stacked"""
    for s, a, b in zip(case["same"], case["L"]["keys"], case["R"]["keys"]):
        if s and how == "outer" and (a["k"].startswith("c") != b["k"].startswith("c") or a["k"] in ("catU", "cat", "catf", "S", "U") and a["k"] != b["k"]):
            return True
    return False


@facet("C19", st.tuples(s_join(), pick(HOW), st.integers(0, 11), st.integers(0, 8)), quick=2600, shards=4, rule="some rows match and some do not, or a key repeats on the other side")
def merge2(case):
    case, how, opt, kp = case
    L, R = case["L"], case["R"]
    if bad_mix(case, how):
        return nt(False)
    (ls, lk, ld), (rs, rk, rd) = tables(case)
    keep = (None, None)
    if opt % 3 == 0:
        keep = [("first", "first"), ("last", "last"), (None, "first"), (None, "last"), ("first", None), ("last", None), ("first", "last"), ("last", "first"), (None, None)][kp]
        if how == "outer":
            keep = (None, keep[1])
    kw = dict(onargs(case, lk, rk))
    if keep != (None, None):
        kw["keep"] = keep[0] if keep[0] == keep[1] and case["x"] % 2 else keep
    if opt % 2:
        kw["high_card"] = [True, False, (True, False), (False, True)][case["x"] % 4]
    if opt % 4 == 1:
        kw["hint_size"] = [0, 100, (10, 20)][case["x"] % 3]
    if opt % 5 == 1:
        kw["copy"] = False
    ind = None
    if opt % 2 == 0:
        ind = [None, True, "ind"][case["x"] % 3]
        if ind:
            kw["indicator"] = ind
            ind = "merge_indicator" if ind is True else ind
    suf = [("_x", "_y"), ("", "_r"), ("_l", "")][case["x"] % 3]
    kw["suffixes"] = suf
    cl = cr = None
    if opt % 5 == 2:
        cl = [c for i, c in enumerate(ld) if (case["x"] >> i) & 1 or c == "li"]
        kw["columns_left"] = cl
    if opt % 5 >= 2 and opt % 3 == 1:
        cr = [c for i, c in enumerate(rd) if (case["x"] >> i) & 1 or c == "ri"]
        kw["columns_right"] = cr
    # suffixing must not run into a key column's name
    inter, ml, mr = expected_names(ld, rd, lk, rk, cl, cr, suf)
    pairs = model(L, R, how, keep)
    b1, b2 = snap(ls), snap(rs)
    got = ls.merge2(rs, how=how, **kw) if case["x"] % 2 else rt.merge2(ls, rs, how=how, **kw)
    require((snap(ls), snap(rs)) == (b1, b2), "merge2 changed an input table")
    m = sum(1 for a, b in pairs if a is not None and b is not None)
    nt(0 < m and (m < len(pairs) or len(pairs) > max(L["n"], R["n"])) or 0 < len(pairs) < max(L["n"], R["n"]), how, f"keys{len(lk)}", f"keep{keep != (None, None)}", *(c["k"] for c in L["keys"]))
    what = f"merge2 {how}"
    exact = keep[1] is None if how == "right" or (how == "outer" and not L["n"]) else keep[0] is None
    pairs = order(got, "li", "ri", pairs, exact, what)
    check_cols(got, pairs, inter, ml, mr, ld, rd, how, what, [ind] if ind else [])
    if ind:
        e = ["both" if a is not None and b is not None else "left_only" if b is None else "right_only" for a, b in pairs]
        same_list(canon(got[ind]), e, f"{what}: indicator", rows=pairs)
    # the same join as row indices
    ji = rt.rt_merge.merge_indices(ls, rs, on=list(zip(lk, rk)), how=how, **({"keep": keep} if keep != (None, None) else {}))
    g = []
    for ix, n in ((ji.left_index, L["n"]), (ji.right_index, R["n"])):
        if ix is None:
            g.append(list(range(n)))
        elif ix.dtype == bool:
            g.append([i for i, t in enumerate(ix.tolist()) if t])
        else:
            g.append(canon(ix))
    key = (lambda p: 0) if exact else (lambda p: tuple(-1 if x is None else x for x in p))
    require(len(g[0]) == len(g[1]) and sorted(zip(*g), key=key) == sorted(pairs, key=key), "merge_indices: row pairs", got=g, expected=pairs)


@facet("C19", st.tuples(s_join(), pick(HOW), pick(["1:1", "1:m", "m:1", "m:m", "one_to_one", "one_to_many", "many_to_one", "many_to_many"]), st.integers(0, 8)), quick=700, shards=1, rule="the outcome is not decided by empty tables")
def validate(case):
    case, how, val, kp = case
    L, R = case["L"], case["R"]
    if bad_mix(case, how):
        return nt(False)
    (ls, lk, ld), (rs, rk, rd) = tables(case)
    keep = [(None, None)] * 5 + [(None, "first"), ("last", None), ("first", "first"), (None, None)]
    keep = keep[kp]
    if how == "outer":
        keep = (None, keep[1])
    l1, r1 = {"1:1": (1, 1), "one_to_one": (1, 1), "1:m": (1, 0), "one_to_many": (1, 0), "m:1": (0, 1), "many_to_one": (0, 1)}.get(val, (0, 0))
    bad = False
    for side, uniq, k, nulls_are_keys in ((L, l1, keep[0], how == "left"), (R, r1, keep[1], how == "right")):
        if not uniq or k:
            continue
        ks = [kt(side, i) for i in range(side["n"])]
        if nulls_are_keys and ks.count(None) > 1:
            return nt(False)  # whether rows without a key count as duplicates of each other is not documented
        ks = [x for x in ks if x is not None]
        bad |= len(set(ks)) < len(ks)
    nt(L["n"] > 0 and R["n"] > 0, val, "bad" if bad else "good")
    try:
        got = ls.merge2(rs, how=how, validate=val, keep=keep, suffixes=("_x", "_y"), **onargs(case, lk, rk))
    except ValueError:
        require(bad, f"merge2 validate={val} rejected keys that satisfy it", how=how)
        return
    require(not bad, f"merge2 validate={val} accepted duplicate keys", how=how, got=len(got))
    order(got, "li", "ri", model(L, R, how, keep), False, f"merge2 validate={val}")


@facet("C19", st.tuples(st.booleans().flatmap(lambda u: s_join(uniq_right=u)), pick([None, None, "first", "last"]), st.booleans(), st.booleans(), st.integers(0, 7)), quick=1200, shards=2, rule="some left rows match and some do not")
def lookup(case):
    case, keep, req, inplace, opt = case
    L, R = case["L"], case["R"]
    (ls, lk, ld), (rs, rk, rd) = tables(case)
    kr = [kt(R, j) for j in range(R["n"])]
    kr = [x for x in kr if x is not None]
    dup = keep is None and len(set(kr)) < len(kr)
    pairs = model(L, R, "left", (None, keep or "first"))
    miss = any(b is None for a, b in pairs)
    kw = onargs(case, lk, rk)
    cr = None
    if opt % 2:
        cr = [c for i, c in enumerate(rd) if (case["x"] >> i) & 1 or c == "ri"]
        kw["columns_right"] = cr
    if opt % 3 == 1:
        kw["copy"] = False
    inplace = inplace and not (opt % 4 == 3)
    suf = ("", "_r")
    if inplace or opt % 4 < 2:
        kw["suffix"] = "_r"
    else:
        suf = [("_x", "_y"), ("", "_r"), ("_l", "")][case["x"] % 3]
        kw["suffixes"] = suf
    if inplace:
        kw["inplace"] = True
    inter, ml, mr = expected_names(ld, rd, lk, rk, None, cr, suf)
    b1, b2 = snap(ls), snap(rs)
    nt(0 < sum(b is not None for a, b in pairs) < len(pairs), "dup" if dup else "nodup", "inplace" if inplace else "new")
    try:
        got = ls.merge_lookup(rs, keep=keep, require_match=req, **kw)
    except ValueError:
        require(dup or (req and miss), "merge_lookup raised although every key is unique and required matches exist")
        require((snap(ls), snap(rs)) == (b1, b2), "merge_lookup that failed changed a table")
        return
    require(not dup, "merge_lookup accepted duplicate keys in the lookup table", keys=kr)
    require(not (req and miss), "merge_lookup ignored require_match", pairs=pairs)
    require(snap(rs) == b2, "merge_lookup changed the lookup table")
    if inplace:
        require(got is ls, "merge_lookup inplace returns the table")
    else:
        require(snap(ls) == b1, "merge_lookup changed the left table")
    pairs = order(got, "li", "ri", pairs, True, "merge_lookup")
    check_cols(got, pairs, inter, ml, mr, ld, rd, "left", "merge_lookup")


@facet("C19", st.tuples(s_join(lo=1), pick(HOW), st.booleans()), quick=500, shards=1, rule="unique keys on both sides, some shared and some not")
def merge_old(case):
    """the older merge function: on unique, present keys it is the same join"""
    case, how, ind = case
    L, R = case["L"], case["R"]
    if bad_mix(case, how) or any(c["k"].startswith("c") for s in (L, R) for c in s["keys"]):
        return nt(False)
    for s in (L, R):
        seen, keep = set(), []
        for i in range(s["n"]):
            k = kt(s, i)
            if k is not None and k not in seen and "" not in k:
                seen.add(k)
                keep.append(i)
        if not keep:
            return nt(False)
        for c in s["keys"] + s["vals"]:
            c["v"] = [c["v"][i] for i in keep]
        s["n"] = len(keep)
    if any(a["k"] != b["k"] for a, b in zip(L["keys"], R["keys"])):
        return nt(False)
    (ls, lk, ld), (rs, rk, rd) = tables(case)
    kw = {"on": lk} if lk == rk else {"left_on": lk, "right_on": rk}
    pairs = model(L, R, how)
    if not pairs:
        return nt(False)
    inter, ml, mr = expected_names(ld, rd, lk, rk, None, None, ("_x", "_y"))
    nt(0 < sum(None not in p for p in pairs) < L["n"] + R["n"], how)
    got = ls.merge(rs, how=how, indicator=ind, verbose=False, **kw)
    pairs = order(got, "li", "ri", pairs, True, f"merge {how}")
    check_cols(got, pairs, inter, ml, mr, ld, rd, how, f"merge {how}", ["merge_indicator"] if ind else [])
    if ind:
        same_list(canon(got.merge_indicator), ["both" if None not in p else "left_only" if p[1] is None else "right_only" for p in pairs], f"merge {how}: indicator")


BIGK = ["int32", "int64", "float64", "S", "cat", "dtn", "int8"]


@facet("C19", st.tuples(st.integers(0, 2**31), pick([50, 300, 3000, 40000]), pick([3, 40, 1000, 100000]), pick(BIGK), pick(HOW), st.booleans()), quick=80, shards=1, rule="at least 50 rows on each side")
def large(case):
    """tables large enough for wide group and row counters, with expected row pairs built by dictionary"""
    seed, n, card, kind, how, two = case
    r = np.random.default_rng(seed)
    m = n if r.random() < 0.5 else n // 7
    if card < 40 and n > 300:
        card = 1000
    if kind == "int8":
        card = min(card, 100)
    if two:
        card = min(card, 50)
    ka, kb = r.integers(0, card, n), r.integers(0, card, m)
    n2 = (r.integers(0, 300, n), r.integers(0, 300, m)) if two else (np.zeros(n, int), np.zeros(m, int))

    def col(k):
        if kind in ("S", "cat"):
            a = np.char.add(b"k", k.astype("S"))
            return rt.Categorical(a) if kind == "cat" else rt.FastArray(a)
        if kind == "dtn":
            return rt.DateTimeNano(k.astype("int64") + 1, from_tz="GMT", to_tz="GMT")
        return rt.FastArray(k.astype(kind))
    ls = rt.Dataset({"k": col(ka), "li": np.arange(n)})
    rs = rt.Dataset({"k": col(kb), "ri": np.arange(m)})
    on = ["k"]
    if two:
        ls.q, rs.q = rt.FastArray(n2[0].astype("int16")), rt.FastArray(n2[1].astype("int16"))
        on = ["k", "q"]
    code = lambda k, q: k.astype("int64") * 1000 + q
    ca, cb = code(ka, n2[0]), code(kb, n2[1])
    d = {}
    for j, x in enumerate(cb.tolist()):
        d.setdefault(x, []).append(j)
    dl = {}
    for i, x in enumerate(ca.tolist()):
        dl.setdefault(x, []).append(i)
    if sum(len(dl.get(x, ())) * len(y) for x, y in d.items()) > 400000:
        return nt(False)
    nt(True, how, kind, f"n{n}")
    e = []
    if how == "right":
        for j, x in enumerate(cb.tolist()):
            e += [(i, j) for i in dl.get(x, ())] or [(-1, j)]
    else:
        for i, x in enumerate(ca.tolist()):
            e += [(i, j) for j in d.get(x, ())] or ([] if how == "inner" else [(i, -1)])
        if how == "outer":
            e += [(-1, j) for j, x in enumerate(cb.tolist()) if x not in dl]
    got = ls.merge2(rs, on=on, how=how)
    E = np.array(e, dtype="int64").reshape(-1, 2)
    g = np.stack([np.where(np.asarray(got[c].isnan()), -1, np.asarray(got[c])) for c in ("li", "ri")], axis=1)
    require(g.shape == E.shape, f"merge2 {how}: number of rows", got=g.shape, expected=E.shape)
    w = np.nonzero((g != E).any(axis=1))[0]
    if len(w):
        fail(f"merge2 {how}: rows", first=int(w[0]), got=g[w[0]].tolist(), expected=E[w[0]].tolist())
    kk = col(np.where(E[:, 0] >= 0, ka[E[:, 0]], kb[E[:, 1]]) if len(E) else ka[:0]) if len(E) else None
    if kk is not None:
        require(canon(got.k) == canon(kk), f"merge2 {how}: key column")
