"""C09: every way of building a Categorical, read back through every expansion, against the input value list."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.cols import *
from pbt.props.c05 import cmp1
from functools import cmp_to_key

VK = ["S", "U", "int32", "int64", "float64", "int8", "uint8", "int16", "uint32", "float32", "bool", "date", "dtn"]
POOL = {
    "S": ["b", "a", "zz", "", "longer word", "B", "c"], "U": ["b", "ñ", "日本", "a", "zz", ""], "bool": [False, True],
    "date": [18000, 17000, 18001, 1], "dtn": [18000, 17000, 18001, 1],
}


def vpool(k):
    if k in POOL:
        return POOL[k]
    if k in FLOATS:
        return [1.5, 2.0, -3.0, 0.25, 100.0]
    return [3, 1, 2, 100] + ([-7] if k in SINTS else [])


def key_arr(k, v, la="c"):
    if k == "date":
        return rt.Date(np.array(v, dtype="int32"))
    if k == "dtn":
        return rt.DateTimeNano(np.array([x * NS for x in v], dtype="int64"), from_tz="GMT", to_tz="NYC")
    a = layout(np_of({"d": k, "v": v}), la)
    return rt.FastArray(a, unicode=True) if k == "U" and la == "c" else a.view(rt.FastArray)


def key_vals(k, v):
    return [x * NS for x in v] if k == "dtn" else list(v)


@st.composite
def s_single(draw):
    k = draw(pick(VK))
    n = draw(sizes(1, 20))
    rep = draw(pick(1, 1, 1, 1, 40))
    c = {"k": k, "v": draw(vals(vpool(k), n)), "la": draw(pick(LAYOUT)), "ord": draw(pick(None, None, True, False)), "lex": draw(pick(None, None, None, True)), "base": draw(pick(None, None, 1, 0)),
         "sgb": draw(pick(None, None, True)), "filt": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "dt": draw(pick(None, None, None, "int16", "int32", "int64")), "form": draw(pick("array", "array", "list", "nd", "dict1")), "rep": rep, "many": draw(pick(0, 0, 0, 200))}
    return c


def sorted_vals(v):
    return sorted(set(v), key=cmp_to_key(lambda a, b: cmp1(a, b)))


def uniq_first(v):
    out = []
    for x in v:
        if x not in out:
            out.append(x)
    return out


def check_cat(c, exp, kinds, case, base=1):
    """everything observable about a single- or multi-key Categorical against its row values"""
    n = len(exp)
    require(isinstance(c, rt.Categorical) and len(c) == n, "length", got=len(c), case=case)
    same_list(canon(c), exp, "values by code and category", case=case)
    cat_sane(c, case=case)
    require(c.base_index == base, "base index", got=c.base_index, case=case)
    multi = len(kinds) > 1
    filt = [x == FILT for x in exp]
    same(c.isfiltered(), filt if base == 1 else [False] * n, "isfiltered", case=case)
    # expansions
    ea = c.expand_array
    cols = list(ea) if multi else [ea]
    ed = list(c.expand_dict.values())
    require(len(ed) == len(kinds), "expand_dict keys", got=len(ed), case=case)
    for j, k in enumerate(kinds):
        e = [None if x == FILT else (x[j] if multi else x) for x in exp]
        for nm, col in (("expand_array", cols[j]), ("expand_dict", ed[j])):
            g = canon(col)
            if k in ("S", "U"):
                same_list(g, ["Filtered" if x is None else x for x in e], nm, case=case)
                require(col.dtype.kind == k, f"{nm}: string kind {col.dtype.kind}, expected {k}", case=case)
            elif k == "bool" and any(filt):
                same_list([x for x, f in zip(g, filt) if not f], [x for x in e if x is not None], nm, case=case)
            else:
                same_list(g, e, nm, case=case)
                if k in NUMK:
                    require(col.dtype == np.dtype(k), f"{nm}: dtype {col.dtype}, expected {k}", case=case)
                if k in ("date", "dtn"):
                    require(type(col).__name__ == CLS[k], f"{nm}: class {type(col).__name__}", case=case)
    # single elements
    for i in range(min(n, 6)):
        x = c[i]
        if exp[i] == FILT:
            require(x == "Filtered", "single element of a filtered row", got=x, case=case)
            continue
        xs = x if multi else (x,)
        es = exp[i] if multi else (exp[i],)
        for a, e, k in zip(xs, es, kinds):
            if k in ("date", "dtn"):
                continue
            a = scalar(a)
            require(eq1(a, e, 1e-6 if k == "float32" else 0.0), f"element {i} is {a!r}, expected {e!r}", case=case)


@facet("C09", s_single(), quick=4500, shards=3, rule="at least two distinct values")
def from_values(c):
    """Categorical(values, ordered/lex/base_index/filter/dtype) expands to the values; categories are exactly the kept distinct values, sorted or in first-appearance order"""
    k = c["k"]
    v = c["v"] * c["rep"]
    if c["many"] and k in ("int32", "int64", "S"):
        v = v + ([1000 + i for i in range(c["many"])] if k != "S" else ["m%d" % i for i in range(c["many"])])
    n = len(v)
    f = None if c["filt"] is None or c["base"] == 0 else (c["filt"] * c["rep"] + [True] * n)[:n]
    if c["form"] == "list" and k in ("S", "int64", "float64", "bool") and c["la"] == "c":
        arg = list(v)
    elif c["form"] == "nd":
        a = key_arr(k, v, c["la"])
        arg = np.asarray(a) if k not in ("date", "dtn") else a
    elif c["form"] == "dict1":
        arg = {"kk": key_arr(k, v, c["la"])}
    else:
        arg = key_arr(k, v, c["la"])
    kw = {}
    if c["ord"] is not None:
        kw["ordered"] = c["ord"]
    if c["lex"]:
        kw["lex"] = True
    if c["base"] is not None:
        kw["base_index"] = c["base"]
    if c["sgb"]:
        kw["sort_gb"] = True
    if f is not None:
        kw["filter"] = rt.FastArray(np.array(f, dtype=bool))
    if c["dt"]:
        kw["dtype"] = np.dtype(c["dt"])
    if k == "U":
        kw["unicode"] = True
    if c["lex"] and c["base"] == 0:
        return
    cat = rt.Categorical(arg, **kw)
    vv = key_vals(k, v)
    kept = vv if f is None else [x for x, y in zip(vv, f) if y]
    exp = vv if f is None else [x if y else FILT for x, y in zip(vv, f)]
    if len(set(kept)) > 1:
        nt(k, "filter" if f else "nofilter", f"base{c['base']}", f"ord{c['ord']}", "lex" if c["lex"] else "hash")
    kk = k
    if c["form"] == "nd" and k == "U":
        kk = "U"
    check_cat(cat, exp, [kk], c, base=0 if c["base"] == 0 else 1)
    cats = canon(cat.category_array)
    if c["ord"] is False and not c["lex"]:
        same_list(cats, uniq_first(kept), "categories in first-appearance order", case=c)
    else:
        same_list(cats, sorted_vals(kept), "categories in sorted order", case=c)
    require(cat.unique_count == len(cats), "unique_count", got=cat.unique_count, case=c)
    require(cat.nunique() == len(set(kept)), "nunique", got=cat.nunique(), expected=len(set(kept)), case=c)
    if c["dt"] and not c["base"] == 0:
        require(cat.dtype == np.dtype(c["dt"]), "requested code dtype", got=cat.dtype, case=c)
    # row selection keeps values
    m = [i % 3 != 1 for i in range(n)]
    same_list(canon(cat[rt.FastArray(np.array(m, dtype=bool))]), [x for x, y in zip(exp, m) if y], "masked rows", case=c)
    same_list(canon(cat[1::2]), exp[1::2], "sliced rows", case=c)
    ix = [(i * 7) % n for i in range(min(n, 5))]
    same_list(canon(cat[rt.FastArray(np.array(ix, dtype="int32"))]), [exp[i] for i in ix], "fancy rows", case=c)
    # code <-> value lookups
    for x in list(dict.fromkeys(kept))[:4]:
        if k in ("date", "dtn", "bool", "float32"):
            break
        b = cat.from_category(x)
        y = scalar(cat.from_bin(int(b)))
        require(y == x, "from_bin(from_category(x)) != x", got=y, expected=x, case=c)
    if k == "S":
        same_list(canon(cat.as_string_array), ["Filtered" if x == FILT else x for x in exp], "as_string_array", case=c)
    sk = cat.as_singlekey()
    same_list(canon(sk), exp, "as_singlekey", case=c)
    cp = cat.copy()
    same_list(canon(cp), exp, "copy", case=c)
    require(cp.base_index == cat.base_index, "copy base", case=c)
    cat_sane(cp, case=c)


@st.composite
def s_multi(draw):
    n = draw(sizes(1, 16))
    m = draw(pick(2, 2, 3))
    ks = [draw(pick(["S", "int32", "int64", "float64", "int8", "U", "date", "bool"])) for _ in range(m)]
    return {"k": ks, "v": [draw(vals(vpool(k)[:3], n)) for k in ks], "la": draw(pick(LAYOUT)), "ord": draw(pick(None, None, True, False)), "lex": draw(pick(None, None, True)), "base": draw(pick(None, None, 1, 0)), "filt": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "form": draw(pick("list", "dict"))}


MULTI_SORTED = False  # the default order of multi-key categories is not documented


@facet("C09", s_multi(), quick=2500, shards=2, rule="at least two distinct key tuples")
def from_keys(c):
    """multi-key Categoricals expand to the key tuples of each row"""
    n = len(c["v"][0])
    arrs = [key_arr(k, v, c["la"]) for k, v in zip(c["k"], c["v"])]
    rows = list(zip(*[key_vals(k, v) for k, v in zip(c["k"], c["v"])]))
    f = c["filt"] if c["base"] != 0 else None
    kw = {}
    if c["ord"] is not None:
        kw["ordered"] = c["ord"]
    if c["lex"] and c["base"] != 0:
        kw["lex"] = True
    if c["base"] is not None:
        kw["base_index"] = c["base"]
    if f is not None:
        kw["filter"] = rt.FastArray(np.array(f, dtype=bool))
    if "U" in c["k"]:
        kw["unicode"] = True
    cat = rt.Categorical(arrs if c["form"] == "list" else {f"k{i}": a for i, a in enumerate(arrs)}, **kw)
    exp = [x if f is None or f[i] else FILT for i, x in enumerate(rows)]
    kept = [x for x in exp if x != FILT]
    if len(set(kept)) > 1:
        nt("filter" if f else "nofilter", f"base{c['base']}", "+".join(c["k"]))
    check_cat(cat, exp, c["k"], c, base=0 if c["base"] == 0 else 1)
    if c["form"] == "dict":
        require(list(cat.category_dict) == [f"k{i}" for i in range(len(arrs))], "key names", got=list(cat.category_dict), case=c)
    require(cat.unique_count == len(set(kept)), "unique_count", got=cat.unique_count, case=c)
    cd = list(zip(*[canon(v) for v in cat.category_dict.values()]))
    if c["ord"] is True or (c["ord"] is None and MULTI_SORTED) or kw.get("lex"):
        same_list(cd, sorted(set(kept), key=cmp_to_key(lambda a, b: next((r for r in map(cmp1, a, b) if r), 0))), "key tuples in sorted order", case=c)
    elif c["ord"] is False:
        same_list(cd, list(dict.fromkeys(kept)), "key tuples in first-appearance order", case=c)
    # (with no categories at all the string kernel rejects the empty labels: an error, not a wrong answer)
    g = canon(cat.as_singlekey()) if kept else exp
    for i in range(n):
        for j in range(n):
            require((g[i] == g[j]) == (exp[i] == exp[j]), "as_singlekey merges or splits groups", got=g, case=c)
    m = [i % 3 != 1 for i in range(n)]
    same_list(canon(cat[rt.FastArray(np.array(m, dtype=bool))]), [x for x, y in zip(exp, m) if y], "masked rows", case=c)
    same_list(canon(cat[::-1]), exp[::-1], "reversed rows", case=c)
    same_list(canon(cat.copy()), exp, "copy", case=c)


@st.composite
def s_codes(draw):
    n = draw(sizes(1, 20))
    k = draw(pick("S", "S", "int32", "float64", "U", "date"))
    cats = draw(st.lists(pick(vpool(k)), min_size=1, max_size=4, unique=True))
    mode = draw(pick("codes", "codes", "values", "map", "mapstr", "pandas", "matlab", "grouping"))
    base = draw(pick(1, 1, 0))
    m = len(cats)
    return {"k": k, "cats": cats, "mode": mode, "base": base, "ix": draw(vals(list(range(0, m + 1)), n)), "filt": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "cd": draw(pick("int8", "int16", "int32", "int64", "uint8")), "aslist": draw(st.booleans()), "bad": draw(pick(False, False, False, True)), "mc": draw(st.lists(st.integers(-3, 200), min_size=m, max_size=m, unique=True))}


@facet("C09", s_codes(), quick=3000, shards=2, rule="at least two rows with different values")
def from_codes(c):
    """codes+categories, values+categories, code-name mappings, pandas categoricals and 1-based Matlab codes map each row to the named category; impossible codes or values are rejected"""
    k, cats, mode, base = c["k"], c["cats"], c["mode"], c["base"]
    m, n = len(cats), len(c["ix"])
    cv = key_vals(k, cats)
    carr = list(cats) if c["aslist"] and k in ("S", "int32", "float64") else key_arr(k, cats)
    kw = {"unicode": True} if k == "U" else {}
    f = c["filt"] if base == 1 else None
    fk = {} if f is None else {"filter": rt.FastArray(np.array(f, dtype=bool))}
    ix = c["ix"]
    if mode in ("codes", "matlab", "grouping"):
        if base == 0:
            ix = [min(i, m - 1) for i in ix]
        codes = rt.FastArray(np.array(ix, dtype=c["cd"]))
        if c["bad"] and mode == "codes":
            codes[0] = m + 1 if base == 1 else m
            if k in ("S", "U", "date") or True:
                require(raises(rt.Categorical, codes, carr, base_index=base, **kw) is not None, "code beyond the categories was accepted", case=c)
            return
        if mode == "matlab":
            if base == 0:
                return
            fcodes = rt.FastArray(np.array([np.nan if i == 0 else i for i in ix], dtype="float64"))
            cat = rt.Categorical(fcodes, carr, from_matlab=True, **fk, **kw)
        elif mode == "grouping":
            if k not in ("S", "int32"):
                return
            g = rt.Grouping(codes, categories=key_arr(k, cats), base_index=base, categorical=True)
            cat = rt.Categorical(g)
            f = None
        else:
            cat = rt.Categorical(codes, carr, base_index=base, **fk, **kw)
        exp = [cv[i] if base == 0 else FILT if i == 0 else cv[i - 1] for i in ix]
    elif mode == "values":
        if k not in ("S", "U", "float64"):
            return
        vals_ = [cats[min(i, m - 1)] for i in ix]
        if c["bad"]:
            w = vals_[:-1] + (["notthere"] if k != "float64" else [77.5])
            require(raises(rt.Categorical, key_arr(k, w), carr, base_index=base, **kw) is not None, "a value outside the given categories was accepted", case=c)
            return
        cat = rt.Categorical(key_arr(k, vals_), carr, base_index=base, **fk, **kw)
        exp = [cv[min(i, m - 1)] for i in ix]
    elif mode in ("map", "mapstr"):
        if k != "S" or "" in cats:
            return
        mc = c["mc"]
        rows = [mc[i] if i < m else 333 for i in ix]
        d = dict(zip(mc, cats)) if mode == "map" else dict(zip(cats, mc))
        cat = rt.Categorical(rt.FastArray(np.array(rows, dtype="int32")), d)
        nt("map")
        g = canon(cat)
        same_list(g, [(mc[i], cats[i]) if i < m else FILT for i in ix], "mapped categories", case=c)
        same(cat.isfiltered(), [i >= m for i in ix], "isfiltered of a mapping", case=c)
        for j in range(min(n, 5)):
            x = cat[j]
            require(x == cats[ix[j]] if ix[j] < m else x == "!<333>", "mapped element", got=x, case=c)
        same_list(canon(cat.as_string_array), [cats[i] if i < m else "Filtered" for i in ix], "as_string_array of a mapping", case=c)
        same_list(canon(cat.as_singlekey()), [cats[i] if i < m else FILT for i in ix], "as_singlekey of a mapping", case=c)
        same_list(canon(cat.as_singlekey(ordered=True)), [cats[i] if i < m else FILT for i in ix], "as_singlekey(ordered) of a mapping", case=c)
        same_list(canon(cat[::-1]), g[::-1], "rows of a mapping", case=c)
        return
    else:
        import pandas as pd

        if k in ("date",):
            return
        codes = [i - 1 for i in ix]
        cat = rt.Categorical(pd.Categorical.from_codes(codes, categories=list(cats)), **fk)
        exp = [FILT if i < 0 else cv[i] for i in codes]
    if f is not None:
        exp = [x if y else FILT for x, y in zip(exp, f)]
    if len(set(exp)) > 1:
        nt(mode, k, f"base{base}")
    if mode == "pandas":
        base = 1
    same_list(canon(cat), exp, f"rows from {mode}", case=c)
    cat_sane(cat, case=c)
    require(cat.base_index == base, "base index", got=cat.base_index, case=c)
    if mode != "values" or f is None:
        same_list(canon(cat.category_array), cv, "categories kept in the given order", case=c)
    if base == 1:
        same(cat.isfiltered(), [x == FILT for x in exp], "isfiltered", case=c)
    for i in range(min(n, 5)):
        if k == "date":
            break
        x = scalar(cat[i])
        require(x == (exp[i] if exp[i] != FILT else "Filtered"), f"element {i}", got=x, expected=exp[i], case=c)


@facet("C09", st.tuples(pick(100, 126, 127, 128, 129, 255, 256, 257, 32766, 32767, 32768, 32769), pick("S", "int32", "float64"), pick(1, 1, 0), pick(True, False), st.integers(0, 10**6)), quick=120, shards=2, rule="always")
def code_width(c):
    """as many categories as the narrow code types can number: every row still expands to its value, also after a category was added"""
    m, k, base, ordered, seed = c
    rng = np.random.default_rng(seed)
    vals_ = [f"v{i:05d}" for i in range(m)] if k == "S" else list(range(m)) if k == "int32" else [i + 0.5 for i in range(m)]
    order = rng.permutation(m).tolist() + [0, m - 1, m // 2]
    v = [vals_[i] for i in order]
    nt(str(m), k)
    arr = rt.FastArray(np.array(v, dtype="S6" if k == "S" else k))
    cat = rt.Categorical(arr, ordered=ordered, base_index=base)
    def look(cat, v, what):
        got = cat.expand_array.tolist()
        got = [x.decode() if isinstance(x, bytes) else x for x in got]
        bad = [i for i, (a, b) in enumerate(zip(got, v)) if a != b]
        require(len(got) == len(v) and not bad, what, first=bad[:3], got=[got[i] for i in bad[:3]], expected=[v[i] for i in bad[:3]], case=c)
    look(cat, v, "expanded values")
    codes = np.asarray(cat._fa)
    require(int(codes.min()) == base and int(codes.max()) == m - 1 + base, "code range", got=(int(codes.min()), int(codes.max())), case=c)
    look(cat.copy(), v, "copy")
    look(rt.Categorical(cat), v, "Categorical of a Categorical")
    if base == 1:
        g = np.asarray(cat.count(rt.arange(len(v))).Count) if False else np.asarray(cat.grouping.ncountgroup)
        require(int(g[0]) == 0 and int(g.sum()) == len(v) and int(g.max()) >= 2, "group counts", got=g[:3], case=c)
    h = rt.hstack([cat, rt.Categorical(rt.FastArray(np.array(["zz", v[0]] if k == "S" else [-1, v[0]], dtype="S6" if k == "S" else k)), ordered=ordered, base_index=base)])
    look(h, v + (["zz", v[0]] if k == "S" else [-1, v[0]]), "stacked with one more category")
    if k == "S" and base == 1:
        e = cat.copy()
        e.unlock()
        e.category_add("zz")
        try:
            e[1] = "zz"
        except (ValueError, IndexError):
            pass  # refused, nothing lost
        else:
            v2 = list(v)
            v2[1] = "zz"
            v = v2
        look(e, v, "after adding and assigning a category")
