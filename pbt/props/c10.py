"""C10: histories of edits on Categoricals and their copies against plain value lists."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *
from pbt.cols import *

WS = ["b", "a", "zz", "c", "longer word"]
WU = ["b", "ñ", "日本", "a", "zz zz"]
NEWS = ["new", "a much longer category name", "A", "q"]
NEWU = ["né", "ein längeres Wort", "A", "日"]


@st.composite
def s_hist(draw):
    kind = draw(pick("S", "S", "S", "U", "S0", "num", "num"))
    n = draw(sizes(1, 10))
    pool = {"S": WS, "S0": WS, "U": WU, "num": [3, 1, 2, 100]}[kind]
    c = {"kind": kind, "v": draw(vals(pool, n)), "ord": draw(st.booleans()), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))) if kind != "S0" else None}
    ops = []
    names = (["grp", "grp", "set", "set", "set", "setmask", "setslice", "setfancy", "setval", "code", "codes", "fromcat", "add", "remove", "replace", "replace", "auto", "copy", "copy", "deepcopy", "valid", "shrink", "switch", "rows", "setcat", "lock"]
             if kind in ("S", "U", "S0") else ["grp", "code", "codes", "setf", "copy", "valid", "shrink", "switch", "rows", "setcat", "fromcat"])
    for _ in range(draw(st.integers(1, 9))):
        o = draw(pick(names))
        ops.append([o, draw(st.integers(0, 999)), draw(st.integers(0, 999)), draw(st.integers(0, 2**12 - 1))])
    c["ops"] = ops
    return c


def build(c):
    k = c["kind"]
    if k == "num":
        a = rt.FastArray(np.array([float(x) + 0.5 for x in c["v"]])) if c.get("f") else rt.FastArray(np.array(c["v"], dtype="int64"))
    elif k == "U":
        a = rt.FastArray(np.array(c["v"], dtype="U"), unicode=True)
    else:
        a = np.array([x.encode() for x in c["v"]])
    kw = {}
    if c["filt"] is not None:
        kw["filter"] = rt.FastArray(np.array(c["filt"], dtype=bool))
    if k == "S0":
        kw["base_index"] = 0
    return rt.Categorical(a, ordered=c["ord"], **kw)


def npy1(x):
    return x.item() if isinstance(x, np.generic) else x


def cats_of(c):
    return canon(c.category_array)


class World:
    def __init__(self, c):
        self.c = c
        rows = [x if c["filt"] is None or c["filt"][i] else FILT for i, x in enumerate(c["v"])]
        self.items = [(build(c), rows)]
        self.cur = 0
        self.log = []

    def check(self, what):
        for i, (cat, rows) in enumerate(self.items):
            same_list(canon(cat), rows, f"rows of category array {i} after {what}", case=self.c)
            cat_sane(cat, f"category array {i} after {what}", case=self.c)
            same_list(canon(cat.expand_array)[: len(rows)] if self.c["kind"] == "num" else [x.decode() if isinstance(x, bytes) else x for x in canon(cat.expand_array)], [("Filtered" if self.c["kind"] != "num" else None) if x == FILT else x for x in rows], f"expand_array of {i} after {what}", case=self.c)
            el = [cat[j] for j in range(len(rows))]
            same_list([npy1(x) for x in el], ["Filtered" if x == FILT else x for x in rows], f"elements of {i} after {what}", case=self.c)
            require(cat.unique_count == len(cats_of(cat)), f"unique_count of {i} after {what}", got=cat.unique_count, expected=len(cats_of(cat)), case=self.c)


def groups_ok(cat, rows, c):
    """group results follow the current values (nothing remembered from before an edit)"""
    rn = rt.FastArray(np.arange(len(rows)))
    d = cat.count()
    lab, cnt = canon(d[d.label_get_names()[0]]), npy(np.asarray(d.Count))
    got = {l: k for l, k in zip(lab, cnt) if k}
    exp = {x: rows.count(x) for x in rows if x != FILT}
    require(got == exp, "group counts after the edits", got=got, expected=exp, case=c)
    for fn, f in (("first", lambda v: v[0]), ("last", lambda v: v[-1]), ("median", lambda v: float(np.median(v))), ("apply_reduce", lambda v: sum(v))):
        d = cat.apply_reduce(lambda a: a.sum(), rn) if fn == "apply_reduce" else getattr(cat, fn)(rn)
        col = [k for k in d.keys() if k not in d.label_get_names()][0]
        got = {l: x for l, x in zip(canon(d[d.label_get_names()[0]]), npy(np.asarray(d[col]))) if l in exp}
        want_ = {x: f([i for i, y in enumerate(rows) if y == x]) for x in exp}
        require(got == want_, f"group {fn} after the edits", got=got, expected=want_, case=c)


def to_k(kind, x):
    return x.encode() if kind in ("S", "S0") else x


@facet("C10", s_hist(), quick=2600, shards=2, rule="at least two edits on an array with more than one distinct value")
def history(c):
    w = World(c)
    w.check("construction")
    kind = c["kind"]
    news = NEWU if kind == "U" else NEWS
    n = len(c["v"])
    for o, a, b, m in c["ops"]:
        cat, rows = w.items[w.cur]
        nrow = len(rows)
        cats = cats_of(cat)
        if not cats or nrow == 0:
            break
        val = cats[a % len(cats)]
        mask = [bool(m >> (i % 12) & 1) for i in range(nrow)]
        what = f"{o}({a},{b},{m})"
        base = cat.base_index
        if o == "set":
            i = b % nrow
            if m % 3 == 0:
                i -= nrow
            if m % 5 == 0:
                cat[i] = to_k(kind, val)
            else:
                cat[i] = val
            rows[i] = val
        elif o == "setmask":
            cat[rt.FastArray(np.array(mask, dtype=bool))] = val
            rows[:] = [val if y else x for x, y in zip(rows, mask)]
        elif o == "setslice":
            s = slice(b % (nrow + 1), None, 1 + m % 3)
            cat[s] = val
            for i in range(*s.indices(nrow)):
                rows[i] = val
        elif o == "setfancy":
            ix = [i for i, y in enumerate(mask) if y]
            if not ix:
                continue
            cat[ix if m % 2 else rt.FastArray(np.array(ix, dtype="int32"))] = val
            for i in ix:
                rows[i] = val
        elif o == "setval":
            src = cats[b % len(cats)]
            cat[src] = val
            rows[:] = [val if x == src else x for x in rows]
        elif o == "setf":
            if cat.category_array.dtype.kind != "f":
                continue
            cat[b % nrow] = float(val)
            rows[b % nrow] = val
        elif o == "code":
            i = b % nrow
            cat[i] = int(a % len(cats) + base)
            rows[i] = val
        elif o == "codes":
            ix = [i for i, y in enumerate(mask) if y]
            if not ix:
                continue
            cd = [(a + i) % len(cats) for i in ix]
            cat[ix] = rt.FastArray(np.array([x + base for x in cd], dtype=cat._fa.dtype))
            for i, x in zip(ix, cd):
                rows[i] = cats[x]
        elif o == "setcat":
            # assign rows of an equal-category array
            k = min(1 + b % nrow, nrow)
            src = cat[:k].copy()
            dst = cat[nrow - k:]
            new = rows[:k]
            cat[nrow - k:] = src
            rows[nrow - k:] = new
        elif o == "fromcat":
            if kind == "num" and base != 1:
                continue
            require(cat.from_bin(cat.from_category(val)) == (val if kind == "num" else to_k(kind, val)), "from_bin(from_category)", case=c)
            continue
        elif o == "add":
            nw = news[a % len(news)]
            if nw in cats:
                continue
            cat.category_add(nw)
            require(cats_of(cat) == cats + [nw], "category_add appends the category", got=cats_of(cat), expected=cats + [nw], case=c)
        elif o == "remove":
            if len(cats) == 1 or (base == 0 and val in rows):
                continue  # (a base 0 array has no code for a removed value)
            cat.category_remove(val)
            rows[:] = [FILT if x == val else x for x in rows]
            require(cats_of(cat) == [x for x in cats if x != val], "category_remove removes the category", got=cats_of(cat), case=c)
        elif o == "replace":
            nw = (news + cats)[b % (len(news) + len(cats))]
            if nw == val:
                continue
            cat.category_replace(val, nw)
            rows[:] = [nw if x == val else x for x in rows]
            if nw not in cats:
                require(cats_of(cat) == [nw if x == val else x for x in cats], "category_replace renames the category", got=cats_of(cat), case=c)
        elif o == "auto":
            nw = news[a % len(news)]
            i = b % nrow
            if nw not in cats and m % 4 == 0:
                cat.auto_add_off()
                try:
                    cat[i] = nw
                    fail("an unknown category was accepted without automatic addition", case=c)
                except ValueError:
                    pass
                w.check("rejected " + what)
            cat.auto_add_on()
            cat[i] = nw
            cat.auto_add_off()
            rows[i] = nw
            require(nw in cats_of(cat) and set(cats) <= set(cats_of(cat)), "automatic addition keeps the old categories", got=cats_of(cat), case=c)
        elif o == "lock":
            cat.lock()
            for f in (lambda: cat.category_add("Z"), lambda: cat.category_remove(val), lambda: cat.category_replace(val, "Z"), lambda: cat.__setitem__(0, val)):
                try:
                    f()
                    fail("a locked category array was edited", case=c)
                except (ValueError, IndexError):
                    pass
            w.check("locked " + what)
            cat.unlock()
        elif o in ("copy", "deepcopy"):
            import copy as _c

            new = cat.copy() if o == "copy" else _c.deepcopy(cat)
            if len(w.items) < 4:
                w.items.append((new, list(rows)))
                if m % 2:
                    w.cur = len(w.items) - 1
        elif o == "switch":
            w.cur = a % len(w.items)
            continue
        elif o == "valid":
            f = rt.FastArray(np.array(mask, dtype=bool)) if b % 3 else None
            new = cat.set_valid(f)
            nr = [x if f is None or y else FILT for x, y in zip(rows, mask)]
            same_list(canon(new), nr, "set_valid", case=c)
            cat_sane(new, "set_valid", case=c)
            require(set(cats_of(new)) == {x for x in nr if x != FILT}, "set_valid keeps exactly the used categories", got=cats_of(new), case=c)
            if len(w.items) < 4:
                w.items.append((new, nr))
        elif o == "shrink":
            if base != 1:
                continue
            keep = [x for i, x in enumerate(cats) if b >> i & 1] or cats[:1]
            if m % 2:
                keep = keep[::-1]
            misc = None
            if m % 3 == 0 and kind != "num":
                misc = "other stuff"
                if misc in cats:
                    continue
            new = cat.shrink(keep if kind != "num" else rt.FastArray(np.array(keep, dtype=cat.category_array.dtype)), **({} if misc is None else {"misc": misc}))
            nr = [x if x in keep or x == FILT else (FILT if misc is None else misc) for x in rows]
            same_list(canon(new), nr, "shrink", case=c)
            cat_sane(new, "shrink", case=c)
            if len(w.items) < 4:
                w.items.append((new, nr))
        elif o == "grp":
            groups_ok(cat, rows, c)
            cat.unlock()  # a group operation locks the categories, as documented
        elif o == "rows":
            sub = cat[rt.FastArray(np.array(mask, dtype=bool))]
            sr = [x for x, y in zip(rows, mask) if y]
            same_list(canon(sub), sr, "rows of an edited category array", case=c)
            if len(w.items) < 4:
                w.items.append((sub, sr))
                if b % 2:
                    w.cur = len(w.items) - 1
        w.check(what)
    nt(len(c["ops"]) >= 2 and len(set(c["v"])) > 1)
    tag(kind)
    # the edited array still answers groupby and comparison by its current values
    for cat, rows in w.items:
        if not len(rows):
            continue
        for x in set(rows):
            if x != FILT:
                g = np.asarray(cat == x).tolist()
                require(g == [y == x for y in rows], f"comparison with {x!r} after the edits", got=g, expected=[y == x for y in rows], case=c)
        groups_ok(cat, rows, c)




# ---------------------------------------------------------------- mapped categoricals
@st.composite
def s_map(draw):
    n = draw(sizes(1, 10))
    m = draw(st.integers(0, 2))
    codes = list(MAPS[m])
    return {"m": m, "v": draw(vals(codes, n)), "ops": draw(st.lists(st.tuples(pick("set", "setmask", "code", "add", "remove", "replace", "new", "copy", "switch", "valid", "rows", "setval", "shrink"), st.integers(0, 999), st.integers(0, 999), st.integers(0, 2**12 - 1)), min_size=1, max_size=9))}


@facet("C10", s_map(), quick=1400, shards=2, rule="at least two edits")
def mapping(c):
    n = len(c["v"])
    items = [[rt.Categorical(rt.FastArray(np.array(c["v"], dtype="int32")), dict(MAPS[c["m"]])), list(c["v"]), dict(MAPS[c["m"]])]]
    cur = 0

    def chk(what):
        for i, (cat, rows, mp) in enumerate(items):
            g = {int(k): v for k, v in cat.category_mapping.items()}
            require(g == mp, f"mapping {i} after {what}", got=g, expected=mp, case=c)
            require(npy(np.asarray(cat._fa)) == rows, f"codes {i} after {what}", got=npy(np.asarray(cat._fa)), expected=rows, case=c)
            for j, x in enumerate(rows):
                if x in mp:
                    require(cat[j] == mp[x], f"element {j} after {what}", got=cat[j], expected=mp[x], case=c)
            for name in set(mp.values()) | {"x", "y", "z", "w"}:
                if name in mp.values():
                    e = [mp.get(x) == name for x in rows]
                    g = np.asarray(cat == name).tolist()
                    require(g == e, f"comparison with {name!r} after {what}", got=g, expected=e, case=c)
            ef = [x not in mp for x in rows]
            require(np.asarray(cat.isfiltered()).tolist() == ef, f"isfiltered after {what}", got=np.asarray(cat.isfiltered()).tolist(), expected=ef, case=c)

    chk("construction")
    for o, a, b, m in c["ops"]:
        cat, rows, mp = items[cur]
        codes = sorted(mp)
        n = len(rows)
        if not codes:
            break
        what = f"{o}({a},{b},{m})"
        code = codes[a % len(codes)]
        mask = [bool(m >> (i % 12) & 1) for i in range(n)]
        i = b % n
        if o == "set":
            cat[i] = mp[code]
            rows[i] = code
        elif o == "code":
            cat[i] = code
            rows[i] = code
            bad = max(codes) + 1
            try:
                cat[i] = bad
                fail("a code outside the mapping was accepted", case=c)
            except ValueError:
                pass
        elif o == "setmask":
            cat[rt.FastArray(np.array(mask, dtype=bool))] = mp[code]
            rows[:] = [code if y else x for x, y in zip(rows, mask)]
        elif o == "setval":
            src = codes[b % len(codes)]
            cat[mp[src]] = mp[code]
            rows[:] = [code if x == src else x for x in rows]
        elif o == "add":
            k = [20, 21, 4, 1][a % 4]
            nm = f"n{k}"
            if nm in mp.values():
                continue
            if k in mp:
                try:
                    cat.mapping_add(k, nm)
                    fail("mapping_add replaced an existing code", case=c)
                except ValueError:
                    pass
            else:
                cat.mapping_add(k, nm)
                mp[k] = nm
        elif o == "remove":
            cat.mapping_remove(code)
            del mp[code]
        elif o == "replace":
            nm = f"r{b % 3}"
            if nm in mp.values():
                continue
            old = mp[code]
            cat.mapping_replace(code, nm)
            mp[code] = nm
            if old not in mp.values():
                try:
                    g = cat == old
                except ValueError:
                    g = None
                require(g is None or not np.asarray(g).any(), "a replaced name still matches rows", got=g, case=c)
        elif o == "new":
            m2 = {1: "one", 2: "two", 5: "five", 7: "seven"}
            cat.mapping_new(dict(m2))
            mp.clear()
            mp.update(m2)
        elif o == "copy":
            if len(items) < 4:
                items.append([cat.copy(), list(rows), dict(mp)])
                if m % 2:
                    cur = len(items) - 1
        elif o == "switch":
            cur = a % len(items)
        elif o == "rows":
            sub = cat[rt.FastArray(np.array(mask, dtype=bool))]
            require(npy(np.asarray(sub._fa)) == [x for x, y in zip(rows, mask) if y], "rows of a mapping", case=c)
            if len(items) < 4 and any(mask):
                items.append([sub, [x for x, y in zip(rows, mask) if y], dict(mp)])
                if b % 2:
                    cur = len(items) - 1
        elif o == "valid":
            new = cat.set_valid(rt.FastArray(np.array(mask, dtype=bool)))
            g = canon(new.as_singlekey()) if False else [new[j] for j in range(n)]
            for j in range(n):
                if mask[j] and rows[j] in mp:
                    require(g[j] == mp[rows[j]], "set_valid of a mapping", got=g, case=c)
                elif not mask[j]:
                    require(g[j] not in mp.values(), "set_valid keeps a masked row", got=g, case=c)
        chk(what)
    nt(len(c["ops"]) >= 2)




# ---------------------------------------------------------------- pure functions: map, shrink, one-hot, unique categories, fill
@st.composite
def s_fn(draw):
    n = draw(sizes(1, 12))
    kind = draw(pick("S", "S", "U", "num", "S0", "multi"))
    pool = {"S": WS, "S0": WS, "U": WU, "num": [3, 1, 2, 100], "multi": [0, 1, 2, 3]}[kind]
    return {"kind": kind, "v": draw(vals(pool, n)), "ord": draw(st.booleans()), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))) if kind != "S0" else None,
            "sel": draw(st.integers(0, 63)), "to": draw(pick("str", "int", "float")), "inv": draw(pick(None, None, "given")), "p": draw(st.integers(-4, 4)), "dup": draw(st.booleans()), "all": draw(st.booleans())}


MULTI = [(1, "a"), (2, "a"), (1, "bb"), (3, "c")]


@facet("C10", s_fn(), quick=1600, shards=2, rule="more than one distinct value")
def functions(c):
    kind, n = c["kind"], len(c["v"])
    if kind == "multi":
        f = None if c["filt"] is None else rt.FastArray(np.array(c["filt"], dtype=bool))
        v = [MULTI[i] for i in c["v"]]
        cat = rt.Categorical([rt.FastArray(np.array([x[0] for x in v], dtype="int32")), rt.FastArray(np.array([x[1].encode() for x in v], dtype="S2"))], filter=f)
    else:
        v = c["v"]
        cat = build(c)
    rows = [x if c["filt"] is None or c["filt"][i] else FILT for i, x in enumerate(v)]
    nt(n > 1 and len(set(rows)) > 1)
    tag(kind)
    before = snap(cat)
    if cat.base_index == 1:
        # shift keeps whole values
        p = c["p"]
        g = cat.shift_cat(p)
        e = [rows[i - p] if 0 <= i - p < n else FILT for i in range(n)]
        same_list(canon(g), e, f"shift_cat({p})", case=c)
        inv = cat.copy_invalid()
        same_list(canon(inv), [FILT] * n, "copy_invalid", case=c)
        cp = cat.copy()
        cp.fill_invalid()
        same_list(canon(cp), [FILT] * n, "fill_invalid", case=c)
    if kind == "multi":
        if not any(x != FILT for x in rows):
            return
        keep = [x for i, x in enumerate(MULTI) if c["sel"] >> i & 1] or MULTI[:2]
        if len(keep) < 2:
            keep = MULTI[:3]
        sh = cat.shrink([rt.FastArray(np.array([x[0] for x in keep], dtype="int32")), rt.FastArray(np.array([x[1].encode() for x in keep], dtype="S2"))])
        same_list(canon(sh), [x if x in keep else FILT for x in rows], "multikey shrink", case=c)
        sh = cat.shrink([rt.FastArray(np.array([x[0] for x in keep], dtype="int32")), rt.FastArray(np.array([x[1].encode() for x in keep], dtype="S2"))], misc=(99, "zz"))
        same_list(canon(sh), [x if x in keep or x == FILT else (99, "zz") for x in rows], "multikey shrink with misc", case=c)
        cp = cat.copy()
        i = c["sel"] % n
        used = [x for x in rows if x != FILT]
        cp[i] = used[0]
        same_list(canon(cp), [used[0] if j == i else x for j, x in enumerate(rows)], "assign a key tuple", case=c)
        cp = cat.copy()
        cp[used[-1]] = used[0]
        same_list(canon(cp), [used[0] if x == used[-1] else x for x in rows], "assign a key tuple to the rows of another", case=c)
        require(snap(cat) == before, "the original was changed", case=c)
        return
    cats = cats_of(cat)
    # map by dictionary
    src = cats if c["all"] else [x for i, x in enumerate(cats) if c["sel"] >> i & 1] or cats[:1]
    src = src[::-1]
    if src:
        tgt = {"str": ["t%d" % (i % 3) for i in range(9)], "int": [10 * (i % 4) + 1 for i in range(9)], "float": [0.5 + i for i in range(9)]}[c["to"]]
        mp = {x: tgt[i] for i, x in enumerate(src)}
        inval = None if c["inv"] is None else {"str": "MISS", "int": -5, "float": -0.5}[c["to"]]
        dflt = inval if inval is not None else {"str": "Inv", "int": INV["int32"] if False else None, "float": None}[c["to"]]
        g = canon(cat.map(dict(mp), **({} if inval is None else {"invalid": inval})))
        full = set(cats) <= set(mp)
        for i, x in enumerate(rows):
            if x in mp:
                require(g[i] == mp[x], "map by dictionary", got=g, expected=[mp.get(y, dflt) for y in rows], case=c)
            elif x != FILT or not full:
                require(g[i] == dflt, "map: value outside the dictionary", got=g, expected=[mp.get(y, dflt) for y in rows], case=c)
        arr = np.array([t.encode() if isinstance(t, str) else t for t in tgt[: len(cats)]])
        g = canon(cat.map(rt.FastArray(arr), **({} if inval is None else {"invalid": inval})))
        e = [tgt[cats.index(x)] if x != FILT else dflt for x in rows]
        if c["dup"] or len(set(tgt[: len(cats)])) == len(cats):
            same_list(g, e, "map by array", case=c)
    # one-hot
    if kind != "U" or True:
        lab, hot = cat.one_hot_encode(return_labels=True)
        require(len(hot) == len(cats), "one-hot columns", case=c)
        for x, col in zip(cats, hot):
            same_list([int(t) for t in np.asarray(col).tolist()], [int(y == x) for y in rows], f"one-hot column of {x!r}", case=c)
    require(snap(cat) == before, "the original was changed", case=c)
    # duplicate category labels made unique
    if kind in ("S", "num", "S0"):
        base = cat.base_index
        dupcats = cats + cats[:1]
        lbl = np.array([x.encode() for x in dupcats]) if kind != "num" else np.array(dupcats, dtype="int64")
        codes = np.array([(cats.index(x) if not (i % 2 and cats.index(x) == 0) else len(cats)) + base if x != FILT else 0 for i, x in enumerate(rows)], dtype="int32")
        from riptable import Categorical as C

        if cats:
            d = C(codes, lbl, base_index=base)
            u = d.category_make_unique()
            same_list(canon(u), rows, "category_make_unique", case=c)
            cat_sane(u, "category_make_unique", case=c)
    # align
    if base_ok(cat):
        other = rt.Categorical(np.array([b"zz", b"new", b"a"])) if kind == "S" else rt.Categorical(rt.FastArray(np.array([100, 7, 1], dtype="int64"))) if kind == "num" else None
        if other is not None and cats:
            x, y = rt.Categorical.align([cat, other])
            same_list(canon(x), rows, "align first", case=c)
            same_list(canon(y), ["zz", "new", "a"] if kind == "S" else [100, 7, 1], "align second", case=c)
            require(cats_of(x) == cats_of(y), "aligned categories", case=c)
            cat_sane(x, "align", case=c)
    require(snap(cat) == before, "the original was changed", case=c)
    # assignment from a category array with other categories
    if kind == "S":
        dst = rt.Categorical(np.array([x.encode() for x in WS + ["zz"] * n]))
        vals_ = WS + ["zz"] * n
        used = [x for x in rows if x != FILT]
        if used:
            srcc = rt.Categorical(np.array([x.encode() for x in used]))
            dst[len(WS) : len(WS) + len(used)] = srcc
            vals_[len(WS) : len(WS) + len(used)] = used
            same_list(canon(dst), vals_, "assignment from a category array with other categories", case=c)


def base_ok(cat):
    return cat.base_index == 1




# ---------------------------------------------------------------- many categories: codes near the limit of their type
@st.composite
def s_many(draw):
    return {"n": draw(st.integers(90, 99)), "how": draw(pick("add", "auto", "autoctor", "setcat")), "k": draw(st.integers(20, 45)), "base": draw(pick(1, 1, 0)), "pre": draw(pick("a", "z"))}


@facet("C10", s_many(), quick=60, rule="always: the number of categories approaches or passes the largest code of the type")
def many_categories(c):
    """growing the category list past the code type's range either works or is refused; it never changes rows"""
    v = [f"x{i:03d}" for i in range(c["n"])]
    cat = rt.Categorical(np.array([x.encode() for x in v]), base_index=c["base"], **({"auto_add": True} if c["how"] == "autoctor" else {}))
    if c["how"] == "auto":
        cat.auto_add_on()
    nt(c["how"])
    rows = list(v)
    for i in range(c["k"]):
        w = f"{c['pre']}{i:03d}"
        try:
            if c["how"] == "add":
                cat.category_add(w)
                cat[i] = w
            elif c["how"] == "setcat":
                cat.auto_add_on()
                cat[i : i + 1] = rt.Categorical(np.array([w.encode()]))
            else:
                cat[i] = w
        except ValueError:
            require(c["n"] + i + c["base"] > np.iinfo(cat.dtype).max, "a category that fits was refused", case=c)
            break
        rows[i] = w
    same_list(canon(cat), rows, "rows after adding many categories", case=c)
    cat_sane(cat, "many categories", case=c)
