"""C16: edit histories of a Dataset replayed on an ordered name -> column model; row/column selection; rejected edits."""
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *

KINDS = ["int32", "float64", "int64", "bool", "S", "cat", "date", "dtn", "tspan", "int8", "U", "catf", "float32", "uint16", "dspan"]
NAMES = ["a", "b", "c", "ab", "bx", "xb", "Zed", "n1", "q x", "1d"]
BADN = ["_x", "sum", "keys", "class", "shape", "size", "head", "for"]
ONE = {"S": ["p", "q", ""], "U": ["p", "ñ", ""], "bool": [True, False], "cat": ["b", "a"], "catf": ["b", "a"]}


class Col:
    """model of a column: kind, canonical values, dtype"""

    def __init__(self, k, v, dt):
        self.k, self.v, self.dt = k, list(v), dt

    def take(self, ix):
        return Col(self.k, [self.v[i] for i in ix], self.dt)


@st.composite
def s_fresh(draw, n, kinds=KINDS):
    k = draw(pick(kinds))
    m = n
    c = {"k": k}
    if k in ONE:
        c["v"] = draw(vals(ONE[k], m))
        if k in ("cat", "catf") and m:
            c["v"][0] = "b"
    elif k in NUMK:
        c["v"] = draw(vals([0, 1, 2, 3, 100] + ([None] if k not in ("bool",) else []), m))
    else:
        c["v"] = draw(vals([18000, 18001, 1, None, 17000], m))
    if k == "dtn":
        c["tz"] = 0
    return c


def build(c):
    a = mkcol(c)
    return a, Col(c["k"], want(c), a.dtype)


def resize(c, n):
    """the same spec with exactly n rows (the history decides how many rows there are)"""
    v = c["v"]
    if not v:
        v = [ONE.get(c["k"], [1])[0]]
    return dict(c, v=[v[i % len(v)] for i in range(n)])


def check(ds, m, what, **ctx):
    names = list(m)
    require(list(ds.keys()) == names, f"{what}: column names", got=list(ds.keys()), expected=names, **ctx)
    require(list(ds) == names and len(ds.values()) == len(names) and [k for k, _ in ds.items()] == names, f"{what}: iteration", **ctx)
    if names:
        n = len(m[names[0]].v)
        require(ds.shape == (n, len(names)), f"{what}: shape", got=ds.shape, expected=(n, len(names)), **ctx)
        require(len(ds) == n and ds.get_nrows() == n and ds.get_ncols() == len(names), f"{what}: len/get_nrows/get_ncols", got=(len(ds), ds.get_nrows(), ds.get_ncols()), expected=(n, len(names)), **ctx)
    for k, c in m.items():
        a = ds[k]
        require(len(a) == len(c.v), f"{what}: length of column {k}", got=len(a), expected=len(c.v), **ctx)
        check_col(a, c.v, c.k, f"{what}: column {k}", **ctx)
        if c.dt is not None:
            require(a.dtype == c.dt, f"{what}: dtype of {k}", got=a.dtype, expected=c.dt, **ctx)
        require(k in ds and ds.col_exists(k), f"{what}: {k} in ds", **ctx)
        if k.isidentifier():
            require(snap(getattr(ds, k)) == snap(a), f"{what}: ds.{k} is not ds['{k}']", **ctx)


def rejected(ds, m, f, what, exc=Exception, **ctx):
    try:
        f()
    except exc:
        pass
    except Exception as e:
        fail(f"{what}: raised {type(e).__name__}: {str(e)[:100]}", **ctx)
    else:
        check(ds, m, what + " neither rejected nor ignored", **ctx)
        fail(f"{what}: accepted", **ctx)
    check(ds, m, what + " (after rejection)", **ctx)


def rowsel(spec, n):
    """row selector object and the positions it selects"""
    kind, a, b = spec
    if kind == "mask":
        mk = [(i * a + b) % 3 != 0 for i in range(n)]
        return rt.FastArray(np.array(mk, dtype=bool)), [i for i in range(n) if mk[i]]
    if kind == "npmask":
        mk = [(i * a + b) % 2 == 0 for i in range(n)]
        return np.array(mk, dtype=bool), [i for i in range(n) if mk[i]]
    if kind == "fancy" and n:
        ix = [(i * a + b) % n for i in range(1 + a % 5)]
        return rt.FastArray(np.array(ix, dtype=["int32", "int64", "int8"][b % 3])), ix
    if kind == "list" and n:
        ix = [(i * a + b) % n for i in range(1 + b % 4)]
        return list(ix), ix
    if kind == "neg" and n:
        ix = [-1 - (i * a + b) % n for i in range(1 + a % 3)]
        return rt.FastArray(np.array(ix, dtype="int64")), [n + i for i in ix]
    s = [slice(a % 4, None), slice(None, -(b % 3) or None), slice(None, None, 1 + a % 3), slice(a % 3, b, 2), slice(None, None, -1), slice(None), slice(-(a % 4) - 1, None)][(a + b) % 7]
    return s, list(range(n))[s]


SEL = st.tuples(pick(["mask", "fancy", "list", "slice", "npmask", "neg"]), st.integers(1, 7), st.integers(0, 6))
OPS = ["add", "add", "add", "scalar", "len1", "badlen", "badname", "rename", "rename", "map", "swap", "front", "back", "del", "remove", "pop", "prefix", "suffix", "strrep", "filter", "rows", "rows", "cols", "cell", "cell", "cell", "rowset", "subset", "putmask", "copy", "colfilter", "missing", "sort", "lock", "scalarall", "swapsort", "dsadd"]


@st.composite
def s_hist(draw, kinds=KINDS):
    n = draw(pick([3, 4, 1, 5, 2, 6, 0]))
    k0 = draw(st.integers(1, 4))
    kk = [k for k in kinds if n or not k.startswith("cat")]
    cols = [[NAMES[i], draw(s_fresh(n, kk))] for i in range(k0)]
    ops = draw(st.lists(st.tuples(pick(OPS), st.integers(0, 30), st.integers(0, 30), SEL, s_fresh(6, kinds)), min_size=1, max_size=10))
    return {"n": n, "cols": cols, "ops": [list(o) for o in ops], "mk": draw(pick(["dict", "setattr"]))}


def mutate(a, c, ix, val):
    """assign canonical val to positions ix of model column"""
    for i in ix:
        c.v[i] = val


def cellval(c, x):
    """(python value to assign, canonical) legal for column model c, or None"""
    k = c.k
    if k in ("S", "U"):
        w = [s for s in ONE[k] if s and (k == "U" or s != "ñ")]
        v = w[x % len(w)]
        return (v, v)
    if k in ("cat", "catf"):
        have = sorted({v for v in c.v if v != FILT})
        if not have:
            return None
        v = have[x % len(have)]
        return (v, v)
    if k == "bool":
        return (bool(x % 2), bool(x % 2))
    if k in NUMK:
        v = [5, 0, 7, 1][x % 4]
        return (v, float(v) if k.startswith("f") else v)
    if k == "date":
        return (rt.Date(np.array([17001 + x], dtype="int32"))[0], 17001 + x)
    return None


def play(case, ds, m, sort_ok=True):
    kept = []
    done = 0
    for step, (op, x, y, sel, fresh) in enumerate(case["ops"]):
        names = list(m)
        n = len(m[names[0]].v) if names else None
        ctx = dict(step=step, op=op)
        W = f"after step {step} ({op})"
        pickn = names[x % len(names)] if names else None
        other = names[y % len(names)] if names else None
        if op == "add":
            nm = NAMES[x % len(NAMES)]
            nn_ = n if n is not None else y % 4
            if nn_ == 0 and fresh["k"].startswith("cat"):
                continue
            a, c = build(resize(fresh, nn_))
            if y % 3 == 0 and nm.isidentifier():
                setattr(ds, nm, a)
            elif y % 3 == 1 or n is None:
                ds[nm] = a
            else:
                ds[:, nm] = a
            m[nm] = c
        elif op == "dsadd":
            # a one-column table as the value
            if not n:
                continue
            nm = NAMES[x % len(NAMES)]
            a, c = build(resize(fresh, n))
            ds[nm] = rt.Dataset({"only": a})
            m[nm] = c
        elif op == "scalar":
            if n is None:
                continue
            nm = NAMES[x % len(NAMES)]
            v = [5, 2.5, True, "foo", -3][y % 5]
            if y % 2 and nm.isidentifier():
                setattr(ds, nm, v)
            else:
                ds[nm] = v
            k = ["int64", "float64", "bool", None, "int64"][y % 5]
            if k is None:
                k = ds[nm].dtype.char
                require(k in "SU", f"{W}: dtype of a string constant", got=ds[nm].dtype)
            m[nm] = Col(k, [v] * n, None if k in "SU" else np.dtype(k))
        elif op == "len1":
            if not n:
                continue
            nm = NAMES[x % len(NAMES)]
            v = [[7], np.array([7]), [2.5]][y % 3]
            ds[nm] = v
            m[nm] = Col("float64" if y % 3 == 2 else "int64", [v[0]] * n, None)
        elif op == "badlen":
            if n is None:
                continue
            bad = [k for k in (n + 1, n - 1, n + 3, 2 * n) if k > 1 and k != n]
            if not bad:
                continue
            nm = NAMES[x % len(NAMES)]
            a, _ = build(resize(fresh, bad[y % len(bad)]))
            f = [lambda: ds.__setitem__(nm, a), lambda: setattr(ds, nm, a), lambda: setattr(ds, nm, [1] * len(a)), lambda: ds.__setitem__(nm, np.ones(len(a)))][y % 4]
            rejected(ds, m, f, W, **ctx)
        elif op == "badname":
            if n is None:
                continue
            b = BADN[x % len(BADN)]
            v = np.arange(n)
            f = [lambda: ds.__setitem__(b, v), lambda: ds.col_rename(pickn, b), lambda: ds.col_map({**{k: "zz%d" % i for i, k in enumerate(names)}, pickn: b}), lambda: rt.Dataset({pickn: v, "_z": v})][y % 4]
            rejected(ds, m, f, W, **ctx)
            if b in ("sum", "keys", "head", "shape", "size"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        setattr(ds, b, v)
                    except Exception:
                        pass
                check(ds, m, W + f": ds.{b} = value", **ctx)
        elif op == "rename":
            new = NAMES[y % len(NAMES)]
            if n is None:
                continue
            if new in m and new != pickn:
                rejected(ds, m, lambda: ds.col_rename(pickn, new), W, **ctx)
            else:
                ds.col_rename(pickn, new)
                require(ds[new].get_name() == new, "a renamed column carries its new name", got=ds[new].get_name(), want=new)
                m = {new if k == pickn else k: c for k, c in m.items()}
        elif op == "map":
            if n is None:
                continue
            tgt = [NAMES[(y + 3 * i) % len(NAMES)] for i in range(len(names))]
            mp = {k: t for i, (k, t) in enumerate(zip(names, tgt)) if (x >> i) & 1 and k != t}
            if not mp:
                continue
            res = [mp.get(k, k) for k in names]
            if len(set(res)) != len(res):
                rejected(ds, m, lambda: ds.col_map(mp), W, map=mp, **ctx)
                continue
            ds.col_map(mp)
            new = {mp.get(k, k): c for k, c in m.items()}
            cyc = any(t in names for t in mp.values())
            if cyc:
                require(set(ds.keys()) == set(new), f"{W}: names after col_map", got=list(ds.keys()), map=mp)
                new = {k: new[k] for k in ds.keys()}
            m = new
        elif op in ("swap", "swapsort"):
            if n is None or len(names) < 2:
                continue
            fr = names[: 2 + x % (len(names) - 1)]
            to = fr[1:] + fr[:1] if y % 2 else fr[::-1]
            ds.col_swap(fr, to)
            old = dict(m)
            for f, t in zip(fr, to):
                m[t] = old[f]
        elif op in ("front", "back"):
            if n is None:
                continue
            cols = [pickn] + ([other] if other != pickn else [])
            arg = [cols, pickn, tuple(cols), x % len(names), np.array(cols)][y % 5]
            if y % 5 in (1, 3):
                cols = [pickn]
            (ds.col_move_to_front if op == "front" else ds.col_move_to_back)(arg)
            rest = [k for k in names if k not in cols]
            m = {k: m[k] for k in (cols + rest if op == "front" else rest + cols)}
        elif op == "del":
            if n is None:
                continue
            f = [lambda: ds.__delitem__(pickn), lambda: ds.__delattr__(pickn), lambda: ds.col_delete(pickn)][y % 3]
            f()
            del m[pickn]
        elif op == "remove":
            if n is None:
                continue
            form = y % 6
            if form == 0:
                rm = [pickn, other]
                ds.col_remove(rm)
            elif form == 1:
                rm = [k for k in names if "b" in k]
                ds.col_remove(like="b")
            elif form == 2:
                rm = [k for k in names if k[-1] in "bx"]
                ds.col_remove(regex="[bx]$")
            elif form == 3:
                rm = [pickn]
                ds.col_remove(x % len(names))
            elif form == 4:
                rm = [pickn]
                ds.col_remove([pickn, "nope"], on_missing="ignore")
            else:
                rejected(ds, m, lambda: ds.col_remove([pickn, "nope"], on_missing="raise"), W, IndexError, **ctx)
                rm = []
            for k in set(rm):
                del m[k]
        elif op == "pop":
            if n is None:
                continue
            if y % 3 == 0:
                got = ds.col_pop(pickn)
                check_col(got, m[pickn].v, m[pickn].k, f"{W}: popped column", **ctx)
                del m[pickn]
            elif y % 3 == 1:
                cols = [pickn] + ([other] if other != pickn else [])
                got = ds.col_pop(cols)
                check(got, {k: m[k] for k in cols}, f"{W}: popped table", **ctx)
                for k in cols:
                    del m[k]
            else:
                rejected(ds, m, lambda: ds.col_pop([pickn, "nope"]), W, IndexError, **ctx)
        elif op in ("prefix", "suffix"):
            if n is None or max(map(len, names)) > 8:
                continue
            p = ["z", "b_", "x"][x % 3]
            (ds.col_add_prefix if op == "prefix" else ds.col_add_suffix)(p)
            m = {(p + k if op == "prefix" else k + p): c for k, c in m.items()}
        elif op == "strrep":
            if n is None:
                continue
            o, w = [("x", ""), ("b", "c"), ("a", "bb"), ("z", "y"), ("b", "")][x % 5]
            res = [k.replace(o, w) for k in names]
            if any(r != k and r in names for k, r in zip(names, res)) or len(set(res)) != len(res):
                rejected(ds, m, lambda: ds.col_str_replace(o, w), W, names=names, **ctx)
            elif all(r and r not in BADN and r[0] != "_" for r in res):
                ds.col_str_replace(o, w)
                m = {r: c for r, c in zip(res, m.values())}
        elif op == "filter":
            if n is None:
                continue
            s, ix = rowsel(sel, n)
            if isinstance(s, slice):
                s = np.array(ix, dtype="int64")
            inp = bool(y % 2)
            r = ds.filter(s, inplace=inp)
            new = {k: c.take(ix) for k, c in m.items()}
            if not inp:
                kept.append((W + ": source of filter", ds, snapm(m)))
                ds = r
            m = new
        elif op == "rows":
            if n is None:
                continue
            s, ix = rowsel(sel, n)
            r = ds[s, :]
            require(type(r) is type(ds), f"{W}: class", got=type(r))
            ds, m = r.copy(), {k: c.take(ix) for k, c in m.items()}
        elif op == "cols":
            if n is None:
                continue
            cols = [pickn] + ([other] if other != pickn else [])
            if y % 4 == 0:
                r = ds[cols]
            elif y % 4 == 1:
                r = ds[:, cols]
            elif y % 4 == 2:
                s, ix = rowsel(sel, n)
                r = ds[s, cols]
                m = {k: c.take(ix) for k, c in m.items()}
            else:
                mask = [k in cols for k in names]
                r = ds[np.array(mask)]
                cols = [k for k in names if k in cols]
            ds, m = r.copy(), {k: m[k] for k in cols}
        elif op == "cell":
            if not n:
                continue
            c = m[pickn]
            cv = cellval(c, y)
            if cv is None:
                continue
            val, can = cv
            form = (x + y) % 6
            if form == 0:
                ds[y % n, pickn] = val
                ix = [y % n]
            elif form == 1:
                s, ix = rowsel(sel, n)
                if isinstance(s, slice) and s == slice(None):  # replaces the column by a constant
                    continue
                ds[s, pickn] = val
            elif form == 2:
                s, ix = rowsel(sel, n)
                ds[pickn][s] = val
            elif form == 3:
                ds[-1 - y % n, pickn] = val
                ix = [n - 1 - y % n]
            elif form == 4:
                s, ix = rowsel(sel, n)
                if isinstance(s, slice) or not ix:
                    continue
                ds[s, x % len(names)] = val
            else:
                s, ix = rowsel(("mask",) + tuple(sel[1:]), n)
                if c.k in ("cat", "catf", "date") or not ix:
                    continue
                arr = build(resize({"k": c.k, "v": [cellval(c, y + j)[1] for j in range(len(ix))]}, len(ix)))[0]
                ds[s, pickn] = arr
                for j, i in enumerate(ix):
                    c.v[i] = canon(arr)[j]
                ix = []
            mutate(None, c, ix, can)
        elif op == "rowset":
            # one row, several columns, one value per column
            if not n or n == 1:
                continue
            cols = [k for k in names if cellval(m[k], y) is not None]
            if len(cols) < 2:
                continue
            r = y % n
            vs = [cellval(m[k], y + j) for j, k in enumerate(cols)]
            ds[r, cols] = [v for v, _ in vs]
            for k, (_, can) in zip(cols, vs):
                m[k].v[r] = can
        elif op == "scalarall":
            if not n:
                continue
            cols = [k for k in names if m[k].k in NUMK]
            if len(cols) < 2:
                continue
            s, ix = rowsel(sel, n)
            if not ix or (isinstance(s, slice) and s == slice(None)):
                continue
            ds[s, cols] = 4
            for k in cols:
                for i in ix:
                    m[k].v[i] = 4
        elif op == "subset":
            # rows of several columns from a table of the same shape
            if not n:
                continue
            cols = [k for k in names if m[k].k not in CATK]
            if len(cols) < 2:
                continue
            s, ix = rowsel(sel, n)
            if len(ix) < 2 or len(set(ix)) != len(ix) or (isinstance(s, slice) and s == slice(None)):
                continue
            src = {}
            for j, k in enumerate(cols):
                v = m[k].v[::-1]
                src[f"s{j}"] = Col(m[k].k, [v[i] for i in ix], m[k].dt)
            sds = rt.Dataset({f"s{j}": ds[k].copy()[::-1][np.array(ix)] for j, k in enumerate(cols)})
            ds[s, cols] = sds
            for j, k in enumerate(cols):
                for t, i in enumerate(ix):
                    m[k].v[i] = src[f"s{j}"].v[t]
        elif op == "putmask":
            if not n or any(c.k in CATK for c in m.values()):
                continue
            mk = [(i * sel[1] + sel[2]) % 3 != 0 for i in range(n)]
            sds = rt.Dataset({f"s{j}": ds[k].copy()[::-1].copy() for j, k in enumerate(names)})
            ds.putmask(np.array(mk), sds)
            for k in names:
                rev = m[k].v[::-1]
                m[k].v = [rev[i] if mk[i] else m[k].v[i] for i in range(n)]
        elif op == "copy":
            if n is None:
                continue
            r = ds.copy(deep=True)
            kept.append((W + ": original of copy", ds, snapm(m)))
            ds = r
        elif op == "colfilter":
            if n is None:
                continue
            form = x % 4
            if form == 0:
                want_ = [other, pickn] if other != pickn else [pickn]
                f = lambda: ds.col_filter(want_)
            elif form == 1:
                want_ = [k for k in names if "b" in k]
                f = lambda: ds.col_filter(like="b")
            elif form == 2:
                want_ = [k for k in names if k[0] in "ab"]
                f = lambda: ds.col_filter(regex="^[ab]")
            else:
                want_ = list(dict.fromkeys([other] + [k for k in names if "b" in k]))
                f = lambda: ds.col_filter(items=[other], like="b")
            if not want_:
                rejected(ds, m, f, W, **ctx)
            else:
                ds = f()
                m = {k: m[k] for k in want_}
                ds = ds.copy()
        elif op == "missing":
            if n is None:
                continue
            f = [lambda: ds["nope"], lambda: ds[0, "nope"], lambda: ds[["nope"]], lambda: ds.__delitem__("nope"), lambda: ds.col_rename("nope", "zzz"), lambda: ds[99, :], lambda: ds[:, 99], lambda: ds[[n + 2], :], lambda: ds[np.ones(n + 1, dtype=bool), :], lambda: ds.filter(np.ones(n + 2, dtype=bool)), lambda: ds.__setitem__((0, "nope"), 1), lambda: ds[None], lambda: ds[0, 1, 2], lambda: ds.nope][x % 14]
            rejected(ds, m, f, W, form=x % 14, **ctx)
        elif op == "sort":
            if not n or not sort_ok:
                continue
            k = m[pickn].k
            if k not in NUMK or any(v is None for v in m[pickn].v):
                continue
            desc = bool(y % 2)
            v = m[pickn].v
            ix = sorted(range(n), key=lambda i: (v[i], 0))
            if desc:
                ix = sorted(range(n), key=lambda i: -v[i])
            if len(set(v)) < n:  # ties: only the multiset of rows is claimed here (C05 owns stability)
                continue
            if y % 4 < 2:
                ds.sort_inplace(pickn, ascending=not desc)
            else:
                r = ds.sort_copy(pickn, ascending=not desc)
                kept.append((W + ": source of sort_copy", ds, snapm(m)))
                ds = r
            m = {k: c.take(ix) for k, c in m.items()}
        elif op == "lock":
            if n is None:
                continue
            ds._lock()
            try:
                f = [lambda: ds.__setitem__("newc", 1), lambda: ds.__delitem__(pickn), lambda: ds.col_rename(pickn, "zz"), lambda: setattr(ds, pickn, 3), lambda: ds.col_remove(pickn), lambda: ds.col_move_to_front(pickn), lambda: ds.col_map({pickn: "zz"})][x % 7]
                rejected(ds, m, f, W + " on a locked table", AttributeError, **ctx)
            finally:
                ds._unlock()
        done += 1
        tag(op)
        check(ds, m, W, **ctx)
    for w, d, mm in kept:
        check(d, mm, w + " (at the end)")
    return ds, m, done


def snapm(m):
    return {k: Col(c.k, c.v, c.dt) for k, c in m.items()}


def start(case):
    cols = [(nm, *build(c)) for nm, c in case["cols"]]
    d = {nm: a for nm, a, _ in cols}
    mk = case["mk"]
    if mk == "setattr":
        ds = rt.Dataset({})
        for nm, a, _ in cols:
            ds[nm] = a
    else:
        ds = rt.Dataset(d)
    return ds, {nm: c for nm, _, c in cols}


@facet("C16", s_hist(), quick=2600, shards=8, rule="history of 3 or more effective steps on a table with rows")
def history(case):
    ds, m = start(case)
    check(ds, m, "after construction")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, m2, done = play(case, ds, m)
    nt(done >= 3 and case["n"] > 0)


@st.composite
def s_rows(draw):
    n = draw(sizes(0, 8))
    kk = [k for k in ALLK if n or not k.startswith("c")]
    cols = [[NAMES[i], draw(scol(n, kk))] for i in range(draw(st.integers(1, 4)))]
    return {"n": n, "cols": cols, "sel": draw(SEL), "cs": draw(pick(["all", "one", "list", "slice", "mask", "int", "ints", "neg", "npstr", "rev"])), "lab": draw(st.booleans()), "x": draw(st.integers(0, 9))}


@facet("C16", s_rows(), quick=1600, shards=4, rule="selection of some but not all rows of 2 or more columns")
def selection(case):
    n = case["n"]
    arrs = [(k, mkcol(c)) for k, c in case["cols"]]
    ds = rt.Dataset(dict(arrs))
    m = {k: Col(c["k"], want(c), a.dtype) for (k, c), (_, a) in zip(case["cols"], arrs)}
    names = list(m)
    if case["lab"]:
        ds.label_set_names([names[0]])
    before = snap(ds)
    s, ix = rowsel(case["sel"], n)
    x = case["x"]
    cs = case["cs"]
    nc = len(names)
    if cs == "all":
        carg, cn = slice(None), names
    elif cs == "one":
        carg, cn = names[x % nc], names[x % nc]
    elif cs == "int":
        carg, cn = x % nc, names[x % nc]
    elif cs == "neg":
        carg, cn = -1 - x % nc, names[nc - 1 - x % nc]
    elif cs == "list":
        cn = names[x % nc :]
        carg = list(cn)
    elif cs == "rev":
        cn = names[::-1]
        carg = list(cn)
    elif cs == "slice":
        carg = slice(x % nc, None)
        cn = names[carg]
    elif cs == "ints":
        ii = list(range(nc))[:: 1 + x % 2]
        carg, cn = (ii if x % 3 else np.array(ii)), [names[i] for i in ii]
    elif cs == "npstr":
        cn = names[: 1 + x % nc]
        carg = np.array(cn, dtype="S" if x % 2 else "U")
    else:
        mk = [(i + x) % 2 == 0 for i in range(nc)]
        if not any(mk):
            mk[0] = True
        carg, cn = np.array(mk), [k for k, b in zip(names, mk) if b]
    nt(0 < len(ix) < n and not isinstance(cn, str) and len(cn) > 1, case["sel"][0], cs)
    got = ds[s, carg]
    if isinstance(cn, str):
        check_col(got, [m[cn].v[i] for i in ix], m[cn].k, f"ds[{case['sel']}, {carg!r}]", dtype=m[cn].dt)
    else:
        exp = {k: m[k].take(ix) for k in cn}
        check(got, exp, f"ds[rows, {cs}]")
        if case["lab"]:
            require(got.label_get_names() == [k for k in names[:1] if k in cn], "label columns after selection", got=got.label_get_names())
        got2 = ds[carg]
        check(got2, {k: m[k] for k in cn}, f"ds[{cs}]")
    if n:
        i = x % n
        for r in (i, i - n, np.int64(i)):
            one = ds[r, :]
            check(one, {k: c.take([i]) for k, c in m.items()}, f"ds[{r}, :]")
    # single row through iteration
    for i, (lab, row) in zip(range(3), ds.iterrows() if n else []):
        require(list(row.keys()) == names, "iterrows: names", got=list(row.keys()))
    require(snap(ds) == before, "selection changed the source")


@st.composite
def s_lab(draw):
    n = draw(st.integers(1, 8))
    multi = draw(st.booleans())
    return {"l1": draw(vals(["a", "b", "cc", "ab"], n)), "l2": draw(vals([1, 2, 3], n)), "multi": multi, "lk": draw(pick(["S", "cat", "U"])), "c": draw(scol(n, [k for k in ALLK])), "key": draw(st.lists(st.tuples(pick(["a", "b", "cc", "ab", "zz"]), pick([1, 2, 3, 9])), min_size=1, max_size=3)), "form": draw(pick(["str", "list", "np", "items", "tuple"]))}


@facet("C16", s_lab(), quick=500, shards=2, rule="a label present in some but not all rows")
def label_rows(case):
    """row selection by the values of the label column(s)"""
    n = len(case["l1"])
    w = case["l1"]
    l1 = rt.Categorical(np.array(w, dtype="S")) if case["lk"] == "cat" else rt.FastArray(np.array(w, dtype=case["lk"]), unicode=case["lk"] == "U")
    ds = rt.Dataset({"x": mkcol(case["c"]), "k": l1, "j": np.array(case["l2"], dtype="int64"), "i": np.arange(n)})
    before = snap(ds)
    form, key = case["form"], case["key"]
    if case["multi"] and form in ("tuple", "list"):
        ds.label_set_names(["k", "j"])
        sel = key[0] if form == "tuple" else list(key)
        keys = [key[0]] if form == "tuple" else key
        ix = [i for i in range(n) if (w[i], case["l2"][i]) in keys]
        call = lambda: ds[sel, :]
    else:
        ds.label_set_names(["k"])
        ks = [a for a, _ in key]
        if form in ("str", "tuple"):
            ks = ks[:1]
            call = lambda: ds[ks[0], :]
        elif form == "list":
            call = lambda: ds[list(ks), :]
        elif form == "np":
            call = lambda: ds[np.array(ks), :]
        else:
            call = lambda: ds.label_filter(items=ks)
        ix = [i for i in range(n) if w[i] in ks]
    nt(0 < len(ix) < n, form)
    got = call()
    require(list(got.keys()) == ["x", "k", "j", "i"], "names", got=list(got.keys()))
    same_list(canon(got.i), ix, "rows selected by label", form=form)
    check_col(got.x, [want(case["c"])[i] for i in ix], case["c"]["k"], "value column")
    same_list(canon(got.k), [w[i] for i in ix], "label column")
    require(set(got.label_get_names()) == set(ds.label_get_names()), "labels kept", got=got.label_get_names())
    require(snap(ds)[1] == before[1], "source changed")
