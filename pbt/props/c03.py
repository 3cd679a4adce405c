"""C03: histories of reads and writes through ints, slices, masks, lists and index arrays against a list model with views."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *

DTS = ["int32", "float64", "int64", "int8", "uint8", "float32", "uint16", "bool", "S", "U", "int16", "uint32", "uint64"]
IXD = ["int32", "int64", "int8", "uint8", "int16", "uint32", "uint64"]


def pool(d):
    if d == "S":
        return ["", "a", "bb", "ccc", "dddd"]
    if d == "U":
        return ["", "a", "bb", "ñññ", "日本"]
    if d == "bool":
        return [False, True]
    return pool_for(d, edge=True, inv=True)


def invd(d):
    return "" if d in "SU" else (False if d == "bool" else None)


@st.composite
def s_hist(draw):
    d = draw(pick(DTS))
    n = draw(sizes(0, 14))
    v = draw(vals(pool(d), n))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        tgt = draw(st.integers(0, 3))
        k = draw(pick("int", "slice", "mask", "list", "fancy", "fancy", "mask", "view", "setint", "setslice", "setmask", "setmask", "setlist", "setfancy"))
        o = {"k": k, "t": tgt, "i": draw(st.integers(-16, 16)), "sl": draw(st.tuples(st.one_of(st.none(), st.integers(-16, 16)), st.one_of(st.none(), st.integers(-16, 16)), pick(None, 1, 2, 3, -1, -2))),
             "m": draw(vals([True, False], 16)), "ix": draw(st.lists(st.integers(-17, 20), max_size=6)), "ixd": draw(pick(IXD)), "vd": draw(pick("same", "same", "float64", "int64", "scalar", "scalar", "nan", "list")),
             "v": draw(vals(pool(d), 16)), "ml": draw(pick("c", "c", "stride")), "inv": draw(st.booleans())}
        ops.append(o)
    return {"d": d, "v": v, "ops": ops}


def conv(x, d):
    return x


def to_arr(vs, d):
    return fa({"d": d, "v": vs})


def width(d, v):
    if d in "SU":
        return max([len(x) for x in v] + [1])
    return None


@facet("C03", s_hist(), quick=9000, shards=6, rule="a non-empty target was read or written at least once")
def history(c):
    """every read returns the model's elements; every write changes exactly the addressed ones, through views too"""
    d = c["d"]
    base = list(c["v"])
    arr = to_arr(base, d)
    w = arr.dtype.itemsize // (4 if d == "U" else 1) if d in "SU" else None
    views = [(arr, list(range(len(base))))]
    did = False
    for o in c["ops"]:
        a, pos = views[o["t"] % len(views)]
        cur = [base[p] for p in pos]
        n = len(cur)
        k = o["k"]
        mask = o["m"][:n]
        if n > 16:
            return
        M = np.array(mask, bool)
        if o["ml"] == "stride":
            M2 = np.zeros(2 * n, bool)
            M2[::2] = M
            M = M2[::2]
        M = M.view(rt.FastArray)
        sl = slice(*o["sl"])
        ixs = [i for i in o["ix"] if -n <= i < n] if k in ("list", "setlist", "setfancy") else list(o["ix"])
        if o["ixd"].startswith("u"):
            ixs = [abs(i) for i in ixs]
            if k in ("list", "setlist", "setfancy"):
                ixs = [i for i in ixs if i < n]
        did = did or n > 0
        if k == "int":
            i = o["i"]
            if -n <= i < n:
                g = a[i]
                require(eqs(g, cur[i], d), f"a[{i}]", got=g, expected=cur[i], model=cur)
            else:
                require(isinstance(raises(lambda: a[i]), IndexError), f"a[{i}] of length {n} must raise IndexError")
        elif k in ("slice", "view"):
            g = a[sl]
            cmpv(g, cur[sl], d, f"a[{sl}]")
            require(type(g) is rt.FastArray, "subclass kept")
            if k == "view" and len(views) < 4:
                views.append((g, pos[sl]))
        elif k == "mask":
            g = a[M]
            cmpv(g, [x for x, m in zip(cur, mask) if m], d, "a[mask]")
        elif k == "list":
            if ixs:
                cmpv(a[ixs], [cur[i] for i in ixs], d, f"a[{ixs}]")
        elif k == "fancy":
            I = np.array(ixs, dtype=o["ixd"])
            exp = [cur[i] if -n <= i < n else invd(d) for i in ixs]
            if o["inv"] and len(ixs):
                I = np.append(I, np.array([INV[o["ixd"]]], o["ixd"]))
                exp.append(invd(d))
            oob = any(not -n <= i < n for i in ixs) or o["inv"]
            contig = a.flags.f_contiguous
            if oob and not contig:
                continue
            g = a[I.view(rt.FastArray)]
            cmpv(g, exp, d, f"a[index array {I.tolist()} {I.dtype}] of length {n}")
        elif k.startswith("set"):
            if k == "setint":
                if not -n <= o["i"] < n:
                    require(isinstance(raises(a.__setitem__, o["i"], o["v"][0] if d in "SU" else 1), IndexError), "out of range write raises IndexError")
                    continue
                key, idx = o["i"], [o["i"] % n if n else 0]
            elif k == "setslice":
                key, idx = sl, list(range(n))[sl]
            elif k == "setmask":
                key, idx = M, [i for i, m in enumerate(mask) if m]
            elif k == "setlist":
                key, idx = ixs, [i % n for i in ixs] if n else []
                if not ixs:
                    continue
            else:
                key, idx = np.array(ixs, dtype=o["ixd"]).view(rt.FastArray), [i % n for i in ixs] if n else []
            vd = o["vd"]
            new = o["v"][: len(idx)]
            if len(new) < len(idx):
                continue
            if k == "setint":
                vd = "scalar"
            if d in "SU":
                new = [x[:w] for x in new]
                if vd in ("nan", "float64", "int64"):
                    vd = "scalar"
            if d == "bool" and vd in ("nan", "float64", "int64"):
                vd = "same"
            if vd == "scalar":
                x = o["v"][0]
                if d in "SU":
                    x = x[:w]
                val = (INV[d] if x is None else x)
                if d == "S":
                    val = x.encode()
                new = [x] * len(idx)
            elif vd == "nan":
                val, new = np.nan, [None] * len(idx)
            elif vd == "list":
                if not new:
                    continue
                val = [INV[d] if x is None else x for x in new]
                if d == "uint64" and any(v > 2**62 for v in val):
                    continue
                if d == "S":
                    val = [x.encode() for x in val]
            elif vd in ("float64", "int64") and d != vd:
                new = [None if x is None else (int(x) if isinstance(x, float) and abs(x) < 1e9 else x) for x in new]
                if any(x is not None and abs(x) > 2**52 for x in new):
                    continue
                val = to_arr([x if x is None or vd == "int64" else float(x) for x in new], vd)
            else:
                val = to_arr(new, d)
            a[key] = val
            for i, x in zip(idx, new):
                base[pos[i]] = x
        for b, p in views:
            cmpv(b, [base[q] for q in p], d, f"array after {k} {o['vd'] if k.startswith('set') else ''}")
    if did:
        nt(d, f"views{len(views)}", *{o["k"] for o in c["ops"]})


def eqs(g, e, d):
    x = scalar(g)
    if d in "SU" or d == "bool":
        return x == e
    if e is None:
        return x is None or (d not in FLOATS and int(x) == INV[d])
    return eq1(float(x) if d in FLOATS else x, float(np.dtype(d).type(e)) if d in FLOATS else e)


def cmpv(g, exp, d, what):
    require(isinstance(g, np.ndarray), what + ": not an array", got=type(g))
    if d == "float32":
        exp = [None if x is None else float(np.float32(x)) for x in exp]
    if d in FLOATS:
        exp = [None if x is None else float(x) for x in exp]
    if d in "SU":
        require(g.dtype.kind == d, what + ": kind", got=g.dtype)
    else:
        require(g.dtype == np.dtype(d), what + ": dtype", got=g.dtype)
    same_list(py(g), exp, what)


@st.composite
def s_help(draw):
    d = draw(pick("int32", "float64", "int64", "S", "bool", "int8"))
    n = draw(sizes(0, 20))
    return {"d": d, "v": draw(vals(pool(d), n)), "m": draw(vals([True, False], n)), "ix": draw(vals(list(range(max(n, 1))), draw(st.integers(0, 8)))) if n else [],
            "k": draw(pick("bool_to_fancy", "filter", "take", "repeat", "tile", "reshape", "nonzero", "compress", "flatnonzero", "copy_invalid", "fancy2bool", "both", "sample", "partition", "ndim2", "mbget")), "r": draw(st.integers(0, 4)), "la": draw(pick("c", "stride"))}


@facet("C03", s_help(), quick=3500, shards=2, rule="at least one element")
def helpers(c):
    """bool_to_fancy, filter, take, repeat, tile, reshape, sample, mbget"""
    d, v, k = c["d"], c["v"], c["k"]
    a = to_arr(v, d)
    M = np.array(c["m"], bool)
    if c["la"] == "stride":
        M2 = np.zeros(2 * len(M), bool)
        M2[::2] = M
        M = M2[::2]
    M = M.view(rt.FastArray)
    tr = [i for i, m in enumerate(c["m"]) if m]
    fl = [i for i, m in enumerate(c["m"]) if not m]
    n = len(v)
    if n:
        nt(k, d)
    I = np.array(c["ix"], "int32").view(rt.FastArray)
    if k == "bool_to_fancy":
        require([int(x) for x in rt.bool_to_fancy(M)] == tr, "bool_to_fancy", got=rt.bool_to_fancy(M), expected=tr)
    elif k == "both":
        r, cnt = rt.bool_to_fancy(M, both=True)
        require(int(cnt) == len(tr) and [int(x) for x in r] == tr + fl, "bool_to_fancy(both)", got=(r, cnt), expected=tr + fl)
    elif k == "filter":
        cmpv(a.filter(M), [v[i] for i in tr], d, "filter(mask)")
        cmpv(a.filter(I), [v[i] for i in c["ix"]], d, "filter(index)")
        if n:
            require(raises(a.filter, np.ones(n + 1, bool)) is not None, "filter with a mask of the wrong length must raise")
    elif k == "take":
        cmpv(np.take(a, c["ix"]) if c["ix"] else a[I], [v[i] for i in c["ix"]], d, "take")
    elif k == "repeat":
        cmpv(a.repeat(c["r"]), [x for x in v for _ in range(c["r"])], d, "repeat")
        cmpv(rt.repeat(a, c["r"]), [x for x in v for _ in range(c["r"])], d, "rt.repeat")
        reps = [(i + c["r"]) % 3 for i in range(n)]
        cmpv(rt.repeat(a, reps), [x for x, r in zip(v, reps) for _ in range(r)], d, "rt.repeat(list)") if n else None
    elif k == "tile":
        cmpv(a.tile(c["r"]), v * c["r"], d, "tile")
        cmpv(rt.tile(a, c["r"]), v * c["r"], d, "rt.tile")
    elif k == "reshape" and n % 2 == 0 and n:
        b = a.reshape(2, n // 2)
        require(b.shape == (2, n // 2), "reshape")
        cmpv(b.reshape(n), v, d, "reshape back")
        cmpv(b[1], v[n // 2:], d, "row")
        cmpv(a.reshape((n // 2, 2)).reshape(-1), v, d, "reshape back")
    elif k == "nonzero" and d in ("int32", "bool", "int64"):
        require([int(x) for x in np.asarray(a.nonzero()[0])] == [i for i, x in enumerate(v) if x is None or x], "nonzero")
    elif k == "compress":
        cmpv(a.compress(M), [v[i] for i in tr], d, "compress")
    elif k == "flatnonzero":
        require([int(x) for x in np.flatnonzero(M)] == tr, "flatnonzero")
    elif k == "copy_invalid":
        r = a.copy_invalid()
        cmpv(r, [invd(d)] * n, d, "copy_invalid")
        cmpv(a, v, d, "copy_invalid leaves its source alone")
    elif k == "sample" and n:
        r = a.sample(min(n, 3), seed=c["r"])
        from collections import Counter
        cnt = Counter(map(repr, py(r)))
        whole = Counter(map(repr, py(a)))
        require(len(r) == min(n, 3) and all(whole[x] >= y for x, y in cnt.items()), "sample draws without replacement", got=r, of=v)
        pos = [int(x) for x in rt.arange(n).sample(min(n, 3), seed=c["r"])]
        require(pos == sorted(set(pos)) or len(set(pos)) == len(pos), "sample positions are distinct", got=pos)
    elif k == "mbget" and d in ("int32", "float64", "int64"):
        bad = np.array(c["ix"] + [n, INV["int32"]], "int32").view(rt.FastArray)
        cmpv(rt.mbget(a, bad), [v[i] for i in c["ix"]] + [None, None], d, "mbget")
        cmpv(rt.mbget(a, bad, 7), [v[i] for i in c["ix"]] + [7, 7], d, "mbget default")
    elif k == "ndim2" and n >= 4 and d in ("int32", "float64"):
        n2 = n // 2 * 2
        A2 = np_of({"d": d, "v": v[:n2]}).reshape(-1, 2)
        b = rt.FastArray(A2)
        ix = [i % len(A2) for i in c["ix"]]
        if ix:
            r = b[rt.FastArray(ix)]
            require(np.array_equal(np.asarray(r), A2[ix], equal_nan=True), "2-d row index", got=r, expected=A2[ix])
            r = b[rt.FastArray(np.array(ix + [INV["int32"]], "int32"))]
            require(np.array_equal(np.asarray(r)[:-1], A2[ix], equal_nan=True) and all(is_inv(x, d) for x in np.asarray(r)[-1]), "invalid row index gives an invalid row", got=r)
            require(np.array_equal(np.asarray(b), A2, equal_nan=True), "source untouched")
        m = np.array([i % 2 == 0 for i in range(len(A2))])
        require(np.array_equal(np.asarray(b[rt.FastArray(m)]), A2[m], equal_nan=True), "2-d mask")


@st.composite
def s_cls(draw):
    n = draw(sizes(1, 12))
    return {"v": draw(vals(list(range(0, 400, 37)) + [None], n)), "ix": draw(st.lists(st.integers(-n, n - 1), min_size=0, max_size=6)), "m": draw(vals([True, False], n)), "cls": draw(pick("DateTimeNano", "Date", "TimeSpan", "DateSpan", "Categorical")),
            "sl": draw(st.tuples(st.one_of(st.none(), st.integers(-n, n)), st.one_of(st.none(), st.integers(-n, n)), pick(None, 2, -1))), "j": draw(st.integers(0, n - 1)), "k": draw(st.integers(0, n - 1))}


def mkcls(v, cls):
    if cls == "Date":
        return rt.Date(np.array([0 if x is None else 10000 + x for x in v], "int32"))
    if cls == "DateSpan":
        return rt.DateSpan(np.array([INV["int32"] if x is None else x for x in v], "int32"))
    if cls == "DateTimeNano":
        return rt.DateTimeNano(np.array([0 if x is None else 10**18 + x * 10**13 for x in v], "int64"), from_tz="UTC", to_tz="NYC")
    if cls == "TimeSpan":
        return rt.TimeSpan(np.array([np.nan if x is None else x * 1e9 for x in v]))
    return rt.Categorical([("" if x is None else f"k{x}") for x in v])


@facet("C03", s_cls(), quick=2500, shards=2, rule="always")
def subclasses(c):
    """date, time and category arrays: indexing keeps the class, attributes and exactly the addressed elements; writes hit only them"""
    v, cls = c["v"], c["cls"]
    a = mkcls(v, cls)
    nt(cls)
    n = len(v)

    def content(x):
        if cls == "Categorical":
            return [y if isinstance(y, str) else y.decode() for y in x.expand_array.tolist()]
        return np.asarray(x.view(np.ndarray)).tolist()

    full = content(a)

    def chk(g, exp, what):
        require(type(g) is type(a), f"{what}: class {type(g)}", case=c)
        got = content(g)
        same_list([None if x != x else x for x in got], [None if x != x else x for x in exp], what, case=c)
        if cls == "DateTimeNano":
            require(g._timezone._to_tz == a._timezone._to_tz, "time zone kept")

    sl = slice(*c["sl"])
    chk(a[sl], full[sl], "slice")
    M = rt.FastArray(np.array(c["m"], bool))
    chk(a[M], [x for x, m in zip(full, c["m"]) if m], "mask")
    if c["ix"]:
        chk(a[c["ix"]], [full[i] for i in c["ix"]], "list")
        chk(a[rt.FastArray(c["ix"])], [full[i] for i in c["ix"]], "index array")
    chk(a.copy(), full, "copy")
    b = a.copy()
    if cls == "Categorical":
        x = v[c["k"]]
        if x is not None:
            b[c["j"]] = f"k{x}"
    else:
        b[c["j"]] = a[c["k"]]
    if not (cls == "Categorical" and v[c["k"]] is None):
        e = list(full)
        e[c["j"]] = full[c["k"]]
        chk(b, e, "element write")
    chk(a, full, "source of the copy is untouched")
    if cls != "Categorical":
        b = a.copy()
        b[M] = a[c["k"]]
        chk(b, [full[c["k"]] if m else x for x, m in zip(full, c["m"])], "mask write")
        b = a.copy()
        if c["ix"]:
            w = a[c["ix"]][::-1]
            b[rt.FastArray(c["ix"])] = w
            e = list(full)
            for i, x in zip(c["ix"], content(w)):
                e[i] = x
            chk(b, e, "index write")
