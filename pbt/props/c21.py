"""C21: round trips through files in a scratch folder against a deep picture of what was saved, and stacked loads against concatenated rows."""
import contextlib
import io
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt
import riptable.rt_io
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *
from pbt.props.c17 import NAMES, mk, s_tab

warnings.filterwarnings("ignore")
BANDS = [None, None, 10000, 20000]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c21_")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cmp(a, b, what, catnames=True, **ctx):
    """a loaded object equals the saved one in class, names, order, dtype, categories and values"""
    if isinstance(b, rt.Struct):
        require(type(a) is type(b), f"{what}: container class", got=type(a), expected=type(b), **ctx)
        require(list(a.keys()) == list(b.keys()), f"{what}: names", got=list(a.keys()), expected=list(b.keys()), **ctx)
        for k in b.keys():
            cmp(a[k], b[k], f"{what}: item {k}", **ctx)
        require(list(a.label_get_names()) == list(b.label_get_names()), f"{what}: labels", got=a.label_get_names(), expected=b.label_get_names(), **ctx)
        return
    if isinstance(b, rt.Categorical):
        require(isinstance(a, rt.Categorical), f"{what}: class", got=type(a), **ctx)
        same_list(canon(a), canon(b), what, **ctx)
        require(a.ordered == b.ordered, f"{what}: ordered flag", got=a.ordered, expected=b.ordered, **ctx)
        require(str(a.category_mode) == str(b.category_mode), f"{what}: category mode", got=a.category_mode, expected=b.category_mode, **ctx)
        if catnames and b.base_index is not None and len(b.category_dict) > 1:
            require(list(a.category_dict) == list(b.category_dict), f"{what}: names of the category arrays", got=list(a.category_dict), expected=list(b.category_dict), **ctx)
    if isinstance(b, np.ndarray) and b.ndim > 0:
        require(type(a) is type(b), f"{what}: class", got=type(a), expected=type(b), **ctx)
        require(a.dtype == b.dtype and a.shape == b.shape, f"{what}: dtype/shape", got=(a.dtype, a.shape), expected=(b.dtype, b.shape), **ctx)
        require(snap(a) == snap(b), f"{what}: contents", got=a, expected=b, **ctx)
        return
    if isinstance(b, (bool, np.bool_)):
        require(isinstance(a, (bool, np.bool_)) and bool(a) == bool(b), f"{what}: scalar", got=a, expected=b, **ctx)
    elif isinstance(b, (int, np.integer)):
        require(isinstance(a, (int, np.integer)) and int(a) == int(b), f"{what}: scalar", got=a, expected=b, **ctx)
    elif isinstance(b, (float, np.floating)):
        require(isinstance(a, (float, np.floating)) and (float(a) == float(b) or b != b and a != a), f"{what}: scalar", got=a, expected=b, **ctx)
    elif isinstance(b, str):
        require(isinstance(a, str) and str(a) == b, f"{what}: scalar", got=a, expected=b, **ctx)
    elif isinstance(b, bytes):
        require(isinstance(a, bytes) and bytes(a) == b, f"{what}: scalar", got=a, expected=b, **ctx)
    else:
        fail("unexpected item " + what, got=a, expected=b)


# ---------------------------------------------------------------- one table
@st.composite
def s_one(draw):
    t = draw(s_tab(lo=0, hi=draw(pick([6, 6, 40])), maxc=6))
    for _, c in t["cols"]:
        if c["k"] == "dtn":
            c["tz"] = draw(st.integers(0, 2))
    return {
        "t": t, "compress": draw(st.booleans()), "level": draw(pick([None, 1, 3, 6])), "onefile": draw(st.booleans()),
        "name": draw(pick(["t", "my.data", "dir/x y", "UPPER"])), "ext": draw(st.booleans()),
        "pl": draw(st.booleans()), "how": draw(st.integers(0, 3)), "inc": draw(st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True)),
        "labels": draw(st.booleans()),
        "ordered": draw(st.booleans()),
    }


@facet("C21", s_one(), quick=1000, shards=4, rule="the table has two rows or more")
def dataset_file(case):
    t = case["t"]
    ds = mk(t)
    if case["labels"]:
        ds.label_set_names([ds.keys()[-1]])
    for k in ds.keys():
        if isinstance(ds[k], rt.Categorical) and not case["ordered"]:
            ds[k] = rt.Categorical(ds[k])
    before = snap(ds)
    nt(t["n"] > 1, *[c["k"] for _, c in t["cols"]])
    with scratch() as d:
        p = os.path.join(d, case["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        f = p + ".sds" if case["ext"] else p
        f = pathlib.Path(f) if case["pl"] else f
        if case["how"] == 0:
            ds.save(f, compress=case["compress"], onefile=case["onefile"], bandsize=case.get("band"), complevel=case["level"])
        elif case["how"] == 1 and not case["compress"]:
            rt.rt_sds.save_sds_uncompressed(f, ds)
        else:
            rt.save_sds(f, ds, compress=case["compress"], onefile=case["onefile"], bandsize=case.get("band"), complevel=case["level"])
        require(snap(ds) == before, "saving changed the table")
        g = p + ".sds"
        require(os.path.isfile(g), "no file was written", path=case["name"], files=os.listdir(d))
        g = pathlib.Path(g) if case["pl"] else g
        cmp(rt.load_sds(g), ds, "load_sds")
        cmp(rt.Dataset.load(g) if case["how"] == 0 else rt.load_sds(g, threads=1), ds, "second load")
        keys = list(ds.keys())
        inc = [keys[i] for i in case["inc"] if i < len(keys)]
        if inc:
            got = rt.load_sds(g, include=inc)
            exp = [k for k in keys if k in inc]
            require(list(got.keys()) == exp, "columns loaded with include", got=list(got.keys()), expected=exp)
            for k in exp:
                cmp(got[k], ds[k], f"include: column {k}")
        # row selection while loading
        n = t["n"]
        m = np.array([(i * 7 + n) % 3 != 0 for i in range(n)], dtype=bool)
        if case["how"] == 2 and not case["onefile"]:
            got = rt.load_sds(g, filter=rt.FastArray(m))
            if m.any():
                cmp_rows(got, ds, np.flatnonzero(m), "load with a mask")
        if case["how"] == 3 and not case["onefile"]:
            a, b = n // 3, n - n // 4
            if b > a:
                got = rt.load_sds(g, filter=rt.FastArray(np.arange(a, b)))
                cmp_rows(got, ds, np.arange(a, b), "load with a row range")


def cmp_rows(got, ds, ix, what):
    require(list(got.keys()) == list(ds.keys()), f"{what}: columns", got=list(got.keys()))
    for k in ds.keys():
        cmp(got[k], ds[k][rt.FastArray(ix)], f"{what}: column {k}", catnames=False)


# ---------------------------------------------------------------- big tables (several compression bands)
@facet("C21", st.tuples(pick([9999, 10000, 10001, 30000, 70001]), pick(BANDS[2:] + [None]), st.booleans(), st.integers(0, 5)), quick=40, shards=2, rule="always")
def big_file(case):
    n, band, comp, seed = case
    rng = np.random.default_rng(seed)
    ds = rt.Dataset({
        "i": rng.integers(-5, 5, n), "f": np.round(rng.normal(size=n), 2), "s": rng.choice(np.array([b"a", b"bcd", b""]), n), "u": rng.choice(np.array(["a", "ñz"]), n),
        "b": rng.random(n) > 0.5, "c": rt.Categorical(rng.choice(np.array(["x", "yy", "z"]), n)), "d": rt.Date(rng.integers(0, 20000, n).astype("i4")), "x": rng.integers(0, 200, n).astype("u1"),
    })
    nt()
    with scratch() as d:
        rt.save_sds(d + "/b", ds, bandsize=band, compress=comp)
        cmp(rt.load_sds(d + "/b.sds"), ds, "big table")
        a, b = sorted(rng.integers(0, n, 2))
        ix = np.arange(a, b + 1)
        cmp_rows(rt.load_sds(d + "/b.sds", filter=rt.FastArray(ix)), ds, ix, "row range of a big table")
        m = np.zeros(n, bool)
        m[rng.integers(0, n, 30)] = True
        cmp_rows(rt.load_sds(d + "/b.sds", filter=rt.FastArray(m)), ds, np.flatnonzero(m), "mask on a big table")


# ---------------------------------------------------------------- one array
@st.composite
def s_arr(draw):
    n = draw(sizes(1, 12))
    c = draw(scol(n))
    if c["k"] == "dtn":
        c["tz"] = draw(st.integers(0, 2))
    return {"c": c, "shape": draw(pick(["1", "C", "F", "stride", "rev"])), "compress": draw(st.booleans()), "meth": draw(st.booleans())}


@facet("C21", s_arr(), quick=500, shards=2, rule="two elements or more")
def array_file(case):
    c, sh = case["c"], case["shape"]
    a = mkcol(c)
    if type(a) is rt.FastArray:
        v = np.asarray(a)
        if sh in "CF":
            v = np.array([v, v[::-1]]).copy(order=sh)
        elif sh == "stride":
            v = np.repeat(v, 2)[::2]
        elif sh == "rev":
            v = v[::-1].copy()[::-1]
        a = v.view(rt.FastArray)
    before = snap(a)
    nt(len(c["v"]) > 1, c["k"], sh)
    with scratch() as d:
        if case["meth"] and hasattr(a, "save"):
            a.save(d + "/arr", compress=case["compress"])
        else:
            rt.save_sds(d + "/arr.sds", a, compress=case["compress"])
        require(snap(a) == before, "saving changed the array")
        b = rt.load_sds(d + "/arr.sds")
        cmp(b, a, "array round trip")


# ---------------------------------------------------------------- nested structures
SCAL = [1, -3, 0, 2.5, float("nan"), True, False, "text", "", "ñ日", b"bytes", "12", 2**62]
SNAMES = ["aa", "b", "Zed", "c_1", "data", "x9", "meta2"]


def s_item(depth):
    leaf = st.one_of(
        st.tuples(st.just("scalar"), st.integers(0, len(SCAL) - 1)),
        st.tuples(st.just("arr"), s_acol()),
        st.tuples(st.just("arr"), s_acol()),
        st.tuples(st.just("ds"), s_tab(hi=4, maxc=3)),
    )
    if depth == 0:
        return leaf
    return st.one_of(leaf, leaf, st.tuples(st.just("st"), s_struct(depth - 1)))


@st.composite
def s_acol(draw):
    return draw(scol(draw(sizes(1, 4))))


@st.composite
def s_struct(draw, depth):
    names = draw(st.lists(pick(SNAMES), min_size=1, max_size=4, unique=True))
    return [[nm, draw(s_item(depth))] for nm in names]


def build(items):
    s = rt.Struct()
    for nm, (k, x) in items:
        s[nm] = SCAL[x] if k == "scalar" else mkcol(x) if k == "arr" else mk(x) if k == "ds" else build(x)
    return s


def kindset(items):
    out = set()
    for _, (k, x) in items:
        out.add(k)
        if k == "st":
            out |= {"in-" + y for y in kindset(x)}
    return out


@facet("C21", st.tuples(s_struct(2), st.booleans(), st.booleans(), st.booleans()), quick=700, shards=4, rule="the structure contains a table or a nested structure")
def struct_file(case):
    items, onefile, comp, meth = case
    s = build(items)
    ks = kindset(items)
    nt("ds" in ks or "st" in ks, *ks)
    before = snap(s)
    with scratch() as d:
        if meth:
            s.save(d + "/s", onefile=onefile, compress=comp)
        else:
            rt.save_sds(d + "/s", s, onefile=onefile, compress=comp)
        require(snap(s) == before, "saving changed the structure")
        p = d + "/s" if os.path.isdir(d + "/s") else d + "/s.sds"
        got = rt.Struct.load(p) if meth else rt.load_sds(p)
        cmp_st(got, s, "structure round trip", root=True)


def cmp_st(a, b, what, root=False):
    if not isinstance(b, rt.Struct) or isinstance(b, rt.Dataset):
        return cmp(a, b, what)
    require(type(a) is type(b), f"{what}: container class", got=type(a), expected=type(b))
    # a nested structure which only holds containers has no file of its own that could keep their order
    f = list if root or not all(isinstance(v, rt.Struct) for v in b.values()) else sorted
    require(f(a.keys()) == f(b.keys()), f"{what}: names", got=list(a.keys()), expected=list(b.keys()))
    for k in b.keys():
        cmp_st(a[k], b[k], f"{what}: item {k}")


# ---------------------------------------------------------------- overwriting
@facet("C21", st.tuples(st.lists(s_tab(hi=6, maxc=3), min_size=2, max_size=3), st.lists(st.booleans(), min_size=3, max_size=3)), quick=300, shards=2, rule="always")
def overwrite(case):
    tabs, comp = case
    nt()
    with scratch() as d:
        for t, c in zip(tabs, comp):
            ds = mk(t)
            rt.save_sds(d + "/w.sds", ds, compress=c)
            cmp(rt.load_sds(d + "/w.sds"), ds, "after overwriting")
            require(os.listdir(d) == ["w.sds"], "files left by overwriting", got=os.listdir(d))
        # no overwriting when asked not to: the old content stays
        other = rt.Dataset({"zzz": [1]})
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                old, __builtins_input = None, None
                import builtins

                keep = builtins.input
                builtins.input = lambda *a: "n"
                try:
                    rt.save_sds(d + "/w.sds", other, overwrite=False)
                finally:
                    builtins.input = keep
        except Exception:
            pass
        cmp(rt.load_sds(d + "/w.sds"), ds, "after a refused overwrite")


# ---------------------------------------------------------------- several files
@st.composite
def s_many(draw):
    kinds = [draw(pick(ALLK)) for _ in range(draw(st.integers(1, 4)))]
    m = [draw(st.integers(0, 2)) for _ in kinds]
    files = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(sizes(1, 6))
        cols = []
        for j, k in enumerate(kinds):
            if j and draw(st.integers(0, 5)) == 0:
                cols.append(None)
                continue
            c = draw(scol(n, [k]))
            if k == "cmap":
                c["m"] = m[j]
                c["v"] = [list(MAPS[m[j]])[x % len(MAPS[m[j]])] for x in range(n)]
            if k == "catf" and not any(c["v"]):
                c["v"][0] = "a"  # a file whose category array is empty: known finding
            cols.append(c)
        files.append({"n": n, "cols": cols})
    return {"kinds": kinds, "files": files, "how": draw(st.integers(0, 3))}


def tabs_of(case):
    out = []
    for f in case["files"]:
        out.append(rt.Dataset({NAMES[j]: mkcol(c) for j, c in enumerate(f["cols"]) if c is not None}))
    return out


def miss(k):
    return "" if k == "cat0" else missing(k)  # a base-0 category array has no code for "filtered"


def check_stacked(got, case, what, names=None, exact=True):
    kinds, files = case["kinds"], case["files"]
    present = [j for j in range(len(kinds)) if any(f["cols"][j] is not None for f in files)]
    names_exp = [NAMES[j] for j in present] if names is None else names
    require(sorted(got.keys()) == sorted(names_exp), f"{what}: columns", got=list(got.keys()), expected=names_exp)
    require(len(got) == sum(f["n"] for f in files), f"{what}: rows", got=len(got))
    for j in present:
        nm = NAMES[j]
        if nm not in names_exp:
            continue
        k = kinds[j]
        exp = []
        for f in files:
            c = f["cols"][j]
            exp += [miss(k)] * f["n"] if c is None else want(c)
        check_col(got[nm], exp, k, f"{what}: column {nm} ({k})")
        if k in CATK:
            cat_sane(got[nm], f"{what}: column {nm}")
            if k in ("cat", "catU", "catf", "catn"):
                hole = any(f["cols"][j] is None for f in files)
                cats = [x for x in canon(got[nm].category_array) if not (hole and x in ("", None))]
                require(sorted(cats) == sorted({x for x in exp if x != FILT}), f"{what}: categories of {nm}", got=cats, expected=exp)
        elif k in NUMK or k == "bool":
            require(got[nm].dtype == np.dtype(k), f"{what}: dtype of {nm}", got=got[nm].dtype, expected=k)


def holes(case):
    return any(c is None for f in case["files"] for c in f["cols"])


@facet("C21", s_many(), quick=800, shards=4, rule="two files or more")
def stacked_files(case):
    tabs = tabs_of(case)
    nt(len(tabs) > 1, *case["kinds"], "missing column" if holes(case) else "all columns")
    with scratch() as d:
        fs = []
        for i, t in enumerate(tabs):
            rt.save_sds(f"{d}/f{i}", t)
            fs.append(f"{d}/f{i}.sds")
        how = case["how"]
        if how == 0:
            got = rt.load_sds(fs, stack=True)
            check_stacked(got, case, "stacked load")
            if len(fs) > 1:
                parts(got, case)
        elif how == 1:
            nm = [NAMES[0]] + ([NAMES[1]] if len(case["kinds"]) > 1 and any(f["cols"][1] is not None for f in case["files"]) else [])
            got = rt.load_sds(fs, stack=True, include=nm)
            check_stacked(got, case, "stacked load with include", names=nm)
        elif how == 2:
            if len(fs) > 1:
                rt.sds_concat(fs, output=f"{d}/all.sds")
                got = rt.load_sds(f"{d}/all.sds", stack=True)
                check_stacked(got, case, "sds_concat")
            else:
                got = rt.load_sds(fs)
        else:
            got = rt.load_sds(fs)
            got = [got] if isinstance(got, rt.Dataset) else list(got.values()) if isinstance(got, rt.Struct) else list(got)
            require(len(got) == len(tabs), "one result per file", got=len(got))
            for g, t in zip(got, tabs):
                cmp(g, t, "list of files")


def parts(got, case):
    require(type(got).__name__ == "PDataset", "stacked result is partitioned", got=type(got))
    require(got.pcount == len(case["files"]), "number of partitions", got=got.pcount)
    cut = np.cumsum([f["n"] for f in case["files"]]).tolist()
    require([int(x) for x in got.pcutoffs] == cut, "partition ends", got=got.pcutoffs, expected=cut)
    for i, f in enumerate(case["files"]):
        p = got.partition(i)
        require(len(p) == f["n"], f"rows of partition {i}", got=len(p), expected=f["n"])
        for j, c in enumerate(f["cols"]):
            if NAMES[j] in got.keys() and case["kinds"][j] not in ("cmap",):
                exp = [miss(case["kinds"][j])] * f["n"] if c is None else want(c)
                same_list(canon(p[NAMES[j]]), exp, f"partition {i} column {NAMES[j]}")


# ---------------------------------------------------------------- sections appended to one file
@facet("C21", s_many(), quick=400, shards=2, rule="two sections or more")
def sections(case):
    tabs = tabs_of(case)
    nt(len(tabs) > 1, *case["kinds"])
    with scratch() as d:
        for i, t in enumerate(tabs):
            rt.save_sds(f"{d}/s.sds", t, append=f"sec{i}")
        got = rt.load_sds(f"{d}/s.sds")
        if len(tabs) == 1:
            cmp(got, tabs[0], "file with one section")
        elif type(got) is rt.Dataset:
            # sections with equal numbers of rows are laid side by side
            require(len({len(t) for t in tabs}) == 1, "side by side sections of different lengths")
            cols = [c for t in tabs for c in t.values()]
            require(len(got.keys()) == len(cols), "number of columns", got=list(got.keys()))
            for g, c in zip(got.values(), cols):
                cmp(g, c, "side by side sections", catnames=False)
        else:
            require(type(got) is rt.Struct and list(got.keys()) == [f"sec{i}" for i in range(len(tabs))], "sections of the file", got=type(got))
            for i, t in enumerate(tabs):
                cmp(got[f"sec{i}"], t, f"section {i}")
        got = rt.load_sds(f"{d}/s.sds", stack=True)
        check_stacked(got, case, "stacked sections")


# ---------------------------------------------------------------- types that differ between files
WIDE = [["int8", "int32"], ["int32", "int64"], ["int16", "float32"], ["int32", "float64"], ["float32", "float64"], ["uint8", "int16"], ["bool", "int32"], ["bool", "float64"]]


@facet("C21", st.tuples(st.integers(0, len(WIDE) - 1), st.booleans(), st.lists(pick([0, 1, 2, 7, None]), min_size=1, max_size=5), st.lists(pick([0, 1, 2, 100, None]), min_size=1, max_size=5)), quick=250, shards=1, rule="always")
def widening(case):
    w, swap, v1, v2 = case[:4]
    d1, d2 = WIDE[w][::-1] if swap else WIDE[w]
    if "bool" in (d1, d2) and len(case) == 4:  # known finding: False becomes invalid
        v1, v2 = ([1] * len(v) if d == "bool" else v for v, d in ((v1, d1), (v2, d2)))
    fix = lambda v, d: [bool(x) if d == "bool" else x for x in v]
    v1, v2 = fix(v1, d1), fix(v2, d2)
    nt(d1 + "+" + d2)
    with scratch() as d:
        rt.save_sds(d + "/a", rt.Dataset({"x": mkcol({"k": d1, "v": v1})}))
        rt.save_sds(d + "/b", rt.Dataset({"x": mkcol({"k": d2, "v": v2})}))
        got = rt.load_sds([d + "/a.sds", d + "/b.sds"], stack=True)
        exp = [None if x is None else float(x) for x in v1 + v2]
        g = [None if x is None else float(x) for x in canon(got.x)]
        same_list(g, exp, f"stacked {d1} and {d2}", dtype=got.x.dtype)


# ---------------------------------------------------------------- folders of structures, stacked per name
@facet("C21", st.tuples(s_many(), st.booleans()), quick=150, shards=1, rule="two folders or more")
def stacked_folders(case):
    case, second = case
    tabs = tabs_of(case)
    nt(len(tabs) > 1)
    with scratch() as d:
        fs = []
        for i, t in enumerate(tabs):
            s = rt.Struct({"q": t})
            if second:
                s["r"] = rt.Dataset({"k": [i, i + 1]})
            rt.save_sds(f"{d}/day{i}", s)
            fs.append(f"{d}/day{i}")
        inc = ["q"] + (["r"] if second else [])
        got = rt.load_sds(fs, include=inc, stack=True)
        require(list(got.keys()) == inc, "stacked folders: names", got=list(got.keys()))
        check_stacked(got["q"], case, "stacked folders")
        if second:
            require(np.asarray(got["r"].k).tolist() == [y for i in range(len(tabs)) for y in (i, i + 1)], "stacked folders: second table", got=got["r"].k)


# ---------------------------------------------------------------- adding to and replacing inside a structure's folder
@facet("C21", st.tuples(s_struct(1), s_tab(hi=4, maxc=3), s_tab(hi=4, maxc=3), pick(SNAMES), st.booleans()), quick=250, shards=2, rule="always")
def folder_updates(case):
    items, t1, t2, nm, comp = case
    s = build([["first", ["ds", t2]]] + items)
    nt("replaces" if nm in s.keys() and isinstance(s[nm], rt.Struct) else "adds")
    if nm in s.keys() and not isinstance(s[nm], rt.Dataset):
        nm = "first"
    ds = mk(t1)
    with scratch() as d:
        rt.save_sds(d + "/s", s, compress=comp)
        rt.save_sds(d + "/s", ds, name=nm)
        got = rt.load_sds(d + "/s", include_all_sds=True)
        s[nm] = ds
        cmp_st(got, s, "folder after saving a table into it")
        cmp(rt.load_sds(d + f"/s/{nm}.sds"), ds, "the new table's file")
        names = [k for k in s.keys()]
        cmp(rt.load_sds(d + "/s/first.sds"), s["first"], "the first table's file")


# ------------------------------------------------------------------ other containers on disk
@st.composite
def s_acc(draw):
    n = draw(st.integers(1, 8))
    key = lambda: draw(scol(n, ["S", "int32", "cat", "U", "catn"], few=True))
    return {"n": n, "r": key(), "c": key(), "v": draw(st.lists(st.integers(-5, 9), min_size=n, max_size=n)), "sf": draw(st.booleans()), "tab": draw(s_tab(["int32", "float64", "S", "bool", "int8"], hi=5, maxc=3)), "days": draw(st.integers(1, 3))}


@facet("C21", s_acc(), quick=250, shards=2, rule="two rows or more")
def other_containers(c):
    """cross tabulations saved in a structure, tables written as folders of arrays, and ranges of daily files"""
    nt(c["n"] > 1)
    r, k = mkcol(c["r"]), mkcol(c["c"])
    v = rt.FastArray(np.array(c["v"]))
    try:
        a = rt.Accum2(r, k, showfilter=c["sf"])
        w = a.sum(v)
    except Exception:
        a = None
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        if a is not None:
            rt.save_sds(d + "/acc", rt.Struct({"a": a, "n": 3}))
            b = rt.load_sds(d + "/acc")["a"]
            g = b.sum(v)
            require(type(b) is rt.Accum2 and g.shape == w.shape, "cross tabulation: shape after loading", got=g, expected=w, case=c)
            for x, y in zip(g.values(), w.values()):
                require(canon(x) == canon(y), "cross tabulation: cells after loading", got=g, expected=w, case=c)
        ds = mk(c["tab"])
        rt.rt_io.write_dset_to_np(ds, d, "t")
        back = rt.rt_io.read_dset_from_np(d, "t")
        require(sorted(back.keys()) == sorted(ds.keys()), "folder of arrays: names", got=back.keys())
        for nm in ds.keys():
            require(back[nm].dtype == ds[nm].dtype and canon(back[nm]) == canon(ds[nm]), f"folder of arrays: column {nm}", got=back[nm], expected=ds[nm], case=c)
        days = ["20191230", "20191231", "20200101"][: c["days"]]
        for i, day in enumerate(days):
            rt.Dataset({"i": rt.FastArray(np.array([i, i + 10])), "x": rt.FastArray(np.array([i * 0.5, 7.0]))}).save(f"{d}/d{day}_f.sds")
        p = rt.PDataset.pload(d + "/d{}_f.sds", days[0], days[-1])
        want_i = [x for i in range(len(days)) for x in (i, i + 10)]
        require(canon(p["i"]) == want_i, "daily files: rows", got=p["i"], expected=want_i)
