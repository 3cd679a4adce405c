"""C18: melt, pivot, transpose, matrices, row conversion and jagged input against the explicit list of (row, column, value) cells."""
import warnings
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.cols import *
from pbt.props.c17 import NAMES, mk, s_tab

warnings.filterwarnings("ignore")
IDK = ["int32", "S", "float64", "U", "cat", "date", "dtn", "bool", "int64", "tspan", "catn"]


@st.composite
def s_melt(draw):
    n = draw(sizes(1, 6))
    ids = [[f"id{i}", draw(scol(n, IDK, few=True))] for i in range(draw(st.integers(0, 2)))]
    fam = draw(pick([["int32", "float64", "int64", "float32", "int16"], ["S"], ["date"], ["int32"], ["float64"], ["U"], ["bool"], ["dtn"]]))
    vs = [[f"v{i}", draw(scol(n, fam, few=True))] for i in range(draw(st.integers(1, 4)))]
    return {"n": n, "ids": ids, "vs": vs, "sub": draw(st.lists(st.integers(0, 3), max_size=3, unique=True)), "var": draw(pick([None, "vn"])), "val": draw(pick(["value", "w"])), "ord": draw(st.booleans()), "trim": draw(st.booleans())}


@facet("C18", s_melt(), quick=900, shards=3, rule="2 or more value columns and rows")
def melt(case):
    n = case["n"]
    ids, vs = case["ids"], case["vs"]
    cols = ids + vs if case["ord"] else vs + ids
    ds = rt.Dataset({k: mkcol(c) for k, c in cols})
    before = snap(ds)
    sub = [vs[i][0] for i in case["sub"] if i < len(vs)]
    use = [v for v in vs if not sub or v[0] in sub]
    if sub:
        use = [next(v for v in vs if v[0] == s) for s in sub]
    kw = {}
    if sub:
        kw["value_vars"] = sub if len(sub) > 1 else sub[0]
    if case["var"]:
        kw["var_name"] = case["var"]
    nt(n > 1 and len(use) > 1, use[0][1]["k"])
    idn = [k for k, _ in ids]
    num = use[0][1]["k"] in NUMK
    trim = case["trim"] and num
    got = ds.melt(id_vars=idn or None, value_name=case["val"], trim=trim, **kw)
    var = case["var"] or "variable"
    require(list(got.keys()) == idn + [var, case["val"]], "melt: columns", got=list(got.keys()))
    cells = [(i, k) for k, _ in use for i in range(n)]
    W = {k: want(c) for k, c in cols}
    if trim:
        cells = [(i, k) for i, k in cells if W[k][i] is not None and W[k][i] != 0]
    require(len(got) == len(cells), "melt: number of rows", got=len(got), expected=len(cells))
    same_list(canon(got[var]), [k for _, k in cells], "melt: variable column")
    kinds = {c["k"] for _, c in use}
    gv = canon(got[case["val"]])
    ev = [W[k][i] for i, k in cells]
    if num:
        gv = [None if x is None else float(x) for x in gv]
        ev = [None if x is None else float(x) for x in ev]
        same_list(gv, ev, "melt: value column")
    else:
        check_col(got[case["val"]], ev, use[0][1]["k"], "melt: value column")
    for k, c in ids:
        e = [W[k][i] for i, _ in cells]
        a = got[k]
        if c["k"] in CATK:  # documented: expanded
            same_list(canon(a), e, f"melt: id column {k}")
        else:
            check_col(a, e, c["k"], f"melt: id column {k}")
    require(snap(ds) == before, "melt changed its table")


PK = {"int32": [3, 1, 2], "S": ["b", "a", "zz"], "cat": ["b", "a", "q"], "int64": [10, 20, -5], "U": ["b", "ñ", "c"], "date": [18000, 18001, 17000]}


@st.composite
def s_pivot(draw):
    nl, ncol = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    kinds = [draw(pick(["int32", "S", "cat", "int64", "U"] + (["date"] if i < nl else []))) for i in range(nl + ncol)]
    rows = draw(st.lists(st.tuples(*[pick(PK[k]) for k in kinds]), min_size=1, max_size=9, unique=True))
    n = len(rows)
    vs = [draw(scol(n, NUMK[:6] + ["S", "date", "cat", "bool", "dtn", "U", "tspan"])) for _ in range(draw(st.integers(1, 2)))]
    return {"nl": nl, "kinds": kinds, "rows": [list(r) for r in rows], "vs": vs, "ordered": draw(st.booleans()), "filt": draw(st.none() | st.lists(st.booleans(), min_size=n, max_size=n)), "str": draw(st.booleans()), "explicit": draw(st.booleans())}


@facet("C18", s_pivot(), quick=1000, shards=3, rule="a grid with at least one absent cell and 2 or more present")
def pivot(case):
    nl, kinds, rows, vs = case["nl"], case["kinds"], case["rows"], case["vs"]
    n = len(rows)
    kn = [f"k{i}" for i in range(len(kinds))]
    vn = [f"v{i}" for i in range(len(vs))]
    d = {}
    for i, k in enumerate(kinds):
        d[kn[i]] = mkcol({"k": k, "v": [r[i] for r in rows]})
    for k, c in zip(vn, vs):
        d[k] = mkcol(c)
    ds = rt.Dataset(d)
    before = snap(ds)
    filt = case["filt"]
    lab, col = kn[:nl], kn[nl:]
    la = lab[0] if nl == 1 and case["str"] else lab
    ca = col[0] if len(col) == 1 and case["str"] else col
    kw = {"values": vn} if case["explicit"] else {}
    if filt:
        if not any(filt):
            return nt(False)
        kw["filter"] = rt.FastArray(np.array(filt))
    got = ds.pivot(la, ca, ordered=case["ordered"], **kw)
    require(snap(ds) == before, "pivot changed its table")
    live = [i for i in range(n) if not filt or filt[i]]
    rl = []
    for r in rows:
        if tuple(r[:nl]) not in rl:
            rl.append(tuple(r[:nl]))
    cl = []
    for r in rows:
        if tuple(r[nl:]) not in cl:
            cl.append(tuple(r[nl:]))
    cell = {(tuple(rows[i][:nl]), tuple(rows[i][nl:])): i for i in live}
    nt(len(cell) > 1 and len(cell) < len(rl) * len(cl), "filter" if filt else "nofilter", "multi" if len(vs) > 1 else "one")
    tabs = {vn[0]: got} if len(vs) == 1 else {k: got[k] for k in vn}
    if len(vs) > 1:
        require(isinstance(got, rt.Multiset), "pivot: several values give a Multiset", got=type(got))
    for k, c in zip(vn, vs):
        t = tabs[k]
        W = want(c)
        grow = list(zip(*[canon(t[x]) for x in lab]))
        require(set(grow) == set(rl) and len(grow) == len(rl), "pivot: label rows", got=grow, expected=rl)
        if case["ordered"]:
            require(grow == sorted(grow), "pivot: labels in order", got=grow)
        names = {"_".join(str(x) for x in cc): cc for cc in cl}
        require(set(t.keys()) == set(lab) | set(names), "pivot: columns", got=list(t.keys()), expected=list(names))
        require(list(t.label_get_names()) == lab, "pivot: labels", got=t.label_get_names())
        for nm, cc in names.items():
            e = [W[cell[(r, cc)]] if (r, cc) in cell else missing(c["k"]) for r in grow]
            check_col(t[nm], e, c["k"], f"pivot: column {nm} of {k}", labels=grow)


@st.composite
def s_pivot_miss(draw):
    kinds = [draw(pick("cat", "int32", "S", "cat")) for _ in range(2)]
    n = draw(st.integers(1, 9))
    cell = lambda k: pick(PK[k] + ([None, None] if k == "cat" else []))
    rows = draw(st.lists(st.tuples(cell(kinds[0]), cell(kinds[1])), min_size=n, max_size=n))
    return {"kinds": kinds, "rows": [list(r) for r in rows], "v": list(range(1, n + 1)), "filt": draw(st.none() | st.lists(st.booleans(), min_size=n, max_size=n)), "ordered": draw(st.booleans()), "lab": draw(pick("lab", "lab", "lab", "b"))}


@facet("C18", s_pivot_miss(), quick=900, shards=2, rule="rows without a label or column (or filtered out) besides rows that have both")
def pivot_missing(case):
    rows, n = case["rows"], len(case["rows"])
    def key(j):
        vs, k = [r[j] for r in rows], case["kinds"][j]
        if k != "cat":
            return mkcol({"k": k, "v": vs})
        return rt.Categorical(rt.FastArray(np.array([0 if v is None else PK["cat"].index(v) + 1 for v in vs], dtype="int8")), PK["cat"])

    L = case.get("lab", "lab")
    ds = rt.Dataset({L: key(0), "col": key(1), "val": rt.FastArray(np.array(case["v"], dtype="int64"))})
    filt = case["filt"]
    live = [i for i in range(n) if (not filt or filt[i]) and rows[i][0] is not None and rows[i][1] is not None]
    if not live:
        return nt(False)
    before = snap(ds)
    kw = {"filter": rt.FastArray(np.array(filt))} if filt else {}
    cells = [tuple(rows[i]) for i in live]
    dup = len(set(cells)) != len(cells)
    nt(len(live) < n and not dup, "dup" if dup else "unique", "filter" if filt else "nofilter")
    try:
        got = ds.pivot(L, "col", "val", ordered=case["ordered"], **kw)
    except ValueError as e:
        require(dup or L == "b", "pivot refused a table without duplicate cells", error=str(e))  # a column value equal to the label name is refused
        return
    require(not dup, "pivot accepted several rows for one cell", cells=cells)
    require(snap(ds) == before, "pivot changed its table")
    lab = canon(got[L])
    require(len(set(lab)) == len(lab) and set(c[0] for c in cells) <= set(lab), "pivot: labels", got=lab)
    names = {str(c[1]) for c in cells}
    require(names <= set(got.keys()), "pivot: columns", got=list(got.keys()))
    src = {(r, str(c)): case["v"][i] for (r, c), i in zip(cells, live)}
    for nm in got.keys():
        if nm != L:
            same_list(canon(got[nm]), [src.get((r, nm)) for r in lab], f"pivot: column {nm}")


@facet("C18", st.tuples(s_tab(["int32", "float64", "int64"], lo=1, hi=6, maxc=4, few=True), st.booleans()), quick=400, shards=2, rule="2 or more columns and rows")
def melt_pivot(case):
    t, _ = case
    n = t["n"]
    ds = mk(t, True)
    nt(n > 1 and len(t["cols"]) > 1)
    m = ds.melt("idn")
    p = m.pivot("idn", "variable", "value")
    same_list(canon(p.idn), list(range(n)), "melt/pivot: labels")
    for k, c in t["cols"]:
        same_list([None if x is None else float(x) for x in canon(p[k])], [None if x is None else float(x) for x in want(c)], f"melt/pivot: column {k}")


# ---------------------------------------------------------------- matrices
@st.composite
def s_mat(draw):
    t = draw(s_tab(["int32", "float64", "int64", "float32", "S", "cat", "int16", "bool"], lo=1, hi=6, maxc=5, few=True))
    return {"t": t, "form": draw(pick(["imatrix", "imatrixC", "inplace", "colnames", "as_matrix", "add_matrix", "transpose", "transpose_lab", "dtype", "y", "totals"])), "x": draw(st.integers(0, 9))}


def fl(v):
    return [None if x is None else float(x) for x in v]


def matrix_is(m, W, what, n, tol=1e-6):
    require(m.shape == (n, len(W)), f"{what}: shape", got=m.shape, expected=(n, len(W)))
    for j, w in enumerate(W):
        same_list(fl(canon(np.asarray(m[:, j]))), fl(w), f"{what}: column {j}", tol=tol)


@facet("C18", s_mat(), quick=1100, shards=3, rule="2 or more computable columns and rows")
def matrices(case):
    t, form, x = case["t"], case["form"], case["x"]
    cols = dict(t["cols"])
    n = t["n"]
    comp = [k for k, c in cols.items() if c["k"] not in ("S", "cat")]
    if not comp:
        return nt(False)
    ds = mk(t)
    before = snap(ds)
    W = {k: want(c) for k, c in cols.items()}
    # an all-integer matrix keeps sentinels of the column type only when the types agree
    if len({cols[k]["k"] for k in comp} - {"bool"}) > 1 or "bool" in {cols[k]["k"] for k in comp}:
        if not any(cols[k]["k"].startswith("f") for k in comp) and any(v is None for k in comp for v in W[k]):
            return nt(False)
    nt(n > 1 and len(comp) > 1, form)
    if form in ("imatrix", "imatrixC"):
        m, names = ds.imatrix_make(order="C" if form.endswith("C") else "F", inplace=False, retnames=True)
        require(list(names) == comp, "imatrix_make: names", got=names, expected=comp)
        matrix_is(m, [W[k] for k in comp], form, n)
        require(snap(ds) == before, "imatrix_make(inplace=False) changed its table")
    elif form == "dtype":
        m = ds.imatrix_make(dtype=np.float64, inplace=False)
        require(m.dtype == np.float64, "imatrix_make: dtype", got=m.dtype)
        matrix_is(m, [W[k] for k in comp], form, n)
    elif form == "inplace":
        m = ds.imatrix_make()
        matrix_is(m, [W[k] for k in comp], form, n)
        require(list(ds.keys()) == list(cols), "imatrix_make: columns of the table")
        for k in comp:
            same_list(fl(canon(ds[k])), fl(W[k]), f"imatrix_make: table column {k}", tol=1e-6)
        require(ds.imatrix is not None and np.asarray(ds.imatrix).shape == m.shape, "imatrix property")
    elif form == "colnames":
        sub = comp[:: 1 + x % 2][::-1]
        m = ds.imatrix_make(colnames=list(sub), inplace=False)
        matrix_is(m, [W[k] for k in sub], form, n)
    elif form == "as_matrix":
        m, info = ds.as_matrix()
        require(m.shape == (n, len(cols)) and list(info) == list(cols), "as_matrix: shape", got=m.shape)
        for j, (k, c) in enumerate(cols.items()):
            g = np.asarray(m[:, j]).tolist()
            if c["k"] in ("S",):
                u = [s.decode() for s in info[k]["category_values"].tolist()]
                same_list([u[int(v)] for v in g], W[k], "as_matrix: string column by its category values")
            elif c["k"] in NUMK:
                same_list(fl(canon(np.asarray(g))), fl(W[k]), f"as_matrix: column {k}", tol=1e-6)
    elif form == "add_matrix":
        m = np.arange(n * 3, dtype=float).reshape(n, 3) + x
        m = rt.FastArray(m) if x % 2 else m
        names = ["m1", "m2", "m3"] if x % 3 else None
        ds.add_matrix(m, names)
        nm = names or ["col_0", "col_1", "col_2"]
        require(list(ds.keys()) == list(cols) + nm, "add_matrix: names", got=list(ds.keys()))
        for j, k in enumerate(nm):
            same_list(canon(ds[k]), np.asarray(m)[:, j].tolist(), f"add_matrix: column {j}")
    elif form.startswith("transpose"):
        lab = None
        if form.endswith("lab"):
            lab = [f"r{i}" for i in range(n)]
            ds.rown = rt.FastArray(np.array(lab, dtype="S"))
            ds.label_set_names(["rown"])
            before = snap(ds)
        g = ds.transpose()
        names = lab or [f"C{i}" for i in range(n)]
        require(list(g.keys()) == ["Col"] + names, "transpose: names", got=list(g.keys()))
        same_list(canon(g.Col), comp, "transpose: column names")
        for i, k in enumerate(names):
            same_list(fl(canon(g[k])), fl([W[c][i] for c in comp]), f"transpose: row {i}", tol=1e-6)
        require(snap(ds) == before, "transpose changed its table")
    elif form in ("y", "totals"):
        if any(v is None for k in comp for v in W[k]):
            return nt(False)
        tot = [sum(float(W[k][i]) for k in comp) for i in range(n)]
        if form == "y":
            r = ds.imatrix_y(np.sum, name="Tot")
            same_list(fl(canon(ds.Tot)), tot, "imatrix_y: row totals", tol=1e-6)
            require(ds.summary_get_names() == ["Tot"], "imatrix_y: summary column", got=ds.summary_get_names())
        else:
            ds.imatrix_totals(name="Tot")
            same_list(fl(canon(ds.Tot)), tot, "imatrix_totals: row totals", tol=1e-6)
            f = ds.footer_get_dict()["Tot"]
            for k in comp:
                same_list([float(f[k])], [sum(float(v) for v in W[k])], f"imatrix_totals: footer of {k}", tol=1e-5)
            same_list([float(f["Tot"])], [sum(tot)], "imatrix_totals: grand total", tol=1e-5)
        for k in comp:
            same_list(fl(canon(ds[k])), fl(W[k]), f"{form}: table column {k}", tol=1e-6)


# ---------------------------------------------------------------- rows
@facet("C18", st.tuples(s_tab(["int32", "float64", "S", "U", "bool", "int64", "cat", "catf"], lo=0, hi=6, maxc=4, few=True), pick(["Dataset", "Struct", "dict", "OrderedDict", "namedtuple", "tuple", "list", "iter", "iterrows", "tolist", "gbrows", "record"]), pick(["rows", "tagged"])), quick=1100, shards=3, rule="2 or more columns and rows")
def by_rows(case):
    t, form, back = case
    cols = dict(t["cols"])
    n = t["n"]
    ds = mk(t)
    before = snap(ds)
    names = list(cols)
    W = {k: want(c) for k, c in cols.items()}
    nt(n > 1 and len(cols) > 1, form)

    def cellv(x, k):
        if isinstance(x, bytes):
            x = x.decode()
        if isinstance(x, np.str_):
            x = str(x)
        if cols[k]["k"] in CATK:
            return FILT if x == "Filtered" else x
        return npy(np.asarray([x]))[0] if not isinstance(x, str) else x

    def cmp(i, vals, what):
        require(len(vals) == len(names), f"{what}: row length", got=len(vals))
        same_list([cellv(v, k) for v, k in zip(vals, names)], [W[k][i] for k in names], f"{what}: row {i}")

    if form == "gbrows":
        num = [k for k in names if cols[k]["k"] in ("int32", "int64", "float64")]
        if not num or n < 1 or any(v is None for k in num for v in W[k]):
            return nt(False)
        sub = ds[num]
        g = sub.gbrows().sum()
        same_list(fl(canon(g.Row)), [sum(float(W[k][i]) for k in num) for i in range(n)], "gbrows().sum()")
        return
    if form == "record":
        sub = [k for k in names if cols[k]["k"] not in CATK]
        if not sub:
            return nt(False)
        ra = ds[sub].as_recordarray()
        require(len(ra) == n and list(ra.dtype.names) == sub, "as_recordarray: fields", got=ra.dtype.names)
        for k in sub:
            same_list(npy(np.asarray(ra[k])), W[k], f"as_recordarray: {k}")
        return
    if form == "iterrows":
        rows = []
        for i, r in ds.iterrows():
            require(i == len(rows), "iterrows: row number")
            cmp(i, [r[k] for k in names], "iterrows")
            rows.append(1)
    elif form == "tolist":
        rows = ds.tolist()
        for i, r in enumerate(rows):
            cmp(i, r, "tolist")
    else:
        rows = [list(r) if form == "iter" else r for r in ds.asrows(as_type=form)]
        for i, r in enumerate(rows):
            if form == "Dataset":
                require(r.shape == (1, len(names)) and list(r.keys()) == names, "asrows: one-row table", got=r.shape)
                for k in names:
                    check_col(r[k], [W[k][i]], cols[k]["k"], f"asrows(Dataset): {k}")
                continue
            if form in ("dict", "OrderedDict"):
                require(list(r) == names, "asrows: keys")
                r = list(r.values())
            elif form == "Struct":
                r = [r[k] for k in names]
            cmp(i, list(r), f"asrows({form})")
    require(len(rows) == n, f"{form}: number of rows", got=len(rows))
    require(snap(ds) == before, f"{form} changed the table")
    # and back from Python rows
    plain = {k: w for k, w in W.items() if cols[k]["k"] in ("int32", "int64", "S", "bool", "float64") and not any(v is None for v in w)}
    if n and plain:
        if back == "rows":
            b = rt.Dataset.from_rows([[w[i] for w in plain.values()] for i in range(n)], list(plain))
        else:
            b = rt.Dataset.from_tagged_rows([{k: w[i] for k, w in plain.items()} for i in range(n)])
        require(set(b.keys()) == set(plain) and len(b) == n, f"from_{back}: shape", got=b.shape)
        for k, w in plain.items():
            same_list(canon(b[k]), w, f"from_{back}: column {k}")


@st.composite
def s_jag(draw):
    n = draw(st.integers(1, 5))
    uni = draw(st.booleans())
    pool = ["a", "bb", "ccc", "ñ"] if uni else ["a", "bb", "ccc"]
    lens = draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))
    return {"rows": [draw(vals(pool, k)) for k in lens], "num": draw(st.booleans()), "fill": draw(pick([None, "x", 7])), "base": draw(pick(["C", "col"])), "other": draw(st.lists(st.lists(st.integers(0, 9), min_size=0, max_size=3), min_size=n, max_size=n)), "form": draw(pick(["rows", "rows", "dict", "stacked", "stackedscalar"])), "as": draw(pick(["list", "np"]))}


@facet("C18", s_jag(), quick=900, shards=2, rule="rows of 2 or more different lengths")
def jagged(case):
    rows, fill, form = case["rows"], case["fill"], case["form"]
    n = len(rows)
    w = max(map(len, rows))
    nt(len({len(r) for r in rows}) > 1, form)
    uni = any("ñ" in r for r in rows)
    if form in ("rows", "dict"):
        if w == 0:
            return nt(False)
        arg = [rt.FastArray(np.array(r, dtype="U" if uni else "S"), unicode=uni) if r else rt.FastArray(np.array([], dtype="S1")) for r in rows]
        if case["num"]:
            nums = [[len(s) for s in r] for r in rows]
            arg = [rt.FastArray(np.array(r, dtype="int64")) if r else rt.FastArray(np.array([], dtype="S1")) for r in nums]
            src = [[str(s) for s in r] for r in nums]
        else:
            src = rows
        given = list(arg)
        kw = {} if fill is None else {"fill_value": fill}
        f = "" if fill is None else str(fill)
        if form == "rows":
            got = rt.Dataset.from_jagged_rows(arg, column_name_base=case["base"], **kw)
            require(len(arg) == len(given) and all(a is b for a, b in zip(arg, given)), "from_jagged_rows changed the list it was given")
            names = [f"{case['base']}{i}" for i in range(w)]
        else:
            got = rt.Dataset.from_jagged_dict({"p": list(arg), "q": list(arg)}, **kw)
            names = [f"p{i}" for i in range(w)] + [f"q{i}" for i in range(w)]
        require(list(got.keys()) == names, f"jagged {form}: names", got=list(got.keys()), expected=names)
        for j, k in enumerate(names):
            j %= w
            same_list(canon(got[k]), [r[j] if j < len(r) else f for r in src], f"jagged {form}: column {k}")
        return
    # stacked: the cross product of each row's lists
    a, b = [[s for s in r if s != "ñ"] for r in rows], case["other"]
    if not any(a) or not any(b):
        return nt(False)
    if form == "stackedscalar":
        b = [r[0] if len(r) == 1 else r for r in b]
    d = {"s": a, "n": b, "i": list(range(n))}
    aslist = lambda v: v if isinstance(v, list) else [v]
    got = rt.Dataset.from_jagged_dict(d, stacked=True)
    exp = []
    for i in range(n):
        for y in aslist(b[i]):
            for x in a[i]:
                exp.append((x, y, i))
    require(list(got.keys()) == ["s", "n", "i"], "stacked: names")
    require(len(got) == len(exp), "stacked: number of rows", got=len(got), expected=len(exp))
    g = list(zip(canon(got.s), canon(got.n), canon(got.i)))
    same_list(sorted(g), sorted(exp), "stacked: rows")
    same_list([r[2] for r in g], [r[2] for r in exp], "stacked: row order")
