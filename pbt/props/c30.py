"""C30: generated tables, arrays and containers rendered under generated display options; the text and HTML are parsed back cell by cell and compared with an independent formatter, data snapshots before and after"""
import contextlib
import datetime
import html.parser
import io
import math
import re
import warnings
import zoneinfo

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from riptable.rt_display import DisplayDetect, DisplayTable
from riptable.Utils.display_options import DisplayOptions

from ..core import *
from ..lib import *
from ..cols import *

warnings.filterwarnings("ignore")
KINDS = ["int32", "float64", "S", "U", "bool", "int8", "uint8", "int64", "uint64", "float32", "cat", "catU", "catn", "catf", "cat0", "cmap", "cmulti", "cdate", "date", "dtn", "tspan", "dspan", "W"]
NAMES = ["a", "b", "Column", "x y", "a_rather_long_column_name", "é", "Z9", "w" * 20, "k"]
WIDE = ["", "x", "two words", "fifteen letters", "sixteen letters!", "a much longer text than the display width", "a-b_c.d"]


@contextlib.contextmanager
def options(**kw):
    # the display mode and these options are process-wide; put back whatever a rendering may leave behind
    old = {k: getattr(DisplayOptions, k) for k in kw}
    mode, force = DisplayDetect.Mode, DisplayTable.FORCE_REPR
    try:
        for k, v in kw.items():
            setattr(DisplayOptions, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(DisplayOptions, k, v)
        DisplayDetect.Mode = mode
        DisplayTable.FORCE_REPR = force


# ------------------------------------------------------------------ the expected text of a cell
def num_ok(t, v, width):
    """t shows the number v to the precision it displays"""
    if v is None or v != v:
        return t in ("nan", "Inv", "")
    try:
        g = float(t.replace(",", "").replace("_", ""))
    except ValueError:
        return False
    v = float(v)
    if math.isinf(v) or math.isinf(g):
        return g == v
    if "e" in t:
        return abs(g - v) <= abs(v) * 6e-4
    # fixed notation must not hide a value altogether
    return abs(g - v) <= 0.00501 and (v == 0 or g != 0)


def cell_ok(t, k, v, width):
    """the stripped text t is a correct rendering of the canonical value v of kind k"""
    if k in ("float64", "float32"):
        return num_ok(t, np.float32(v) if k == "float32" and v is not None else v, width)
    if k == "bool":
        return t == str(bool(v))
    if k in NUMK:
        return t == ("Inv" if v is None else str(int(v)))
    if k in ("S", "U", "W"):
        return t == (v or "")[:width].strip()
    if k in ("cat", "catU", "catf", "cat0"):
        return t in ("Filtered", "Filtered"[:width]) if v == FILT else t in (v, v[:width].strip())
    if k == "catn":
        return t == str(v)
    if k == "cmap":
        return t == v[1]
    if k == "cmulti":
        return t == ("(%d, %s)" % v)
    if k in ("date", "cdate"):
        return t == ("Inv" if v is None else str(datetime.date(1970, 1, 1) + datetime.timedelta(days=v)))
    if k == "dspan":
        return t == "Inv" if v is None else re.fullmatch(r"%d days?" % v, t) is not None
    if k == "dtn":
        if v is None:
            return t == "Inv"
        d = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=v // 10**9)
        return t == d.astimezone(zoneinfo.ZoneInfo("America/New_York")).strftime("%Y%m%d %H:%M:%S.") + "%09d" % (v % 10**9)
    if k == "tspan":
        if v is None:
            return t in ("Inv", "nan")
        m = re.fullmatch(r"(?:(\d+)d )?(\d+):(\d\d):(\d\d)\.(\d{9})", t)
        return m is not None and ((int(m[1] or 0) * 24 + int(m[2])) * 3600 + int(m[3]) * 60 + int(m[4])) * 10**9 + int(m[5]) == int(v)
    raise AssertionError(k)


@st.composite
def s_cols(draw, n, lo=1, hi=6, kinds=KINDS):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=lo, max_size=hi, unique=True))
    out = []
    for nm in names:
        k = draw(pick(kinds))
        if k in CATK and n == 0:
            k = "int32"
        out.append((nm, {"k": "W", "v": draw(vals(WIDE, n))} if k == "W" else draw(scol(n, [k], inv=True))))
    return out


def mk(c):
    return rt.FastArray(np.array(c["v"], dtype="S")) if c["k"] == "W" else mkcol(c)


def wn(c):
    return list(c["v"]) if c["k"] == "W" else want(c)


@st.composite
def s_table(draw):
    n = draw(st.one_of(sizes(0, 6), st.integers(7, 45), st.sampled_from([29, 30, 31])))
    return {"n": n, "cols": draw(s_cols(n)), "head": draw(st.sampled_from([15, 15, 1, 2, 5])), "tail": draw(st.sampled_from([15, 15, 1, 2, 5])), "all": draw(st.booleans()), "call": draw(st.sampled_from([False, False, True])),
            "x": draw(st.sampled_from([150, 150, 40, 60, 500])), "w": draw(st.sampled_from([15, 15, 5, 40])), "how": draw(pick("repr", "str", "html", "html")), "sort": draw(st.booleans()), "label": draw(st.sampled_from([0, 0, 1, 2])), "foot": draw(st.booleans())}


# ------------------------------------------------------------------ reading a rendering back
DASH = re.compile(r"^-+(?: {3}-+)*$")


def parse_text(t):
    """blocks of (headers, rows, footer rows), all cells stripped"""
    lines = t.split("\n")
    out = []
    i = 0
    while i < len(lines):
        if DASH.match(lines[i].rstrip()) and i > 0:
            spans = [(m.start(), m.end()) for m in re.finditer(r"-+", lines[i])]

            def cut(s):
                return [s[a:b].strip() for a, b in spans]
            hdr = cut(lines[i - 1])
            i += 1
            rows, foot = [], []
            dest = rows
            while i < len(lines) and lines[i] != "":
                if DASH.match(lines[i].rstrip()) and len(re.findall(r"-+", lines[i])) == len(spans):
                    dest = foot
                else:
                    # nothing may be written between the columns
                    s = lines[i]
                    for (a, b), (a2, b2) in zip(spans, spans[1:]):
                        require(s[b:a2].strip() == "", "text runs over the column it belongs to", line=s, rule=lines[i])
                    require(s[spans[-1][1]:].strip() == "", "text runs past the last column", line=s)
                    dest.append(cut(s))
                i += 1
            out.append((hdr, rows, foot))
        else:
            i += 1
    return out


class P(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.tables, self.sect, self.cell = [], None, None

    def handle_starttag(self, tag_, attrs):
        if tag_ == "table":
            self.tables.append({"thead": [], "tbody": [], "tfoot": []})
        elif tag_ in ("thead", "tbody", "tfoot"):
            self.sect = tag_
        elif tag_ == "tr" and self.tables:
            self.tables[-1][self.sect].append([])
        elif tag_ in ("td", "th"):
            self.cell = ""

    def handle_data(self, d):
        if self.cell is not None:
            self.cell += d

    def handle_endtag(self, tag_):
        if tag_ in ("td", "th") and self.cell is not None:
            self.tables[-1][self.sect][-1].append(self.cell.strip())
            self.cell = None


def parse_html(t):
    p = P()
    p.feed(t)
    return [(x["thead"][-1] if x["thead"] else [], x["tbody"], x["tfoot"]) for x in p.tables]


def render(o, how):
    if how == "html":
        return o._repr_html_()
    return repr(o) if how == "repr" else str(o)


@facet("C30", s_table(), quick=3000, shards=5, rule="rows are abbreviated, columns are left out, or labels/sort/footer are shown")
def tables(c):
    """every shown cell of a table is the value stored in that row and column; the rows and columns shown are the first and last ones"""
    n = c["n"]
    ds = rt.Dataset({nm: mk(x) for nm, x in c["cols"]})
    vals_ = {nm: wn(x) for nm, x in c["cols"]}
    kind = {nm: x["k"] for nm, x in c["cols"]}
    names = list(vals_)
    labels = []
    order = list(range(n))
    if c["label"] and n and not c["sort"]:
        labels = names[: c["label"]]
        ds.label_set_names(labels)
    if c["sort"] and n:
        ds["ord"] = rt.FastArray(np.array([(i * 7 + 3) % n for i in range(n)]))
        vals_["ord"], kind["ord"] = [(i * 7 + 3) % n for i in range(n)], "int64"
        ds.sort_view("ord")
        order = sorted(range(n), key=lambda i: (i * 7 + 3) % n)
        names = ["ord"] + names
    foot = None
    if c["foot"] and n:
        foot = {"k2": 5}
        ds["k2"] = rt.FastArray(np.arange(n))
        vals_["k2"], kind["k2"] = list(range(n)), "int64"
        names = names + ["k2"]
        ds.footer_set_values("Tot", {"k2": 123})
    s0 = snap(ds)
    with options(HEAD_ROWS=c["head"], TAIL_ROWS=c["tail"], ROW_ALL=c["all"], COL_ALL=c["call"], CONSOLE_X=c["x"], CONSOLE_X_HTML=c["x"], MAX_STRING_WIDTH=c["w"]):
        t = render(ds, c["how"])
        t2 = render(ds, c["how"])
    if c["how"] != "html":
        require(t == t2, "rendering twice gives two texts", a=t, b=t2, case=c)
    require(snap(ds) == s0, "rendering changed the table", case=c)
    blocks = parse_html(t) if c["how"] == "html" else parse_text(t)
    shown = order
    cut_rows = not c["all"] and n > c["head"] + c["tail"]
    if cut_rows:
        shown = order[: c["head"]] + ["..."] + order[n - c["tail"]:]
    seen = []
    for hdr, rows, fr in blocks:
        if foot and rows and not fr and "Tot" in rows[-1]:
            rows, fr = rows[:-1], rows[-1:]
        require(len(rows) == len(shown), "another number of rows is shown", got=len(rows), want=len(shown), text=t[-1500:], case=c)
        left = len(labels) if labels else 1
        for r, i in zip(rows, shown):
            require(len(r) == len(hdr), "a row has another number of cells than the header", row=r, header=hdr, case=c)
            if i == "...":
                require(all(x == "..." for x in r), "the break row shows something else", row=r, case=c)
                continue
            if not labels:
                require(r[0] == str(i), "the row number differs", got=r[0], want=i, case=c)
        if labels:
            require([h.lstrip("*") for h in hdr[:left]] == labels, "label headers differ", got=hdr, want=labels, case=c)
        cols = hdr[left:]
        for j, h in enumerate(cols):
            if h == "..." and h not in vals_:
                require(all(r[left + j] == "..." for r in rows), "the break column shows something else", rows=rows[:3], case=c)
                seen.append(h)
                continue
            require(h in vals_, "an unknown column header is shown", got=h, want=names, case=c)
            seen.append(h)
            for r, i in zip(rows, shown):
                if i != "...":
                    require(cell_ok(r[left + j], kind[h], vals_[h][i], c["w"]), "a cell does not show the stored value", column=h, kind=kind[h], row=i, shown=r[left + j], stored=vals_[h][i], case=c)
        for j, h in enumerate(labels):
            prev = None
            for r, i in zip(rows, shown):
                if i == "...":
                    continue
                got = r[j]
                if got == "." and j == 0 and len(labels) > 1:
                    # a repeated leading key is shown as a dot
                    require(prev is not None and (vals_[h][i] == vals_[h][prev] or (vals_[h][i] != vals_[h][i]) or cell_same(kind[h], vals_[h][i], vals_[h][prev], c["w"])), "a repeated-key dot where the key is new", column=h, row=i, stored=vals_[h][i], before=None if prev is None else vals_[h][prev], case=c)
                else:
                    require(cell_ok(got, kind[h], vals_[h][i], c["w"]), "a label cell does not show the stored value", column=h, kind=kind[h], row=i, shown=got, stored=vals_[h][i], case=c)
                prev = i
        if foot and fr and "k2" in cols:
            require(fr[0][left + cols.index("k2")] == "123", "the footer value is not under its column", got=fr, header=hdr, case=c)
    want_cols = [x for x in names if x not in labels]
    if "..." in seen:
        i = seen.index("...")
        a, b = seen[:i], seen[i + 1:]
        require(a == want_cols[: len(a)] and b == want_cols[len(want_cols) - len(b):] and len(a) + len(b) < len(want_cols), "the shown columns are not the first and last ones", got=seen, want=want_cols, case=c)
    elif blocks and seen:
        if seen != want_cols:
            # too narrow for anything else: the first columns only
            require(not c["call"] and seen == want_cols[: len(seen)] and False, "columns are missing without a break", got=seen, want=want_cols, text=t[:1500], case=c)
    nt(cut_rows or "..." in seen or bool(labels) or (c["sort"] and n > 1) or bool(foot), c["how"], "cut_rows" if cut_rows else "", "cut_cols" if "..." in seen else "")


def cell_same(k, a, b, w):
    if k in ("S", "U", "W", "cat", "catU", "catf", "cat0"):
        return (a or "")[:w] == (b or "")[:w]
    if k in ("float64", "float32"):
        return a is None and b is None or a is not None and b is not None and abs(a - b) <= max(0.011, abs(a) * 2e-3)
    return a == b


# ------------------------------------------------------------------ markup in the data
@facet("C30", st.fixed_dictionaries({"v": st.lists(st.sampled_from(["x", "<b>", "a<b", "p&lt;q", "a>b", "&"]), min_size=1, max_size=4)}), quick=150, shards=1, rule="a value contains a character that HTML treats as markup")
def markup(c):
    """text shows such values as they are (the HTML form is a known finding)"""
    ds = rt.Dataset({"a": rt.FastArray(c["v"])})
    b = parse_text(repr(ds))
    require([r[1] for r in b[0][1]] == c["v"], "a cell does not show the stored value", got=b, case=c)
    if c.get("known"):
        g = [r[1] for r in parse_html(ds._repr_html_())[0][1]]
        require(g == c["v"], "an HTML cell does not show the stored value", got=g, want=c["v"])
    nt(any(set(x) & set("<>&") for x in c["v"]))


# ------------------------------------------------------------------ transposed tables, group results, containers
@st.composite
def s_small(draw):
    n = draw(st.one_of(sizes(1, 5), st.integers(6, 20)))
    return {"n": n, "cols": draw(s_cols(n)), "w": draw(st.sampled_from([15, 32, 40])), "t": draw(st.integers(1, 9)), "how": draw(pick("text", "text", "html")), "label": draw(st.booleans())}


@facet("C30", s_small(), quick=1200, shards=3, rule="more than one column and row")
def transposed(c):
    """a transposed table shows one row per column and one column per leading row, with the stored values"""
    ds = rt.Dataset({nm: mk(x) for nm, x in c["cols"]})
    vals_ = {nm: wn(x) for nm, x in c["cols"]}
    kind = {nm: x["k"] for nm, x in c["cols"]}
    s0 = snap(ds)
    with options(COL_T=c["t"], CONSOLE_X=500, CONSOLE_X_HTML=500, MAX_STRING_WIDTH=c["w"], COL_ALL=False):
        t = str(ds.dtranspose(plain=True))
        u = repr(ds.dtranspose())
        v = ds._T
        w = ds.dtranspose()._repr_html_() if c["how"] == "html" else None
    require(snap(ds) == s0, "transposed display changed the table", case=c)
    blocks = parse_text(t)
    require(len(blocks) == 1, "no table is shown", text=t, case=c)
    hdr, rows, _ = blocks[0]
    k = len(hdr) - 1
    require(k >= min(c["t"], c["n"]), "fewer rows than asked for are shown", got=hdr, case=c)
    require(hdr[1:] == [str(i) for i in range(k)], "the row numbers across the top differ", got=hdr, want=k, case=c)
    require([r[0] for r in rows] == [x[: c["w"]] for x in vals_], "the field names differ", got=[r[0] for r in rows], want=list(vals_), case=c)
    for r, nm in zip(rows, vals_):
        for i in range(k):
            require(cell_ok(r[1 + i], kind[nm], vals_[nm][i], c["w"]), "a transposed cell does not show the stored value", column=nm, kind=kind[nm], row=i, shown=r[1 + i], stored=vals_[nm][i], case=c)
    nt(len(vals_) > 1 and c["n"] > 1, c["how"])


@st.composite
def s_group(draw):
    n = draw(sizes(1, 12))
    return {"n": n, "k1": draw(vals(["a", "b", "cc", "long key value"], n)), "k2": draw(vals([1, 2, 30], n)), "v": draw(vals([1, 2, -5, 1000000, None], n)), "f": draw(vals([0.5, -1.25, 1e9, 1e-7, 0.0], n)), "op": draw(pick("sum", "max", "min", "first", "count")), "keys": draw(st.sampled_from([["k1"], ["k1", "k2"], ["k2", "k1"], ["k2"]])), "how": draw(pick("repr", "str", "html"))}


@facet("C30", s_group(), quick=1000, shards=3, rule="two groups or more")
def grouped(c):
    """group results, accumulations and multi-table containers show the values they hold under their headers"""
    ds = rt.Dataset({"k1": rt.FastArray(c["k1"]), "k2": rt.FastArray(np.array(c["k2"])), "v": rt.FastArray(np.array([INV["int32"] if x is None else x for x in c["v"]], dtype="int32")), "f": rt.FastArray(np.array(c["f"]))})
    g = ds.gb(c["keys"])
    r = getattr(g, c["op"])() if c["op"] == "count" else getattr(g, "nan" + c["op"] if c["op"] != "first" else "first")()
    s0, s1 = snap(ds), snap(r)
    with options(CONSOLE_X=500, CONSOLE_X_HTML=500):
        t = render(r, c["how"])
        repr(g)
        str(g)
        m = rt.Multiset({"one": ds[["v", "f"]], "two": ds[["v"]]})
        mt = str(m)
        mh = m._repr_html_()
    require(snap(ds) == s0 and snap(r) == s1, "rendering changed the data", case=c)
    (hdr, rows, _), = parse_html(t) if c["how"] == "html" else parse_text(t)
    labs = r.label_get_names()
    names = labs + [k for k in r.keys() if k not in labs]
    require([h.lstrip("*") for h in hdr] == names, "headers of a group result differ", got=hdr, want=names, case=c)
    require(len(rows) == r.shape[0], "row count of a group result differs", got=len(rows), want=r.shape[0], case=c)
    first = None
    for i, row in enumerate(rows):
        for nm, t_ in zip(names, row):
            v = canon(r[nm])[i]
            k = "W" if nm == "k1" else "float64" if r[nm].dtype.kind == "f" else "int64"
            if t_ == "." and nm == names[0] and len(c["keys"]) > 1:
                require(first is not None and v == first, "a repeated-key dot where the key is new", row=row, case=c)
            else:
                require(cell_ok(t_, k, v, 15), "a cell of a group result does not show the value", column=nm, shown=t_, stored=v, case=c)
            if nm == names[0]:
                first = v
    # container of tables: two header lines; the lower one names the tables
    (h2, mrows, _), = parse_text(mt)
    require(h2 == ["#", "one", "two", "one"], "headers of a multi-table container differ", got=h2, text=mt[:500], case=c)
    for i, row in enumerate(mrows):
        v, f = canon(ds["v"])[i], c["f"][i]
        require(row[0] == str(i) and cell_ok(row[1], "int32", v, 15) and cell_ok(row[2], "int32", v, 15) and cell_ok(row[3], "float64", f, 15), "a cell of a multi-table container does not show the value", row=row, stored=(v, f), case=c)
    require(len(parse_html(mh)[0][1]) == c["n"], "HTML of a multi-table container has another number of rows", case=c)
    nt(len(rows) > 1, c["op"], c["how"])


# ------------------------------------------------------------------ arrays and structures
@st.composite
def s_arr(draw):
    n = draw(st.one_of(sizes(0, 8), st.integers(9, 60), st.sampled_from([999, 1000, 1001, 1500])))
    k = draw(pick([x for x in KINDS if x != "W"]))
    if k in CATK:
        n = max(n, 1)
    base = draw(scol(min(n, 9), [k], inv=True))
    return {"n": n, "c": base, "s": draw(st.booleans())}


def quoted(t):
    return re.findall(r"'([^']*)'", t)


@facet("C30", s_arr(), quick=1800, shards=3, rule="more than one element")
def arrays(c):
    """the text of an array names its class and shows its elements in order, the first and last ones when abbreviated"""
    base = c["c"]
    spec = dict(base)
    if base["v"]:
        spec["v"] = [base["v"][i % len(base["v"])] for i in range(c["n"])]
    x = mkcol(spec)
    s0 = snap(x)
    t, u = repr(x), str(x)
    x._repr_html_() if hasattr(x, "_repr_html_") else None
    require(snap(x) == s0, "rendering changed the array", case=c)
    k, w = base["k"], want(spec)
    n = len(w)
    if k in NUMK or k in ("bool", "S", "U"):
        ref = repr(np.asarray(x))
        body = lambda z: re.sub(r"\s+", "", z[z.index("(") + 1:]).split(",dtype")[0].rstrip(")")
        require(t.startswith("FastArray(") and body(t) == body(ref), "the text of an array differs from its elements", got=t[:300], want=ref[:300], case=c)
        require(re.sub(r"\s+", " ", u) == re.sub(r"\s+", " ", str(np.asarray(x))), "str of an array differs from its elements", got=u[:300], case=c)
    elif k in ("date", "dtn", "tspan", "dspan"):
        cls = CLS[k]
        require(t.startswith(cls + "("), "the class name is missing", got=t[:60], case=c)
        q = quoted(t.split(", to_tz")[0])
        if len(q) == n:
            idx = list(range(n))
        else:
            require("..." in t and len(q) < n, "elements are missing without an ellipsis", got=len(q), want=n, text=t[:300], case=c)
            h = len(quoted(t[: t.index("...")]))
            idx = list(range(h)) + list(range(n - (len(q) - h), n))
        for a, i in zip(q, idx):
            require(cell_ok(a, k, w[i], 100), "an element of the text is not the stored one", kind=k, shown=a, stored=w[i], i=i, case=c)
    else:
        m = re.match(r"Categorical\(\[(.*?)\]\) Length: (\d+)", t, re.S)
        require(m is not None and int(m[2]) == n, "length in the text differs", got=t[:200], want=n, case=c)
        if k != "cmulti":
            el = [e.strip().strip("'") for e in m[1].split(",")] if m[1] else []
            if "..." in el:
                h = el.index("...")
                tail = len(el) - h - 1
                el.remove("...")
                idx = list(range(h)) + list(range(n - tail, n))
            else:
                idx = list(range(n))
            require(len(el) == len(idx), "another number of elements is shown", got=len(el), want=len(idx), text=t[:300], case=c)
            for a, i in zip(el, idx):
                require(cell_ok(a, k, w[i], 100), "an element of the text is not the stored one", kind=k, shown=a, stored=w[i], i=i, case=c)
        if k != "cmap":
            m2 = re.search(r"Unique count: (\d+)", t)
            require(m2 is not None and int(m2[1]) == x.unique_count, "unique count in the text differs", got=t[-120:], case=c)
    nt(n > 1, k)


@st.composite
def s_struct(draw, depth=2):
    out = []
    for nm in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
        k = draw(pick("arr", "int", "str", "st", "ds", "float", "list", "none") if depth else pick("arr", "int", "str"))
        out.append((nm, k, draw(scol(draw(st.integers(1, 4)), ["int32", "float64", "S", "cat", "date", "dtn"], inv=True)) if k in ("arr", "ds") else draw(s_struct(depth - 1)) if k == "st" else draw(st.integers(-9, 9))))
    return out


def mkst(items):
    d = {}
    for nm, k, v in items:
        d[nm] = mkcol(v) if k == "arr" else rt.Dataset({"q": mkcol(v), "r": mkcol(v)}) if k == "ds" else mkst(v) if k == "st" else {"int": v, "str": "s%d" % v, "float": v / 4, "list": [v], "none": None}[k]
    return rt.Struct(d)


@facet("C30", s_struct(), quick=1200, shards=3, rule="a nested item is shown")
def structures(items):
    """a structure lists every item with its name and size in order, its tree lists all nested items, and nothing changes"""
    s = mkst(items)
    s0 = snap(s)
    with options(CONSOLE_X=500, CONSOLE_X_HTML=500):
        t, u = repr(s), str(s)
        h = s._repr_html_()
        tr = str(s.tree())
    require(snap(s) == s0, "rendering changed the structure", case=items)
    b = parse_text(t)
    if items:
        hdr, rows, _ = b[0]
        require(hdr[:4] == ["#", "Name", "Type", "Size"], "headers differ", got=hdr, case=items)
        require([r[1] for r in rows] == [nm for nm, _, _ in items] and [r[0] for r in rows] == [str(i) for i in range(len(items))], "names differ", got=[r[:2] for r in rows], case=items)
        for r, (nm, k, v) in zip(rows, items):
            if k == "arr":
                require(r[3] == str(len(v["v"])), "the size of an array differs", got=r, want=len(v["v"]), case=items)
                w = want(v)
                for j in range(min(len(w), 3)):
                    if r[4 + j] != "":
                        # the summary line shows the stored number where the type column names a number type
                        raw = str(np.asarray(s[nm]._fa if hasattr(s[nm], "_fa") else s[nm])[j])
                        require(cell_ok(r[4 + j], v["k"], w[j], 15) or (r[4 + j] and raw.startswith(r[4 + j]) and len(r[4 + j]) >= min(len(raw), 15)), "an element shown in a structure is not the stored one", item=nm, kind=v["k"], shown=r[4 + j], stored=w[j], case=items)
            elif k == "ds":
                require(r[3] == "%d rows x 2 cols" % len(v["v"]), "the size of a table differs", got=r, case=items)
            elif k == "st":
                require(r[3] == str(len(v)) and [x[:15] for x in r[4:7] if x] == [x[0][:15] for x in v[:3]], "the names of a nested structure differ", got=r, want=[x[0] for x in v], case=items)
            elif k == "int":
                require(r[4] == str(v), "a scalar differs", got=r, want=v, case=items)
            elif k == "str":
                require(r[4] == "s%d" % v, "a text differs", got=r, case=items)
            elif k == "float":
                require(num_ok(r[4], v / 4, 15), "a scalar differs", got=r, want=v / 4, case=items)

    def walk(it):
        for nm, k, v in it:
            yield nm
            if k == "st":
                yield from walk(v)
            elif k == "ds":
                yield from ("q", "r")
    tl = [x.strip("│├└─ ├──").strip() for x in tr.split("\n")]
    pos = 0
    for nm in walk(items):
        hit = [i for i in range(pos, len(tl)) if tl[i].startswith(nm)]
        require(bool(hit), "a nested item is missing from the tree", name=nm, tree=tr, case=items)
        pos = hit[0]
    nt(any(k in ("st", "ds") for _, k, _ in items))
