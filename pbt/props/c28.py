"""C28: a catalogue of public operations run on generated arrays and tables with a deep snapshot of every argument before and after; deep copies and fresh results edited in place afterwards (aliasing)."""
import contextlib
import copy
import io
import os
import warnings

import numpy as np
from hypothesis import strategies as st

import riptable as rt

from ..core import *
from ..lib import *
from ..cols import *
from .c21 import scratch

warnings.filterwarnings("ignore")
KINDS = ["int32", "float64", "S", "U", "bool", "int8", "uint64", "int64", "float32", "cat", "catn", "catf", "cat0", "catU", "cmap", "cmulti", "date", "dtn", "tspan", "dspan"]


@st.composite
def s_env(draw, kinds=KINDS):
    n = draw(sizes(1, 9))
    k = draw(st.sampled_from(kinds))
    few = draw(st.booleans())
    return {"n": n, "x": draw(scol(n, [k], inv=True, few=few)), "y": draw(scol(n, [k] if k in ("cmulti", "cmap", "cat0") else [k, k, "int32", "float64", "S"], inv=True, few=True)),
            "key": draw(scol(n, ["S", "int32", "cat", "catf"], inv=False, few=True)), "z": draw(scol(n, ["float64", "int32"], inv=True, few=False)),
            "b": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "i": draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n)), "k": draw(st.integers(0, 3))}


class Env:
    def __init__(self, c):
        self.n = c["n"]
        self.x, self.y, self.key, self.z = (mkcol(c[k]) for k in ("x", "y", "key", "z"))
        self.b = rt.FastArray(np.array(c["b"], dtype=bool))
        self.i = rt.FastArray(np.array(c["i"], dtype=np.int32))
        self.f = rt.FastArray(np.arange(self.n, dtype=np.float64))
        self.k = c["k"]
        self.ds = rt.Dataset({"x": self.x, "y": self.y, "key": self.key, "z": self.z, "rn": rt.FastArray(np.arange(self.n))})
        self.kd = rt.Dataset({"key": self.key, "z": self.z, "w": self.f})
        u = rt.unique(self.kd.z) if False else self.f
        self.un = rt.Dataset({"rn": rt.FastArray(np.arange(self.n)), "q": self.f * 2, "y2": self.y})
        self.st = rt.Struct({"a": self.x, "n": rt.Struct({"b": self.z}), "s": "text", "d": self.kd})
        self.ms = rt.Multiset({"m1": self.kd, "m2": rt.Dataset({"v": self.f})})
        self.kcat = self.key if isinstance(self.key, rt.Categorical) else None
        self.lst = [self.z, self.f]
        self.dct = {"z": self.z, "f": self.f}

    NAMES = ("x", "y", "key", "z", "b", "i", "f", "ds", "kd", "un", "st", "ms", "lst", "dct")

    def snap(self):
        return {k: snap(getattr(self, k)) for k in self.NAMES}


A0 = """abs count crc cummax cummin diff duplicated isna isnan isnotnan isfinite isinf isnormal isnanorzero isnotfinite issorted nanmax nanmin nansum nanmean nanstd nanvar nanmedian nunique median normalize_minmax
normalize_zscore notna push rankdata nanrankdata sign trunc transitions unique fill_forward fill_backward describe tolist copy sum mean std var min max argmin argmax argsort cumsum round flatten info statx copy_invalid __repr__ __str__
_repr_html_ isnotinf isnotnormal nanargmax nanargmin mean display_query_properties __neg__ __abs__ __invert__ __len__ to_arrow doc get_name byteswap ravel any all tobytes inv""".split()
A1 = {
    "shift": lambda e: e.x.shift(1), "shift-": lambda e: e.x.shift(-2), "diff2": lambda e: e.x.diff(2), "isin": lambda e: e.x.isin(e.y), "between": lambda e: e.x.between(e.y, e.x), "where": lambda e: e.x.where(e.b, e.y),
    "rtwhere": lambda e: rt.where(e.b, e.x, e.y), "fillna": lambda e: e.x.fillna(e.x[0]), "fillnam": lambda e: e.x.fillna(method="ffill"), "replacena": lambda e: e.x.replacena(e.x[0]), "replace": lambda e: e.x.replace([e.x[0]], [e.y[0]]),
    "map": lambda e: e.x.map({e.x[0]: 1}), "clip": lambda e: e.x.clip(0, 1), "cl": lambda e: e.x.clip_lower(0), "cu": lambda e: e.x.clip_upper(1), "idx": lambda e: e.x[e.i], "bool": lambda e: e.x[e.b], "sl": lambda e: e.x[1:], "sc": lambda e: e.x[0],
    "filter": lambda e: e.x.filter(e.b), "sample": lambda e: e.x.sample(2), "tile": lambda e: e.x.tile(2), "repeat": lambda e: rt.repeat(e.x, 2), "hstack": lambda e: rt.hstack([e.x, e.x]), "hstack1": lambda e: rt.hstack([e.x]), "hstackm": lambda e: rt.hstack([e.x, e.y]),
    "concat": lambda e: np.concatenate([e.x, e.x]), "uniq": lambda e: rt.unique(e.x, return_index=True, return_inverse=True, return_counts=True), "uniqm": lambda e: rt.unique([e.x, e.y]), "uniqf": lambda e: rt.unique(e.x, sorted=False), "sort": lambda e: rt.sort(e.x), "npsort": lambda e: np.sort(e.x), "argsort": lambda e: rt.argsort(e.x),
    "lexsort": lambda e: rt.lexsort([e.x, e.y]), "lexsort2": lambda e: rt.lexsort([e.x], ascending=False), "ismember": lambda e: rt.ismember(e.x, e.y), "ismember2": lambda e: rt.ismember([e.x, e.z], [e.x, e.z]), "add": lambda e: e.x + e.y, "sub": lambda e: e.x - e.y, "mul": lambda e: e.x * 2,
    "div": lambda e: e.x / e.z, "fdiv": lambda e: e.x // 3, "mod": lambda e: e.z % 3, "pow": lambda e: e.x ** 2, "eq": lambda e: e.x == e.y, "lt": lambda e: e.x < e.y, "ne": lambda e: e.x != e.x[0], "and": lambda e: e.b & e.b, "radd": lambda e: 1 + e.x, "npadd": lambda e: np.add(e.x, e.y), "npmax": lambda e: np.maximum(e.x, e.y),
    "astypef": lambda e: e.x.astype(np.float64), "astypei": lambda e: e.x.astype(np.int32), "astypeS": lambda e: e.x.astype("S"), "astypeU": lambda e: e.x.astype("U"), "astypesame": lambda e: e.x.astype(e.x.dtype), "fi": lambda e: e.x.fill_invalid(inplace=False), "cut": lambda e: rt.cut(e.x, 3), "cutf": lambda e: rt.cut(e.z, [0, 1, 5], filter=e.b), "qcut": lambda e: rt.qcut(e.x, 2, duplicates="drop"),
    "quantile": lambda e: rt.quantile(e.x, [0.5]), "pct": lambda e: e.x.percentile(50), "nanpct": lambda e: e.x.nanpercentile([10, 50]), "searchsorted": lambda e: rt.searchsorted(rt.sort(e.z), e.z), "cumsum": lambda e: rt.cumsum(e.x), "rolling": lambda e: e.x.rolling_sum(2), "rmean": lambda e: e.x.rolling_nanmean(2), "mmax": lambda e: e.x.move_max(2), "mmed": lambda e: e.x.move_median(2), "ema": lambda e: e.z.ema_decay(e.f, 1.0),
    "tw": lambda e: e.z.timewindow_sum(e.f, 2), "n2z": lambda e: rt.nan_to_zero(e.x.copy()), "interp": lambda e: rt.interp(e.z, e.f, e.f), "bincount": lambda e: rt.bincount(e.i), "b2f": lambda e: rt.bool_to_fancy(e.b), "mask_or": lambda e: rt.mask_or(e.b, e.b), "mask_and": lambda e: rt.mask_and(e.b, ~e.b), "mask_xor": lambda e: rt.mask_xor(e.b, e.b), "vstack": lambda e: rt.vstack([e.z, e.f]), "crc": lambda e: rt.crc64(e.x),
    "groupby": lambda e: rt.groupby([e.x]), "gbh": lambda e: rt.groupbyhash([e.x, e.y]), "gblex": lambda e: rt.groupbylex([e.x]), "makeinext": lambda e: rt.makeinext(e.i), "mki": lambda e: rt.makeifirst(e.i, 20), "cat": lambda e: rt.Categorical(e.x), "catf": lambda e: rt.Categorical(e.x, filter=e.b), "cat2": lambda e: rt.Categorical([e.x, e.y]), "cat2f": lambda e: rt.Categorical([e.x, e.y], filter=e.b), "grouping": lambda e: rt.Grouping(e.x),
    "dtn": lambda e: rt.DateTimeNano(e.x, from_tz="NYC"), "date": lambda e: rt.Date(e.x), "span": lambda e: rt.TimeSpan(e.x), "dspan": lambda e: rt.DateSpan(e.x), "str_append": lambda e: e.x.str_append("zz"), "upper": lambda e: e.x.str.upper, "substr": lambda e: e.x.str.substr(1), "srepl": lambda e: e.x.str.replace("a", "bbb"), "rx": lambda e: e.x.str.regex_replace("a", "b"), "apply": lambda e: e.x.apply(lambda v: v), "strf": lambda e: e.x.strftime("%Y"),
    "save": lambda e: sv(e.x), "savec": lambda e: svc(e.x), "pickle": lambda e: copy.deepcopy(e.x), "arrow": lambda e: rt.FastArray.from_arrow(e.x.to_arrow()), "isnan": lambda e: rt.isnan(e.x), "putcopy": lambda e: rt.putmask(e.x.copy(), e.b, e.y), "reindex": lambda e: rt.reindex_fast(e.i, e.x), "assoc": lambda e: rt.assoc_index([e.x], [e.y]), "cf": lambda e: rt.combine_filter(e.i, e.b), "c2k": lambda e: rt.cat2keys(e.x, e.y), "combine": lambda e: rt.combine2keys(e.i, e.i, 10, 10),
    "nps": lambda e: np.sum(e.x), "npw": lambda e: np.where(e.b, e.x, e.y), "npu": lambda e: np.unique(e.x), "npsig": lambda e: np.sign(e.x), "npround": lambda e: np.round(e.x), "nanmaxf": lambda e: rt.nanmax(e.x), "sumf": lambda e: e.x.sum(filter=e.b), "meanf": lambda e: e.x.nanmean(filter=e.b), "describe": lambda e: rt.describe(e.x), "fa": lambda e: rt.FastArray(e.x, dtype=np.float64), "eqlist": lambda e: e.x == list(e.x), "stk": lambda e: rt.sortinplaceindirect if False else rt.issorted(e.x),
}
G0 = "sum nansum mean nanmean min max nanmin nanmax var std nanstd median nanmedian first last mode count cumsum cumprod cummax cummin cumcount ngroup rank nanvar ohlc sem fill_forward fill_backward shift head tail count_uniques rolling_sum rolling_mean rolling_count rolling_diff rolling_shift nth trimbr null diff".split()
C0 = """categories category_array category_codes expand_array expand_dict as_singlekey as_string_array isfiltered count first_bool last_bool first_fancy last_fancy ifirstkey ilastkey ncountgroup igroup ikey grouping grouping_dict groups get_groupings unique unique_count unique_repr nan_index ismultikey issinglekey isenum gb_keychain
full invalid_category filtered_name shrink category_dict one_hot_encode copy isnan isnotnan sorted ordered __repr__ _repr_html_ __str__ display_query_properties groupby_data get_header_names""".split()
C1 = {
    "eq": lambda e: e.key == e.key[0], "isin": lambda e: e.key.isin([e.key[0]]), "shift_cat": lambda e: e.key.shift_cat(1), "as_filter": lambda e: e.key.as_filter(e.b), "set_valid": lambda e: e.key.set_valid(e.b), "align": lambda e: rt.Categorical.align([e.key, e.key.copy()]), "hstack": lambda e: rt.Categorical.hstack([e.key, e.key]),
    "idx": lambda e: e.key[e.i], "bool": lambda e: e.key[e.b], "sl": lambda e: e.key[1:], "map": lambda e: e.key.map({}), "str": lambda e: e.key.str.upper, "agg": lambda e: e.key.agg({"z": ["sum", "mean"]}, dataset=e.kd), "sumf": lambda e: e.key.nansum(e.z, filter=e.b), "tr": lambda e: e.key.nanmean(e.z, transform=True), "ar": lambda e: e.key.apply_reduce(lambda v: v.sum(), e.z), "anr": lambda e: e.key.apply_nonreduce(lambda v: v, e.z), "ap": lambda e: e.key.apply(lambda v: v, e.z), "catcat": lambda e: rt.Categorical(e.key), "catcatf": lambda e: rt.Categorical(e.key, filter=e.b),
    "shrink": lambda e: e.key.shrink(list(e.key.category_array)[:1]), "catb0": lambda e: rt.Categorical(e.key.expand_array, base_index=0), "from_cat": lambda e: rt.Categorical(e.key, e.key.category_array), "quant": lambda e: e.key.quantile(e.z, q=0.25), "ema": lambda e: e.key.ema_decay(e.z, time=e.f, decay_rate=1.0), "iter": lambda e: list(e.key.iter_groups()), "acc": lambda e: rt.Accum2(e.key, e.key).nansum(e.z, filter=e.b), "ratio": lambda e: rt.accum_ratio(e.key, rt.Categorical(e.key) if False else e.key, e.z, e.f),
    "save": lambda e: sv(e.key), "nthf": lambda e: e.key.nth(e.z, n=1), "findnth": lambda e: e.key.findnth(e.b), "sort": lambda e: np.sort(e.key), "lex": lambda e: rt.lexsort([e.key, e.z]), "arr": lambda e: e.key.to_arrow(), "numba": lambda e: e.key.nb_sum(e.z), "transf": lambda e: e.key.transform.nansum(e.z),
}
D0 = """abs all any as_matrix as_ordered_dictionary as_pandas_df as_recordarray as_struct asdict asrows computable copy count crc describe dhead dtail dtranspose dtypes duplicated flatten head isin iterrows items keys label_get_names mask_and_isfinite mask_and_isnan mask_or_isnan mask_or_isinf max mean median memory_stats min
nanargmax nanmax nanmean nanmedian nanmin nanstd nansum nanvar noncomputable std sum var tail to_arrow to_pandas tolist total_size transpose tree values __repr__ __str__ _repr_html_ sample normalize_minmax normalize_zscore info doc drop_duplicates shape size has_nested_containers footer_get_dict summary_get_names label_as_dict melt total_sizes get_row_sort_info trim""".split()
D1 = {
    "filter": lambda e: e.ds.filter(e.b), "getrow": lambda e: e.ds[0, :], "rows": lambda e: e.ds[e.i, :], "brows": lambda e: e.ds[e.b, :], "cols": lambda e: e.ds[["x", "z"]], "rc": lambda e: e.ds[1:, ["x"]], "sort_copy": lambda e: e.ds.sort_copy("z"), "sort_copy2": lambda e: e.ds.sort_copy(["key", "z"], ascending=[False, True]), "sort_copyk": lambda e: e.ds.sort_copy("x"), "dd": lambda e: e.ds.drop_duplicates("key"), "ddl": lambda e: e.ds.drop_duplicates(["key", "z"], keep="last"), "dup": lambda e: e.ds.duplicated("key"),
    "astype": lambda e: e.ds.astype(np.float64), "fillna": lambda e: e.ds.fillna(0), "ffill": lambda e: e.ds.fillna(method="ffill"), "isin": lambda e: e.ds.isin([1]), "apply": lambda e: e.ds.apply(lambda v: v), "apply_cols": lambda e: e.ds.apply_cols(lambda v: v * 1), "apply_rows": lambda e: e.ds.apply_rows(lambda r: 1), "reduce": lambda e: e.ds.reduce(rt.nansum), "quantile": lambda e: e.ds.quantile(0.5), "outliers": lambda e: e.ds.outliers(3, e.f), "melt": lambda e: e.ds.melt(id_vars=["key"], value_vars=["z"]), "pivot": lambda e: e.ds.pivot("key", "rn", "z"), "concat_rows": lambda e: rt.Dataset.concat_rows([e.ds, e.ds]),
    "concat_cols": lambda e: rt.Dataset.concat_columns([e.kd, e.un], do_copy=False), "hstack": lambda e: rt.Dataset.hstack([e.ds, e.ds]), "merge2": lambda e: e.ds.merge2(e.un, on="rn", suffixes=("_l", "_r")), "merge2l": lambda e: rt.merge2(e.ds, e.un, on="rn", how="left", suffixes=("_l", "_r")), "merge_lookup": lambda e: e.ds.merge_lookup(e.un, on="rn"), "merge_lookup2": lambda e: rt.merge_lookup(e.ds, e.un, on="rn", columns_left=["x", "rn"]), "merge": lambda e: rt.merge(e.kd, e.un, left_on="w", right_on="q"), "mergeo": lambda e: rt.merge2(e.kd, e.kd, on="key", how="outer", suffixes=("_l", "_r")), "asof": lambda e: rt.merge_asof(e.kd.sort_copy("w")[["w", "z"]], e.un[["q"]], left_on="w", right_on="q"), "indices": lambda e: rt.merge_indices(e.kd, e.un, on=("w", "q")),
    "gb": lambda e: e.ds.gb("key").nansum(), "gbc": lambda e: e.ds.gb("key").count(), "gb2": lambda e: e.ds.gb(["key", "rn"]).first(), "gbf": lambda e: e.ds.gb("key", filter=e.b).nanmax(), "gbagg": lambda e: e.ds.gb("key")["z"].agg(["sum", "mean"]), "gbu": lambda e: e.ds.gbu("key").last(), "gbap": lambda e: e.kd.gb("key").apply(lambda d: d), "gbar": lambda e: e.kd.gb("key")["z"].apply_reduce(lambda v: v.sum()), "gbcum": lambda e: e.ds.gb("key")["z"].cumsum(), "gbiter": lambda e: list(e.ds.gb("key")), "cat": lambda e: e.ds.cat("key"), "cat2": lambda e: e.ds.cat(["key", "rn"]), "accum2": lambda e: e.ds.accum2("key", "rn").nansum(e.ds.z), "acc": lambda e: e.ds.accum2("key", "key", filter=e.b).count(), "gbrows": lambda e: e.ds.gbrows(),
    "eq": lambda e: e.ds == e.ds, "equals": lambda e: e.ds.equals(e.ds.copy()), "dsds": lambda e: rt.Dataset(e.ds), "dsdict": lambda e: rt.Dataset(e.dct), "dsdf": lambda e: rt.Dataset(e.ds.to_pandas()), "frompd": lambda e: rt.Dataset.from_pandas(e.ds.to_pandas()), "fromarrow": lambda e: rt.Dataset.from_arrow(e.kd.to_arrow()), "arith": lambda e: e.kd[["z", "w"]] + 1, "arith2": lambda e: e.kd[["z", "w"]] * e.kd[["z", "w"]], "save": lambda e: sv(e.ds), "savec": lambda e: svc(e.ds), "savest": lambda e: sv(e.st), "asstruct": lambda e: e.ds.as_struct(), "label": lambda e: e.ds.label_filter(["x"]) if False else e.ds.label_as_dict(),
    "col_filter": lambda e: e.ds.col_filter(["x", "z"]), "match": lambda e: e.ds.col_str_match("x"), "stsave": lambda e: copy.deepcopy(e.st), "stcopy": lambda e: e.st.copy(), "stflat": lambda e: e.st.flatten(), "strepr": lambda e: repr(e.st), "sthtml": lambda e: e.st._repr_html_(), "sttree": lambda e: e.st.tree(), "stdict": lambda e: e.st.asdict(), "msrepr": lambda e: repr(e.ms), "mscopy": lambda e: e.ms.copy(), "mergems": lambda e: e.ms.merge() if hasattr(e.ms, "merge") else None, "steq": lambda e: e.st.equals(e.st.copy()), "hs": lambda e: rt.hstack([e.ds, e.ds]), "hst": lambda e: rt.hstack([e.st, e.st]), "alignmk": lambda e: rt.alignmk(e.f, e.f, e.f, e.f), "prebin": lambda e: rt.merge_prebinned(e.kd.key, e.f, e.f, e.f), "ratiop": lambda e: rt.accum_ratiop(e.kd.key, e.kd.key, e.f), "acols": lambda e: rt.accum_cols(e.kd.key, [e.z, [e.z, e.f]], ["a", "b"], filt_list=e.b), "ratiof": lambda e: rt.accum_ratio(e.kd.key, e.kd.key, e.z, e.f, filt1=e.b),
    "sample": lambda e: e.ds.sample(2, filter=e.b), "samplei": lambda e: e.ds.sample(2, filter=e.i), "trimr": lambda e: e.kd.trim(ret_filters=True), "mapn": lambda e: rt.Dataset.from_rows([[1, 2]], ["a", "b"]), "statx": lambda e: e.z.statx(), "meltn": lambda e: e.kd.melt(), "rtmean": lambda e: rt.mean(e.z), "lookup": lambda e: e.ds.merge_lookup(e.un, on="rn", columns_right=["q"]), "lookupi": lambda e: e.ds.copy().merge_lookup(e.un, on="rn", inplace=True), "keysearch": lambda e: e.ds.key_search("x"), "newds": lambda e: rt.Dataset({"p": e.x, "q": e.y}).copy(),
    "nrepr": lambda e: repr(e.ds.gb("key")), "html": lambda e: e.kd._repr_html_(), "styl": lambda e: e.ds.to_pandas(use_nullable=False), "csv": lambda e: e.ds.to_pandas().to_csv(), "mask": lambda e: e.ds.mask_or_isnan(), "putcopy": lambda e: e.ds.copy().putmask(e.b, e.ds) if e.n else None, "head3": lambda e: e.ds.head(3), "tail3": lambda e: e.ds.tail(3), "corr": lambda e: e.kd.nanvar(axis=1), "axis1": lambda e: e.kd[["z", "w"]].nansum(axis=1),
}


def sv(x):
    with scratch() as d:
        p = os.path.join(d, "f.sds")
        rt.save_sds(p, x if isinstance(x, rt.Struct) else rt.Dataset({"x": x}))
        return rt.load_sds(p)


def svc(x):
    with scratch() as d:
        p = os.path.join(d, "f.sds")
        rt.save_sds(p, x if isinstance(x, rt.Struct) else rt.Dataset({"x": x}), compress=False)
        return rt.load_sds(p)


def gbop(nm):
    def f(e):
        return getattr(e.ds.gb("key"), nm)()
    return f


def catop(nm):
    def f(e):
        return getattr(e.kcat if e.kcat is not None else rt.Categorical(e.key), nm)(e.z)
    return f


def attr(obj, nm):
    def f(e):
        o = getattr(e, obj)
        r = getattr(o, nm)
        return r() if callable(r) else r
    return f


OPS = {}
for nm in A0:
    OPS["a." + nm] = attr("x", nm)
for nm, f in A1.items():
    OPS["A." + nm] = f
for nm in G0:
    OPS["g." + nm] = gbop(nm)
    OPS["cg." + nm] = catop(nm)
for nm in C0:
    OPS["c." + nm] = attr("key", nm)
for nm, f in C1.items():
    OPS["C." + nm] = f
for nm in D0:
    OPS["d." + nm] = attr("ds", nm)
    OPS["dk." + nm] = attr("kd", nm)
for nm, f in D1.items():
    OPS["D." + nm] = f
# groups so that each example is spent where there is something to call
ARR = sorted(k for k in OPS if k[0] in "aA")
GRP = sorted(k for k in OPS if k[0] in "gcC")
TAB = sorted(k for k in OPS if k[0] in "dD")


def call(f, e):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return True, f(e)
        except Exception as x:  # an operation that does not apply to this kind of column
            return False, x


def unchanged(e, s0, what, c):
    s1 = e.snap()
    for k in s0:
        if s0[k] != s1[k]:
            fail("an argument changed", operation=what, argument=k, before=str(s0[k])[:300], after=str(s1[k])[:300], case=c)


def mutates(names, c):
    e = Env(c["e"])
    s0 = e.snap()
    done = 0
    for nm in c["ops"]:
        ok, r = call(OPS[nm], e)
        done += ok
        tag(nm.split(".")[0] + (":ran" if ok else ":refused"))
        unchanged(e, s0, nm, c)
    nt(done > 0)


def case(names, kinds=KINDS):
    return st.fixed_dictionaries({"e": s_env(kinds), "ops": st.lists(st.sampled_from(names), min_size=1, max_size=4)})


@facet("C28", case(ARR), quick=4500, shards=3, rule="at least one operation ran")
def arrays(c):
    """no array operation changes its arguments"""
    mutates(ARR, c)


@facet("C28", case(GRP), quick=2500, shards=3, rule="at least one operation ran")
def groups(c):
    """no category or group operation changes its arguments"""
    mutates(GRP, c)


@facet("C28", case(TAB), quick=3500, shards=4, rule="at least one operation ran")
def tables(c):
    """no table operation changes its arguments"""
    mutates(TAB, c)


# ---------------------------------------------------------------- independent copies
COPIES = {
    "x": {"copy": lambda o: o.copy(), "deepcopy": lambda o: copy.deepcopy(o), "fancy": lambda o: o[rt.FastArray(np.arange(len(o), dtype=np.int64))], "bool": lambda o: o[rt.ones(len(o), dtype=bool)],
          "list": lambda o: o[list(range(len(o)))], "hstack2": lambda o: rt.hstack([o, o])[: len(o)], "sort": lambda o: rt.sort(o), "tile": lambda o: rt.tile(o, 1),
          "repeat": lambda o: rt.repeat(o, 1), "ffill": lambda o: o.fill_forward(), "fillna": lambda o: o.fillna(method="ffill"), "shift1": lambda o: o.shift(1), "where": lambda o: rt.where(rt.ones(len(o), dtype=bool), o, o),
          "astype": lambda o: o.astype(o.dtype), "push": lambda o: o.push(), "sample": lambda o: o.sample(len(o)), "unique": lambda o: rt.unique(o), "replacena": lambda o: o.replacena(o[0]), "neg": lambda o: -o, "pos": lambda o: +o, "abs": lambda o: abs(o),
          "add0": lambda o: o + 0, "clip": lambda o: o.clip(-1e300, 1e300), "isin": lambda o: o.isin([1]), "cumsum": lambda o: o.cumsum(), "concat": lambda o: np.concatenate([o]), "npwhere": lambda o: np.where(True, o, o),
          "diff": lambda o: o.diff(), "reindex": lambda o: rt.reindex_fast(rt.FastArray(np.arange(len(o))), o), "str": lambda o: o.astype("S") if o.dtype.char == "S" else o.copy(), "cumsum2": lambda o: rt.cumsum(o), "nan_to_num": lambda o: rt.nan_to_num(o)},
    "ds": {"copy": lambda o: o.copy(), "deepcopy": lambda o: copy.deepcopy(o), "rows": lambda o: o[rt.FastArray(np.arange(o.shape[0])), :], "brows": lambda o: o[rt.ones(o.shape[0], dtype=bool), :], "filter": lambda o: o.filter(rt.ones(o.shape[0], dtype=bool)),
           "sortcopy": lambda o: o.sort_copy("rn"), "concat": lambda o: rt.Dataset.concat_rows([o, o]), "ccols": lambda o: rt.Dataset.concat_columns([o], do_copy=True), 
           "gbfirst": lambda o: o.gb("rn").first(), "merge2": lambda o: o.merge2(rt.Dataset({"rn": o.rn.copy(), "qq": o.rn + 1}), on="rn"), "lookup": lambda o: o.merge_lookup(rt.Dataset({"rn": o.rn.copy(), "qq": o.rn + 1}), on="rn"), "dedup": lambda o: o.drop_duplicates("rn"),
           "pandas": lambda o: rt.Dataset.from_pandas(o.to_pandas()), "head": lambda o: o.head(3).copy(), "sample": lambda o: o.sample(o.shape[0]), "list": lambda o: o[list(range(o.shape[0])), :]},
    "st": {"copy": lambda o: o.copy(), "deepcopy": lambda o: copy.deepcopy(o)},
    "ms": {"copy": lambda o: o.copy(), "deepcopy": lambda o: copy.deepcopy(o), "rows": lambda o: o[rt.FastArray([0]), :] if False else o.copy(deep=True)},
}


def leaves(o):
    if isinstance(o, rt.Struct):
        for k in o.keys():
            yield from leaves(o[k])
    elif isinstance(o, np.ndarray):
        yield o


def edit(o, how, c):
    """change every array inside o through the public interface; true if something changed"""
    done = False
    if isinstance(o, rt.Struct):
        if how == "names":
            for k in list(o.keys()):
                if isinstance(o[k], rt.Struct):
                    done |= edit(o[k], how, c)
            if o.keys():
                o.col_rename(o.keys()[0], "renamed")
                return True
            return done
        if how == "delete":
            for k in list(o.keys()):
                if isinstance(o[k], rt.Struct) and o[k].keys():
                    done |= edit(o[k], how, c)
            if isinstance(o, rt.Struct) and len(o.keys()) > 1:
                del o[o.keys()[-1]]
                return True
            return done
        if how == "sort" and isinstance(o, rt.Dataset) and "rn" in o.keys():
            o.sort_inplace("rn", ascending=False)
            return True
        if how == "iadd" and isinstance(o, rt.Dataset):
            for k in ("z", "rn", "w"):
                if k in o.keys():
                    o[k] += 1
                    done = True
            return done
        for k in list(o.keys()):
            done |= edit(o[k], how, c)
        return done
    if not isinstance(o, np.ndarray) or len(o) == 0:
        return False
    try:
        if isinstance(o, rt.Categorical):
            if how == "cats":
                ca = o.category_array
                if ca.dtype.char in "SU":
                    o.category_replace(ca[0], "edited") if o.issinglekey else None
                else:
                    return False
            elif how == "catadd":
                o.category_add("fresh")
            else:
                o[:] = o[rt.FastArray(np.zeros(len(o), dtype=np.int64) + (len(o) - 1))] if how == "copyto" else 0 if how == "zero" else o[0]
        elif how == "fill":
            o.fill(o[0]) if o.dtype.char not in "SU" else o.__setitem__(slice(None), "q")
        elif how == "iadd":
            o += 1
        elif how == "na":
            o[:] = o.inv if o.dtype.char not in "?SU" else o.dtype.type()
        elif how == "zero":
            o[:] = "" if o.dtype.char in "SU" else False if o.dtype.char == "?" else np.zeros(len(o), dtype=o.dtype)
        elif how == "sort":
            o.sort()
        else:
            o[0] = o[-1]
        return True
    except (TypeError, ValueError, IndexError, NotImplementedError, KeyError):
        return False


EDITS = ["fill", "iadd", "na", "zero", "sort", "copyto", "cats", "catadd", "names", "delete"]


@facet("C28", st.fixed_dictionaries({"e": s_env(), "obj": pick("x", "x", "ds", "ds", "key", "st", "ms"), "how": st.integers(0, 999), "edit": st.lists(st.sampled_from(EDITS), min_size=1, max_size=4), "side": st.booleans()}), quick=5000, shards=3, rule="one side was really edited")
def aliasing(c):
    """a copy or a fresh result shares nothing with its source: edits of one side never show on the other"""
    e = Env(c["e"])
    o = getattr(e, c["obj"])
    M = COPIES["x" if c["obj"] == "key" else c["obj"]]
    nm = sorted(M)[c["how"] % len(M)]
    ok, r = call(M[nm], o)
    if not ok or not isinstance(r, (np.ndarray, rt.Struct)):
        return nt(False, "refused")
    if isinstance(r, rt.Categorical) and not hasattr(r, "_grouping"):
        return nt(False, "no category result for this function")
    a, b = (r, o) if c["side"] else (o, r)
    s0 = snap(b)
    if type(a) is np.ndarray:
        a = rt.FastArray(a)
    before = snap(a)
    for h in c["edit"]:
        call(lambda _: edit(a, h, c), None)
        s1 = snap(b)
        if s0 != s1:
            fail("editing one side changed the other", copied_by=nm, object=c["obj"], edited="copy" if c["side"] else "source", edit=h, before=str(s0)[:300], after=str(s1)[:300], case=c)
    nt(snap(a) != before, c["obj"] + ":" + nm)


@facet("C28", st.fixed_dictionaries({"rows": st.lists(st.tuples(st.sampled_from(["a", "b", "Ratio"]), st.sampled_from(["x", "Numer", "Ratio", "Denom", "Total"]), st.integers(-3, 9)), min_size=1, max_size=8), "f": st.lists(st.booleans(), min_size=8, max_size=8), "usef": st.booleans(), "op": pick("ratio", "ratiop", "table", "gen", "accum2", "cols", "agg", "pivot", "crosstab")}), quick=500, shards=2, rule="the operation ran")
def accum(c):
    """summary-table builders leave the categoricals, values and filter they are given alone"""
    n = len(c["rows"])
    c1, c2 = rt.Cat([r[0] for r in c["rows"]]), rt.Cat([r[1] for r in c["rows"]])
    v, w = rt.FastArray([float(r[2]) for r in c["rows"]]), rt.FastArray([float(r[2] + 1) for r in c["rows"]])
    f = rt.FastArray(c["f"][:n]) if c["usef"] else None
    ds = rt.Dataset({"c1": c1, "c2": c2, "v": v, "w": w})
    args = [c1, c2, v, w, ds] + ([f] if f is not None else [])
    s0 = [snap(a) for a in args]

    def go(_):
        op = c["op"]
        if op == "ratio":
            return rt.accum_ratio(c1, c2, v, w, filt1=f, filt2=f)
        if op == "ratiop":
            return rt.accum_ratiop(c1, c2, v, filter=f)
        if op in ("table", "gen"):
            t = rt.AccumTable(c1, c2)
            t["A"] = t.sum_ratio(v, w) if op == "gen" else t.sum(v, filter=f)
            t["B"] = t.count(filter=f)
            t.set_margin_columns(["A"])
            t.set_footer_rows(["B"])
            t.gen("A")
            return t.gen("B")
        if op == "accum2":
            return rt.Accum2(c1, c2).nansum(v, filter=f)
        if op == "cols":
            return rt.accum_cols(c1, [v, w], ["p", "q"])
        if op == "agg":
            return ds.accum2("c1", "c2").sum(v)
        if op == "pivot":
            return ds.pivot("c1", "c2", "v") if hasattr(ds, "pivot") else None
        return rt.Accum2(c1, c2).count()
    ok, _ = call(go, None)
    for a, b in zip(args, s0):
        if snap(a) != b:
            fail("an argument changed", operation=c["op"], before=str(b)[:300], after=str(snap(a))[:300], case=c)
    nt(ok, c["op"])
