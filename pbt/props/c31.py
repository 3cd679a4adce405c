"""C31: generated programs over generated data run under every combination of the settings (differential testing against the default configuration).

The oracle is the same program run in the default configuration; values must agree bit for bit (sums of floats
up to rounding, since the split between worker threads changes the order of additions).  With the fast path off,
data without missing values is used, because plain numpy knows no integer sentinels.  Intermediate results are
held and looked at again at the end: recycling may not hand their memory to a later result.
"""
import contextlib, gc, io
import numpy as np
import hypothesis.strategies as st
import riptable as rt
from ..core import *
from ..cols import *
from ..lib import *

FA = rt.FastArray


@contextlib.contextmanager
def config(c):
    with contextlib.redirect_stdout(io.StringIO()):
        if c["t"]:
            rt.Threading.off()
        if c["r"]:
            rt.Recycle.off()
        if c["l"]:
            rt.Ledger.on()
        if c["f"]:
            FA._FastFunctionsOff()
    try:
        yield
    finally:
        with contextlib.redirect_stdout(io.StringIO()):
            rt.Threading.on()
            rt.Recycle.on()
            rt.Ledger.off()
            FA._FastFunctionsOn()


def data(c):
    """the environment: columns made from a small seed so that large ones print as small cases"""
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    holes = c["holes"] and not c["cfg"]["f"]
    env = {}
    for nm in ("a", "b"):
        dt = np.dtype(c["dt"][nm])
        if dt.kind == "f":
            x = np.round(rng.normal(0, 50, n), 2).astype(dt)
            if holes:
                x[rng.random(n) < 0.2] = np.nan
        elif dt.kind == "b":
            x = rng.random(n) < 0.5
        else:
            x = rng.integers(1 if dt.kind == "u" else -50, 60, n).astype(dt)
            if holes:
                x[rng.random(n) < 0.2] = INV[dt.name]
        env[nm] = FA(x)
    env["m"] = FA(rng.random(n) < 0.5)
    env["s"] = FA(np.array(["a", "bb", "ccc", "", "zz"])[rng.integers(0, 5, n)] if n else np.array([], dtype="S2"))
    env["k"] = FA(rng.integers(0, 7, n).astype("int32"))
    env["i"] = FA(rng.integers(-n, n, n).astype("int64")) if n else FA(np.array([], dtype="int64"))
    return env


def arith(op):
    import operator
    return lambda e: getattr(operator, op)(e["a"], e["b"])


OPS = {
    "add": arith("add"), "sub": arith("sub"), "mul": arith("mul"), "div": arith("truediv"),
    "lt": arith("lt"), "ge": arith("ge"), "eq": arith("eq"), "ne": arith("ne"),
    "adds": lambda e: e["a"] + 3, "rsub": lambda e: 2 - e["b"], "neg": lambda e: -e["a"] if e["a"].dtype.kind in "if" else e["a"] + 1, "abs": lambda e: abs(e["a"]), "mods": lambda e: e["k"] % 3,
    "floor": lambda e: e["k"] // 2, "not": lambda e: ~e["m"], "and": lambda e: e["m"] & (e["a"] > 0), "or": lambda e: e["m"] | (e["b"] < 5), "xor": lambda e: e["m"] ^ (e["b"] < 5),
    "sqrt": lambda e: np.sqrt(abs(e["k"])), "exp": lambda e: np.exp(e["k"] / 10), "fmax": lambda e: np.maximum(e["a"], e["b"]), "fmin": lambda e: np.minimum(e["a"], e["b"]),
    "where": lambda e: rt.where(e["m"], e["a"], e["b"]), "wheres": lambda e: rt.where(e["m"], e["a"], 1),
    "mask": lambda e: e["a"][e["m"]], "fancy": lambda e: e["a"][e["i"]], "sfancy": lambda e: e["s"][e["i"]], "smask": lambda e: e["s"][e["m"]], "slice": lambda e: e["b"][1::2] + e["b"][1::2],
    "sort": lambda e: rt.sort(e["a"]), "sorts": lambda e: rt.sort(e["s"]), "lexsort": lambda e: rt.lexsort([e["a"], e["k"]]), "argsort": lambda e: rt.argsort(e["k"], kind="stable") if False else rt.lexsort([e["k"]]),
    "cumsum": lambda e: rt.cumsum(e["k"]), "unique": lambda e: rt.unique(e["a"]), "uniques": lambda e: rt.unique(e["s"]), "ismember": lambda e: rt.ismember(e["a"], e["b"])[0], "ism1": lambda e: rt.ismember(e["k"], e["k"][:3])[1],
    "isin": lambda e: e["s"].isin(["a", "zz"]), "seq": lambda e: e["s"] == "bb", "sne": lambda e: e["s"] != "", "slt": lambda e: e["s"] == e["s"][::-1],
    "isnan": lambda e: e["a"].isnan(), "isnotnan": lambda e: e["b"].isnotnan(), "as64": lambda e: e["a"].astype("float64"), "as32": lambda e: e["k"].astype("int16"), "copy": lambda e: e["a"].copy(),
    "ffill": lambda e: e["a"].fill_forward(), "fillna": lambda e: e["a"].fillna(7), "putm": lambda e: rt.putmask(e["x"], e["m"], 1) if "x" in e else None,
    "shift": lambda e: e["a"].shift(2), "diff": lambda e: e["k"].diff(), "clip": lambda e: e["k"].clip(1, 3), "trunc": lambda e: np.floor(e["k"] / 4),
    "sum": lambda e: e["k"].sum(), "fsum": lambda e: e["a"].nansum(), "mean": lambda e: e["k"].mean(), "nanmean": lambda e: e["b"].nanmean(), "max": lambda e: e["k"].max() if len(e["k"]) else 0, "nanmin": lambda e: e["a"].nanmin() if len(e["a"]) else 0,
    "std": lambda e: e["k"].std() if len(e["k"]) > 1 else 0, "any": lambda e: e["m"].any(), "all": lambda e: e["m"].all(), "argmax": lambda e: e["k"].argmax() if len(e["k"]) else 0, "nzero": lambda e: e["m"].nonzero()[0], "truec": lambda e: rt.bool_to_fancy(e["m"]),
    "gbsum": lambda e: rt.Cat(e["k"]).nansum(e["b"])[1], "gbcount": lambda e: rt.Cat(e["s"]).count()[1] if len(e["s"]) else None, "gbmax": lambda e: rt.Cat(e["k"], filter=e["m"]).nanmax(e["a"])[1] if e["m"].any() else None,
    "gbcum": lambda e: rt.Cat(e["k"]).cumsum(e["k"])[0], "gbfirst": lambda e: rt.Cat([e["k"], e["s"]]).first(e["a"])[2] if len(e["k"]) else None, "gbmed": lambda e: rt.Cat(e["k"]).nanmedian(e["b"])[1], "gbmean": lambda e: rt.Cat(e["k"]).nanmean(e["a"], filter=e["m"])[1],
    "hstack": lambda e: rt.hstack([e["a"], e["b"]]), "crc": lambda e: rt.crc32c(e["k"]), "rank": lambda e: rt.rankdata(e["k"]), "search": lambda e: rt.searchsorted(rt.arange(10), e["k"]), "count": lambda e: rt.bincount(e["k"]) if len(e["k"]) else None,
    "merge": lambda e: rt.merge_lookup(rt.Dataset({"k": e["k"], "a": e["a"]}), rt.Dataset({"k": rt.arange(5, dtype="int32"), "z": rt.arange(5) * 2}), on="k")["z"],
    "dsort": lambda e: rt.Dataset({"k": e["k"], "a": e["a"]}).sort_copy(["k"])["a"], "upper": lambda e: e["s"].str.upper if False else rt.FAString(e["s"]).upper,
    "unary": lambda e: np.isfinite(e["b"]), "round": lambda e: np.round(e["k"] * 0.3), "sign": lambda e: np.sign(e["k"] - 3), "log": lambda e: np.log1p(e["k"]),
}
INPLACE = {"iadd": lambda x, e: x.__iadd__(1) if x.dtype.kind in "iuf" else x, "setm": lambda x, e: x.__setitem__(e["m"], 1) if len(x) == len(e["m"]) else None, "sets": lambda x, e: x.__setitem__(slice(None, None, 2), 0)}


@st.composite
def s_prog(draw, large=False):
    n = draw(st.sampled_from([20000, 33000, 70001, 200000])) if large else draw(st.one_of(sizes(0, 12), st.sampled_from([40, 130])))
    ops = []
    for _ in range(draw(st.integers(1, 4 if large else 7))):
        ops.append((draw(st.sampled_from(sorted(OPS))), draw(pick("hold", "drop", "a", "b")), draw(pick("", "", *INPLACE))))
    cfg = draw(st.fixed_dictionaries({k: st.booleans() for k in "trlf"}).filter(lambda d: any(d.values())))
    return {"n": n, "seed": draw(st.integers(0, 10**6)), "dt": {k: draw(pick("int32", "float64", "int64", "float32", "int16", "uint16", "bool")) for k in "ab"}, "holes": draw(st.booleans()), "ops": ops, "cfg": cfg}


def hole(x):
    return bool(np.isnan(x).any() if x.dtype.kind == "f" else x.dtype.kind != "b" and (x == INV[x.dtype.name]).any())


def run(c, cfg):
    out = []
    with config(cfg):
        env = data(c)
        held = []
        for nm, use, inp in c["ops"]:
            try:
                r = OPS[nm](env)
            except Exception as e:  # both runs must agree on that as well
                out.append((nm, type(e).__name__))
                continue
            if isinstance(r, np.ndarray):
                if inp and r.dtype.kind in "iuf" and not any(np.shares_memory(r, v) for v in env.values() if len(v)):
                    try:
                        INPLACE[inp](r, env)
                    except Exception as e:
                        out.append((nm, inp, type(e).__name__))
                out.append((nm, np.array(r)))  # a copy outside of riptable
                if use == "hold":
                    held.append((len(out) - 1, r))
                elif use in "ab" and len(r) == c["n"] and r.dtype.kind in "iufb" and r.ndim == 1 and not (c["cfg"]["f"] and hole(np.array(r))):
                    env[use] = r
            else:
                out.append((nm, r))
            del r
        # the memory of earlier results is still theirs
        junk = [FA(np.zeros(max(c["n"], 1), dtype="int64")) + 77 for _ in range(3)]
        for j, r in held:
            w = out[j][1]
            require(same(np.array(r), w, exact=True), "a held result changed later in the program", op=out[j][0], got=np.array(r)[:20], want=w[:20], case=c)
        del junk
    return out


def same(x, y, exact=False, dtypes=True):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape or dtypes and x.dtype != y.dtype:
            return False
        if x.dtype.kind == "f" or y.dtype.kind == "f":
            if exact:
                return bool(np.array_equal(x, y, equal_nan=True))
            tol = 1e-5 if np.float32 in (x.dtype, y.dtype) else 1e-9
            return bool(np.allclose(x.astype("f8"), y.astype("f8"), rtol=tol, atol=tol, equal_nan=True))
        return bool(np.array_equal(x, y))
    if isinstance(x, (str, bool, np.bool_, type(None))) or isinstance(y, (str, bool, np.bool_, type(None))):
        return type(x) == type(y) and x == y or not dtypes and x == y
    x_, y_ = float(x), float(y)
    return x_ == y_ or np.isnan(x_) and np.isnan(y_) or abs(x_ - y_) <= 1e-6 * max(1, abs(x_))


def both(c):
    base = run(c, dict.fromkeys("trlf", False))
    got = run(c, c["cfg"])
    require(len(base) == len(got), "another number of results", got=got, want=base, case=c)
    for b, g in zip(base, got):
        ok = b[0] == g[0] and len(b) == len(g) and same(g[-1], b[-1], dtypes=not c["cfg"]["f"])
        if not ok:
            show = lambda v: v[:20] if isinstance(v, np.ndarray) else v
            bad = np.flatnonzero(np.array(b[-1]) != np.array(g[-1]))[:5] if isinstance(b[-1], np.ndarray) and isinstance(g[-1], np.ndarray) and b[-1].shape == g[-1].shape else None
            require(False, "the settings change a result", op=b[0], got=(g[1:-1], show(g[-1])), want=(b[1:-1], show(b[-1])), dt=(getattr(b[-1], "dtype", 0), getattr(g[-1], "dtype", 0)), at=bad, case=c)
    return base


@facet("C31", s_prog(), quick=4000, shards=5, rule="at least two operations computed an array")
def programs(c):
    """small programs under every settings combination"""
    b = both(c)
    nt(sum(isinstance(x[-1], np.ndarray) for x in b) >= 2, *[x[0] for x in b if isinstance(x[-1], np.ndarray)])


@facet("C31", s_prog(large=True), quick=300, shards=5, rule="the arrays are long enough to be split between worker threads")
def large(c):
    """inputs long enough to be split between worker threads"""
    b = both(c)
    nt(True, *[x[0] for x in b if isinstance(x[-1], np.ndarray)])


@facet("C31", st.fixed_dictionaries({"n": sizes(0, 6), "ops": st.lists(st.sampled_from(["add", "lt", "mask", "as64", "sum", "copy", "fancy"]), max_size=4), "clear": st.booleans()}), quick=200, shards=1, rule="operations were logged")
def ledger(c):
    """the operation log is readable at any point of its life and switching it never raises"""
    env = data({"n": c["n"], "seed": 1, "dt": {"a": "int32", "b": "float64"}, "holes": False, "cfg": {"f": False}})
    with contextlib.redirect_stdout(io.StringIO()):
        rt.Ledger.on()
        try:
            for o in c["ops"]:
                OPS[o](env)
            if c["clear"]:
                rt.Ledger.clear()
            d = rt.Ledger.dump()
            rt.Ledger.dump(dataset=False)
        finally:
            rt.Ledger.off()
        e = rt.Ledger.dump()
    if c["clear"]:
        require(d is None or d.shape[0] == 0, "entries survive clearing", got=d, case=c)
    nt(bool(c["ops"]) and not c["clear"])
