"""C01: elementwise arithmetic / comparison / logical operations agree with NumPy."""
import operator

import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.lib import *

ARITH = ["add", "subtract", "multiply", "true_divide", "floor_divide"]
EXT = ["minimum", "maximum", "fmin", "fmax"]
CMP = ["equal", "not_equal", "less", "less_equal", "greater", "greater_equal"]
LOGI = ["logical_and", "logical_or", "logical_xor"]
BITS = ["bitwise_and", "bitwise_or", "bitwise_xor"]
OPSYM = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv,
    "floor_divide": operator.floordiv, "equal": operator.eq, "not_equal": operator.ne, "less": operator.lt,
    "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge, "bitwise_and": operator.and_,
    "bitwise_or": operator.or_, "bitwise_xor": operator.xor, "left_shift": operator.lshift, "right_shift": operator.rshift,
    "power": operator.pow,
}
IOP = {
    "add": operator.iadd, "subtract": operator.isub, "multiply": operator.imul, "true_divide": operator.itruediv,
    "floor_divide": operator.ifloordiv, "bitwise_and": operator.iand, "bitwise_or": operator.ior, "bitwise_xor": operator.ixor,
}
DT = ["bool"] + NUMS
LAYOUT = ["c", "c", "c", "stride", "rev"]


def layout(a, how):
    """same values, different memory layout"""
    if how == "stride":
        b = np.zeros(len(a) * 2 + 1, a.dtype)
        b[: len(a) * 2 : 2] = a
        return b[: len(a) * 2 : 2]
    if how == "rev":
        return a[::-1].copy()[::-1]
    return a


def mk(spec, how="c"):
    return layout(np_of(spec), how).view(rt.FastArray)


def np_cast(a, dt):
    """documented sentinel-aware conversion of an integer operand to the common dtype"""
    dt = np.dtype(dt)
    if a.dtype == dt or a.dtype.kind in "bf" or dt.kind == "b":
        return a.astype(dt) if a.dtype != dt else a
    bad = a == INV[a.dtype.name]
    r = a.astype(dt)
    if bad.any():
        r[bad] = INV[dt.name]
    return r


def cmp_arr(got, exp, what, dtype=True, tol=0.0, **ctx):
    require(isinstance(got, np.ndarray), what + ": not an array", got=type(got), **ctx)
    g = np.asarray(got.view(np.ndarray))
    if g.size == 0 and exp.size == 0:
        return
    require(g.shape == exp.shape, what + ": shape", got=g.shape, expected=exp.shape, **ctx)
    if dtype:
        require(g.dtype == exp.dtype, what + ": dtype", got=g.dtype, expected=exp.dtype, **ctx)
    k = g.dtype.kind
    if k == "f" or exp.dtype.kind == "f":
        with np.errstate(all="ignore"):
            x, y = g.astype(np.float64), exp.astype(np.float64)
            ok = (x == y) | (np.isnan(x) & np.isnan(y))
            if tol:
                ok |= np.abs(x - y) <= tol * np.maximum(1.0, np.maximum(np.abs(x), np.abs(y)))
    else:
        ok = g == exp
    if not ok.all():
        i = int(np.argmin(ok))
        fail(f"{what}: element {i} is {g[i]!r}, expected {exp[i]!r}", got=g[:20], expected=exp[:20], **ctx)


def sane_pair(op, a, b):
    """keep out of operand ranges in which NumPy's own result is undefined or differs by platform"""
    return True


@st.composite
def s_binary(draw):
    op = draw(pick(ARITH * 3 + EXT * 2 + CMP * 2 + LOGI + BITS + ["left_shift", "right_shift", "arctan2", "hypot", "copysign", "fmod"]))
    n = draw(sizes(0, 40))
    same_dt = draw(st.booleans())
    if op in BITS:
        dts = ["bool"] + INTS
    elif op in ("left_shift", "right_shift"):
        dts = SINTS
    elif op in ("arctan2", "hypot", "copysign", "fmod"):
        dts = FLOATS
    else:
        dts = DT
    a = draw(sarr(dts, n=n, infs=True))
    d2 = [a["d"]] if same_dt else dts
    if op in ("left_shift", "right_shift"):
        b = {"d": draw(st.sampled_from(d2)), "v": draw(vals([0, 1, 2, 3, 5], n))}
    else:
        b = draw(sarr(d2, n=n, infs=True))
    form = draw(pick("op", "ufunc", "ufunc", "out", "iop", "npleft", "npright"))
    return {"op": op, "a": a, "b": b, "la": draw(pick(LAYOUT)), "lb": draw(pick(LAYOUT)), "form": form}


@facet("C01", s_binary(), quick=9000, shards=6, rule="at least one element, operands not all equal")
def binary(c):
    """array (op) array equals NumPy on sentinel-converted operands, in every spelling, for every memory layout"""
    op, form = c["op"], c["form"]
    A, B = np_of(c["a"]), np_of(c["b"])
    uf = getattr(np, op)
    if A.dtype.kind == "b" and B.dtype.kind == "b" and op == "subtract":
        return
    mixed = A.dtype != B.dtype
    hasinv = (None in c["a"]["v"] and A.dtype.kind in "iu") or (None in c["b"]["v"] and B.dtype.kind in "iu")
    if mixed and hasinv:
        # sentinel translation is only pinned down when the common type is floating and both sides are contiguous
        if np.result_type(A, B).kind != "f" or c["la"] != "c" or c["lb"] != "c" or op in LOGI + ["fmin", "fmax"] or form in ("iop", "out"):
            return
        ct = np.result_type(A, B)
        A2, B2 = np_cast(A, ct), np_cast(B, ct)
    else:
        A2, B2 = A, B
    if op == "floor_divide" and (A.dtype.kind == "f" or B.dtype.kind == "f"):
        # inf // x and x // 0 are platform specific in NumPy itself
        with np.errstate(all="ignore"):
            if not (np.isfinite(A2.astype(float)).all() and np.isfinite(B2.astype(float)).all()) or (B2 == 0).any():
                return
            q = A2.astype(float) / B2.astype(float)
            if (np.abs(q - np.round(q)) < 1e-6 * np.maximum(1, np.abs(q))).any() and not ((A2 == np.round(A2)).all() and (B2 == np.round(B2)).all()):
                return  # 1.0 // 0.001: either neighbour is a defensible quotient
    if op == "floor_divide" and B.dtype.kind in "iub" and ((B == 0).any() or (B.dtype.kind == "i" and (B == -1).any() and None in c["a"]["v"])):
        return  # known finding (the latter): riptide_cpp divides INT_MIN by -1 with the hardware instruction
    if op in CMP + EXT and {A.dtype.kind, B.dtype.kind} == {"i", "u"} and "uint64" in (A.dtype.name, B.dtype.name) and not c.get("known"):
        if (A if A.dtype.kind == "u" else B).max(initial=0) > 2**53 or (A if A.dtype.kind == "i" else B).min(initial=0) < -(2**53):
            return  # known finding: uint64 against signed compares through the bit pattern / double
    with np.errstate(all="ignore"):
        try:
            exp = uf(A2, B2)
        except TypeError:
            return
    fA, fB = mk(c["a"], c["la"]), mk(c["b"], c["lb"])
    if len(A) >= 1:
        nt(op, form, "mixed" if mixed else "same", c["la"] + c["lb"])
    ba, bb = A.tobytes(), B.tobytes()
    tol = 1e-6 if np.result_type(A, B) == np.float32 and op in ("true_divide", "hypot", "arctan2") else (1e-12 if op in ("hypot", "arctan2", "floor_divide", "fmod") else 0.0)
    if form == "op" and op in OPSYM:
        r = OPSYM[op](fA, fB)
    elif form == "out":
        o = rt.FastArray(np.zeros(len(A), exp.dtype))
        r = uf(fA, fB, out=o)
        cmp_arr(o, exp, f"np.{op}(out=)", tol=tol)
    elif form == "iop" and op in IOP and exp.dtype == A.dtype and not (op == "true_divide" and A.dtype.kind != "f"):
        x = fA
        r = IOP[op](x, fB)
        if not mixed or c.get("known"):  # (with mixed dtypes: known finding, the C++ operator slot rebinds)
            cmp_arr(fA, exp, f"in-place {op} (target)", tol=tol)
        cmp_arr(r, exp, f"in-place {op}", tol=tol)
        require(np.asarray(fB).tobytes() == bb, "right operand modified")
        return
    elif form == "npleft":
        r = uf(np.array(A), fB)
    elif form == "npright":
        r = uf(fA, np.array(B))
    else:
        r = uf(fA, fB)
    require(type(r) is rt.FastArray, "result is a FastArray", got=type(r))
    f32mix = mixed and "float32" in (A.dtype.name, B.dtype.name)
    if f32mix and form == "op":
        # the C++ operator slot may keep float32 where NumPy's ufunc widens to float64
        if op in CMP or op == "floor_divide":
            return
        fin = np.isfinite(np.asarray(r.view(np.ndarray)).astype(float)) | ~np.isfinite(exp.astype(float)) | (np.abs(exp.astype(float)) < 1e37)
        r, exp, tol = r[rt.FastArray(fin)], exp[fin], 2e-6
        scale = np.maximum(np.abs(A2.astype(float)), np.abs(B2.astype(float)))[fin]
        if op in ("add", "subtract") and len(scale):
            tol = max(tol, 2e-6 * float(np.nanmax(np.where(np.isfinite(scale), scale, 0), initial=0)))
    cmp_arr(r, exp, f"{form} {op}", tol=tol, dtype=len(A) > 1 and not (f32mix and form == "op"))
    require(np.asarray(fA).tobytes() == ba and np.asarray(fB).tobytes() == bb, "operands were modified")


SC = [0, 1, 2, -1, 3, 7, True, False, 0.5, 2.0, -1.5, 100, 127, 128, 255, 300, 40000, 70000]


@st.composite
def s_scalar(draw):
    op = draw(pick(ARITH * 3 + EXT + CMP * 2 + LOGI + ["power"]))
    a = draw(sarr(DT, lo=0, hi=30, infs=True))
    return {
        "op": op, "a": a, "s": draw(st.sampled_from(SC)), "side": draw(pick("r", "r", "l")),
        "np": draw(pick("py", "py", "f8", "i4", "i8", "0d")), "la": draw(pick(LAYOUT)), "form": draw(pick("op", "ufunc", "iop")),
    }


def npscalar(s, how):
    if how == "f8":
        return np.float64(s)
    if how == "i4" and not isinstance(s, float):
        return np.int32(s)
    if how == "i8" and not isinstance(s, float):
        return np.int64(s)
    if how == "0d":
        return np.array(s)
    return s


@facet("C01", s_scalar(), quick=7000, shards=4, rule="at least one element")
def binary_scalar(c):
    """array (op) scalar and scalar (op) array: the exact value wherever it is representable; a widening never loses values"""
    op = c["op"]
    A = np_of(c["a"])
    s = npscalar(c["s"], c["np"])
    isint = A.dtype.kind in "iub"
    sval = c["s"]
    if c["np"] == "0d" and c["side"] == "l":
        return
    v = c["a"]["v"]
    # exact oracle by Python arithmetic on the elements (None = invalid)
    def one(x):
        y = sval
        l, r = (x, y) if c["side"] == "r" else (y, x)
        try:
            return {
                "add": lambda: l + r, "subtract": lambda: l - r, "multiply": lambda: l * r, "true_divide": lambda: l / r,
                "floor_divide": lambda: l // r, "minimum": lambda: min(l, r), "maximum": lambda: max(l, r), "fmin": lambda: min(l, r),
                "fmax": lambda: max(l, r), "equal": lambda: l == r, "not_equal": lambda: l != r, "less": lambda: l < r,
                "less_equal": lambda: l <= r, "greater": lambda: l > r, "greater_equal": lambda: l >= r,
                "logical_and": lambda: bool(l) and bool(r), "logical_or": lambda: bool(l) or bool(r),
                "logical_xor": lambda: bool(l) != bool(r), "power": lambda: l ** r,
            }[op]()
        except (ZeroDivisionError, OverflowError):
            return "skip"
    if op == "floor_divide" and c["side"] == "r" and sval in (-1, 0) and A.dtype.kind in "iub" and (None in v or sval == 0):
        return  # known finding: riptide_cpp divides INT_MIN by -1 with the hardware instruction
    if A.dtype.kind == "b" and (isinstance(sval, bool) or op in ("power", "subtract", "floor_divide", "true_divide")):
        if op not in CMP + LOGI:
            return
    if op == "power" and (isinstance(sval, float) or sval not in (0, 1, 2, 3) or c["side"] == "l"):
        return
    if c["a"]["d"] == "uint64" and c["np"] == "i8" and sval < 0 and op in CMP and not c.get("known"):
        return  # known finding
    fA = mk(c["a"], c["la"])
    before = A.tobytes()
    f = OPSYM.get(op) if c["form"] != "ufunc" and op in OPSYM else getattr(np, op)
    with np.errstate(all="ignore"):
        r = f(fA, s) if c["side"] == "r" else f(s, fA)
    require(isinstance(r, rt.FastArray), "result is a FastArray", got=type(r), case=c)
    require(len(r) == len(A), "length", got=len(r))
    R = np.asarray(r.view(np.ndarray))
    if len(A):
        nt(op, c["np"], c["side"])
    if op in CMP + LOGI:
        require(R.dtype == bool, "comparison/logical result is boolean", got=R.dtype)
    elif A.dtype.kind == "f" and c["np"] == "py" and abs(sval) < 1000:
        require(R.dtype == A.dtype, "float array with a Python scalar keeps its dtype", got=R.dtype, array=A.dtype)
    if op not in CMP + LOGI and (isinstance(sval, float) or op == "true_divide") :
        require(R.dtype.kind == "f", "result of a fractional operation is floating", got=R.dtype)
    with np.errstate(all="ignore"):
      for i, x in enumerate(v):
        if x is None:
            if A.dtype.kind == "f":
                g = R[i]
                if op in CMP:
                    require(bool(g) == (op == "not_equal"), f"NaN {op}", got=g)
                elif op in ARITH + ["minimum", "maximum"]:
                    require(g != g, f"NaN {op} scalar must be NaN", got=g)
            elif c["la"] == "c" and isinstance(sval, float) and op in ARITH and c["np"] == "py":
                require(R[i] != R[i], "integer invalid with a float scalar is NaN", got=R[i], case=c)
            continue
        if isinstance(x, float) and not np.isfinite(x):
            continue
        e = one(x)
        if isinstance(e, str) or isinstance(e, complex):
            continue
        g = R[i].item()
        if R.dtype.kind == "b":
            require(bool(g) == bool(e), f"{op}: element {i} is {g}, expected {e}", x=x, s=sval, case=c)
            continue
        if op == "power" and abs(e) > 2**53:
            continue  # riptide_cpp computes integer powers in double precision
        if R.dtype.kind in "iu":
            ii = np.iinfo(R.dtype)
            if isinstance(e, float) and e != int(e):
                fail(f"{op}: fractional value {e} stored in {R.dtype}", case=c)
            if not (ii.min <= int(e) <= ii.max):
                if op == "power":
                    continue
                # wraps exactly as NumPy does; only modular equality can be required
                require((int(g) - int(e)) % (2 ** (8 * R.dtype.itemsize)) == 0, f"{op}: element {i} is {g}, expected {e} modulo 2^bits", case=c)
                continue
            if isint and c["np"] == "py" and not isinstance(sval, float):
                pass
            require(int(g) == int(e), f"{op}: element {i} is {g}, expected {e}", x=x, s=sval, case=c)
        else:
            if op == "floor_divide" and (isinstance(x, float) or isinstance(sval, float)):
                if abs((x / sval if c["side"] == "r" else sval / x) - round(x / sval if c["side"] == "r" else sval / x)) < 1e-6:
                    continue
            tol = 2e-6 if R.dtype == np.float32 or A.dtype == np.float32 else (2e-3 if R.dtype == np.float16 else 1e-12)
            ef = float(e)
            if R.dtype != np.float64 and abs(ef) > 1e30:
                continue
            require(abs(g - ef) <= tol * max(1e-3, abs(ef), abs(float(x))), f"{op}: element {i} is {g}, expected {ef}", x=x, s=sval, case=c)
    require(np.asarray(fA).tobytes() == before, "operand was modified")


@st.composite
def s_mod(draw):
    n = draw(sizes(1, 20))
    d = draw(pick("int32", "int64", "int16", "float64", "uint8"))
    pos = [0, 1, 2, 3, 5, 7, 10, 100]
    div = [1, 2, 3, 5, 7, 10]
    if d == "float64":
        pos = pos + [0.5, 2.25, 1000.75]
        div = div + [0.5, 2.5]
    return {"d": d, "a": draw(vals(pos, n)), "b": draw(vals(div, n)), "form": draw(pick("op", "ufunc", "scalar", "fmod"))}


@facet("C01", s_mod(), quick=600, rule="at least one element")
def modulo(c):
    """remainder with non-negative dividend and positive divisor equals NumPy"""
    A, B = np.array(c["a"], c["d"]), np.array(c["b"], c["d"])
    nt(c["form"], c["d"])
    fA, fB = rt.FastArray(A), rt.FastArray(B)
    if c["form"] == "op":
        r, e = fA % fB, A % B
    elif c["form"] == "scalar":
        r, e = fA % c["b"][0], A % c["b"][0]
    elif c["form"] == "fmod":
        r, e = np.fmod(fA, fB), np.fmod(A, B)
    else:
        r, e = np.remainder(fA, fB), np.remainder(A, B)
    cmp_arr(r, e, "modulo", dtype=False, tol=1e-12)


UN = {
    "i": ["negative", "absolute", "abs", "sign", "sqrt", "invert", "isnan", "isfinite", "isinf", "logical_not", "floor", "ceil", "trunc", "signbit", "square"],
    "f": ["negative", "absolute", "abs", "sign", "sqrt", "exp", "log", "log2", "log10", "sin", "cos", "tan", "arctan", "tanh", "exp2", "expm1", "log1p",
          "floor", "ceil", "trunc", "rint", "isnan", "isfinite", "isinf", "logical_not", "signbit", "square", "reciprocal", "cbrt", "isneginf_"],
}


@st.composite
def s_unary(draw):
    a = draw(sarr(NUMS, hi=30, infs=True))
    k = "f" if a["d"] in FLOATS else "i"
    return {"a": a, "op": draw(pick(UN[k])), "la": draw(pick(LAYOUT)), "form": draw(pick("ufunc", "rt", "out", "method"))}


@facet("C01", s_unary(), quick=5000, shards=3, rule="at least one element")
def unary(c):
    """unary ufuncs, their rt.* twins and FastArray methods equal NumPy (invalid integers are NaN-like for NA tests and roots)"""
    op = c["op"]
    A = np_of(c["a"])
    if op == "isneginf_":
        op = "isinf"
    isi = A.dtype.kind in "iu"
    bad = np.array([x is None for x in c["a"]["v"]], bool)
    uf = getattr(np, op)
    with np.errstate(all="ignore"):
        exp = uf(A)
    if isi and op in ("isnan", "isfinite") and c["la"] != "c" and c["form"] not in ("rt", "method"):
        return  # np.isnan on a *strided* integer array is NumPy's own: the repository's tests pin that
    if isi and op in ("isnan", "isfinite"):
        exp = bad.copy() if op == "isnan" else ~bad
    if isi and op in ("floor", "ceil", "trunc"):
        exp = A.copy()
    fA = mk(c["a"], c["la"])
    before = A.tobytes()
    if len(A):
        nt(op, c["form"], c["la"], A.dtype.name)
    form = c["form"]
    if form == "rt" and hasattr(rt, op):
        r = getattr(rt, op)(fA)
    elif form == "method" and hasattr(fA, op):
        r = getattr(fA, op)()
    elif form == "out" and not (isi and op in ("floor", "ceil", "trunc")):
        o = rt.FastArray(np.zeros(len(A), exp.dtype))
        r0 = uf(fA, out=o)
        cmp_arr(o, np.asarray(r0.view(np.ndarray)), "out= array holds the result")
        r = o
    else:
        r = uf(fA)
    require(type(r) is rt.FastArray, "result is a FastArray", got=type(r))
    R = np.asarray(r.view(np.ndarray))
    require(R.shape == exp.shape, "shape")
    if op in ("isnan", "isfinite", "isinf", "logical_not", "signbit"):
        require(R.dtype == bool, "dtype", got=R.dtype)
    if op == "rint":  # ties: riptide_cpp rounds half away from zero
        tie = np.abs(A - np.trunc(A)) == 0.5
        require((np.abs(R[tie] - A[tie]) == 0.5).all(), "rint of a tie is a neighbouring integer", got=R)
        R, exp = np.where(tie, 0, R), np.where(tie, 0, exp)
    keep = ~bad if isi and op not in ("isnan", "isfinite") else np.ones(len(A), bool)
    if op in ("floor", "ceil", "trunc") and isi:
        R = R.astype(exp.dtype) if R.dtype.kind == "f" and A.dtype.itemsize <= 4 else R
        if R.dtype.kind == "f":
            keep &= np.abs(A.astype(float)) < 2**50
    if A.dtype == np.uint64 and op in ("sqrt", "floor", "ceil", "trunc"):
        keep &= A < 2**63
    tol = 0.0
    if op in ("exp", "log", "log2", "log10", "sin", "cos", "tan", "arctan", "tanh", "exp2", "expm1", "log1p", "sqrt", "cbrt", "reciprocal", "square"):
        tol = 2e-3 if exp.dtype == np.float16 else 3e-6 if exp.dtype == np.float32 else 1e-11
    cmp_arr(R[keep], exp[keep], op, dtype=False, tol=tol, case=c)
    require(np.asarray(fA).tobytes() == before, "operand was modified")


@st.composite
def s_kw(draw):
    n = draw(sizes(1, 30))
    op = draw(pick("add", "subtract", "multiply", "minimum", "maximum"))
    d = draw(pick("int32", "int64", "float64", "int16"))
    return {
        "op": op, "a": draw(sarr([d], n=n, inv=False, edge=False)), "b": draw(sarr([d], n=n, inv=False, edge=False)), "w": draw(vals([True, False], n)),
        "mode": draw(pick("where", "dtype", "reduce", "accumulate", "outer", "reduceat", "at", "keepdims", "outwhere", "divmod", "modf", "nd")),
        "dt": draw(pick("float64", "float32")), "ix": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5)),
    }


@facet("C01", s_kw(), quick=3000, shards=2, rule="at least two elements")
def ufunc_protocol(c):
    """ufunc keyword arguments and methods (where, dtype, reduce, accumulate, outer, reduceat, at, multi-output) equal NumPy"""
    A, B = np_of(c["a"]), np_of(c["b"])
    W = np.array(c["w"], bool)
    uf = getattr(np, c["op"])
    fA, fB = rt.FastArray(A.copy()), rt.FastArray(B.copy())
    m = c["mode"]
    if len(A) > 1:
        nt(m, c["op"])
    with np.errstate(all="ignore"):
        if m == "where":
            o = np.full(len(A), 9, A.dtype)
            o2 = rt.FastArray(o.copy())
            cmp_arr(uf(fA, fB, out=o2, where=rt.FastArray(W)), uf(A, B, out=o, where=W), "where=")
            cmp_arr(o2, o, "where= out")
        elif m == "outwhere":
            o = A.copy()
            o2 = fA.copy()
            uf(o2, fB, out=o2, where=W)
            uf(o, B, out=o, where=W)
            cmp_arr(o2, o, "where= in place")
        elif m == "dtype":
            cmp_arr(uf(fA, fB, dtype=c["dt"]), uf(A, B, dtype=c["dt"], casting="unsafe"), "dtype=", dtype=True, tol=1e-6)
        elif m == "reduce":
            g, e = uf.reduce(fA), uf.reduce(A)
            require(np.issubdtype(np.asarray(g).dtype, np.floating) == np.issubdtype(e.dtype, np.floating) or c["op"] == "subtract", "reduce kind", got=g, expected=e)
            if A.dtype == np.int16 and c["op"] == "multiply":
                return
            require(abs(float(g) - float(e)) <= 1e-9 * max(1, abs(float(e))), "reduce", got=g, expected=e)
        elif m == "keepdims":
            g, e = uf.reduce(fA, keepdims=True), uf.reduce(A, keepdims=True)
            require(np.asarray(g).shape == e.shape, "keepdims shape", got=g, expected=e)
            require(abs(float(g[0]) - float(e[0])) <= 1e-9 * max(1, abs(float(e[0]))), "keepdims", got=g, expected=e)
        elif m == "accumulate":
            cmp_arr(uf.accumulate(fA), uf.accumulate(A), "accumulate", tol=1e-12)
        elif m == "outer":
            g, e = uf.outer(fA, fB), uf.outer(A, B)
            require(np.array_equal(np.asarray(g), e), "outer", got=g, expected=e)
        elif m == "reduceat":
            cmp_arr(uf.reduceat(fA, c["ix"]), uf.reduceat(A, c["ix"]), "reduceat", tol=1e-12)
        elif m == "at":
            x, y = fA.copy(), A.copy()
            uf.at(x, c["ix"], 3)
            uf.at(y, c["ix"], 3)
            cmp_arr(x, y, "at")
        elif m == "divmod":
            D = np.where(B == 0, 1, np.abs(B)).astype(A.dtype)
            P = np.abs(A)
            g, e = np.divmod(rt.FastArray(P), rt.FastArray(D)), np.divmod(P, D)
            cmp_arr(g[0], e[0], "divmod q")
            cmp_arr(g[1], e[1], "divmod r", tol=1e-12)
        elif m == "modf":
            F = A.astype(np.float64) + 0.25
            g, e = np.modf(rt.FastArray(F)), np.modf(F)
            cmp_arr(g[0], e[0], "modf")
            cmp_arr(g[1], e[1], "modf")
        elif m == "nd":
            k = len(A) // 2 * 2
            if k == 0:
                return
            A2, B2 = A[:k].reshape(2, -1), B[:k].reshape(2, -1)
            g, e = uf(rt.FastArray(A2), rt.FastArray(B2)), uf(A2, B2)
            require(np.asarray(g).shape == e.shape and np.array_equal(np.asarray(g), e), "2-d", got=g, expected=e)
            g, e = uf(rt.FastArray(A2), rt.FastArray(B2[0])), uf(A2, B2[0])
            require(np.asarray(g).shape == e.shape and np.array_equal(np.asarray(g), e), "broadcast", got=g, expected=e)
    cmp_arr(fA, A, "left operand unchanged") if m != "at" else None


@st.composite
def s_mask(draw):
    n = draw(sizes(0, 40))
    k = draw(st.integers(1, 5))
    return {"ms": [draw(vals([True, False], n)) for _ in range(k)], "op": draw(pick("or", "and", "xor", "andnot")), "inp": draw(st.booleans()),
            "lst": draw(st.booleans()), "la": "c"}


@facet("C01", s_mask(), quick=1500, rule="two or more masks, at least one element")
def masks(c):
    """mask_or/and/xor/andnot (and in-place forms) fold the masks left to right; other masks are untouched"""
    ms = [layout(np.array(m, bool), c["la"]).view(rt.FastArray) for m in c["ms"]]
    orig = [list(m) for m in c["ms"]]
    f = getattr(rt, "mask_" + c["op"] + ("i" if c["inp"] else ""))
    e = np.array(orig[0], bool)
    for m in orig[1:]:
        y = np.array(m, bool)
        e = {"or": lambda: e | y, "and": lambda: e & y, "xor": lambda: e ^ y, "andnot": lambda: e & ~y}[c["op"]]()
    if len(ms) > 1 and len(e):
        nt(c["op"], f"k{len(ms)}", "inplace" if c["inp"] else "copy")
    r = f(ms) if c["lst"] else f(*ms)
    if not (len(ms) == 1 and c["op"] == "andnot"):
        cmp_arr(r, e, f.__name__, case=c)
        if c["inp"]:
            cmp_arr(ms[0], e, "in-place result is in the first mask")
    for i in range(1 if c["inp"] else 0, len(ms)):
        cmp_arr(ms[i], np.array(orig[i], bool), f"mask {i} unchanged")


@st.composite
def s_misc(draw):
    d = draw(pick("int32", "int64", "float64", "float32", "int8", "uint8"))
    n = draw(sizes(0, 30))
    return {"a": draw(sarr([d], n=n, edge=False, inv=d in FLOATS)), "m": draw(pick("between", "clip", "clip_lower", "clip_upper", "bitcount", "round", "where", "putmask", "interp", "interp_extrap", "eqm", "nan_to_zero", "logical", "absround")),
            "lo": draw(st.integers(-3, 6)), "w": draw(st.integers(0, 6)), "il": draw(st.booleans()), "ih": draw(st.booleans()),
            "mask": draw(vals([True, False], n)), "b": draw(sarr([d], n=n, edge=False, inv=False)), "la": draw(pick(LAYOUT)), "s": draw(st.booleans()), "dec": draw(st.integers(0, 2))}


@facet("C01", s_misc(), quick=4000, shards=2, rule="at least one element")
def elementwise_misc(c):
    """between, clip*, bitcount, round, where, putmask, interp: against their one-line definitions"""
    A, B = np_of(c["a"]), np_of(c["b"])
    m = c["m"]
    lo, hi = c["lo"], c["lo"] + c["w"]
    if A.dtype == np.uint8:
        lo = max(lo, 0)
        hi = max(hi, 0)
    M = np.array(c["mask"], bool)
    fA = mk(c["a"], c["la"])
    before = A.tobytes()
    if len(A):
        nt(m, A.dtype.name)
    with np.errstate(all="ignore"):
        if m == "between":
            r = fA.between(lo, hi, include_low=c["il"], include_high=c["ih"])
            e = (A >= lo if c["il"] else A > lo) & (A <= hi if c["ih"] else A < hi)
            cmp_arr(r, e, "between", case=c)
            r = fA.between(rt.FastArray(B), hi)
            cmp_arr(r, (A >= B) & (A < hi), "between(array, scalar) default half-open", case=c)
        elif m == "clip":
            cmp_arr(fA.clip(lo, hi), np.clip(A, lo, hi), "clip", case=c)
            cmp_arr(rt.clip(fA, lo, hi) if hasattr(rt, "clip") else np.clip(fA, lo, hi), np.clip(A, lo, hi), "clip", case=c)
        elif m == "clip_lower":
            cmp_arr(fA.clip_lower(lo), np.clip(A, lo, None), m, case=c)
        elif m == "clip_upper":
            cmp_arr(fA.clip_upper(hi), np.clip(A, None, hi), m, case=c)
        elif m == "bitcount":
            if A.dtype.kind in "iu":
                bits = 8 * A.dtype.itemsize
                e = [bin(int(x) & ((1 << bits) - 1)).count("1") for x in A]
                require([int(x) for x in rt.bitcount(fA)] == e, "bitcount", got=rt.bitcount(fA), expected=e)
                require(rt.bitcount(hi if hi >= 0 else 0) == bin(max(hi, 0)).count("1"), "bitcount scalar")
        elif m == "round":
            if A.dtype.kind == "f":
                X = A * 1.375
                e = np.round(X, c["dec"])
                cmp_arr(rt.round(layout(X, c["la"]).view(rt.FastArray), c["dec"]), e, "round", tol=1e-6)
                cmp_arr(layout(X, c["la"]).view(rt.FastArray).round(c["dec"]), e, "round method", tol=1e-6)
        elif m == "absround":
            cmp_arr(rt.abs(fA), np.abs(A), "rt.abs", case=c)
            cmp_arr(fA.abs(), np.abs(A), ".abs", case=c)
            cmp_arr(fA.sign(), np.sign(A), ".sign", case=c)
        elif m == "where":
            fM = layout(M, c["la"]).view(rt.FastArray)
            cmp_arr(rt.where(fM, fA, mk(c["b"])), np.where(M, A, B), "where(arr,arr)", case=c)
            cmp_arr(rt.where(fM, fA, lo), np.where(M, A, np.array(lo)), "where(arr,scalar)", dtype=False, case=c)
            cmp_arr(rt.where(fM, lo, fA), np.where(M, np.array(lo), A), "where(scalar,arr)", dtype=False, case=c)
            cmp_arr(rt.where(fM, lo, hi), np.where(M, lo, hi), "where(scalar,scalar)", dtype=False, case=c)
            g = rt.where(fM)
            require(np.array_equal(np.asarray(g[0] if isinstance(g, tuple) else g), np.where(M)[0]), "where(mask)", got=g)
            g = fA.where(fM, lo)
            cmp_arr(g, np.where(M, A, np.array(lo)), ".where", dtype=False, case=c)
        elif m == "putmask":
            x, y = fA.copy(), A.copy()
            rt.putmask(x, rt.FastArray(M), rt.FastArray(B))
            np.putmask(y, M, B)
            cmp_arr(x, y, "putmask")
            x, y = fA.copy(), A.copy()
            rt.putmask(x, M, lo)
            np.putmask(y, M, lo)
            cmp_arr(x, y, "putmask scalar")
        elif m == "nan_to_zero":
            x = fA.copy()
            r = rt.nan_to_zero(x)
            e = np.where(np.isnan(A), 0, A) if A.dtype.kind == "f" else A
            cmp_arr(r, e.astype(A.dtype), "nan_to_zero")
        elif m == "logical":
            if None not in c["a"]["v"]:
                cmp_arr(rt.logical(fA), A.astype(bool), "logical")
        elif m in ("interp", "interp_extrap"):
            xp = np.array([-2.0, 0.0, 1.5, 4.0, 9.0])
            fp = np.array([3.0, -1.0, 0.5, 8.0, 2.0])
            X = np.where(np.isnan(A), 0.3, A).astype(np.float64) if A.dtype.kind == "f" else A.astype(np.float64)
            X = X + 0.125 * c["lo"]
            r = getattr(rt, m)(rt.FastArray(X), rt.FastArray(xp), rt.FastArray(fp))
            e = []
            for x in X:
                if m == "interp":
                    e.append(np.interp(x, xp, fp))
                else:
                    j = min(max(int(np.searchsorted(xp, x, "right")) - 1, 0), len(xp) - 2)
                    e.append(fp[j] + (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j]) * (x - xp[j]))
            cmp_arr(r, np.array(e, float), m, dtype=False, tol=1e-9)
        elif m == "eqm":
            fB = mk(c["b"])
            for nm in ("eq", "ne", "lt", "le", "gt", "ge"):
                o = getattr(operator, nm)
                cmp_arr(getattr(fA, nm)(fB) if hasattr(fA, nm) else o(fA, fB), o(A, B), nm)
                cmp_arr(o(fA, fB), o(A, B), nm)
    require(np.asarray(fA).tobytes() == before, "operand was modified", m=m)


@st.composite
def s_big(draw):
    return {"op": draw(pick(ARITH + EXT + CMP + ["mask"])), "d1": draw(pick(DT)), "d2": draw(pick(DT)), "n": draw(pick(1000, 8191, 8193, 70000, 131073)), "seed": draw(st.integers(0, 10**6)), "s": draw(st.booleans())}


@facet("C01", s_big(), quick=150, thorough=3000, rule="always (size beyond the chunk size of the parallel kernels)")
def large(c):
    """large arrays (several worker chunks) agree with NumPy"""
    if c["op"] == "subtract" and c["d1"] == c["d2"] == "bool":
        return
    nt(c["op"])
    r = np.random.default_rng(c["seed"])
    def g(d):
        if d == "bool":
            return r.integers(0, 2, c["n"]).astype(bool)
        if d in FLOATS:
            return np.round(r.normal(size=c["n"]) * 8, 2).astype(d)
        return r.integers(1, 100, c["n"]).astype(d)
    A, B = g(c["d1"]), g(c["d2"])
    if c["op"] == "mask":
        A, B = A > 1, B > 1
        cmp_arr(rt.mask_and(rt.FastArray(A), rt.FastArray(B), rt.FastArray(A)), A & B, "mask_and")
        return
    if c["op"] == "floor_divide":
        B = np.where(B == 0, 1, B).astype(B.dtype)
    with np.errstate(all="ignore"):
        e = getattr(np, c["op"])(A, B)
        tol = 1e-5 if "float32" in (c["d1"], c["d2"]) else 1e-12
        if c["op"] == "floor_divide" and e.dtype.kind == "f":
            return
        cmp_arr(getattr(np, c["op"])(rt.FastArray(A), rt.FastArray(B)), e, c["op"], tol=tol)


@facet("C01", st.fixed_dictionaries({"d": pick("int32", "int64", "int16"), "a": vals_n([0, 1, 5, -7, 100], 1, 8), "b": pick(-1, -2, 3)}), quick=100, rule="always")
def int_min_div(c):
    """floor division of signed integers by a scalar, without invalids in the dividend"""
    nt()
    A = np.array(c["a"], c["d"])
    cmp_arr(rt.FastArray(A) // c["b"], A // c["b"], "floor_divide")


@st.composite
def s_where(draw):
    n = draw(sizes(2, 20))
    k = draw(pick("num", "num", "num", "str", "cat", "catstr", "date"))
    d1, d2 = draw(pick(["bool"] + NUMS)), draw(pick(["bool"] + NUMS))
    if {d1, d2} & {"uint64", "int64"} and (d1 != d2):
        d2 = d1
    x = {"d": d1, "v": draw(vals(pool_for(d1, False), n))}
    y = {"d": d2, "v": draw(vals(pool_for(d2, False), n))}
    cd = draw(pick("bool", "bool", "int8", "int32", "int64", "float64", "uint8"))
    cv = draw(vals([0, 1] if cd == "bool" else [0, 1, 2, 0, 5] if cd == "uint8" else [0, 1, -1, 0, 2, -7] if cd[0] == "i" else [0, 1, -1, 0.5, -0.5, 0], n))
    return {"k": k, "x": x, "y": y, "cd": cd, "cv": cv, "w1": draw(vals(WORDS_E, n)), "w2": draw(vals(WORDS_E + ["muchlongerword"], n)), "form": draw(pick("array", "list", "np")), "sc": draw(pick("none", "x", "y")), "la": draw(pick(LAYOUT))}


@facet("C01", s_where(), quick=2500, shards=2, rule="condition selects from both sides")
def where_(c):
    """rt.where picks x where the condition is non-zero and y elsewhere, for numbers, strings, categories and dates"""
    n = len(c["cv"])
    C = np.array(c["cv"], dtype=c["cd"])
    cond = C.tolist() if c["form"] == "list" else C if c["form"] == "np" else layout(C, c["la"]).view(rt.FastArray)
    t = [x != 0 for x in c["cv"]]
    if any(t) and not all(t):
        nt(c["k"], c["cd"], c["sc"])

    def sel(p, q):
        return [a if z else b for z, a, b in zip(t, p, q)]

    k = c["k"]
    if k == "num":
        xv, yv = c["x"]["v"], c["y"]["v"]
        X, Y = layout(np_of(c["x"]), c["la"]).view(rt.FastArray), fa(c["y"])
        if c["sc"] == "y":
            s = next((v for v in yv if v is not None), 1)
            Y, yv = s, [s] * n
        elif c["sc"] == "x":
            s = next((v for v in xv if v is not None), 1)
            X, xv = s, [s] * n
        r = rt.where(cond, X, Y)
        e = sel(xv, yv)
        require(r.dtype.kind in "biuf", "dtype", got=r.dtype)
        if r.dtype == bool:
            e = [bool(v) for v in e]
        elif r.dtype.kind == "f":
            e = [None if v is None else float(r.dtype.type(v)) for v in e]
        else:
            e = [None if v is None else int(v) for v in e]
        same(r, e, "where", case=c)
    elif k == "str":
        x, y = fa({"d": "S", "v": c["w1"]}), fa({"d": "U" if c["cd"] == "int8" else "S", "v": c["w2"]})
        yv = c["w2"]
        if c["sc"] == "y":
            y, yv = "zzz9", ["zzz9"] * n
        r = rt.where(cond, x, y)
        same_list([v if isinstance(v, str) else v.decode() for v in np.asarray(r).tolist()], sel(c["w1"], yv), "where strings", case=c)
    elif k in ("cat", "catstr"):
        x = rt.Categorical(c["w1"])
        y = rt.Categorical(c["w2"]) if k == "cat" else fa({"d": "S", "v": c["w2"]})
        r = rt.where(cond, x, y)
        if k == "cat":
            require(isinstance(r, rt.Categorical), "where(cat, cat) is a Categorical", got=type(r))
            r = r.expand_array
        same_list([v if isinstance(v, str) else v.decode() for v in np.asarray(r).tolist()], sel(c["w1"], c["w2"]), "where categories", case=c)
    else:
        xv = [18000 + i for i in range(n)]
        yv = [9000 + 3 * i for i in range(n)]
        r = rt.where(cond, rt.Date(np.array(xv, dtype="int32")), rt.Date(np.array(yv, dtype="int32")))
        same_list(np.asarray(r.view(np.ndarray)).tolist(), sel(xv, yv), "where dates", case=c)
