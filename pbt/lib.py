"""Shared generators and oracle helpers (no riptable internals are used by the oracles)."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

import riptable as rt

from .core import Mismatch, fail, nt, require, tag  # noqa: F401

# riptable's documented sentinels for "invalid", per dtype
INV = {
    "bool": None,
    "int8": -128,
    "int16": -(2**15),
    "int32": -(2**31),
    "int64": -(2**63),
    "uint8": 255,
    "uint16": 65535,
    "uint32": 2**32 - 1,
    "uint64": 2**64 - 1,
    "float32": float("nan"),
    "float64": float("nan"),
}
SINTS = ["int8", "int16", "int32", "int64"]
UINTS = ["uint8", "uint16", "uint32", "uint64"]
INTS = SINTS + UINTS
FLOATS = ["float32", "float64"]
NUMS = INTS + FLOATS
COMMON_NUMS = ["int32", "int64", "float64", "float32", "int8", "int16", "uint8", "uint16", "uint32", "uint64"]


def is_inv(x, dt) -> bool:
    dt = str(dt)
    if dt.startswith("float"):
        return x != x
    i = INV.get(dt)
    return i is not None and int(x) == i


def lo_hi(dt):
    ii = np.iinfo(dt)
    if ii.min < 0:
        return ii.min + 1, ii.max
    return 0, ii.max - 1


def int_pool(dt, edge=True, inv=True, small=None):
    lo, hi = lo_hi(dt)
    p = [0, 1, 2, 3, 5, 7, 10, 100]
    if lo < 0:
        p += [-1, -2, -3, -7, -100]
    if edge:
        p += [lo, hi, lo + 1, hi - 1, hi // 2]
    if inv:
        p += [None, None]
    return [x for x in p if x is None or lo <= x <= hi]


def float_pool(edge=True, inv=True, infs=False, f32=False):
    p = [0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 3.25, -7.75, 10.0, 100.0, 1.5, 2.5, -2.5]
    if edge:
        p += [-0.0, 1e-3, 12345.678, -1e6, 1e10]
    if infs:
        p += [float("inf"), float("-inf")]
    if inv:
        p += [None, None]
    if f32:
        p = [None if x is None else float(np.float32(x)) for x in p]
    return p


def pool_for(dt, edge=True, inv=True, infs=False):
    if dt == "bool":
        return [False, True]
    if dt in INTS:
        return int_pool(dt, edge, inv)
    return float_pool(edge, inv, infs, f32=dt == "float32")


WORDS = ["a", "b", "c", "ab", "abc", "B", "zz", "hello", "x1", "A", "ba", "Z", "aa", "longer word", "q-1"]
WORDS_E = WORDS + ["", ""]
UWORDS = ["a", "b", "ñ", "été", "日本", "abc", "Z", "x1", "ß", "zz"]


@st.composite
def vals(draw, pool, n):
    """n values from `pool`, generated from one byte string so that it is cheap and shrinks to pool[0]."""
    b = draw(st.binary(min_size=n, max_size=n))
    k = len(pool)
    return [pool[x % k] for x in b]


def vals_n(pool, lo=0, hi=30):
    return sizes(lo, hi).flatmap(lambda n: vals(pool, n))


def sizes(lo=0, hi=30):
    return st.one_of(st.integers(lo, max(lo, min(hi, 6))), st.integers(lo, max(lo, min(hi, 16))), st.integers(lo, hi))


def pick(*xs):
    return st.sampled_from(list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple, str)) else list(xs))


def big_vals(pool, n, seed):
    ix = np.random.default_rng(seed).integers(0, len(pool), n)
    return [pool[i] for i in ix]


@st.composite
def sarr(draw, dts=COMMON_NUMS, n=None, lo=0, hi=30, edge=True, inv=True, infs=False):
    """array spec {"d": dtype, "v": [...]}; None encodes the invalid sentinel"""
    d = draw(st.sampled_from(dts))
    if n is None:
        n = draw(sizes(lo, hi))
    if d == "S":
        pool = WORDS_E if inv else WORDS
    elif d == "U":
        pool = UWORDS + [""] if inv else UWORDS
    else:
        pool = pool_for(d, edge, inv, infs)
    return {"d": d, "v": draw(vals(pool, n))}


def np_of(spec) -> np.ndarray:
    d, v = spec["d"], spec["v"]
    if d == "S":
        b = [(x.encode() if isinstance(x, str) else (x or b"")) for x in v]
        return np.array(b, dtype="S" + str(max([len(x) for x in b] + [1])))
    if d == "U":
        b = [x or "" for x in v]
        return np.array(b, dtype="U" + str(max([len(x) for x in b] + [1])))
    if d == "bool":
        return np.array(v, dtype=bool)
    i = INV[d]
    return np.array([i if x is None else x for x in v], dtype=d)


def fa(spec):
    a = np_of(spec)
    if a.dtype.char == "U":
        return rt.FastArray(a, unicode=True)
    return rt.FastArray(a)


def py(a, what="result"):
    """list of Python values of an array; invalid -> None; bytes -> str.  Works on ndarray/FastArray of basic dtype."""
    if not isinstance(a, np.ndarray):
        fail(f"{what}: expected an array", got=type(a), value=a)
    b = np.asarray(a.view(np.ndarray) if type(a) is not np.ndarray else a)
    return npy(b)


def npy(b):
    k = b.dtype.kind
    if k == "S":
        return [x.decode("latin1") for x in b.tolist()]
    if k in "UO":
        return b.tolist()
    if k == "b":
        return b.tolist()
    if k == "f":
        return [None if x != x else x for x in b.astype(np.float64).tolist()]
    i = INV[b.dtype.name]
    return [None if x == i else x for x in b.tolist()]


def eq1(x, y, tol=0.0):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, float) or isinstance(y, float):
        if x != x or y != y:
            return x != x and y != y
        if x == y:
            return True
        if math.isinf(x) or math.isinf(y):
            return False
        return tol > 0 and abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    return x == y


def same_list(got, exp, what, tol=0.0, **ctx):
    if len(got) != len(exp):
        fail(f"{what}: length {len(got)} != expected {len(exp)}", got=got, expected=exp, **ctx)
    for i, (g, e) in enumerate(zip(got, exp)):
        if not eq1(g, e, tol):
            fail(f"{what}: element {i} is {g!r}, expected {e!r}", got=got, expected=exp, **ctx)


def same(arr, exp, what, tol=0.0, dtype=None, **ctx):
    if dtype is not None and np.dtype(dtype) != getattr(arr, "dtype", None):
        fail(f"{what}: dtype {getattr(arr, 'dtype', type(arr))}, expected {np.dtype(dtype)}", got=arr, **ctx)
    same_list(py(arr, what), exp, what, tol, **ctx)


def scalar(x):
    """Python value of a riptable scalar result; NaN -> None"""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            x = x[()]
        else:
            fail("expected a scalar", got=x)
    if isinstance(x, (bytes, np.bytes_)):
        return x.decode("latin1")
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float) and x != x:
        return None
    return x


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:
        return e
    return None


def snapshot(a):
    """immutable copy of an array's observable content"""
    return (type(a).__name__, a.dtype.str, a.shape, np.asarray(a.view(np.ndarray)).tobytes())
