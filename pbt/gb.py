"""Group-by oracle: partition of rows by key tuples, and generated key columns."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt

from .core import fail, require
from .lib import *
from .cols import *
from .props.c01 import LAYOUT
from .props.c05 import cmp1
from functools import cmp_to_key

KEYK = ["S", "S", "int32", "int64", "float64", "U", "int8", "uint8", "int16", "uint16", "uint32", "float32", "bool", "date", "dtn", "cat", "catn", "catf", "cat0"]
PLAINK = ["S", "S", "int32", "int64", "float64", "U", "int8", "uint8", "bool", "date"]


@st.composite
def s_keys(draw, n, kinds=KEYK, nk=None, inv=False):
    m = draw(pick(1, 1, 1, 2, 2, 3)) if nk is None else nk
    ks = []
    for _ in range(m):
        c = draw(scol(n, kinds=kinds, inv=inv, few=True))
        c["la"] = draw(pick(LAYOUT))
        ks.append(c)
    return ks


def mkkeys(ks):
    return [mkcol(k, k.get("la", "c")) for k in ks]


def key_rows(ks):
    """per row key tuple, or None when a category key is filtered"""
    cols = [want(k) for k in ks]
    return [None if any(x == FILT for x in t) else t for t in zip(*cols)]


def partition(rows, filt=None):
    """[(key, [row,...])] in order of first kept appearance"""
    out = {}
    for i, k in enumerate(rows):
        if k is None or (filt is not None and not filt[i]):
            continue
        out.setdefault(k, []).append(i)
    return list(out.items())


def skey(t):
    return cmp_to_key(lambda a, b: next((r for r in (cmp1(x, y) for x, y in zip(a, b)) if r), 0))(t)


def lab_rows(cols):
    """label tuples of result columns"""
    return list(zip(*[canon(c) for c in cols]))


@st.composite
def s_n(draw, hi=24):
    return draw(sizes(1, hi))


def big(ks, rep):
    """repeat rows to reach sizes where kernels go parallel"""
    return [dict(k, v=list(k["v"]) * rep) for k in ks]
