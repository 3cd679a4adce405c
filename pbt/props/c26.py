"""C26: generated texts, widths, layouts and arguments; every element against the Python text function of the same name."""
import re
import numpy as np
from hypothesis import strategies as st

import riptable as rt

from ..core import *
from ..lib import *
from ..cols import *

ALPH = "aAbBzZ@[`{ 19_"
NONASC = "é日ß"


@st.composite
def s_arr(draw, nonasc=True, forms=("arr", "arr", "arr", "cat", "catf", "cat0")):
    u = draw(st.booleans())
    al = ALPH + (NONASC if u and nonasc and draw(pick(False, False, True)) else "")
    few = draw(pick("", "", "ab", "aA "))
    ch = st.sampled_from(few or al)
    w = st.lists(ch, max_size=draw(pick(3, 6, 6, 14))).map("".join)
    v = draw(st.lists(w, min_size=1, max_size=draw(pick(1, 4, 9))))
    return {"u": u, "v": v, "pad": draw(pick(0, 0, 1, 5)), "la": draw(pick("c", "c", "stride", "rev", "off")), "rep": draw(pick(1, 1, 1, 1, 1, 1, 2600)), "form": draw(pick(*forms)), "code": draw(st.lists(st.integers(0, 9), min_size=6, max_size=6))}


def mk(c):
    """(object with .str, texts per element or None when filtered)"""
    v = c["v"]
    w = max(1, max(map(len, v)) + c["pad"])
    dt = ("U" if c["u"] else "S") + str(w)
    if c["form"] == "arr":
        v = v * c["rep"]
        a = np.array(v if c["u"] else [x.encode() for x in v], dtype=dt)
        if c["la"] == "stride":
            t = np.empty(2 * len(a), dtype=dt)
            t[:] = "junk"[:w]
            t[::2] = a
            a = t[::2]
        elif c["la"] == "rev":
            a = a[::-1].copy()[::-1]
        elif c["la"] == "off":
            a = np.concatenate([np.array(["zz"], dtype=dt), a])[1:]
        return a.view(rt.FastArray), v
    cats = list(dict.fromkeys(v))
    if c["form"] == "cat":
        # at least one text that is not empty
        cats = [x for x in cats if x] or ["a"]
        vv = [cats[k % len(cats)] for k in c["code"]]
        return rt.Categorical(np.array(vv if c["u"] else [x.encode() for x in vv], dtype=dt)), vv
    cats = [x for x in cats if x] or ["a"]
    arr = np.array(cats if c["u"] else [x.encode() for x in cats], dtype=dt)
    if c["form"] == "catf":
        code = [k % (len(cats) + 1) for k in c["code"]]
        return rt.Categorical(rt.FastArray(np.array(code, dtype=np.int8)), arr), [None if k == 0 else cats[k - 1] for k in code]
    code = [k % len(cats) for k in c["code"]]
    return rt.Categorical(rt.FastArray(np.array(code, dtype=np.int8)), arr, base_index=0), [cats[k] for k in code]


def texts(r):
    if isinstance(r, rt.Categorical):
        return [None if x == FILT else x for x in canon(r)]
    return [x.decode() if isinstance(x, bytes) else x for x in np.asarray(r).tolist()]


def same(r, f, T, c, what):
    """r == f(text) per element"""
    n = len(T)
    require(len(r) == n, what + ": length", got=len(r), want=n, case=c)
    cat = c["form"] != "arr"
    memo = {}
    W = [None if t is None else memo[t] if t in memo else memo.setdefault(t, f(t)) for t in T]
    if any(isinstance(w, str) for w in W) or isinstance(r, rt.Categorical) or np.asarray(r).dtype.kind in "SU":
        G = texts(r)
        if cat:
            # a filtered element stays filtered; an empty text may be shown as filtered
            G = [g or None for g in G]
            W = [w or None for w in W]
    else:
        require(not isinstance(W[0] if W else 0, bool) or np.asarray(r).dtype == bool, what + ": a yes/no answer is boolean", got=np.asarray(r).dtype, case=c)
        G = np.asarray(r).tolist()
        inv = [False] * n if np.asarray(r).dtype == bool else np.asarray(rt.isnan(r)).tolist()
        G = [None if i else g for g, i in zip(G, inv)]
        if np.asarray(r).dtype == bool:
            W = [bool(w) for w in W]
    if G != W:
        i = next(j for j in range(n) if G[j] != W[j])
        fail(what, element=T[i], got=G[i], want=W[i], index=i, case={**c, "rep": c["rep"]})


def common(c, *l):
    a, T = mk(c)
    before = texts(a) if c["rep"] == 1 else None
    nt(len(set(T)) > 1, "U" if c["u"] else "S", c["form"], "par" if len(T) > 5000 else "", c["la"] if c["form"] == "arr" else "", *l)

    def done():
        if before is not None:
            require(texts(a) == before, "the array changed", case=c)

    return a, T, done


def asc(f):
    return lambda s: "".join(f(x) if x.isascii() else x for x in s)


@facet("C26", st.tuples(s_arr(nonasc=False), st.sampled_from(["upper", "lower", "reverse", "strlen", "upper_inplace", "reverse_inplace"])), quick=900, shards=2, rule="at least two different texts")
def unary(t):
    """upper, lower, reverse, strlen and the in-place forms"""
    c, fn = t
    if fn.endswith("inplace"):
        c = {**c, "form": "arr", "la": "c"}
        a, T, done = common(c, fn)
        f = rt.FAString(a)
        getattr(f, fn)
        same(a, str.upper if fn[0] == "u" else lambda s: s[::-1], T, c, fn)
        return
    a, T, done = common(c, fn)
    r = getattr(a.str, fn)
    same(r, {"upper": str.upper, "lower": str.lower, "reverse": lambda s: s[::-1], "strlen": len}[fn], T, c, fn)
    done()


@st.composite
def s_pat(draw):
    c = draw(s_arr())
    k = draw(st.integers(0, 4))
    t = draw(st.sampled_from(c["v"]))
    i = draw(st.integers(0, 8))
    p = {0: t, 1: t[i % (len(t) + 1):], 2: t[: i % (len(t) + 1)], 3: t[i % (len(t) + 1):][:2], 4: draw(st.text("abA ", max_size=4))}[k]
    return {**c, "p": p, "new": draw(st.text("abX_", max_size=4)), "asb": draw(st.booleans())}


@facet("C26", s_pat(), quick=900, shards=2, rule="at least two different texts")
def search(c):
    """index, contains, startswith, endswith, index_any_of"""
    p = c["p"]
    a, T, done = common(c, "empty" if not p else "long" if len(p) > 3 else "")
    q = p.encode() if c["asb"] and not c["u"] and p else p
    if not p.isascii() and not c["u"]:
        return
    s = a.str
    same(s.index(q), lambda x: x.find(p), T, c, "index")
    same(s.contains(q), lambda x: p in x, T, c, "contains")
    same(s.startswith(q), lambda x: x.startswith(p), T, c, "startswith")
    same(s.endswith(q), lambda x: x.endswith(p), T, c, "endswith")
    same(s.index_any_of(q), lambda x: min([x.find(y) for y in p if y in x], default=-1) if p else 0, T, c, "index_any_of")
    done()


@facet("C26", s_pat(), quick=700, shards=2, rule="at least two different texts and the pattern occurs")
def edit(c):
    """replace, removetrailing, substr_char_stop"""
    p, new = c["p"], c["new"]
    a, T, done = common(c)
    s = a.str
    rc_ = c["new"][:1] or " "
    same(s.removetrailing(ord(rc_)), lambda x: x.rstrip(rc_), T, c, "removetrailing")
    same(s.removetrailing(), lambda x: x.rstrip(" "), T, c, "removetrailing()")
    if p:
        nt(any(t and p in t for t in T) and len(set(T)) > 1, "grow" if len(new) > len(p) else "shrink" if len(new) < len(p) else "same")
        same(s.replace(p, new), lambda x: x.replace(p, new), T, c, "replace")
        if c["form"] != "arr":
            return done()
        same(s.substr_char_stop(p), lambda x: x.split(p)[0], T, c, "substr_char_stop")
        same(s.substr_char_stop(p, inclusive=True), lambda x: x.split(p)[0] + p if p in x else x, T, c, "substr_char_stop(inclusive)")
    done()


@st.composite
def s_sub(draw):
    c = draw(s_arr(forms=("arr", "arr", "arr", "cat", "catf")))
    n = len(c["v"])
    b = st.integers(-8, 16)
    arr = c["form"] == "arr" and draw(st.booleans())
    one = lambda: draw(st.one_of(st.none(), b)) if not (arr and draw(st.booleans())) else draw(st.lists(b, min_size=n, max_size=n))
    return {**c, "i": one(), "j": one(), "how": draw(pick("slice", "call", "stop")), "dt": draw(pick("int64", "int32", "int8"))}


@facet("C26", s_sub(), quick=900, shards=2, rule="at least two different texts")
def substr(c):
    """substr with scalar and per-element bounds, as call and as slice; char"""
    a, T, done = common(c, c["how"], "array" if isinstance(c["i"], list) or isinstance(c["j"], list) else "")
    i, j = c["i"], c["j"]
    n = len(T)
    fa = lambda x: rt.FastArray(np.array(x * c["rep"], dtype=c["dt"])) if isinstance(x, list) else x
    at = lambda x, k: x[k % len(x)] if isinstance(x, list) else x
    s = a.str
    if c["how"] == "slice":
        r = s.substr[fa(i):fa(j)]
    elif c["how"] == "call" and i is not None and j is not None:
        r = s.substr(fa(i), fa(j))
    elif j is not None:
        r = s.substr(fa(j))
        i = None
    else:
        return
    if isinstance(i, list) or isinstance(j, list):
        G = texts(r)
        require(len(G) == n, "substr: length", got=len(G), case=c)
        for k in range(n):
            w = T[k][at(i, k):at(j, k)]
            require(G[k] == w, "substr", element=T[k], i=at(i, k), j=at(j, k), got=G[k], want=w, case=c)
    else:
        same(r, lambda x: x[i:j], T, c, "substr")
    # single characters
    p = c["i"] if c["i"] is not None else 0
    w = max(1, max(map(len, c["v"])) + c["pad"])
    if c["form"] == "arr":
        P = [at(p, k) for k in range(n)]
        ok = all(-len(t) <= q < w for t, q in zip(T, P))
        try:
            r = s.char(fa(p))
        except ValueError:
            require(not ok, "char refused a position inside every text", case=c)
        else:
            require(ok, "char accepted a position outside the texts", got=texts(r), case=c)
            G = texts(r)
            for k in range(n):
                e = T[k][P[k]:][:1] if P[k] >= 0 else T[k][P[k]]
                require(G[k] == e, "char", element=T[k], position=P[k], got=G[k], want=e, case=c)
    done()


RX = ["a", "b+", "(a)(b)?", "(?P<x>a+)(?P<y>.)", "^a", "a$", "[AB]", "(.)(.)", "a|b", "x*", "(a|b)", "(?P<w>[a-z]+)", ".*", " ", "(a*)(b*)", "z(.*)"]


@st.composite
def s_rx(draw):
    c = draw(s_arr(nonasc=False))
    return {**c, "rep": 1 if c["rep"] == 1 else 30, "rx": draw(st.sampled_from(RX)), "new": draw(st.sampled_from(["", "Q", "long", "<>"])), "au": draw(st.sampled_from([None, True, False])), "fill": draw(pick("", "", "NA")), "pos": draw(st.booleans()), "exp": draw(st.sampled_from([None, None, True, False]))}


@facet("C26", s_rx(), quick=900, shards=2, rule="at least two different texts and the expression matches one")
def regex(c):
    """regex_match, regex_replace, extract"""
    a, T, done = common(c)
    rx, new = c["rx"], c["new"]
    cre = re.compile(rx)
    nt(len(set(T)) > 1 and any(t is not None and cre.search(t) for t in T))
    s = a.str
    kw = {} if c["au"] is None or c["form"] != "arr" else {"apply_unique": c["au"]}
    same(s.regex_match(rx, **kw), lambda x: bool(cre.search(x)), T, c, "regex_match")
    same(s.regex_replace(rx, new, **kw), lambda x: cre.sub(new, x), T, c, "regex_replace")
    kw["fillna"] = c["fill"]
    exp = c["exp"]
    if exp is False and cre.groups > 1:
        try:
            s.extract(rx, expand=False, **kw)
        except ValueError:
            return
        fail("extract of several groups into one array", case=c)
    if exp is not None:
        kw["expand"] = exp
    r = s.extract(rx, **kw)

    def g(k):
        def f(x):
            m = cre.search(x)
            if m is None:
                return c["fill"]
            y = m.group(k)
            return c["fill"] if y is None else y
        return f

    wantds = exp if exp is not None else cre.groups > 1 or bool(cre.groupindex)
    require(isinstance(r, rt.Dataset) == wantds, "extract: array or table", got=type(r), case=c)
    if wantds:
        inv = {v: k for k, v in cre.groupindex.items()}
        names = [inv.get(k, f"group_{k - 1}") for k in range(1, max(1, cre.groups) + 1)]
        require(list(r.keys()) == names, "extract: names", got=list(r.keys()), want=names, case=c)
        for k, nm in enumerate(names):
            same(r[nm], g(k + 1 if cre.groups else 0), T, c, "extract " + nm)
    else:
        same(r, g(1 if cre.groups else 0), T, c, "extract")
    done()
