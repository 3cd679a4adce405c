"""C12: groupings against the partition of row numbers by key tuple."""
import numpy as np
from hypothesis import strategies as st

import riptable as rt
from pbt.core import facet, fail, nt, require, tag
from pbt.gb import *


@st.composite
def s_grp(draw):
    n = draw(sizes(1, 24))
    return {"ks": draw(s_keys(n, kinds=PLAINK)), "filt": draw(st.one_of(st.none(), st.none(), vals([True, True, False], n))), "how": draw(pick("hash", "hash", "lex", "cat", "catord", "gb", "gblex")), "rep": draw(pick(1, 1, 1, 1, 1, 60, 700)), "f2": draw(vals([True, True, False], n))}


def ints(a):
    return [int(x) for x in np.asarray(a).tolist()]


def check_grouping(g, rows, filt, c, lex=False, ordered=None):
    """every view of the grouping `g` describes the same partition of `rows`"""
    n = len(rows)
    part = partition(rows, filt)
    ik = ints(g.ikey)
    require(len(ik) == n, "ikey length", got=len(ik), expected=n, case=c)
    nu = g.unique_count
    require(nu == len(part), "unique_count", got=nu, expected=len(part), case=c)
    lab = {}
    for key, rr in part:
        s = {ik[i] for i in rr}
        require(len(s) == 1, f"rows of key {key} are in several groups", got=ik, case=c)
        lab[key] = s.pop()
    require(sorted(lab.values()) == list(range(1, nu + 1)), "groups are not numbered densely from 1", got=sorted(lab.values()), case=c)
    kept = {i for _, rr in part for i in rr}
    for i in range(n):
        if i not in kept:
            require(ik[i] == 0, f"filtered row {i} is in a group", got=ik, case=c)
    by = {b: (key, rr) for (key, rr) in part for b in [lab[key]]}
    # labels
    cols = list(g.uniquedict.values())
    got = lab_rows(cols)
    exp = [by[b][0] for b in range(1, nu + 1)]
    require(got == exp, "group labels", got=got, expected=exp, case=c)
    if ordered is True:
        require([skey(x) for x in exp] == sorted(skey(x) for x in exp), "groups are not in key order", got=exp, case=c)
    elif ordered is False:
        require(exp == [k for k, _ in part], "groups are not in order of first appearance", got=exp, case=c)
    # counts, packed rows
    cnt = ints(g.ncountgroup)
    require(cnt == [n - len(kept)] + [len(by[b][1]) for b in range(1, nu + 1)], "ncountgroup", got=cnt, case=c)
    require(ints(g.ncountkey) == cnt[1:], "ncountkey", case=c)
    ig, fg = ints(g.igroup), ints(g.ifirstgroup)
    # the lexicographical grouping leaves filtered rows out of igroup; the hash grouping keeps them in bin 0
    full = len(ig) == n
    require(full or (lex and set(ig) == kept and len(ig) == len(kept)), "igroup is not a permutation of the rows", got=ig, case=c)
    require(not full or sorted(ig) == list(range(n)), "igroup is not a permutation of the rows", got=ig, case=c)
    for b in range(1, nu + 1):
        rr = ig[fg[b] : fg[b] + cnt[b]]
        require(rr == by[b][1], f"rows of group {b}", got=rr, expected=by[b][1], case=c)
        require(ints(g.as_filter(b)) == by[b][1], f"as_filter({b})", got=ints(g.as_filter(b)), case=c)
    rr = ig[fg[0] : fg[0] + cnt[0]]
    require(not full or rr == [i for i in range(n) if i not in kept], "rows of the filtered bin", got=rr, case=c)
    rev = ints(g.igroupreverse) if full else []
    require(not full or all(ig[rev[i]] == i for i in range(n)), "igroupreverse does not invert igroup", got=rev, case=c)
    # first / last / next / previous
    require(ints(g.ifirstkey) == [by[b][1][0] for b in range(1, nu + 1)], "ifirstkey", got=ints(g.ifirstkey), case=c)
    require(ints(g.ilastkey) == [by[b][1][-1] for b in range(1, nu + 1)], "ilastkey", got=ints(g.ilastkey), case=c)
    nx, pv = ints(g.inextkey), ints(g.iprevkey)
    for b in range(1, nu + 1):
        rr = by[b][1]
        for j, i in enumerate(rr):
            if j + 1 < len(rr):
                require(nx[i] == rr[j + 1], f"inextkey of row {i}", got=nx, case=c)
            else:
                require(nx[i] < 0, f"inextkey of the last row {i}", got=nx, case=c)
            if j:
                require(pv[i] == rr[j - 1], f"iprevkey of row {i}", got=pv, case=c)
            else:
                require(pv[i] < 0, f"iprevkey of the first row {i}", got=pv, case=c)
    require(bool(g.all_unique) == (nu == n), "all_unique", got=g.all_unique, case=c)
    if nu:
        so = ints(g.isortrows)
        require([skey(exp[i]) for i in so] == sorted(skey(x) for x in exp), "isortrows does not sort the labels", got=so, case=c)
    return by


@facet("C12", s_grp(), quick=2600, shards=4, rule="at least two groups and a group of at least two rows")
def groupings(c):
    """Grouping / GroupBy / Categorical groupings: ikey, labels, counts, packed rows, first/last/next/previous"""
    ks = big(c["ks"], c["rep"])
    rows = key_rows(ks)
    filt = None if c["filt"] is None else list(c["filt"]) * c["rep"]
    f = None if filt is None else rt.FastArray(np.array(filt, dtype=bool))
    arrs = mkkeys(ks)
    how = c["how"]
    part = partition(rows, filt)
    nt(len(part) > 1 and any(len(r) > 1 for _, r in part), how, "filter" if f is not None else "nofilter", f"keys{len(ks)}", "big" if c["rep"] > 1 else "small")
    before = snap(arrs)
    if c["rep"] > 100:
        rows_small = None
    ordered = None
    if how in ("hash", "lex"):
        g = rt.Grouping(arrs if len(arrs) > 1 else arrs[0], filter=f, lex=how == "lex")
        ordered = how == "lex" or False
        if how == "lex" and any(k["k"] in FLOATS for k in ks):
            ordered = None
        obj = None
    elif how in ("cat", "catord"):
        obj = rt.Categorical(arrs if len(arrs) > 1 else arrs[0], filter=f, ordered=how == "catord")
        g = obj.grouping
        ordered = how == "catord"
    else:
        ds = rt.Dataset({f"k{i}": a for i, a in enumerate(arrs)})
        obj = rt.GroupBy(ds, [f"k{i}" for i in range(len(arrs))], filter=f, lex=how == "gblex")
        g = obj.grouping
    by = check_grouping(g, rows, filt, c, lex=how in ('lex', 'gblex'), ordered=ordered)
    nu = len(by)
    n = len(rows)
    if obj is not None and nu:
        ff, lf = ints(obj.first_fancy), ints(obj.last_fancy)
        require(ff == [by[b][1][0] for b in range(1, nu + 1)], "first_fancy", got=ff, case=c)
        require(lf == [by[b][1][-1] for b in range(1, nu + 1)], "last_fancy", got=lf, case=c)
        fs, ls = set(ff), set(lf)
        require(np.asarray(obj.first_bool).tolist() == [i in fs for i in range(n)], "first_bool", case=c)
        require(np.asarray(obj.last_bool).tolist() == [i in ls for i in range(n)], "last_bool", case=c)
        gi = list(obj.iter_groups())
        require(len(gi) == nu, "iter_groups length", case=c)
        for b, (key, rr) in enumerate(gi, 1):
            require(ints(rr) == by[b][1], "iter_groups rows", got=ints(rr), expected=by[b][1], case=c)
            kk = key if isinstance(key, tuple) else (key,)
            if not any(k["k"] in ("date", "dtn") for k in ks):
                kk = tuple(x.decode() if isinstance(x, bytes) else x.item() if isinstance(x, np.generic) else x for x in kk)
                kk = tuple(x.decode() if isinstance(x, bytes) else x for x in kk)
                e = by[b][0]
                require(all(x == y or (x != x and y is None) for x, y in zip(kk, e)), "iter_groups key", got=kk, expected=e, case=c)
        # per-call filter
        f2 = list(c["f2"]) * c["rep"]
        gg = obj.get_groupings(filter=rt.FastArray(np.array(f2, dtype=bool)))
        ig, fg, cg = ints(gg["iGroup"]), ints(gg["iFirstGroup"]), ints(gg["nCountGroup"])
        for b in range(1, nu + 1):
            e = [i for i in by[b][1] if f2[i]]
            require(ig[fg[b] : fg[b] + cg[b]] == e, f"get_groupings(filter) group {b}", got=ig[fg[b] : fg[b] + cg[b]], expected=e, case=c)
        # ... leaves the grouping itself unfiltered for later calls
        if how.startswith("gb"):
            cnt = obj.count()
            got = dict(zip(lab_rows([cnt[k] for k in cnt.label_get_names()]), ints(cnt.Count)))
            require(got == {by[b][0]: len(by[b][1]) for b in by}, "counts after a filtered packing", got=got, case=c)
        # regrouping drops empty groups only
        r = g.regroup(filter=rt.FastArray(np.array(f2, dtype=bool)), ikey=obj._fa if how.startswith("cat") else None)
        both = [x if filt is None or filt[i] else None for i, x in enumerate(rows)]
        if any(f2[i] and both[i] is not None for i in range(n)) and how.startswith("cat"):
            check_grouping(r, both, f2, c)
    require(snap(arrs) == before, "grouping changed its keys", case=c)


@st.composite
def s_two(draw):
    n = draw(sizes(1, 20))
    return {"a": draw(s_keys(n, kinds=["S", "int32", "int8", "U"], nk=1)), "b": draw(s_keys(n, kinds=["S", "int32", "float64"], nk=draw(pick(1, 1, 2)))), "fa": draw(st.one_of(st.none(), vals([True, True, False], n))), "filt": draw(st.one_of(st.none(), vals([True, True, False], n))), "inv": draw(st.booleans()), "per": draw(st.integers(0, 10**6))}


@facet("C12", s_two(), quick=1500, shards=2, rule="both keys have at least two values")
def combined(c):
    """combining two groupings groups by both keys; grouping keys from lower-level index helpers agree with the partition"""
    ra, rb = key_rows(c["a"]), key_rows(c["b"])
    n = len(ra)
    fa = None if c["fa"] is None else rt.FastArray(np.array(c["fa"], dtype=bool))
    ca = rt.Categorical(mkkeys(c["a"])[0], filter=fa)
    kb = mkkeys(c["b"])
    cb = rt.Categorical(kb if len(kb) > 1 else kb[0])
    nt(len(set(ra)) > 1 and len(set(rb)) > 1)
    f = None if c["filt"] is None else rt.FastArray(np.array(c["filt"], dtype=bool))
    from riptable.rt_grouping import combine2groups

    g = combine2groups(ca.grouping, cb.grouping, filter=f)
    ik = ints(g.ikey)
    seen = {}
    for i in range(n):
        a_ok = c["fa"] is None or c["fa"][i]
        if f is not None and not c["filt"][i]:
            require(ik[i] == 0, "a filtered row has a cell", got=ik, case=c)
            continue
        key = (ra[i] if a_ok else None, rb[i])
        if key in seen:
            require(seen[key] == ik[i], "rows of one key pair in different cells", got=ik, case=c)
        else:
            require(ik[i] not in seen.values(), "different key pairs share a cell", got=ik, case=c)
            seen[key] = ik[i]
    # combine_filter
    k1 = ca.grouping.ikey
    if f is not None:
        e = [x if y else 0 for x, y in zip(ints(k1), c["filt"])]
        require(ints(rt.combine_filter(k1, f)) == e, "combine_filter", got=ints(rt.combine_filter(k1, f)), expected=e, case=c)
    # accumulated filter: renumbering by first appearance among kept rows
    d = rt.combine_accum1_filter(k1, ca.grouping.unique_count, filter=f)
    keep = [x if (f is None or c["filt"][i]) else 0 for i, x in enumerate(ints(k1))]
    first = {}
    for i, x in enumerate(keep):
        if x and x not in first:
            first[x] = i
    nk = ints(d["iKey"])
    order = list(first)
    require(nk == [order.index(x) + 1 if x else 0 for x in keep], "combine_accum1_filter iKey", got=nk, case=c)
    require(ints(d["iFirstKey"])[: len(order)] == [first[x] for x in order], "combine_accum1_filter iFirstKey", got=ints(d["iFirstKey"]), case=c)
    require(d["unique_count"] == len(order), "combine_accum1_filter unique_count", case=c)
    # two-dimensional bins
    ik2, cnt = rt.combine_accum2_filter(k1, cb.grouping.ikey, ca.grouping.unique_count, cb.grouping.unique_count, f)
    ik2 = ints(ik2)
    seen = {}
    for i in range(n):
        if f is not None and not c["filt"][i]:
            require(ik2[i] == 0, "combine_accum2_filter keeps a filtered row", got=ik2, case=c)
            continue
        pair = (ints(k1)[i], ints(cb.grouping.ikey)[i])
        require(seen.setdefault(pair, ik2[i]) == ik2[i], "combine_accum2_filter splits a pair", got=ik2, case=c)
    require(len(set(seen.values())) == len(seen), "combine_accum2_filter merges pairs", got=ik2, case=c)
    # cat2keys: every key pair is a category, each row has its own pair
    if not any(k["k"] in FLOATS for k in c["b"]) and len(kb) == 1 and (c["fa"] is None or all(c["fa"])):
        m = rt.cat2keys(mkkeys(c["a"])[0], kb[0])
        require(canon(m) == [ra[i] + rb[i] for i in range(n)], "cat2keys rows", got=canon(m), expected=[ra[i] + rb[i] for i in range(n)], case=c)
        require(m.unique_count == len(set(ra)) * len(set(rb)), "cat2keys has every pair", got=m.unique_count, case=c)
        cat_sane(m, "cat2keys", case=c)
    # low level makers on shuffled keys
    uc = ca.grouping.unique_count
    fst, lst = ints(rt.makeifirst(k1, uc + 1)), ints(rt.makeilast(k1, uc + 1))
    kk = ints(k1)
    for b in range(1, uc + 1):
        if b in kk:
            require(fst[b] == kk.index(b), "makeifirst", got=fst, case=c)
            require(lst[b] == n - 1 - kk[::-1].index(b), "makeilast", got=lst, case=c)
    p = rt.groupbypack(k1, rt.FastArray(np.array([ints(k1).count(b) for b in range(uc + 1)], dtype="int32")))
    ig, fg, cg = ints(p["iGroup"]), ints(p["iFirstGroup"]), ints(p["nCountGroup"])
    for b in range(uc + 1):
        e = [i for i in range(n) if kk[i] == b]
        require(ig[fg[b] : fg[b] + cg[b]] == e, "groupbypack", got=ig, expected=e, case=c)


@st.composite
def s_codes(draw):
    n = draw(sizes(1, 20))
    m = draw(st.integers(1, 5))
    base = draw(pick(0, 1, 1))
    return {"m": m, "base": base, "codes": draw(vals(list(range(m if base == 0 else m + 1)), n)), "dt": draw(pick("int8", "int16", "int32", "int64")), "map": draw(pick(False, False, True)), "filt": draw(st.one_of(st.none(), vals([True, True, False], n)))}


@facet("C12", s_codes(), quick=1500, shards=2, rule="at least two groups and a group of at least two rows")
def category_codes(c):
    """groupings of category arrays built from codes: categories without rows are empty groups, code 0 of base-1 arrays is no group, a mapping has a group per code in use"""
    m, base, codes = c["m"], c["base"], list(c["codes"])
    n = len(codes)
    arr = rt.FastArray(np.array(codes, dtype=c["dt"]))
    names = [f"c{i}" for i in range(m)]
    if c["map"]:
        cat = rt.Categorical(arr, {i: f"c{i}" for i in range(m + 1)})
        used = list(dict.fromkeys(codes))
    else:
        cat = rt.Categorical(arr, names, base_index=base)
        used = list(range(base, m + base))
    live = [x in used for x in codes]
    f = None
    if c["filt"] and base == 1 and not c["map"]:
        f = rt.FastArray(np.array(c["filt"], dtype=bool))
        cat = rt.Categorical(arr, names, base_index=1, filter=f)
        live = [a and b for a, b in zip(live, c["filt"])]
    g = cat.grouping
    rows = [[i for i in range(n) if live[i] and codes[i] == u] for u in used]
    nt(sum(bool(r) for r in rows) > 1 and any(len(r) > 1 for r in rows), f"base{base}", "map" if c["map"] else "codes")
    require(g.unique_count == len(used), "unique_count", got=g.unique_count, expected=len(used), case=c)
    ik = ints(g.ikey)
    pos = {u: b for b, u in enumerate(used, 1)}
    if c["map"]:
        lab = canon(list(g.uniquedict.values())[0])
        pos = {u: lab.index(f"c{u}") + 1 for u in used}
        rows = [[i for i in range(n) if pos[codes[i]] == b] for b in range(1, len(used) + 1)]
    require(ik == [pos[x] if y else 0 for x, y in zip(codes, live)], "ikey", got=ik, case=c)
    require(ints(g.ncountgroup) == [n - sum(map(len, rows))] + [len(r) for r in rows], "ncountgroup", got=ints(g.ncountgroup), case=c)
    require(ints(g.ncountkey) == [len(r) for r in rows], "ncountkey", got=ints(g.ncountkey), case=c)
    fk, lk = ints(g.ifirstkey), ints(g.ilastkey)
    require(len(fk) == len(lk) == len(used), "first and last rows: one per group", got=(fk, lk), case=c)
    ig, fg, cg = ints(g.igroup), ints(g.ifirstgroup), ints(g.ncountgroup)
    nx, pv = ints(g.inextkey), ints(g.iprevkey)
    for b, rr in enumerate(rows):
        if rr:
            require(fk[b] == rr[0] and lk[b] == rr[-1], f"first and last row of group {b}", got=(fk, lk), expected=rr, case=c)
        else:
            require(fk[b] < 0 and lk[b] < 0, f"first and last row of the empty group {b}", got=(fk, lk), case=c)
        require(ig[fg[b + 1] : fg[b + 1] + cg[b + 1]] == rr, f"rows of group {b}", got=ig, expected=rr, case=c)
        for j, i in enumerate(rr):
            require(nx[i] == rr[j + 1] if j + 1 < len(rr) else nx[i] < 0, "next row", row=i, got=nx, case=c)
            require(pv[i] == rr[j - 1] if j else pv[i] < 0, "previous row", row=i, got=pv, case=c)
