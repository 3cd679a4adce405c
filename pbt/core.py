"""Facet registry and the execution of one facet under Hypothesis.

A *facet* is one executable sub-check of a property: a Hypothesis strategy that
generates a *case* (plain Python data only: dict/list/tuple/int/float/str/bytes/
bool/None) and a function ``check(case)`` that drives the real riptable code with
it and compares the outcome with an explicit oracle.  Because a case is plain
data, a shrunk failing case is written out literally and replayed without
Hypothesis.
"""
from __future__ import annotations

import ast
import hashlib
import json
import math
import os
import sys
import time
import traceback

FACETS: dict = {}


class Facet:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, shards):
        self.prop, self.name = prop, name
        self.strategy, self.check = strategy, check
        self.quick, self.thorough = quick, thorough
        self.rule = rule
        self.shards = shards


def facet(prop, strategy, quick=300, thorough=None, rule="", shards=1):
    """Register ``check(case)``; `quick`/`thorough` are numbers of cases."""

    def deco(fn):
        key = (prop, fn.__name__)
        if key in FACETS:
            raise RuntimeError(f"facet {key} registered twice")
        FACETS[key] = Facet(
            prop, fn.__name__, strategy, fn, quick, thorough or quick * 20, rule or (fn.__doc__ or "").strip(), shards
        )
        return fn

    return deco


class Mismatch(AssertionError):
    """The real code disagreed with the oracle."""


class _State:
    def __init__(self):
        self.reset()

    def reset(self):
        self.labels = {}
        self.nontrivial = False
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.fail = None
        self.cur_labels = set()


STATE = _State()


def nt(*labels):
    """Mark the current case as non-trivial (if a leading condition holds) and classify it."""
    if labels and isinstance(labels[0], (bool, int)):
        STATE.nontrivial |= bool(labels[0])
        labels = labels[1:]
    else:
        STATE.nontrivial = True
    STATE.cur_labels.update(str(x) for x in labels)


def tag(*labels):
    STATE.cur_labels.update(labels)


def _fmt(x, n=1500):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = f"<unreprable {type(x)}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def fail(msg, **kw):
    raise Mismatch(msg + "".join(f"\n   {k} = {_fmt(v)}" for k, v in kw.items()))


def require(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


# ---- literal (de)serialisation of cases -----------------------------------------

def dumps_case(case) -> str:
    return repr(case)


class _NanFix(ast.NodeTransformer):
    def visit_Name(self, node):
        if node.id in ("nan", "inf"):
            return ast.copy_location(ast.Constant(float(node.id)), node)
        return node


def loads_case(text: str):
    tree = _NanFix().visit(ast.parse(text, mode="eval"))
    return _lit(tree.body)


def _lit(n):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -_lit(n.operand)
    if isinstance(n, ast.List):
        return [_lit(x) for x in n.elts]
    if isinstance(n, ast.Tuple):
        return tuple(_lit(x) for x in n.elts)
    if isinstance(n, ast.Set):
        return {_lit(x) for x in n.elts}
    if isinstance(n, ast.Dict):
        return {_lit(k): _lit(v) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "set" and not n.args:
        return set()
    raise ValueError(f"not a literal: {ast.dump(n)}")


# ---- running one facet ------------------------------------------------------------

def run_facet(f: Facet, seed: int, max_examples: int, cur_path=None, fail_path=None, deadline=None):
    """Run `max_examples` generated cases; returns a JSON-able summary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    STATE.reset()
    t0 = time.time()
    cur_fd = os.open(cur_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC) if cur_path else None
    best = {"len": None}
    timed_out = {"v": False}

    def body(case):
        if deadline is not None and time.time() > deadline and STATE.fail is None:
            timed_out["v"] = True
            return
        STATE.nontrivial = False
        STATE.cur_labels = set()
        text = dumps_case(case)
        if cur_fd is not None:
            data = text.encode("utf-8", "surrogatepass")
            os.pwrite(cur_fd, b"%020d\n" % len(data) + data, 0)
        try:
            f.check(case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            rec = {
                "property": f.prop,
                "facet": f.name,
                "seed": seed,
                "case": text,
                "error": f"{type(e).__name__}: {e}"[:6000],
                "traceback": traceback.format_exc()[-6000:],
            }
            STATE.fail = rec
            if fail_path and (best["len"] is None or len(text) <= best["len"]):
                best["len"] = len(text)
                with open(fail_path + ".tmp", "w") as fh:
                    json.dump(rec, fh)
                os.replace(fail_path + ".tmp", fail_path)
            raise
        if STATE.fail is None:  # do not count shrinking
            STATE.evaluations += 1
            for lab in STATE.cur_labels:
                STATE.labels[lab] = STATE.labels.get(lab, 0) + 1
            if STATE.nontrivial:
                h = hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8).digest()
                if h not in STATE.distinct:
                    STATE.distinct.add(h)
                    k = len(STATE.distinct)
                    if (k in (1, 7, 40)) and len(STATE.samples) < 3:
                        STATE.samples.append(text[:700])

    test = given(f.strategy)(body)
    test = settings(
        max_examples=max_examples,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    error = None
    failed = None
    try:
        test()
    except hypothesis.errors.Flaky as e:
        # The same case once failed and once passed: keep the failing record.
        failed = STATE.fail
        if failed is None:
            error = f"{type(e).__name__}: {e}"
        else:
            failed["flaky"] = str(e)[:500]
    except hypothesis.errors.HypothesisException as e:
        error = f"{type(e).__name__}: {e}"
    except Exception as e:
        failed = STATE.fail
        if failed is None:
            error = "harness: " + traceback.format_exc()[-3000:]
    finally:
        if cur_fd is not None:
            os.close(cur_fd)
    return {
        "facet": f.name,
        "rule": f.rule,
        "seed": seed,
        "evaluations": STATE.evaluations,
        "distinct_nontrivial": len(STATE.distinct),
        "labels": dict(sorted(STATE.labels.items())),
        "samples": list(STATE.samples),
        "wall_s": round(time.time() - t0, 2),
        "timed_out": timed_out["v"],
        "failed": failed,
        "error": error,
    }


def replay_case(prop, name, case):
    f = FACETS[(prop, name)]
    STATE.reset()
    f.check(case)
