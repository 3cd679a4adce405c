"""python -m pbt.run <PROP> [--replay FILE] [--only FACET,...] [--scale X]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check.
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pathlib
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def env_for(work):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{REPO}:{HERE}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        HYPOTHESIS_STORAGE_DIRECTORY=str(work / "hyp"),
        NUMBA_CACHE_DIR=str(work / "numba"),
        NUMBA_NUM_THREADS="2",
        TZ="UTC",
        LANG="C.UTF-8",
        TMPDIR=str(work / "tmp"),
        VERIF_REPO=REPO,
    )
    (work / "tmp").mkdir(exist_ok=True)
    return env


class Worker:
    def __init__(self, idx, prop, work, env):
        self.idx = idx
        self.err = open(work / f"w{idx}.err", "ab")
        self.p = subprocess.Popen(
            [PY, "-X", "faulthandler", "-m", "pbt.worker", prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            cwd=str(work / "tmp"),
            env=env,
            start_new_session=True,
        )
        self.task = None
        self.buf = b""
        self.ready = False

    def send(self, task):
        self.task = task
        self.started = time.time()
        self.p.stdin.write((json.dumps(task) + "\n").encode())
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def ensure_version_file():
    v = pathlib.Path(REPO) / "riptable" / "_version.py"
    if not v.exists():
        v.write_text("__version__ = '1.19.0'\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    budget = 620 if tier == "quick" else int(os.environ.get("VERIF_BUDGET_S", "5400"))
    ensure_version_file()
    t0 = time.time()
    work = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    rc = 2
    try:
        rc = run(a, prop, seed, tier, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, prop, seed, tier, budget, work, t0):
    env = env_for(work)
    # list facets without importing riptable in this process: ask a tiny helper
    q = subprocess.run(
        [PY, "-m", "pbt.listfacets", prop], env=env, cwd=str(work / "tmp"), capture_output=True, text=True
    )
    if q.returncode != 0:
        print(q.stdout[-2000:], q.stderr[-4000:])
        print(f"ERROR property={prop}: cannot load the facets")
        return 2
    facets = json.loads(q.stdout.strip().splitlines()[-1])
    if a.only:
        only = set(a.only.split(","))
        facets = [f for f in facets if f["name"] in only]
    known = [k for k in json.loads((HERE / "known_findings.json").read_text())["findings"] if k["property"] == prop]
    tasks = []
    if a.replay:
        rec = json.loads(pathlib.Path(a.replay).read_text())
        tasks.append({"kind": "replay", "facet": rec["facet"], "case": rec["case"], "id": 0, "what": "replay"})
    else:
        i = 0
        for k in known:
            tasks.append({"kind": "replay", "facet": k["facet"], "case": k["case"], "id": i, "what": k["what"]})
            i += 1
        cas = HERE / "corpus" / f"{prop}.jsonl"
        if cas.exists():
            names = {f["name"] for f in facets}
            for line in cas.read_text().splitlines():
                if line.strip():
                    r = json.loads(line)
                    if r["facet"] in names:
                        tasks.append({"kind": "corpus", "facet": r["facet"], "case": r["case"], "id": i})
                        i += 1
        ft = []
        for f in facets:
            n = f["quick"] if tier == "quick" else f["thorough"]
            n = max(1, int(n * a.scale))
            shards = f["shards"] if tier == "quick" else max(f["shards"], 8)
            per = max(1, -(-n // shards))
            for s in range(shards):
                ft.append(
                    {
                        "kind": "facet",
                        "facet": f["name"],
                        "n": per,
                        "seed": (seed * 1000003 + s * 7919 + sum(ord(c) * (j + 1) for j, c in enumerate(f["name"]))) % (2**63),
                        "cost": f["cost"] * per,
                    }
                )
        ft.sort(key=lambda t: -t["cost"])
        for t in ft:
            t.update(
                id=i,
                cur=str(work / f"cur{i}"),
                fail=str(work / f"fail{i}"),
                deadline=t0 + budget,
            )
            i += 1
        tasks += ft
    nfacet = len([t for t in tasks if t["kind"] == "facet"])
    queue = list(tasks)
    nw = min(a.workers, len(queue)) or 1
    sel = selectors.DefaultSelector()
    workers = []
    results = {}
    crashes = []
    fatal = None
    idx = 0
    hard = t0 + budget + 150

    def start():
        nonlocal idx
        w = Worker(idx, prop, work, env)
        idx += 1
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        workers.append(w)

    for _ in range(nw):
        start()
    viol_at = None
    while workers:
        if fatal:
            break
        if time.time() > hard or (viol_at and time.time() > viol_at + 200):
            break
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            chunk = os.read(w.p.stdout.fileno(), 1 << 16)
            if not chunk:
                sel.unregister(w.p.stdout)
                workers.remove(w)
                code = w.p.wait()
                if w.task is not None:
                    crashes.append((w.task, code, open(w.err.name, "rb").read()[-3000:].decode("utf-8", "replace")))
                    if w.task["kind"] != "replay":
                        viol_at = viol_at or time.time()
                    if not w.ready:
                        fatal = f"worker died at start: {code}"
                    w.task = None
                    if not fatal and queue and len(workers) < nw:
                        start()
                elif not w.ready:
                    fatal = fatal or f"worker could not start (exit {code}): " + open(w.err.name, "rb").read()[-2000:].decode("utf-8", "replace")
                continue
            w.buf += chunk
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                r = json.loads(line)
                if "fatal" in r:
                    fatal = r["fatal"]
                    break
                if r.get("ready"):
                    w.ready = True
                else:
                    results[r["id"]] = r
                    if a.v:
                        t = w.task
                        print(f"  [{time.time()-t0:6.1f}s] {t['kind']} {t['facet']} n={r.get('evaluations')} nt={r.get('distinct_nontrivial')} wall={r.get('wall_s')} fail={bool(r.get('failed'))} err={r.get('error')} labels={r.get('labels')}", flush=True)
                    if r.get("failed") or (w.task["kind"] == "corpus" and not r["replay_ok"]):
                        viol_at = viol_at or time.time()
                    w.task = None
                if w.task is None:
                    if queue and not (viol_at and queue[0]["kind"] == "facet" and not a.v):
                        w.send(queue.pop(0))
                    else:
                        sel.unregister(w.p.stdout)
                        workers.remove(w)
                        try:
                            w.p.stdin.write(b'{"quit":1}\n')
                            w.p.stdin.close()
                        except OSError:
                            pass
                        try:
                            w.p.wait(5)
                        except subprocess.TimeoutExpired:
                            pass
                        w.kill()
                        break
    unfinished = []
    for w in workers:
        if w.task is not None:
            unfinished.append(w.task)
        w.kill()
    if fatal:
        print(fatal)
        print(f"ERROR property={prop}: check could not run")
        return 2

    violations = []
    errors = []
    rep_dir = HERE / "replays"
    rep_dir.mkdir(exist_ok=True)

    def record(rec):
        p = rep_dir / f"{prop}-{rec['facet']}.json"
        p.write_text(json.dumps(rec, indent=1))
        violations.append((rec, p))

    fs = {}
    known_lines = []
    for t in tasks:
        r = results.get(t["id"])
        if t["kind"] == "replay":
            if a.replay:
                if r is None or not r["replay_ok"]:
                    print((r or {}).get("traceback", "crashed"))
                    print(f"VIOLATION property={prop} replay={a.replay}")
                    return 1
                print(f"replay of {a.replay}: property holds on this case")
                return 0
            if r is not None and not r["replay_ok"]:
                known_lines.append(f"KNOWN-FINDING: property={prop} {t['what']}")
            continue
        if t["kind"] == "corpus":
            if r is not None and not r["replay_ok"]:
                record({"property": prop, "facet": t["facet"], "case": t["case"], "error": r["error"], "traceback": r["traceback"]})
            continue
        if r is None:
            continue
        d = fs.setdefault(
            t["facet"],
            {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": [], "wall_s": 0.0, "rule": r["rule"], "timed_out": False},
        )
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += r["distinct_nontrivial"]
        d["wall_s"] += r["wall_s"]
        d["timed_out"] |= r["timed_out"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if len(d["samples"]) < 2:
            d["samples"] += r["samples"][: 2 - len(d["samples"])]
        if r["failed"]:
            record(r["failed"])
        if r["error"]:
            errors.append(f"{t['facet']}: {r['error']}")
    for t, code, err in crashes:
        if t["kind"] == "facet":
            if code == -signal.SIGKILL:
                errors.append(f"{t['facet']}: worker was killed (out of memory?)")
                continue
            fp = pathlib.Path(t["fail"])
            cp = pathlib.Path(t["cur"])
            if cp.exists() and cp.stat().st_size > 21:
                raw = cp.read_bytes()
                n = int(raw[:20])
                case = raw[21 : 21 + n].decode("utf-8", "surrogatepass")
                record({"property": prop, "facet": t["facet"], "case": case, "error": f"the process died with status {code} on this case", "traceback": err})
            else:
                errors.append(f"{t['facet']}: worker died with {code}: {err[-800:]}")
        elif t["kind"] == "corpus":
            record({"property": prop, "facet": t["facet"], "case": t["case"], "error": f"process died {code}", "traceback": err})
        elif a.replay:
            print(f"process died with {code}\n{err}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        else:
            known_lines.append(f"KNOWN-FINDING: property={prop} {t['what']}")
    for t in unfinished:
        if t["kind"] == "facet" and os.path.exists(t["fail"]):
            record(json.loads(pathlib.Path(t["fail"]).read_text()))  # not fully shrunk
    seen = set()
    uniq = []
    for rec, p in violations:
        if rec["facet"] not in seen:
            seen.add(rec["facet"])
            uniq.append((rec, p))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in fs.values()),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in fs.values()),
            "rule": "cases are drawn by Hypothesis from each facet's generator; a case counts as non-trivial when the facet's own rule (facets.<name>.rule) holds for it, and distinct by its full text within its shard",
            "samples": [{"facet": n, "case": s} for n, d in fs.items() for s in d["samples"][:1]][:12],
            "facets": fs,
            "corpus_replayed": sum(1 for t in tasks if t["kind"] == "corpus" and t["id"] in results),
            "known_findings_reproduced": len(known_lines),
            "unfinished_facets": sorted({t["facet"] for t in unfinished if t["kind"] == "facet"} | {n for n, d in fs.items() if d["timed_out"]}),
        },
        "assumptions": [
            "generated-input search: absence of violations is not proved",
            "the oracles in /verif/pbt and the installed NumPy/pandas/pyarrow/zoneinfo they use are trusted",
            "riptide_cpp is exercised as installed; it is not part of /repo",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(uniq),
    }
    if not a.no_evidence and not a.only:
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for l in known_lines:
        print(l)
    for e in errors:
        print("ERROR", e[:3000])
    for rec, p in uniq:
        print(f"--- facet {rec['facet']}: {rec['error'][:1500]}\n    case: {rec['case'][:1500]}")
        if a.v:
            print(rec.get("traceback", "")[-2500:])
    for rec, p in uniq:
        print(f"VIOLATION property={prop} replay={p}")
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {len(fs)} facets, {len(uniq)} violations, {ev['wall_s']} s")
    if uniq:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    main()
