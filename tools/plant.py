"""development helper: confirm and store planted bugs.

python tools/plant.py SPECFILE [ids...]   SPECFILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
Confirms in a scratch copy: applies, demo passes on /repo, fails on the copy, stable tests pass, and says whether the quick check catches it.
"""
import json, os, pathlib, re, runpy, shutil, subprocess, sys, tempfile

V = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("BASE_REPO", "/repo")
spec = runpy.run_path(sys.argv[1])["BUGS"]
ids = set(sys.argv[2:])
notest = os.environ.get("NOTEST")
TEST = open("/opt/vp/test.sh").read()
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


for b in spec:
    if ids and b["id"] not in ids:
        continue
    d = V / "seeded" / b["id"]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="plant_"))
    try:
        repo = scratch / "repo"
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", REPO, str(repo)], check=True)
        if pathlib.Path(REPO + "/riptable/_version.py").exists():
            shutil.copy(REPO + "/riptable/_version.py", repo / "riptable/_version.py")
        ok = True
        for f, old, new in b["edits"]:
            p = repo / f
            s = p.read_text()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), "times:", old[:60]); ok = False; break
            p.write_text(s.replace(old, new))
        if not ok:
            continue
        d.mkdir(parents=True, exist_ok=True)
        diff = run(["git", "diff"], repo).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(b["demo"])
        (d / "demo.sh").write_text('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore -B "$here/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        a = run(["bash", str(d / "demo.sh")], REPO)
        c = run(["bash", str(d / "demo.sh")], str(repo))
        msg = []
        if a.returncode != 0:
            msg.append("DEMO FAILS ON CLEAN: " + a.stderr[-300:])
        if c.returncode == 0:
            msg.append("DEMO PASSES WITH BUG")
        tests = "tests skipped"
        if not notest:
            t = scratch / "test.sh"
            t.write_text(TEST.replace("/repo", str(repo)))
            run(["bash", str(t), str(scratch / "out.json")], str(repo), {"PYTHONPATH": str(repo)})
            o = json.load(open(scratch / "out.json"))
            bad = sorted(base - set(o["passed"]))
            tests = f"tests: {len(bad)} broken {bad[:2]}"
        r = run(["/opt/venv/bin/python", "-B", "-m", "pbt.run", b["prop"], "--no-evidence"], str(V), {"VERIF_REPO": str(repo), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        v = re.findall(r"VIOLATION property=\S+ replay=\S+?([^/\s]+)\.json", r.stdout)
        print(b["id"], "|", "CAUGHT " + ",".join(v) if r.returncode == 1 and v else f"MISSED rc={r.returncode} " + r.stdout[-200:], "|", tests, "|", "; ".join(msg) or "demo ok", flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
