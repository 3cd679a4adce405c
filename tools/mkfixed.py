"""Regenerate the "fixed" list of known_findings.json from the fix: commits of /repo (first argument pairs: subject-fragment -> property in FIXPROP)."""
import json, pathlib, subprocess
H = pathlib.Path(__file__).resolve().parent.parent
MAP = json.loads((H / "tools" / "fixprops.json").read_text())
k = json.loads((H / "known_findings.json").read_text())
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = next((v for f, v in MAP.items() if f in s), None)
    if p is None:
        print("NO PROPERTY FOR", l); continue
    out.append(f"fixed: property={p} {h} {s[5:]}")
k["fixed"] = out
(H / "known_findings.json").write_text(json.dumps(k, indent=1, ensure_ascii=False) + "\n")
print(len(out), "fixed,", len(k["findings"]), "known")
