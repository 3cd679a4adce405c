"""Regenerate MANIFEST.json from properties.jsonl and the property modules present."""
import json, pathlib
H = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (H / "properties.jsonl").read_text().splitlines() if l.strip()]
TECH = {}
checks, na = [], []
for p in props:
    i = p["id"]
    mod = H / "pbt" / "props" / f"{i.lower()}.py"
    if mod.exists():
        doc = mod.read_text().split('"""')[1].strip().splitlines()[0]
        tech = "property-based testing (Hypothesis generators, shrinking): " + (TECH.get(i) or doc.split(":", 1)[-1].strip())
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python -B -m pbt.run {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python -B -m pbt.run {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech[:300],
            "level": "exploration",
            "level_note": "generated-input search against an explicit oracle; thousands of cases per run, failures shrunk to a replay file; not exhaustive",
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m pbt.setup_check", "checks": checks, "not_applicable": na}
(H / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
