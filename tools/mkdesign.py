"""development helper: DESIGN.md = tools/design_head.md + per-property notes + generated facet tables, findings and planted-bug results"""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from pbt import core
props = [json.loads(l) for l in open(V / "properties.jsonl")]
for p in props:
    importlib.import_module("pbt.props." + p["id"].lower())
notes = {}
cur = None
for l in open(V / "tools/design_notes.md"):
    if l.startswith("@"):
        cur = l[1:].strip(); notes[cur] = ""
    elif cur:
        notes[cur] += l
o = [open(V / "tools/design_head.md").read().rstrip(), "\n\n## Properties: how each is decided\n",
     "For every property the cost of the quick tier is 10-60 s on 8 cores; the thorough tier runs 20 times the cases with the same oracles (bounded by VERIF_BUDGET_S, 90 min).",
     "The table under a property lists its facets: number of cases in the quick tier, what is checked, and the rule by which a case counts as non-trivial.\n"]
for p in props:
    o.append(f"### {p['id']} {p['title']}\n")
    o.append(p["statement"] + "\n")
    o.append(notes.get(p["id"], "").strip() + "\n")
    o.append("| facet | quick cases | what is checked | non-trivial when |\n|---|---|---|---|")
    for (pr, nm), f in core.FACETS.items():
        if pr == p["id"]:
            doc = " ".join((f.check.__doc__ or "").split()) or "see the module's first line"
            o.append(f"| {nm} | {f.quick} | {doc} | {f.rule} |".replace("\n", " "))
    o.append("")
k = json.load(open(V / "known_findings.json"))
o.append("## Genuine defects\n\nRecorded, not repaired (reported as KNOWN-FINDING; mostly inside the compiled riptide_cpp kernels, which are not part of this repository):\n")
for f in k["findings"]:
    o.append(f"- {f['property']}/{f['facet']}: {f['what']} (case `{f['case'][:160]}`)")
o.append(f"\nRepaired by `fix:` commits in /repo ({len(k['fixed'])}):\n")
o += [f"- {x}" for x in k["fixed"]]
o.append(notes.get("ALARMS", ""))
o.append("## Planted bugs and what catches them\n")
res = json.load(open(V / "tools/seed_results.json")) if (V / "tools/seed_results.json").exists() else {}
o.append("| bug | property | needs | what it breaks | caught by (quick) |\n|---|---|---|---|---|")
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    o.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(d.name, '')} |")
o.append("\n" + notes.get("END", ""))
(V / "DESIGN.md").write_text("\n".join(o).rstrip() + "\n")
