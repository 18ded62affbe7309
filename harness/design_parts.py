"""Fills in the generated parts of DESIGN.md from the registry, the findings file and the planted bugs."""
import json
import re
from common import VERIF


def fill(props, area_of):
    md = (VERIF / "DESIGN.template.md").read_text()
    rows = [json.loads(x) for x in (VERIF / "known_findings.jsonl").read_text().splitlines() if x.strip()]
    areas, na = [], []
    for p in sorted(props, key=lambda p: p["id"]):
        if p["id"] in area_of:
            areas.append(f"### {p['id']} {p['title']}\n\n- checked by `harness/{area_of[p['id']]}.py`, {p['_design']}\n- {p['_note'].strip()}")
        else:
            na.append(f"- {p['id']}: {p['_note']}")
    seeds = []
    for d in sorted((VERIF / "seeded").glob("*")):
        m = json.loads((d / "meta.json").read_text())
        caught = m.get("caught", f"caught by {m['property']}")
        seeds.append(f"- `{d.name}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. {caught}.")
    md = md.replace("@AREAS@", "\n\n".join(areas))
    md = md.replace("@FIXES@", "\n".join(f"- {r['property']} `{r['commit']}`: {re.sub('^fixed: property=[^ ]+ [^ ]+ ', '', r['what'])}" for r in rows if r["status"] == "fixed") or "None.")
    md = md.replace("@KNOWN@", "\n".join(f"- {r['property']}: {r['what']}" for r in rows if r["status"] == "known") or "None.")
    md = md.replace("@SEEDS@", "\n".join(seeds)).replace("@NA@", "\n".join(na))
    (VERIF / "DESIGN.md").write_text(md)
