"""mkseed.py: make seeded/<id>/ from (id, property, needs, what, [(file, old, new)...], demo) given by a batch file."""
import json, pathlib, subprocess, sys, runpy
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = pathlib.Path("/verif/seeded") / s["id"]; d.mkdir(parents=True, exist_ok=True)
    for f, old, new in s["edits"]:
        p = pathlib.Path("/repo") / f; t = p.read_text()
        assert t.count(old) >= 1, (s["id"], f, "old text absent")
        assert t.count(old) == 1, (s["id"], f, "ambiguous", t.count(old))
        p.write_text(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, indent=1) + "\n")
    lang = s.get("lang", "py")
    if lang == "py":
        (d / "demo.py").write_text(s["demo"].lstrip())
        (d / "demo.sh").write_text('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$d/demo.py"\n')
    else:
        (d / "demo.sh").write_text(s["demo"].lstrip())
