"""Writes task tables to scratch and asks the next-task resolver (a copy placed in the scratch
checkout, because the resolver finds the project next to itself)."""
import contextlib
import hashlib
import importlib.util
import io
import json
import pathlib
import shutil
import sys
import tempfile

from common import REPO, SCRATCH, attempt, rng

STATUS = {"open": ["Not started", "In Progress", "**In Progress** (2026)", "not started", "Incomplete", "", "Pending (Complete soon)"],
          "blocked": ["Blocked", "**Blocked** (on ADR-2)", "blocked; see note"],
          "terminal": ["Complete", "Complete (PR #12)", "**Complete**", "~~Dropped~~", "Superseded", "skipped; n/a", "`complete`"]}


class Project:
    def __init__(self, st, r):
        self.r, self.st = r, json.loads(json.dumps(st))
        self.root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        (self.root / "scripts/agents").mkdir(parents=True)
        script = self.root / "scripts/agents/resolve_task.py"
        shutil.copy(REPO / "scripts/agents/resolve_task.py", script)
        spec = importlib.util.spec_from_file_location("resolve_task_under_test", script)
        self.mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.mod)
        self.dir = self.root / "projects" / "demo"
        self.slugs = {}
        if self.st["missing"]:
            return
        (self.dir / "task-notes").mkdir(parents=True)
        if self.st["phased"] or r.random() < 0.5:
            (self.dir / "phases").mkdir()
            (self.dir / "phases" / "_template.md").write_text("---\nstatus: Not started\n---\n")
        self.all()

    def all(self):
        if self.st["phased"]:
            for p in self.st["phases"]:
                (self.dir / "phases" / f"phase-{p['num']}-work.md").write_text(
                    f"---\nphase: {p['num']}\nstatus: {self.r.choice(['Complete', 'complete']) if p['complete'] else self.r.choice(['In Progress', 'Not started'])}\n---\n\nstatus: Complete\n")
                if p["has"]:
                    d = self.dir / "task-notes" / f"phase-{p['num']}"
                    d.mkdir(exist_ok=True)
                    (d / "README.md").write_text(self.table(p["rows"], p["num"]))
        else:
            (self.dir / "task-notes" / "README.md").write_text(self.table(self.st["rows"], ""))

    def table(self, rows, num):
        r = self.r
        rows = list(rows)
        r.shuffle(rows)
        ident = r.choice(["#", "ID"])
        cols = r.choice([[ident, "Task", "Deps", "Status", "Task note"], [ident, "Task", "Status", "Note"], ["Status", ident, "Task", "Task note"]])
        text = "# Notes\n\n| # | Status |\n|--|--|\n| 1 | Complete |\n\n" + r.choice(["## Tasks", "### Tasks"]) + "\n\nThe live table.\n\n"
        lines = ["| " + " | ".join(cols) + " |", "|" + "|".join(r.choice(["---", ":--:", "----"]) for _ in cols) + "|"]
        for row in rows:
            i = row["id"]
            note = r.choice([f"task-{i}-do-it.md", f"`task-{i}-do-it.md`", "", "(folded into 1)"])
            self.slugs[num, i] = f"task-{i}-do-it" if "do-it" in note else "task-{}-title-of-{}".format(i, i.replace(".", "-"))
            cell = {"#": r.choice([i, f"**{i}**"]), "ID": r.choice([i, f"**{i}**"]), "Task": r.choice([f"Title of {i}", f"`Title of {i}`", f"~~Title of {i}~~"]),
                    "Deps": r.choice(["—", "1, 2a"]), "Status": r.choice(STATUS[row["status"]]), "Task note": note, "Note": note}
            lines.append(r.choice(["| {} |", "|{}|"]).format(" | ".join(cell[c] for c in cols)))
        return text + "\n".join(lines) + "\n\n" + r.choice(["", "## Later\n\n| # | Task | Status |\n|--|--|--|\n| 0 | Decoy | Not started |\n"])

    def digest(self):
        h = hashlib.sha256()
        for p in sorted((self.root / "projects").rglob("*")) if (self.root / "projects").exists() else []:
            h.update(str(p).encode() + (p.read_bytes() if p.is_file() else b""))
        return h.hexdigest()

    def ask(self, task):
        argv = ["resolve_task.py", "--project", "demo"]
        if task:
            argv += ["--task", self.r.choice([task, task.upper(), "Task " + task, f"**{task}**"])]
        out, err, old = io.StringIO(), io.StringIO(), sys.argv
        sys.argv = argv
        code = 0
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                self.mod.main()
        except SystemExit as e:
            code = e.code
        finally:
            sys.argv = old
        o = json.loads(out.getvalue())
        return code, {"status": o["status"], "task": o["task_id"] or "", "phase": o["phase"] or "",
                      "title": o["task_title"] or "", "slug": o["task_slug"] or ""}


def perform(args):
    k, behaviour = args
    r, out, proj = rng(f"tasks{k}"), [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            if proj:
                shutil.rmtree(proj.root)
            proj = Project(o["st"], r)
        elif o["op"] == "row":
            rows = proj.st["phases"][o["k"] - 1]["rows"] if o["k"] else proj.st["rows"]
            rows[o["i"] - 1]["status"] = o["x"]
            proj.all()
        elif o["op"] == "phase":
            proj.st["phases"][o["k"] - 1]["complete"] = o["x"]
            proj.all()
        else:
            before = proj.digest()
            e["out"], got = attempt(lambda: proj.ask(o["task"]))
            e["code"], e["res"] = got if e["out"] == "ok" else (9, {"error": got})
            e["kept"] = before == proj.digest()
            e["slug"] = proj.slugs.get((e["res"].get("phase"), e["res"].get("task")), "")
        out.append(e)
    shutil.rmtree(proj.root)
    return out
