"""Writes a phased project to scratch, edits it as the behaviour says, and asks the resolver."""
import contextlib
import hashlib
import importlib.util
import io
import json
import pathlib
import re
import shutil
import sys
import tempfile

from common import REPO, SCRATCH, attempt, rng

_module = None


def module():
    global _module
    if _module is None:
        spec = importlib.util.spec_from_file_location("resolve_phase_under_test", REPO / "scripts/agents/resolve_phase.py")
        _module = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = _module
        spec.loader.exec_module(_module)
    return _module


def prefix_of(pid, r):
    if pid[-1].isalpha():
        return r.choice([pid[:-1].zfill(2), pid[:-1]]) + r.choice([pid[-1].lower(), pid[-1].upper()])
    if "." in pid:
        a, b = pid.split(".")
        return f"{a.zfill(2)}_{b}"
    return r.choice([pid.zfill(2), pid.zfill(2), pid])


def spelled(pid, r):
    """A way to write a phase id on the command line."""
    if not pid:
        return None
    if pid[-1].isalpha():
        return r.choice([pid, pid.lower(), "phase-" + pid.zfill(3), "Phase " + pid])
    if "." in pid:
        a, b = pid.split(".")
        return r.choice([pid, f"{a}_{b}", f"phase-{a.zfill(2)}.{b}", f"phase {a}.0{b}" if len(b) == 1 else pid])
    return r.choice([pid, pid.zfill(2), "phase-" + pid.zfill(2), "PHASE_" + pid, f" {pid} "])


STATUS = {"not started": ["Not started", "not started", "Not started (waiting)", '"Not started"', "NOT STARTED"],
          "in progress": ["In Progress", "in progress", "Blocked", "Incomplete", "started"],
          "complete": ["Complete", "complete", "Complete (2026-01-02; PR #5)", "'Complete'", "COMPLETE"],
          "unknown": [None, None]}


def mention(pid, r):
    p = r.choice([pid, pid.zfill(2) if pid.isdigit() else pid])
    return r.choice(["Phase {} complete", "phase {} is complete", "Phase  {} Complete (all tasks)", "PHASE {} is\n  complete"]).format(p)


def prose(rec, r):
    ids = list(rec["prereqs"])
    r.shuffle(ids)
    if rec["clear"]:
        if not ids:
            return r.choice(["", "## Prerequisites\n\n", "## Prerequisites\n\n- None.\n\n", "## Prerequisites\n\n- ADR-0002 accepted; rules 6-8.\n\n"])
        body = r.choice(["- {}\n", "* {}.\n", "{}; "])
        return "## Prerequisites\n\n" + "".join(body.format(mention(i, r)) for i in ids) + "\n\n"
    vague = r.choice(["- Phase 3 mostly done\n", "- See the notes of Phase 1.\n", "- phase 2A has landed\n"])
    return "## Prerequisites\n\n" + "".join(f"- {mention(i, r)}\n" for i in ids) + vague + "\n"


class Project:
    def __init__(self, st, r):
        self.r = r
        self.root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        self.slug = r.choice(["demo", "a-b"])
        self.dir = self.root / "projects" / self.slug
        for d in ("phases", "task-notes"):
            (self.dir / d).mkdir(parents=True)
        (self.dir / "PLAN.md").write_text("---\nstatus: In Progress\nphased: " + r.choice(["true", "True", '"true"']) + "\n---\n\n# Project\n")
        (self.dir / "phases" / "_template.md").write_text("---\nphase: XX\nstatus: Not started\n---\n")
        self.recs = {}
        self.prefix = {p["id"]: prefix_of(p["id"], r) for p in st}
        for p in st:
            self.recs[p["id"]] = dict(p)
            self.write(p["id"])
            self.learn(p["id"])

    def phase_file(self, pid):
        return self.dir / "phases" / f"phase-{self.prefix[pid]}-work-{pid.replace('.', '-').lower()}.md"

    def learn_file(self, pid):
        return self.dir / "learnings" / f"phase-{self.prefix[pid].lower()}-lessons.md"

    def write(self, pid):
        rec, r = self.recs[pid], self.r
        status = r.choice(STATUS[rec["status"]])
        front = [f"title: Work {pid}"] + ([f"status: {status}"] if status else [])
        if r.random() < 0.5:
            front.append(f"phase: {self.prefix[pid]}")
        r.shuffle(front)
        self.phase_file(pid).write_text(
            "---\n" + "\n".join(front) + f"\n---\n\n# Phase {pid}: Work {pid}\n\n## Goal\n\nFollows Phase 77.\n\n" + prose(rec, r)
            + "## Tasks\n\nAfter Phase 99 is over, status: Complete\n")

    def learn(self, pid):
        f = self.learn_file(pid)
        if self.recs[pid]["learn"]:
            f.parent.mkdir(exist_ok=True)
            if not f.exists():
                f.write_text("lessons\n")
                (f.parent / "_template.md").write_text("template\n")
        elif f.exists():
            f.unlink()

    def digest(self):
        h = hashlib.sha256()
        for p in sorted(self.dir.rglob("*")):
            h.update(str(p).encode() + (p.read_bytes() if p.is_file() else b""))
        return h.hexdigest()

    def ask(self, target, completed):
        r = self.r
        argv = ["--repo-root", str(self.root)]
        argv += ["--project", self.slug] if r.random() < 0.5 else ["--project-dir", str(self.dir)]
        for flag, pid in (("--target-phase", target), ("--completed-phase", completed)):
            if pid:
                argv += [flag, spelled(pid, r)]
        if r.random() < 0.3:
            argv += ["--agent", "codex"]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            code = module().main(argv)
        out = json.loads(buf.getvalue())
        res = {"status": out["status"]}
        if out["status"] != "error":
            prompt = out.get("prompt")
            ph = out.get("phase") or {}
            res.update(frontier=[p["phase_id"] for p in out["eligible_frontier"]], phase=ph.get("phase_id", ""),
                       choices=[p["phase_id"] for p in out.get("choices", [])],
                       blockers=[b["phase_id"] for b in out.get("blockers", [])],
                       issues=[len(b["issues"]) for b in out.get("blockers", [])],
                       prompt=prompt is not None,
                       noted=[m[1] for n in out["notes"] if (m := re.match(r"Phase (\S+) prerequisites are not machine", n))])
            if prompt:
                pid = ph.get("phase_id", "")
                want = [str(self.phase_file(pid).relative_to(self.root)),
                        f"task-notes/phase-{self.prefix[pid].lower()}/README.md", f"Phase {pid}", f"--target-phase {pid}"] \
                    if pid in self.prefix else ["\0"]
                res["points"] = all(w in prompt for w in want)
                res["learnings"] = [p for p in self.prefix if str(self.learn_file(p).relative_to(self.root)) in prompt]
        return code, res


def perform(args):
    k, behaviour = args
    r, out, proj = rng(f"phases{k}"), [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            if proj:
                shutil.rmtree(proj.root)
            proj = Project(o["st"], r)
        elif o["op"] == "status":
            proj.recs[o["id"]]["status"] = o["x"]
            proj.write(o["id"])
        elif o["op"] == "learn":
            proj.recs[o["id"]]["learn"] = o["x"]
            proj.learn(o["id"])
        elif o["op"] == "prereqs":
            proj.recs[o["id"]].update(prereqs=o["x"], clear=o["clear"])
            proj.write(o["id"])
        else:
            before = proj.digest()
            e["out"], got = attempt(lambda: proj.ask(o["target"], o["completed"]))
            e["code"], e["res"] = got if e["out"] == "ok" else (9, {"error": got})
            e["kept"] = before == proj.digest()
        out.append(e)
    shutil.rmtree(proj.root)
    return out
