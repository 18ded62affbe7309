"""Runs a copy of the preflight gate in a scratch checkout whose tools are stand-ins that record
how they were called and answer as the specification's state says."""
import json
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

from cite_driver import ENV, git
from common import REPO, SCRATCH, attempt, rng

REAL = ["bash", "sh", "git", "sed", "grep", "tail", "head", "wc", "tr", "mktemp", "rm", "dirname", "basename", "cat", "env", "cut", "sort", "awk", "printf", "ls"]
STUB = """#!/bin/bash
printf '%s' '{tool}' >> '{log}'
for a in "$@"; do printf '\\t%s' "$a" >> '{log}'; done
printf '\\n' >> '{log}'
{body}
"""


class Tree:
    def __init__(self, r):
        self.r = r
        self.top = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH)).resolve()
        self.root, self.bin, self.log = self.top / "repo", self.top / "bin", self.top / "calls"
        self.bin.mkdir()
        for t in REAL:
            (self.bin / t).symlink_to(shutil.which(t))
        git(self.top, "init", "-q", "-b", "topic", str(self.root))
        self.s = {"tools": dict.fromkeys(["black", "isort", "ruff", "cargo", "pytest", "markdownlint"], "ok"),
                  "cargo": dict.fromkeys(["fmt", "clippy", "test"], "ok"), "rust": True, "imports": True, "new": "2.1.0", "log": True,
                  "base": {"origin/master": "2.0.0", "master": "2.0.0"}, "head": "master", "hits": 0}
        (self.root / "scripts/agents").mkdir(parents=True)
        shutil.copy(REPO / "scripts/agents/preflight.sh", self.root / "scripts/agents/preflight.sh")
        (self.root / "hazma").mkdir()
        (self.root / "hazma/old.py").write_text("import pdb\nbreakpoint()  # FIXME old\nx = 1\n")
        (self.root / "notes.md").write_text("# N\n")
        self.commits = {}
        for v in ["2.0.0", "2.1.0", ""]:
            self.version(v)
            git(self.root, "add", "-A")
            git(self.root, "commit", "-q", "-m", "v" + v)
            self.commits[v] = git(self.root, "rev-parse", "HEAD").strip()
        self.lay()

    def version(self, v):
        (self.root / "hazma/__init__.py").write_text("from typing import Final\n\n" + (f'VERSION: Final[str] = "{v}"\n' if v else "VERSION = None\n"))

    def lay(self):
        s, r = self.s, self.r
        for t, how in s["tools"].items():
            p = self.bin / t
            if how == "absent":
                p.unlink(missing_ok=True)
                continue
            code = {"ok": 0, "bad": r.choice([1, 1, 2, 3, 101]), "none": 5}[how]
            body = f"exit {code}"
            if t == "cargo":
                body = "case \"$1\" in\n" + "".join(f"{c}) exit {0 if x == 'ok' else r.choice([1, 101])};;\n" for c, x in s["cargo"].items()) + "esac\nexit 77"
            if t == "pytest":
                body = {"ok": "echo '..'; echo '12 passed in 0.1s'", "bad": "echo '1 failed, 3 passed in 2s'", "none": "echo 'no tests ran in 0.01s'"}[how] + "\n" + body
            p.write_text(STUB.format(tool=t, log=self.log, body=body))
            p.chmod(0o755)
        py = self.bin / "python"
        py.write_text(f"""#!/bin/bash
if [[ "$2" == "import hazma"* ]]; then {"echo 9.9.9; exit 0" if s["imports"] else "echo ImportError; exit 1"}; fi
exec {sys.executable} "$@"
""")
        py.chmod(0o755)
        shutil.copy(py, self.bin / "python3")
        rust = self.root / "rust"
        if s["rust"]:
            rust.mkdir(exist_ok=True)
        elif rust.exists():
            shutil.rmtree(rust)
        self.version(s["new"])
        sect = lambda v: f"## [{v}] - 2026-01-01\n\n- Something.\n\n"
        (self.root / "CHANGELOG.md").write_text("# Changelog\n\n## [Unreleased]\n\n" + (sect(s["new"]) if s["log"] and s["new"] else sect("7.7.7")) + sect("1.0.0"))
        (self.root / "hazma/old.py").write_text("x = 1\n" + "".join(r.choice(["breakpoint()\n", "    import pdb; pdb.set_trace()\n", "y = 2  # FIXME\n", "# XXX: z\n"]) for _ in range(s["hits"])))
        (self.root / "notes.md").write_text("# N\n\nbreakpoint() and FIXME in prose.\n")
        for ref in git(self.root, "for-each-ref", "--format=%(refname)", "refs/remotes", "refs/heads/master").split():
            if not ref.endswith("origin/HEAD"):
                git(self.root, "update-ref", "--no-deref", "-d", ref)
        (self.root / ".git/refs/remotes/origin/HEAD").unlink(missing_ok=True)
        for ref, v in s["base"].items():
            git(self.root, "update-ref", ("refs/remotes/" if "/" in ref else "refs/heads/") + ref, self.commits[v])
        if s["head"]:
            git(self.root, "symbolic-ref", "refs/remotes/origin/HEAD", "refs/remotes/origin/" + s["head"])

    def edit(self, o):
        s, op = self.s, o["op"]
        if op in ("tool", "cargo"):
            s["tools" if op == "tool" else "cargo"][o["name"]] = o["to"]
        elif op == "new":
            s["new"], s["log"] = o["to"], o["log"]
        elif op == "refs":
            s["base"], s["head"] = o["base"], o["head"]
        else:
            s[op] = o["to"]
        self.lay()

    def state(self):
        return git(self.root, "status", "--porcelain", "-uall"), git(self.root, "for-each-ref"), git(self.root, "diff")

    def run(self, o):
        r = self.r
        opts = []
        if o["paths"]:
            opts.append(["--paths", " ".join(o["paths"])])
        if o["tests"]:
            opts.append(["--tests", " ".join(o["tests"])])
        if o["md"] != "none":
            opts.append(["--md", "notes.md" if o["md"] == "ok" else r.choice(["gone.md", "notes.md gone.md"])])
        if o["closing"]:
            opts.append(["--closing"])
        r.shuffle(opts)
        argv = [x for v in opts for x in v] + {"": [], "unknown": ["--nope"], "novalue": [r.choice(["--md", "--paths", "--tests"])], "help": [r.choice(["-h", "--help"])]}[o["bad"]]
        self.log.write_text("")
        env = dict(ENV, PATH=str(self.bin), TMPDIR=str(self.top))
        p = subprocess.run(["bash", str(self.root / "scripts/agents/preflight.sh"), *argv], cwd=r.choice([self.root, self.top, self.root / "hazma"]),
                           env=env, capture_output=True, text=True, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, [ln.split("\t") for ln in self.log.read_text().splitlines()], argv


def perform(args):
    k, behaviour = args
    r, out, tree = rng(f"preflight{k}"), [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "start":
            tree = Tree(r)
        elif o["op"] != "run":
            tree.edit(o)
        else:
            before = tree.state()
            e["out"], got = attempt(lambda: tree.run(o))
            e.update(code=9, rows=[], calls=[], base="", result="")
            if e["out"] == "ok":
                e["code"], text, calls, argv = got
                if o["bad"] != "help":
                    e["rows"] = [[m[2].strip(), m[1]] for m in re.finditer(r"^(PASS|FAIL|WARN|SKIP)  (.{22})  ", text, re.M)]
                e["calls"] = [{"tool": c[0], "words": c[1:]} for c in calls]
                if o["md"] == "missing":     # whether the existing file was named too is the driver's choice
                    for c in e["calls"]:
                        if c["tool"] == "markdownlint" and "notes.md" not in " ".join(argv):
                            c["words"].append("notes.md")
                m = re.search(r"\(base (\S+)\)", text)
                e["base"] = m[1] if m else ""
                m = re.search(r"^RESULT: (\w+)", text, re.M)
                e["result"] = m[1] if m else ""
            e["kept"] = before == tree.state()
        out.append(e)
    shutil.rmtree(tree.top)
    return out
