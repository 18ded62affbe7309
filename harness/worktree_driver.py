"""Scratch remotes and clones in which the task-worktree script is run.

Every git call of the script works inside the scratch clone; the script itself is a copy there."""
import json
import os
import pathlib
import shutil
import subprocess
import tempfile

from cite_driver import ENV, git
from common import REPO, SCRATCH, attempt, rng


class Clone:
    def __init__(self, main, r):
        self.r = r
        self.top = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH)).resolve()
        self.remote, self.root = self.top / "remote.git", self.top / "clone"
        self.shas = {}
        seed = self.top / "seed"
        git(self.top, "init", "-q", "-b", main, str(seed))
        (seed / "sub").mkdir()
        (seed / "sub" / "f").write_text("1\n")
        git(seed, "add", "-A")
        git(seed, "commit", "-q", "-m", "1")
        git(self.top, "clone", "-q", "--bare", str(seed), str(self.remote))
        self.seed = seed
        git(seed, "remote", "add", "o", str(self.remote))
        self.shas[git(seed, "rev-parse", "HEAD").strip()] = 1
        self.n = 1
        git(self.top, "clone", "-q", str(self.remote), str(self.root))
        git(self.root, "checkout", "-q", "-b", "work", "--no-track")
        script = self.top / "setup_task_worktree.sh"
        shutil.copy(REPO / "scripts/agents/setup_task_worktree.sh", script)
        self.script = script

    def commit(self, root):
        self.n += 1
        (root / "sub" / "f").write_text(f"{self.n}\n")
        git(root, "commit", "-q", "-am", str(self.n))
        self.shas[git(root, "rev-parse", "HEAD").strip()] = self.n

    def edit(self, o):
        r = self.r
        if o["op"] == "push":
            self.commit(self.seed)
            git(self.seed, "push", "-q", "-f", "o", "HEAD:refs/heads/" + "/".join(o["branch"]))
        elif o["op"] == "branch":
            git(self.root, "branch", "--no-track", "/".join(o["branch"]), "work")
        elif o["op"] == "unbranch":
            git(self.root, "branch", "-q", "-D", "/".join(o["branch"]))
        elif o["op"] == "path":
            p = self.place(o["path"])
            p.parent.mkdir(parents=True, exist_ok=True)
            if r.random() < 0.3:
                p.write_text("in the way\n")
            else:
                p.mkdir(parents=True)
        elif o["op"] == "head":
            if o["to"]:
                git(self.root, "fetch", "-q", "origin") if self.remote.exists() else None
                git(self.root, "symbolic-ref", "refs/remotes/origin/HEAD", "refs/remotes/origin/" + o["to"])
            else:
                git(self.root, "symbolic-ref", "-d", "refs/remotes/origin/HEAD") if (self.root / ".git/refs/remotes/origin/HEAD").exists() else None
        elif o["op"] == "reach":
            a, b = self.remote, self.top / "hidden.git"
            if o["to"] and b.exists():
                b.rename(a)
            elif not o["to"] and a.exists():
                a.rename(b)
        elif o["op"] == "commit":
            self.commit(self.root)

    def place(self, path):
        root = self.root if path[0] == "" else self.root_of(path[0])
        return root / f".{path[1]}" / "worktrees" / path[2] / path[3]

    def root_of(self, branch):
        cur = None
        for ln in git(self.root, "worktree", "list", "--porcelain").splitlines():
            if ln.startswith("worktree "):
                cur = ln[9:]
            if ln == "branch refs/heads/" + branch:
                return pathlib.Path(cur)
        raise RuntimeError("no worktree on " + branch)

    def heads(self):
        return dict(ln.split() for ln in git(self.root, "for-each-ref", "--format=%(refname:lstrip=2) %(objectname)", "refs/heads").splitlines())

    def quiet_state(self, before):
        bare = self.remote if self.remote.exists() else self.top / "hidden.git"
        now = self.heads()
        return ({b: now.get(b) for b in before}, git(self.root, "rev-parse", "--abbrev-ref", "HEAD"),
                git(self.root, "status", "--porcelain", "--untracked-files=no"), git(bare, "for-each-ref"))

    def setup(self, o):
        r = self.r
        opts = [["--project", o["project"]], ["--task-slug", o["slug"]]]
        if o["agent"] != "claude" or r.random() < 0.5:
            opts.append(["--agent", o["agent"]])
        if o["trunk"]:
            opts.append(["--trunk", o["trunk"]])
        bad = o["bad"]
        if bad == "unknown":
            opts.append([r.choice(["--branch", "-p", "extra"])])
        if bad == "agent":
            opts = [x for x in opts if x[0] != "--agent"] + [["--agent", r.choice(["Claude", "other", ""])]]
        if bad in ("noproject", "noslug"):
            opts = [x for x in opts if x[0] != {"noproject": "--project", "noslug": "--task-slug"}[bad]]
        r.shuffle(opts)
        argv = [x for v in opts for x in v]
        if bad == "novalue":
            argv.append(r.choice(["--trunk", "--project"]))
        base = self.root_of(o["from"]) if o["from"] else self.root
        cwd = base / "sub" if r.random() < 0.4 else base
        p = subprocess.run(["bash", str(self.script), *argv], cwd=cwd, env=ENV, capture_output=True, text=True, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, base

    def trees(self):
        return git(self.root, "worktree", "list", "--porcelain").count("worktree ")


def perform(args):
    k, behaviour = args
    r, out, cl = rng(f"worktree{k}"), [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            cl = Clone(o["main"], r)
        elif o["op"] != "setup":
            if attempt(lambda: cl.edit(o))[0] != "ok":
                break        # the clone is no longer what the specification says: an earlier set-up was wrong
        else:
            if o["from"] and attempt(lambda: cl.root_of(o["from"]))[0] != "ok":
                break
            heads, trees = cl.heads(), cl.trees()
            before = cl.quiet_state(heads)
            e["out"], got = attempt(lambda: cl.setup(o))
            e.update(code=9, json=False, quiet=False, branch=[], path=[], isthere=False, head=0, reported=0, on=[])
            if e["out"] == "ok":
                e["code"], text, base = got
                e["quiet"] = text == ""
                try:
                    j = json.loads(text)
                    e["json"] = text.count("\n") == 1 and sorted(j) == ["branch", "head_sha", "wt_path"]
                except ValueError:
                    j = None
                if j:
                    p = pathlib.Path(j["wt_path"])
                    e["branch"], e["reported"], e["isthere"] = j["branch"].split("/"), cl.shas.get(j["head_sha"], 0), p.is_dir() and p.is_absolute()
                    rel = os.path.relpath(p, base).split("/")
                    e["path"] = [o["from"], rel[0].lstrip("."), *rel[2:]] if rel[1:2] == ["worktrees"] else rel
                    if e["isthere"]:
                        e["head"] = cl.shas.get(git(p, "rev-parse", "HEAD").strip(), 0)
                        e["on"] = git(p, "rev-parse", "--abbrev-ref", "HEAD").strip().split("/")
            e["newheads"] = [b.split("/") for b in cl.heads() if b not in heads]
            e["newtrees"] = cl.trees() - trees
            e["kept"] = before == cl.quiet_state(heads)
        out.append(e)
    shutil.rmtree(cl.top)
    return out
