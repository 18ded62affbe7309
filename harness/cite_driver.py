"""Builds scratch git checkouts and runs the documentation citation checker in them."""
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

from common import REPO, SCRATCH, attempt, rng

SCRIPT = REPO / "scripts/agents/check_doc_citations.py"
ENV = {"PATH": os.environ["PATH"], "HOME": str(SCRATCH), "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8",
       "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b",
       "PYTHONDONTWRITEBYTECODE": "1", "GIT_OPTIONAL_LOCKS": "0"}


def git(root, *args):
    r = subprocess.run(["git", "-C", str(root), *args], env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr)
    return r.stdout


def source(n, r):
    body = [r.choice(["x = 1", "", "# é", "a\x0cb", "# see utils.py:999999"]) for _ in range(n)]
    text = "".join(x + "\n" for x in body)
    if n and body[-1] and r.random() < 0.4:
        text = text[:-1]
    return text.encode()


def document(d, r):
    """The text of a document: citation k stands on the line the specification says."""
    lines = {}
    for c in d["cites"]:
        spans = "/".join(str(a) if a == b and r.random() < 0.9 else f"{a}-{b}" for a, b in c["spans"])
        pre, post = r.choice([("", ""), ("`", "`"), ("see `", "`, then"), ("(", ")"), ("| ", " |"), ("- [x](./", ")"), ("**", "**."), ("é ", ","), ("../", "")])
        lines[c["line"]] = pre + "/".join(c["path"]) + ":" + spans + post
    n = max(lines, default=0) + 1
    decoy = ["", "Text about `utils.py` and hazma/utils.py.", "notes.md:12 and setup.cfg:3", "utils.py: 5", "utils.pyi:3, a.rs:9", "10:20:30", "x.py:y"]
    return "".join(lines.get(i, r.choice(decoy)) + "\n" for i in range(1, n + 1))


class Checkout:
    def __init__(self, st, r):
        self.st, self.r = st, r
        self.root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        root = self.root
        git(root, "init", "-q", "-b", "topic")
        base, head, trunk, work, gone = {}, {}, {}, {}, set()
        for d in st["docs"]:
            n, now, old = d["name"], document(d, r), "Old text, utils.py:5000.\n"
            s = d["story"]
            if s in ("same", "trunk-edited"):
                base[n] = now
            if s == "trunk-edited":
                trunk[n] = now + "more on the trunk, utils.py:77777\n"
            if s in ("edited", "both-edited"):
                base[n], head[n] = old, now
            if s == "both-edited":
                trunk[n] = old + "more, utils.py:77777\n"
            if s in ("added", "added-then-lost"):
                head[n] = now
            if s == "added-then-lost":
                work[n] = None
            if s == "deleted":
                base[n], head[n] = old, None
            if s == "untracked":
                work[n] = now
            if s == "dirty":
                base[n], work[n] = old, now
            if s == "reverted":
                base[n] = now
            if s == "renamed":
                other = n[:-3] + "-before" + n[-3:] if n.endswith(".md") else n + ".before"
                base[other], head[other], head[n] = now, None, now
        self.put({"seed.txt": "seed\n", **base})
        for f in st["files"]:
            p = root.joinpath(*f["path"])
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(source(f["lines"], r))
            if f["tracked"]:
                git(root, "add", "--", "/".join(f["path"]))
        git(root, "commit", "-q", "-m", "base")
        git(root, "branch", "trunk")
        twice = {d["name"]: "elsewhere for a while\n" for d in st["docs"] if d["story"] == "reverted"}
        if twice:
            self.put(twice)
            git(root, "commit", "-q", "-m", "away")
            head.update({n: base[n] for n in twice})
        if head:
            self.put(head)
            git(root, "commit", "-q", "--allow-empty", "-m", "branch")
        if trunk:
            git(root, "checkout", "-q", "trunk")
            self.put(trunk)
            git(root, "commit", "-q", "-m", "trunk")
            git(root, "checkout", "-q", "topic")
        self.put(work, add=False)

    def put(self, files, add=True):
        for n, text in files.items():
            p = self.root / n
            if text is None:
                p.unlink()
            else:
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(text)
            if add:
                git(self.root, "add", "-A", "--", n)

    def state(self):
        return git(self.root, "status", "--porcelain", "-uall"), git(self.root, "rev-parse", "HEAD", "trunk")

    def ask(self, o):
        argv = list(o["docs"])
        opts = ([["--changed-vs", "trunk"]] if o["changed"] else []) + [["--map", "/".join(m)] for m in o["maps"]] + ([["--list"]] if o["list"] else [])
        self.r.shuffle(opts)
        argv += [x for v in opts for x in v]
        cwd = self.root if self.r.random() < 0.7 or not (self.root / "hazma").is_dir() else self.root / "hazma"
        p = subprocess.run([sys.executable, "-B", str(SCRIPT), *argv], cwd=cwd, env=ENV, capture_output=True, text=True)
        return p.returncode, p.stdout, p.stderr


def parse(out):
    e = {"scanned": -1, "checked": -1, "skipped": -1, "problems": 0, "by": dict.fromkeys(["exact", "suffix", "context", "map"], 0),
         "external": [], "failures": [], "listed": []}

    def ends(span):
        a = [int(x) for x in span.split("-")]
        return a[0], a[-1]
    for ln in out.splitlines():
        if m := re.fullmatch(r"(.*):(\d+)\t(\S+?):([\d-]+)\t(\w+)\t(\S+)", ln):
            a, b = ends(m[4])
            e["listed"].append({"doc": m[1], "line": int(m[2]), "cite": m[3].split("/"), "from": a, "to": b, "how": m[5], "path": m[6].split("/")})
        elif m := re.fullmatch(r"docs scanned: (\d+)", ln):
            e["scanned"] = int(m[1])
        elif m := re.fullmatch(r"in-repo citations checked: (\d+)", ln):
            e["checked"] = int(m[1])
        elif m := re.fullmatch(r"  resolved by (\w+): (\d+)", ln):
            e["by"][m[1]] = int(m[2])
        elif m := re.fullmatch(r"external citations skipped: (\d+)", ln):
            e["skipped"] = int(m[1])
        elif m := re.fullmatch(r"FAIL: (\d+) problem\(s\)", ln):
            e["problems"] = int(m[1])
        elif m := re.fullmatch(r"  (.*):(\d+): AMBIGUOUS (\S+) .*", ln):
            e["failures"].append({"kind": "ambiguous", "doc": m[1], "line": int(m[2]), "cite": m[3].split("/"), "from": 0, "to": 0})
        elif m := re.fullmatch(r"  (.*):(\d+): OUT OF RANGE (\S+?):([\d-]+) .*", ln):
            a, b = ends(m[4])
            e["failures"].append({"kind": "range", "doc": m[1], "line": int(m[2]), "cite": m[3].split("/"), "from": a, "to": b})
        elif m := re.fullmatch(r"  (.*): no such file", ln):
            e["failures"].append({"kind": "missing", "doc": m[1], "line": 0, "cite": [], "from": 0, "to": 0})
        elif m := re.fullmatch(r"  (\S+) \((\d+)\)", ln):
            e["external"].append({"path": m[1].split("/"), "n": int(m[2])})
    return e


def perform(args):
    k, behaviour = args
    r, out, co = rng(f"cite{k}"), [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            if co:
                shutil.rmtree(co.root)
            co = Checkout(o["st"], r)
        else:
            before = co.state()
            e["out"], got = attempt(lambda: co.ask(o))
            e.update(parse(""))
            e["code"] = 9
            if e["out"] == "ok":
                e["code"], text, err = got
                e.update(parse(text))
                if "Traceback" in err:
                    e["out"] = "raise"
                    e["why"] = err[-400:]
            e["kept"] = before == co.state()
        out.append(e)
    if co:
        shutil.rmtree(co.root)
    return out
