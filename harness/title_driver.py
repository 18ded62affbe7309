"""Hands titles to the pull-request title checker, as arguments or on standard input."""
import contextlib
import importlib.util
import io
import sys

from common import REPO, attempt, rng

_mod = None


def module():
    global _mod
    if _mod is None:
        spec = importlib.util.spec_from_file_location("check_pr_title_under_test", REPO / "scripts/agents/check_pr_title.py")
        _mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod)
    return _mod


def call(words, lines, r):
    out, err, old = io.StringIO(), io.StringIO(), sys.stdin
    end = r.choice(["\n", "\r\n"])
    sys.stdin = io.StringIO(end.join(lines) + r.choice(["", end]), newline="")
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = module().main(["check_pr_title.py", *words])
            except SystemExit as e:
                code = e.code
    finally:
        sys.stdin = old
    return code, out.getvalue(), err.getvalue()


def perform(args):
    k, behaviour = args
    r, res = rng(f"title{k}"), []
    for o in behaviour:
        e = dict(o)
        words, lines = ["".join(w) for w in o["words"]], ["".join(x) for x in o["lines"]]
        e["out"], got = attempt(lambda: call(words, lines, r))
        e.update(code=9, echo=[], accepted=False, messages=-1, stdout=0)
        if e["out"] == "ok":
            e["code"], out, err = got
            e["stdout"] = len(out)
            e["accepted"] = out.startswith("OK: ")
            text = out[4:-1] if e["accepted"] else err[9:err.find("\n  - ")] if err.startswith("INVALID: ") else err
            e["echo"] = list(text)
            e["messages"] = ("\n" + err).count("\n  - ")
        res.append(e)
    return res
