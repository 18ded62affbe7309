"""C27-C32: the agents' workflow scripts."""
from common import SEED, TIER, pmap, rng
import cite_driver
import phases_driver
import preflight_driver
import tasks_driver
import title_driver
import worktree_driver


def phases(check):
    gen = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = \"{mode}\"\n Size = {size}\n Depth = {depth}\n"
           "INVARIANTS StartedAfterPrereqs NeverStuck Consistent\n")
    deep = TIER == "thorough"
    check.explore("PhasesGen", gen.format(mode="flow", size=5 if not deep else 8, depth=0), timeout=800, workers=8, heap="8g")
    r = check.explore("PhasesGen", gen.format(mode="edit", size=4, depth=0), timeout=800, heap="6g")
    behs = r.lines("T")
    merged, step = [], 40            # several independent projects per behaviour: fewer, longer traces
    if not deep:
        rng("phases").shuffle(behs)
        behs = behs[:9000]
    for i in range(0, len(behs), step):
        merged.append([o for b in behs[i:i + step] for o in b])
    r = check.explore("PhasesGen", gen.format(mode="walk", size=7, depth=40), timeout=800,
                      args=["-simulate", f"num={2000 if deep else 120}", "-depth", 45, "-seed", SEED])
    merged += r.lines("B")
    check.validate("PhasesTrace", pmap(phases_driver.perform, enumerate(merged)), timeout=850)


def tasks(check):
    gen = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = \"{mode}\"\n Depth = {depth}\n"
           "INVARIANTS NothingSkipped DoneMeansDone ExactIds\n")
    deep = TIER == "thorough"
    check.explore("TasksGen", gen.format(mode="flow", depth=0), timeout=800)
    r = check.explore("TasksGen", gen.format(mode="edit", depth=0), timeout=800, heap="4g")
    behs = r.lines("T")
    if not deep:
        rng("tasks").shuffle(behs)
        behs = behs[:5000]
    merged = [[o for b in behs[i:i + 25] for o in b] for i in range(0, len(behs), 25)]
    r = check.explore("TasksGen", gen.format(mode="walk", depth=30), timeout=800,
                      args=["-simulate", f"num={2000 if deep else 100}", "-depth", 35, "-seed", SEED])
    merged += r.lines("B")
    check.validate("TasksTrace", pmap(tasks_driver.perform, enumerate(merged)), timeout=850)


GEN = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = \"{}\"\n Depth = {}\n{}\n"


def laws(check, module, invariants, cfg="", **kw):
    return check.explore(module, GEN.format("laws", 0, cfg + "\nINVARIANTS " + invariants), workers=8, heap="6g", timeout=800, **kw)


def walks(check, module, num, depth, cfg="", **kw):
    return check.explore(module, GEN.format("walk", depth, cfg), timeout=800, **kw,
                         args=["-simulate", f"num={num * 8 if TIER == 'thorough' else num}", "-depth", depth + 6, "-seed", SEED]).lines("B")


def worktrees(check):
    laws(check, "WorktreeGen", "Fresh Distinct Refusals")
    behs = walks(check, "WorktreeGen", 60, 24)
    check.validate("WorktreeTrace", pmap(worktree_driver.perform, enumerate(behs)), timeout=850)


def titles(check):
    behs = [o for b in laws(check, "TitleGen", "Spelt Teeth Examples").lines("T") for o in b]
    behs = [behs[i:i + 200] for i in range(0, len(behs), 200)] + walks(check, "TitleGen", 150, 40)
    check.validate("TitleTrace", pmap(title_driver.perform, enumerate(behs)), timeout=850)


def citations(check):
    laws(check, "CiteGen", "ResolvesSanely OverridesOnlySettle CleanMeansInside SameScope")
    behs = walks(check, "CiteGen", 250, 8)
    check.validate("CiteTrace", pmap(cite_driver.perform, enumerate(behs)), timeout=850)


def preflight(check):
    laws(check, "PreflightGen", "NoFalseGreen Advisory ClosingOnlyAdds")
    behs = walks(check, "PreflightGen", 48, 30)
    check.validate("PreflightTrace", pmap(preflight_driver.perform, enumerate(behs)), timeout=850)


def run(check):
    {"C27": phases, "C28": tasks, "C29": worktrees, "C30": titles, "C31": citations, "C32": preflight}[check.prop](check)
