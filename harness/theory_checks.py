"""C01 and C02: aggregation over final states."""
from common import SEED, TIER, pmap
import theory_driver

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxCh = {n}
 Walk = {walk}
 Depth = {depth}
 Focus = {focus}
INVARIANTS BfSum BfRange ClosedIsSilent MeanBetween
"""
OPS = {"C01": {"rates", "bfs"}, "C02": {"spectra", "funcs", "total", "lines"}}


def run(check):
    keep = OPS[check.prop]
    focus = "{" + ", ".join(f'"{o}"' for o in sorted(keep)) + "}"
    behs = []
    for n in ((0, 1, 2) if TIER == "quick" else (0, 1, 2, 3)):
        r = check.explore("TheoryGen", GEN.format(n=n, walk="FALSE", depth=1, focus=focus), timeout=800, heap="6g")
        behs += [b for b in r.lines("T") if b[-1]["op"] in keep]
    walks = 250 if TIER == "quick" else 3000
    r = check.explore("TheoryGen", GEN.format(n=3, walk="TRUE", depth=20, focus=focus),
                      args=["-simulate", f"num={walks}", "-depth", 24, "-seed", SEED], timeout=800)
    behs += r.lines("B")
    check.validate("TheoryTrace", pmap(theory_driver.perform, behs))
