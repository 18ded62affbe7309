"""C08, C09, C10: phase-space points, integrals and distributions."""
from common import SEED, TIER, pmap
import space_driver

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
 Ops = {{{ops}}}
{inv}
"""
LAWS = "INVARIANTS MasslessClosedForm Symmetric Relabelled EnergiesAddUp ClosedIsZero"
OPS = {"C08": ["points", "batches"], "C09": ["mc", "volume"], "C10": ["edist", "idist", "dist"]}
WALKS = {"C08": 160, "C09": 160, "C10": 160}


def run(check):
    ops = ", ".join(f'"{o}"' for o in OPS[check.prop])
    check.explore("PhaseSpaceGen", GEN.format(mode="laws", depth=0, ops=ops, inv=LAWS), heap="4g", timeout=800, workers=8)
    n = WALKS[check.prop] * (1 if TIER == "quick" else 12)
    r = check.explore("PhaseSpaceGen", GEN.format(mode="walk", depth=10, ops=ops, inv=""),
                      args=["-simulate", f"num={n}", "-depth", 14, "-seed", SEED], timeout=800)
    check.validate("PhaseSpaceTrace", pmap(space_driver.perform, r.lines("B")), timeout=850)
