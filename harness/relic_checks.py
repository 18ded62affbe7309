"""C14, C15: thermal equilibrium and the relic abundance."""
from common import SEED, SPEC, TIER, pmap
import relic_driver

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
 Ops = {{{ops}}}
{inv}
"""
LAWS = "INVARIANTS DerivIsSlope BosonsOutnumber Relativistic SlowerWhenColder FixedPoint LessWhenStronger"
OPS = {"C14": ["dof", "node", "neq", "tcs", "boltz"], "C15": ["rd"]}
WALKS = {"C14": (120, 14), "C15": (24, 8)}


def run(check):
    env = {"SMDOF": SPEC / "data" / "smdof.json"}
    ops = ", ".join(f'"{o}"' for o in OPS[check.prop])
    check.explore("RelicGen", GEN.format(mode="laws", depth=0, ops=ops, inv=LAWS), timeout=800, workers=8, env=env)
    n, depth = WALKS[check.prop]
    n *= 1 if TIER == "quick" else 15
    r = check.explore("RelicGen", GEN.format(mode="walk", depth=depth, ops=ops, inv=""),
                      args=["-simulate", f"num={n}", "-depth", depth + 4, "-seed", SEED], timeout=800, env=env)
    check.validate("RelicTrace", pmap(relic_driver.perform, r.lines("B")), timeout=850, env=env)
