"""C03, C04, C05: detector-convolved spectra and indirect-detection limits."""
from common import SEED, TIER, pmap
import limits_driver

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Walk = {walk}
 Depth = {depth}
 Ops = {{{ops}}}
{inv}
"""
LAWS = "INVARIANTS NonNegative MoreBinsNeverWeaken WeakerWithSigma HalvedByTwiceTheHalo BinsAdd LinesCountOnce SharpDetector"
OPS = {"C03": ["conv", "convvar"], "C04": ["binned", "slack"], "C05": ["unbinned", "fisher", "window", "forecast"]}


def run(check):
    ops = ", ".join(f'"{o}"' for o in OPS[check.prop])
    check.explore("LimitsGen", GEN.format(walk="FALSE", depth=1, ops=ops, inv=LAWS), heap="4g", timeout=800, workers=4)
    walks = 60 if TIER == "quick" else 600
    r = check.explore("LimitsGen", GEN.format(walk="TRUE", depth=16, ops=ops, inv=""),
                      args=["-simulate", f"num={walks}", "-depth", 20, "-seed", SEED], timeout=800)
    behs = [b for b in r.lines("B")]
    check.validate("LimitsTrace", pmap(limits_driver.perform, behs), timeout=850)
