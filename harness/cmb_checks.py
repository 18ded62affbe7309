"""C06: CMB limits."""
from common import SEED, SPEC, TIER, attempt, fval, num, pmap
from theory_driver import make_model, snapshot

GEN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Walk = {walk}
 Depth = {depth}
{inv}
"""
ENV = {"FEFF": SPEC / "data" / "feff.json"}


def query(m, o):
    x = float(o["xkd"])
    if o["op"] == "limit":
        return num(m.cmb_limit(x_kd=x, p_ann=float(o["pann"])))
    return num({"g": m.f_eff_g, "p": m.f_eff_ep, "both": m.f_eff}[o["particle"]](x))


def perform(behaviour):
    out, m = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            m = make_model(o["st"])
        elif o["op"] == "set":
            getattr(m, o["f"])[o["i"] - 1] = fval(o["x"])
        elif o["op"] == "setmx":
            m.mx = fval(o["x"])
        else:
            snap = snapshot(m)
            e["out"], r = attempt(lambda: query(m, o))
            e["res"] = r if e["out"] == "ok" else {"error": r}
            e["same"] = num(snap == snapshot(m))
        out.append(e)
    return out


def run(check):
    check.explore("CmbGen", GEN.format(walk="FALSE", depth=1, inv="INVARIANTS NonNegative LinesAtMostAll ScalesWithPann"), env=ENV)
    walks = 80 if TIER == "quick" else 1200
    r = check.explore("CmbGen", GEN.format(walk="TRUE", depth=12, inv=""), env=ENV,
                      args=["-simulate", f"num={walks}", "-depth", 16, "-seed", SEED], timeout=800)
    check.validate("CmbTrace", pmap(perform, r.lines("B")), env=ENV, timeout=850)
