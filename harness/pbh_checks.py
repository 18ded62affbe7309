"""C17: primordial black holes."""
import json

import numpy as np

from agents_checks import laws, walks
from common import SPEC, attempt, fval, num, pmap, vec

FILE = SPEC / "data" / "pbh.json"
ENV = {"PBH": FILE}
COLS = {k: v["cols"] for k, v in json.loads(FILE.read_text()).items()}
ENDS = {k: (1e3 * float.fromhex(v["segs"][0]["lo"]), 1e3 * float.fromhex(v["segs"][-1]["hi"])) for k, v in json.loads(FILE.read_text()).items()}


def mass(kind, c):
    from hazma.parameters import g_to_MeV
    return float.fromhex(COLS[kind][c - 1]["g"]) * g_to_MeV


def state(m):
    return m.mx, m.spectrum_kind, m.bh_secondary, m.f_pbh_dummy, float(m.total_spectrum(3.7)[0])


def perform(behaviour):
    from hazma.pbh import PBH
    out, m, kind = [], None, None
    for o in behaviour:
        e = dict(o)

        def act():
            nonlocal m, kind
            if o["op"] == "new":
                kind = o["kind"]
                m = PBH(mass(kind, o["c"]), fval(o["f"]), "primary" if kind == "primary" else "secondary", kind == "blackhawk")
            elif o["op"] == "mass":
                m.mx = mass(kind, o["c"])
            elif o["op"] == "fraction":
                m.f_pbh_dummy = fval(o["f"])
            elif o["op"] == "badmass":
                m.mx = fval(o["x"])
            elif o["op"] == "assign":
                setattr(m, o["a"], getattr(m, o["a"]))
            elif o["op"] == "badkind":
                PBH(mass(kind, 1), 1, "tertiary")
            elif o["op"] == "widths":
                words = repr(m).split("m=")[1].split(" ")[0]
                return {"w": {k: num(v) for k, v in m.decay_widths().items()}, "fs": list(m.list_decay_final_states()),
                        "b": {k: num(v) for k, v in m.decay_branching_fractions().items()}, "lines": num(len(m.gamma_ray_lines())),
                        "g": num(float(words))}
            else:
                es = [fval(x) for x in o["es"]]
                # the first and last row, which a product may miss by a rounding
                es = [min(max(x, ENDS[kind][0]), ENDS[kind][1]) if ENDS[kind][0] * .99 < x < ENDS[kind][1] * 1.01 else x for x in es]
                e["es"] = vec(es)
                q = np.array(es) if o["form"] == "array" else es[0]
                r = m.total_spectrum(q) if o["total"] == "1" else m.spectra(q)["all"]
                return vec(np.atleast_1d(r))
            return "done"
        before = state(m) if o["op"] in ("badmass", "assign") else None
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" and r is not None else {"error": r}
        if before:
            e["kept"] = num(state(m) == before)
        out.append(e)
        if o["op"] == "new" and e["out"] != "ok":
            break
    return out


def run(check):
    laws(check, "PbhGen", "Rows Between Nothing", env=ENV)
    check.validate("PbhTrace", pmap(perform, walks(check, "PbhGen", 100, 30, env=ENV)), env=ENV, timeout=850)
