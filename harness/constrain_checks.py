"""C16: the constrainers of hazma.limits."""
import numpy as np

from agents_checks import laws, walks
from cmb_checks import ENV
from common import attempt, fval, num, pmap, vec
from theory_driver import make_model, snapshot


def constrainer(c):
    import hazma.limits as lim
    if c["name"] == "cmb":
        return lim.CMBLimit(x_kd=fval(c["xkd"]), p_ann=fval(c["pann"]))
    cls = {"comptel": lim.ComptelLimit, "egret": lim.EgretLimit, "fermi": lim.FermiLimit, "integral": lim.IntegralLimit}[c["name"]]
    return cls(fval(c["sigma"]), c["method"])


def direct(c, models):
    if c["name"] == "cmb":
        return ["0"] * len(models)
    import hazma.gamma_ray_parameters as grp
    return vec([m.binned_limit(getattr(grp, c["name"] + "_diffuse"), fval(c["sigma"]), c["method"]) for m in models])


class Relic:
    log = None

    def __init__(self, st):
        self.mx, self.p, self.q, self.g = fval(st["mx"]), fval(st["p"]), int(st["q"]), fval(st["g"])

    def __setattr__(self, k, v):
        if k == "g" and Relic.log is not None:
            Relic.log.append((self, v))
        object.__setattr__(self, k, v)

    def thermal_cross_section(self, x):
        return 1e-9 * self.g * x**(-self.p)

    def annihilation_cross_sections(self, ecm):
        s = 1e-9 * self.g * (ecm / self.mx)**self.q
        return {"a": s / 3, "b": 2 * s / 3, "total": s}


def relic(o):
    from hazma.limits import RelicDensityLimit
    from hazma.relic_density import relic_density
    out = {"r": [], "d": []}
    lim = RelicDensityLimit("g", fval(o["lo"]), fval(o["hi"]), fval(o["vx"]), o["log"] == "1", o["method"])
    models = [Relic(m) for m in o["models"]]
    Relic.log = []
    try:
        res = lim.constrain(models)
        log, Relic.log = Relic.log, None
        for i, m in enumerate(o["models"]):
            last = [v for s, v in log if (s.mx, s.p, s.q) == (models[i].mx, models[i].p, models[i].q)]
            d = {"g": num(last[-1]) if last else "nan"}
            for k, g in (("omega", last[-1] if last else 1.0), ("lo", fval(o["lo"])), ("hi", fval(o["hi"]))):
                t = Relic(m)
                t.g = g
                d[k] = num(relic_density(t, semi_analytic=True))
            out["d"].append(d)
            out["r"].append(num(res[i]))
    finally:
        Relic.log = None
    return out, all(m.g == 3.0 for m in models)


def perform(behaviour):
    from hazma.limits._abstract import CompositeConstrainer

    class Composite(CompositeConstrainer):
        description = "all"
    out, models, comps, cs = [], [], [], []
    for o in behaviour:
        e = dict(o)
        same = None

        def act():
            nonlocal same, models
            if o["op"] == "new":
                models = [make_model(s) for s in o["models"]]
            elif o["op"] == "set":
                models[o["i"] - 1].a[0] = fval(o["x"])
            elif o["op"] == "composite":
                cs.append(list(o["with"]))
                comps.append(Composite() if o["default"] == "1" else Composite([constrainer(c) for c in o["with"]]))
            elif o["op"] == "add":
                cs[o["i"] - 1].append(o["c"])
                comps[o["i"] - 1].add_constrainer(constrainer(o["c"]))
            elif o["op"] == "reset":
                cs[o["i"] - 1] = []
                comps[o["i"] - 1].reset_constrainers()
            elif o["op"] == "relic":
                r, same = relic(o)
                return r
            else:
                before = [snapshot(m) for m in models]
                if o["op"] == "single":
                    arg = {"list": list, "tuple": tuple, "array": lambda ms: np.array(ms, dtype=object)}[o["form"]](models)
                    r = vec(constrainer(o["c"]).constrain(arg))
                    e["direct"] = direct(o["c"], models)
                else:
                    r = {k: vec(v) for k, v in comps[o["i"] - 1]._constrain(models).items()}
                    e["direct"] = {c["name"]: direct(c, models) for c in cs[o["i"] - 1]}
                    e["len"] = len(comps[o["i"] - 1])
                same = before == [snapshot(m) for m in models]
                return r
            return "done"
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" else {"error": r}
        if same is not None:
            e["same"] = num(same)
        out.append(e)
    return out


def run(check):
    laws(check, "ConstrainGen", "Answered Looser\nPROPERTY Separate", env=ENV)
    check.validate("ConstrainTrace", pmap(perform, walks(check, "ConstrainGen", 60, 14, env=ENV)), env=ENV, timeout=850)
