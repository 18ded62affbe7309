"""Performs Relic behaviours on hazma.relic_density."""
import numpy as np

from common import attempt, fval, num


class Tcs:
    def __init__(self, st):
        self.mx, self.a, self.p = fval(st["mx"]), fval(st["a"]), int(st["p"])

    def thermal_cross_section(self, x):
        return self.a * x**(-self.p)


class Xs:
    def __init__(self, st):
        self.mx, self.a, self.p = fval(st["mx"]), fval(st["a"]), int(st["p"])

    def annihilation_cross_sections(self, ecm):
        s = self.a * (ecm / self.mx)**self.p if ecm > 2 * self.mx else 0.0
        return {"one": s / 4, "other": 3 * s / 4, "total": s}


def cell(model, x, yeq=True):
    from hazma.relic_density import _thermal_functions as t
    T = model.mx / x
    c = {"x": num(x), "g": num(t.sm_sqrt_gstar(T)), "sv": num(t.thermal_cross_section(x, model))}
    if yeq:
        c["yeq"] = num(t.yeq(T, model.mx))
    return c


def query(m, o):
    from hazma.relic_density import _thermal_functions as t, relic_density
    if o["op"] in ("dof", "node"):
        T = fval(o["T"]) if o["op"] == "dof" else fval(o["t"])
        d = T * 1e-4
        return {"g": num(t.sm_sqrt_gstar(T)), "h": num(t.sm_dof_entropy(T)), "s": num(t.sm_entropy_density(T)),
                "ds": num(t.sm_entropy_density_deriv(T)), "hu": num(t.sm_dof_entropy(T + d)), "hd": num(t.sm_dof_entropy(T - d)),
                "dT": num(2 * d)}
    if o["op"] == "neq":
        T, mass, kw = fval(o["T"]), fval(o["m"]), dict(g=fval(o["g"]), is_fermion=o["fermion"])
        fns = {"neq": t.neq, "dneq": t.neq_deriv, "yeq": t.yeq, "dyeq": t.yeq_deriv}
        r = {k: f(T, mass, **kw) for k, f in fns.items()}
        arrays = all(np.allclose(f(np.array([T, 2 * T, 3 * T]), mass, **kw), [f(T, mass, **kw), f(2 * T, mass, **kw), f(3 * T, mass, **kw)],
                                 rtol=1e-12) for f in fns.values())
        r = {k: num(v) for k, v in r.items()}
        return dict(r, s=num(t.sm_entropy_density(T)), ds=num(t.sm_entropy_density_deriv(T)), weq=num(t.weq(T, mass, **kw)),
                    dyeqx=num(t.yeq_derivx(mass / T, mass, **kw)) if mass else "0", arrays=bool(arrays))
    if o["op"] == "tcs":
        return {"sv": num(t.thermal_cross_section(fval(o["x"]), m))}
    if o["op"] == "boltz":
        from hazma.relic_density._diffeq import boltzmann_eqn, jacobian_boltzmann_eqn
        x, w = fval(o["x"]), np.array([fval(o["w"])])
        rhs, jac = boltzmann_eqn(np.log(x), w, m), jacobian_boltzmann_eqn(np.log(x), w, m)
        return dict(cell(m, x), weq=num(t.weq(m.mx / x, m.mx, g=2.0)), rhs=num(np.ravel(rhs)[0]), jac=num(np.ravel(jac)[0]))
    delta = None if o["delta"] == "none" else fval(o["delta"])
    if o["semi"]:
        from hazma.relic_density._approx import compute_xstar
        omega = relic_density(m, semi_analytic=True, delta=delta)
        xs = compute_xstar(m, delta=delta)
        n = 240 if isinstance(m, Tcs) else 60
        lx = np.linspace(np.log(xs), np.log(100 * xs), n + 1)
        at = [dict(cell(m, x), dy=num(t.yeq_derivx(x, m.mx))) for x in (xs * 0.999, xs * 1.001)]
        return {"omega": num(omega), "at": at, "ystar": num(t.yeq(m.mx / xs, m.mx)), "h": num(lx[1] - lx[0]),
                "grid": [cell(m, x, False) for x in np.exp(lx)]}
    x0 = fval(o["x0"])
    kw = {} if o["xf"] == "none" else {"xf": fval(o["xf"])}
    omega = relic_density(m, semi_analytic=False, x0=x0, **kw)
    lx = np.linspace(np.log(x0), np.log(kw["xf"]) if kw else np.log(x0) + 7.0, 1201)
    return {"omega": num(omega), "h": num(lx[1] - lx[0]), "grid": [cell(m, x) for x in np.exp(lx)]}


def perform(behaviour):
    import json
    import pathlib
    nodes = json.loads((pathlib.Path(__file__).parent.parent / "spec" / "data" / "smdof.json").read_text())["t"]
    out, m = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            m = (Tcs if o["st"]["kind"] == "tcs" else Xs)(o["st"])
        elif o["op"] in ("mx", "a"):
            setattr(m, o["op"], fval(o["x"]))
        else:
            if o["op"] == "node":
                e["t"] = num(float(nodes[o["k"] - 1]) * 1000.0)
            before = dict(vars(m))
            e["out"], r = attempt(lambda: query(m, e))
            e["res"] = r if e["out"] == "ok" else {"error": r}
            e["same"] = vars(m) == before
        out.append(e)
    return out
