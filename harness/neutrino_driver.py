"""Performs the right-handed-neutrino operations of spec/RhNeutrinoGen.tla on hazma.rh_neutrino."""
import warnings

import numpy as np

from common import attempt, fval, num, vec


def factors(m, o):
    """|F|^2 of the pion pair at the specification's nodes, for each named channel that needs it."""
    from hazma.form_factors.vector import VectorFormFactorPiPi
    lo, out = fval(o["lo"]), []
    w = np.arange(o["n"] + 1) / o["n"]
    for hi in map(fval, o["hi"]):
        if hi == 0:
            out.append([])
            continue
        q = lo + (hi - lo) * w**2 * (3 - 2 * w)
        ff = VectorFormFactorPiPi().form_factor(q=np.maximum(q, lo * (1 + 1e-12)), couplings=(2 / 3.0, -1 / 3.0))
        out.append(vec(np.abs(ff) ** 2))
    return out


def rows(r, kind):
    r = np.asarray(r, dtype=float)
    return [vec(x) for x in (r if kind == "neutrino" and r.ndim == 2 else np.atleast_2d(r))]


def component(m, o, es):
    from hazma import spectra
    from hazma.form_factors.vector import VectorFormFactorPiPi
    kw = {}
    if len(o["order"]) == 3:
        c, pions = [fval(x) for x in o["coeffs"]], VectorFormFactorPiPi()
        # only the shape matters; as small as widths are, for the integrators' absolute tolerances
        size = 1e25 * m.mx**4

        def msqrd(s, t):
            p = (c[0] + c[1] * s + c[2] * t + c[3] * s**2 + c[4] * s * t + c[5] * t**2) / size
            return p * np.abs(pions.form_factor(q=np.sqrt(s), couplings=(2 / 3.0, -1 / 3.0))) ** 2 if o["factor"] == "1" else p
        kw = dict(msqrd=msqrd, msqrd_signature="st", nbins=o["bins"] or 30, three_body_integrator=method(o))
    if o["kind"] == "photon":
        kw.update(include_fsr=True, average_fsr=True)
    return getattr(spectra, f"dnde_{o['kind']}")(es, m.mx, tuple(o["order"]), **kw)


def method(o):
    return o["method"] if o["bins"] and o["via"] == "function" and o["kind"] != "positron" else "quad"


def query(o, m):
    if o["op"] == "info":
        return {"mx": num(m.mx), "theta": num(m.theta), "flavor": m.flavor, "states": list(m.list_decay_final_states())}
    if o["op"] == "unknown":
        return repr(m.decay_width([o["name"]]))
    if o["op"] == "some":
        ns = {"str": o["names"][0], "tuple": tuple(o["names"]), "list": list(o["names"])}[o["form"]]
        w = m.decay_width(ns)
        return {"names": list(w), "widths": [num(w[k]) for k in o["names"]], "factors": factors(m, o)}
    if o["op"] == "widths":
        w = m.decay_widths()
        tot = w["total"]
        b = m.decay_branching_fractions()
        return {"names": list(w), "widths": [num(w[k]) for k in o["names"]], "total": num(tot), "all": [num(v) for k, v in w.items() if k != "total"],
                "zero": "1" if tot == 0 else "0", "bfs": [num(b[k]) for k in o["names"]], "factors": factors(m, o)}
    if o["op"] == "lines":
        b = m.decay_branching_fractions()
        if o["kind"] == "neutrino":
            fn = getattr(m, "_neutrino_line_energies", None)
            lines = {k: {"energy": e, "bf": b.get(k, 0.0)} for k, e in fn().items()} if fn else {}
        else:
            lines = (m.gamma_ray_lines if o["kind"] == "photon" else m.positron_lines)()
        return {"names": list(lines), "energies": [num(x["energy"]) for x in lines.values()], "bfs": [num(x["bf"]) for x in lines.values()],
                "want": [num(b.get(k, 0.0)) for k in lines]}
    es = np.array([fval(x) for x in o["es"]])
    name, kind = o["name"], o["kind"]
    total, weight = {}, 1.0
    if kind == "neutrino":
        fns = m._neutrino_spectrum_funcs() if hasattr(m, "_neutrino_spectrum_funcs") else {}
        o["via"] = "function"
        if name not in fns or o["open"] == "0":
            return {"rows": [], "component": [], "total": [], "sum": []}
        kw = dict(nbins=o["bins"], three_body_integrator=method(o)) if o["bins"] else {}
        r = fns[name](es, **kw)
    elif o["via"] == "parts":
        o["bins"] = 0
        d = (m.spectra if kind == "photon" else m.positron_spectra)(es)
        r, weight = d[name], m.decay_branching_fractions()[name]
        total = {"total": rows(d["total"], kind), "sum": rows(sum(v for k, v in d.items() if k != "total"), kind)}
    else:
        fns = m.spectrum_funcs() if kind == "photon" else m.positron_spectrum_funcs()
        if kind == "positron":
            o["bins"] = 0
        kw = dict(nbins=o["bins"], three_body_integrator=method(o)) if o["bins"] and o["open"] == "1" else {}
        r = fns[name](es, **kw)
    zero = o["open"] == "0" or o["line"] == "1"
    comp = np.zeros((3, len(es)) if kind == "neutrino" else len(es)) if zero else component(m, o, es)
    return {"rows": rows(r, kind), "component": rows(weight * np.asarray(comp), kind), "total": [], "sum": [], **total}


def perform(behaviour):
    warnings.simplefilter("ignore")
    from hazma.rh_neutrino import RHNeutrino
    out, m = [], None
    for o in behaviour:
        e = dict(o)

        def act():
            nonlocal m
            if o["op"] == "new":
                m = RHNeutrino(fval(o["mx"]), fval(o["theta"]), o["fl"])
            elif o["op"] == "mx":
                m.mx = fval(o["mx"])
            elif o["op"] == "theta":
                m.theta = fval(o["theta"])
            elif o["op"] == "flavor":
                m.flavor = o["fl"]
            else:
                return query(e, m)
            return "set"
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out
