"""Performs the mediator-model operations of spec/MediatorGen.tla on hazma.scalar_mediator and hazma.vector_mediator."""
import sys
import types
import warnings

import numpy as np

from common import attempt, fval, num, vec

CALLS = []
COUPLINGS = {True: ("gsff", "gsGG", "gsFF", "lam"), False: ("gvuu", "gvdd", "gvss", "gvee", "gvmumu")}


def shape(e, energy, mass):
    return 1.0 / (np.asarray(e, dtype=float) + mass) + 1.0 / energy


def record(e, energy, mass, pws, modes="total"):
    CALLS.append((e, float(energy), float(mass), [float(x) for x in pws], [modes] if isinstance(modes, str) else list(modes)))
    return shape(e, energy, mass)


def compiled():
    """Stand-ins for the Cython decay spectra: they record what they are asked for."""
    s, v = "hazma.scalar_mediator.scalar_mediator_", "hazma.vector_mediator.vector_mediator_"
    every = ["pi pi", "mu mu", "pi0 pi0", "g g", "e e g", "pi pi g", "mu mu g"]
    table = {s + "decay_spectrum": {"scalar_mediator_decay_spectrum": lambda e, E, m, p, modes=every: record(e, E, m, p, modes)},
             s + "positron_spec": {"dnde_decay_s": record, "dnde_decay_s_pt": record},
             v + "decay_spectrum": {"dnde_decay_v": record, "dnde_decay_v_pt": record},
             v + "positron_spec": {"dnde_decay_v": record, "dnde_decay_v_pt": record}}
    for name, fns in table.items():
        m = types.ModuleType(name)
        vars(m).update(fns)
        sys.modules[name] = m


def build(o):
    from hazma import scalar_mediator as S
    from hazma import vector_mediator as V
    p = {k: fval(x) for k, x in o["p"].items()}
    cls = {"scalar": S.ScalarMediator, "higgs": S.HiggsPortal, "heavy": S.HeavyQuark,
           "vector": V.VectorMediator, "mixing": V.KineticMixing, "quarks": V.QuarksOnly}[o["cls"]]
    return cls(**p), list(p)


def energies(o):
    return fval(o["es"][0]) if o.get("form") == "scalar" else np.array([fval(x) for x in o["es"]])


def flat(r):
    return vec(np.atleast_1d(np.asarray(r, dtype=float)))


def sigma(m, o, scalar):
    es, med = energies(o), "s" if scalar else "v"
    if o["via"] == "table":
        return flat(m.annihilation_cross_section_funcs()[o["name"]](es))
    a, _, b = o["name"].partition(" ")
    if a == b and a in ("e", "mu"):
        return flat(getattr(m, f"sigma_xx_to_{med}_to_ff")(es, a))
    tail = med + med if o["name"] == f"{med} {med}" else f"{med}_to_" + {"g g": "gg", "pi0 pi0": "pi0pi0", "pi pi": "pipi", "pi0 g": "pi0g", "pi0 v": "pi0v"}[o["name"]]
    return flat(getattr(m, "sigma_xx_to_" + tail)(es))


def query(o, m, keys):
    from hazma import parameters, spectra
    scalar = hasattr(m, "ms")
    med, op = "s" if scalar else "v", o["op"]
    if op == "info":
        return {"params": {k: num(getattr(m, k)) for k in keys}, "effective": [num(getattr(m, k)) for k in COUPLINGS[scalar]],
                "states": list(m.list_annihilation_final_states())}
    if op == "widths":
        w = m.partial_widths()
        return {"names": list(w), "widths": [num(x) for x in w.values()], "cached": num(m.width_s if scalar else m.width_v)}
    if op == "sigma":
        return {"sigma": sigma(m, o, scalar)}
    if op == "self":
        return {"sigma": flat(getattr(m, f"sigma_xx_to_{med}_to_xx")(energies(o)))}
    if op == "back":
        return {"sigma": flat(m.sigma_ss_to_xx(energies(o)))}
    es, q = energies(o) if "es" in o else [], fval(o["q"]) if "q" in o else 0.0
    if op == "fsr":
        if o["name"] == "pi pi":
            r = getattr(m, f"dnde_xx_to_{med}_to_pipig")(es, q)
        else:
            f = o["name"].split()[0]
            r = getattr(m, f"dnde_xx_to_{med}_to_ffg")(es, q, getattr(parameters, {"e": "electron_mass", "mu": "muon_mass"}[f]) if scalar else f)
        return {"rows": flat(r)}
    if op == "photons":
        fn = m.spectrum_funcs()[o["name"]]
        r = fn(es, q) if o["type"] == "default" else fn(es, q, o["type"])
        return {"rows": flat(r), "component": flat(getattr(spectra, "dnde_photon_" + o["parent"])(es, fval(o["energy"])))}
    if op == "positrons":
        return {"rows": flat(m.positron_spectrum_funcs()[o["name"]](es, q)),
                "component": flat(getattr(spectra, "dnde_positron_" + o["parent"])(es, fval(o["energy"])))}
    if op == "cascade":
        del CALLS[:]
        fn = (m.spectrum_funcs() if o["kind"] == "photon" else m.positron_spectrum_funcs())[o["name"]]
        r = fn(es, q) if o["mode"] == "default" else fn(es, q, fs=o["mode"])
        call = {}
        stub = np.zeros(len(es))
        if CALLS:
            _, energy, mass, pws, modes = CALLS[-1]
            call = {"energy": num(energy), "mass": num(mass), "fractions": vec(pws), "modes": modes}
            stub = shape(es, energy, mass)
        comp = spectra.dnde_photon_neutral_pion(es, fval(o["energy"])) if o["name"] == "pi0 v" else np.zeros(len(es))
        return {"rows": flat(r), "component": flat(comp), "stub": flat(stub), "call": call}
    if op == "lines":
        d = (m.gamma_ray_lines if o["kind"] == "photon" else m.positron_lines)(q)
        want = m.annihilation_branching_fractions(q)
        return {"names": list(d), "energies": [num(x["energy"]) for x in d.values()], "bfs": [num(x["bf"]) for x in d.values()],
                "want": num(want[list(d)[0]])}
    zs = np.array([fval(z) for z in o["zs"]])
    tot = np.zeros(len(zs))
    for name, f in m.annihilation_cross_section_funcs().items():
        tot[1:] += f(m.mx * zs[1:])
    return {"average": num(m.thermal_cross_section(fval(o["x"]))), "sigma": flat(tot)}


def perform(behaviour):
    warnings.simplefilter("ignore")
    compiled()
    out, m, keys = [], None, []
    for o in behaviour:
        e = dict(o)

        def act():
            nonlocal m, keys
            if o["op"] == "new":
                m, keys = build(o)
            elif o["op"] == "set":
                setattr(m, o["name"], fval(o["value"]))
            else:
                return query(e, m, keys)
            # every parameter shows at once in all that follows from it
            scalar = hasattr(m, "ms")
            return {**query({"op": "info"}, m, keys), "total": num(m.partial_widths()["total"]), "cached": num(m.width_s if scalar else m.width_v)}
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out
