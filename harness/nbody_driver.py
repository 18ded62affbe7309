"""Performs the final-state queries of spec/NbodyGen.tla on hazma.spectra."""
import warnings

import numpy as np

from common import attempt, fval, num, vec
from space_driver import dot2

NAMES = {"mu": "muon", "pi": "charged_pion", "pi0": "neutral_pion", "k": "charged_kaon", "kl": "long_kaon", "ks": "short_kaon", "eta": "eta",
         "etap": "eta_prime", "rho": "charged_rho", "rho0": "neutral_rho", "omega": "omega", "phi": "phi"}
FLAVOR = {"ve": "e", "vm": "mu", "vt": "tau"}


def component(product, particle, es, parent):
    """The decay spectrum of one particle, rows by neutrino flavour."""
    import hazma.spectra as spectra
    kind = product if product in ("photon", "positron") else "neutrino"
    rows = 3 if product == "neutrino" else 1
    f = getattr(spectra, f"dnde_{kind}_{NAMES.get(particle, '')}", None)
    if f is None:                                    # nothing comes of electrons and neutrinos, no leptons of neutral pions
        return np.zeros((rows, len(es)))
    r = np.asarray(f(es, parent))
    if product in FLAVOR:
        r = r[list(FLAVOR).index(product)]
    return r.reshape(rows, len(es))


def element(st):
    a, b, c = map(fval, st["me"])
    if st["sig"] == "none":
        return {}
    if st["sig"] == "momenta":
        return {"msqrd": lambda p: a + b * dot2(p, 1, 2) + c * dot2(p, 0, 2), "msqrd_signature": "momenta"}
    kw = {"msqrd": lambda s, t: a + b * s + c * t}
    return kw if st["sig"] == "default" else {**kw, "msqrd_signature": "st"}


def ask(o, st, e):
    import hazma.spectra as spectra
    es = [fval(x) for x in o["es"]]
    e["es"] = vec(es)
    q = es[0] if o["form"] == "scalar" else np.array(es) if o["form"] == "array" else es
    kw = dict(nbins=o["nbins"], **element(st))
    if o["integrator"] != "default":
        kw["three_body_integrator"] = o["integrator"]
    fs = st["fs"][0] if o["alone"] == "1" else tuple(st["fs"])
    p, cme = o["product"], fval(st["cme"])
    if p == "photon":
        if o["fsr"] == "0" or o["average"] == "0":   # leave the defaults to speak where they can
            kw.update(include_fsr=o["fsr"] == "1", average_fsr=o["average"] == "1")
        r = spectra.dnde_photon(q, cme, fs, **kw)
    elif p == "positron":
        r = spectra.dnde_positron(q, cme, fs, **kw)
    else:
        r = spectra.dnde_neutrino(q, cme, fs, **kw, **({"flavor": FLAVOR[p]} if p in FLAVOR else {}))
    r = np.asarray(r)
    inner = r.ndim - (1 if p == "neutrino" else 0)
    rows = r.reshape(3 if p == "neutrino" else 1, -1)
    arr = np.array(es)
    e["comp"] = [[[vec(row) for row in component(p, s, arr, fval(c))] for c in cs] for s, cs in zip(st["fs"], o["calls"])]
    return {"rows": [vec(x) for x in rows], "scalar": "1" if inner == 0 else "0"}


def refused(o):
    import hazma.spectra as spectra
    f = getattr(spectra, f"dnde_{o['product']}")
    if o["what"] == "below":
        return f(1.0, 211.3, ("mu", "mu"))
    if o["what"] == "unknown":
        return f(1.0, 1e3, ("mu", "axion"))
    if o["what"] == "flavor":
        return f(1.0, 1e3, ("mu", "mu"), flavor="x")
    return f(1.0, 1e3, ("mu", "mu", "pi0"), three_body_integrator="gauss")


def count(o):
    import hazma.spectra as spectra
    np.random.seed(o["seed"])
    n = o["pions"]
    cme = fval(o["factor"]) * n * 134.9768
    es = np.linspace(0.1, cme, 400)
    return float(np.trapezoid(spectra.dnde_photon(es, cme, ["pi0"] * n + ["ve"] * (4 - n), npts=1 << 13), es))


def many(o):
    import hazma.spectra as spectra
    np.random.seed(o["seed"])
    cme, k, a = fval(o["cme"]), o["first"] - 1, o["a"]
    kw = {"msqrd": lambda p: (2 * p[0, k] / cme) ** a} if a else {}
    kw.update(npts=1 << 15, nbins=40)
    if o["op"] == "radiate":
        return num(spectra.dnde_photon(fval(o["frac"]) * cme, cme, o["fs"], average_fsr=o["average"] == "1", **kw))
    es = np.linspace(0.0, cme, 1000)
    r = spectra.dnde_neutrino(es, cme, o["fs"], **kw)
    return {"n": vec(np.trapezoid(r, es)), "energy": vec(np.trapezoid(r * es / cme, es))}


def perform(behaviour):
    warnings.simplefilter("ignore")
    out, st = [], None
    for i, o in enumerate(behaviour):
        e = dict(o)
        np.random.seed(i)
        if o["op"] == "final":
            st = o
            e["out"], r = "ok", "set"
        elif o["op"] == "bad":
            e["out"], r = attempt(lambda: repr(refused(o)))
        elif o["op"] == "count":
            e["out"], r = attempt(lambda: num(count(o)))
        elif o["op"] in ("share", "radiate"):
            e["out"], r = attempt(lambda: many(o))
        else:
            e["out"], r = attempt(lambda: ask(o, st, e))
            e.pop("calls")
        e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out
