"""C19, C22: spectra seen from moving sources, radiation spectra and their averages."""
import atexit
import pathlib
import shutil
import tempfile

import numpy as np

import core_shim
import mediator_driver
import nbody_driver
import neutrino_driver
import single_driver
from agents_checks import laws, walks
from common import REPO, attempt, fval, num, pmap, vec

CORE = None


def core():
    """Build the kernels once per process tree and make hazma.spectra importable."""
    global CORE
    if CORE is None:
        CORE = tempfile.mkdtemp(prefix="core")
        atexit.register(shutil.rmtree, CORE, True)
        core_shim.build(REPO, CORE)
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")


def shaped(es, form):
    if form == "scalar":
        return fval(es[0])
    if form == "int":
        return np.array([int(fval(e)) for e in es])
    return [fval(e) for e in es] if form == "list" else np.array([fval(e) for e in es])


def boosts(behaviour):
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")
    import warnings
    warnings.simplefilter("ignore")
    import hazma.spectra as spectra
    from hazma.spectra import boost
    out, s = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] in ("line", "poly", "table"):
            s = o
            e["out"], e["res"] = "ok", "set"
            out.append(e)
            continue

        def act():
            m = fval(s["m"])
            if o["op"] == "array":
                es, ys = shaped(s["es"], o["form"]), shaped(s["ys"], o["form"])
                return vec(spectra.dnde_boost_array(ys, es, fval(o["b"]), mass=m))
            q = shaped(o["es"], o["form"])
            e["es"] = vec(np.atleast_1d(q).astype(float))
            if o["op"] == "delta":
                r = spectra.boost_delta_function(q, fval(s["e0"]), m, fval(o["b"]))
            elif o["op"] == "double":
                r = spectra.double_boost_delta_function(q, fval(s["e0"]), m, fval(o["b1"]), fval(o["b2"]))
            else:
                c = [fval(x) for x in s["c"]]
                rest = not 0 < fval(o["b"]) < 1

                def fn(x, *a):
                    if o["vec"] == "0" and not rest and o["method"] in ("trapz", "simps") and np.ndim(x):
                        raise TypeError("one energy at a time")
                    return (a[0] if a else 1.0) * sum(k * x**j for j, k in enumerate(c))

                args = () if fval(o["scale"]) == 0 else (fval(o["scale"]),)
                kw = {"npts": o["npts"]} if o["npts"] and o["method"] in ("trapz", "simps") else {}
                if o["via"] == "make":
                    r = spectra.make_boost_function(fn, m, vectorized=o["vec"] == "1")(q, fval(o["b"]), method=o["method"], args=args, **kw)
                else:
                    r = spectra.dnde_boost(fn, q, fval(o["b"]), mass=m, method=o["method"], vectorized=o["vec"] == "1", args=args, **kw)
            e["scalar"] = "0" if np.ndim(r) else "1"
            return vec(np.atleast_1d(r))
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out


def matrix_elements(p, factor=1.0):
    """The squared matrix elements of spec/Radiation.tla."""
    from hazma.utils import ldot
    r, n = [fval(x) for x in p["rad"]], [fval(x) for x in p["non"]]

    def rad(q):
        k = q[:, -1]
        pk = sum(ldot(q[:, i], k) for i in range(q.shape[1] - 1))
        p1, p2 = ldot(q[:, 0], k), ldot(q[:, 1], k)
        return factor * (r[0] + r[1] * pk + r[2] * p1 + r[3] * p1 * p2 + (r[4] / p1 if r[4] else 0.0))

    def non(q):
        tot = q.sum(axis=1)
        return factor * (n[0] + n[1] * ldot(tot, tot))
    return rad, non


def refused(what):
    from hazma.spectra import dnde_photon_fsr

    def one(q):
        return 1.0 + 0.0 * q[0, 0]
    kw = dict(photon_energies=np.array([1.0, 3.0]), cme=300.0, final_state_masses=[100.0, 90.0], msqrd=one, msqrd_nonrad=one)
    kw.update({"below": dict(cme=189.0), "threshold": dict(cme=190.0), "one": dict(final_state_masses=[100.0]), "none": dict(final_state_masses=[]),
               "method": dict(method="simpson"), "quad3": dict(method="quad", final_state_masses=[1.0, 2.0, 3.0]), "npts1": dict(method="rambo", npts=1),
               "npts0": dict(method="rambo", npts=0), "nptshalf": dict(method="rambo", npts=12.5), "nonzero": dict(msqrd_nonrad=lambda q: 0.0 * one(q)),
               "nonnegative": dict(msqrd_nonrad=lambda q: -one(q))}[what])
    return dnde_photon_fsr(kw.pop("photon_energies"), **kw)


def radiation(behaviour):
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")
    import hazma.spectra as spectra
    from hazma.spectra import altarelli_parisi as ap, convolve
    out, p, a, fn = [], None, None, None
    for o in behaviour:
        e = dict(o)

        def act():
            nonlocal p, a, fn
            if o["op"] == "process":
                p = o
                return "set"
            if o["op"] == "make":
                a = o
                c = [fval(x) for x in o["c"]]

                def dnde(en, x, *args):
                    if a["vec"] == "0" and np.ndim(en) or np.ndim(x):
                        raise TypeError("one energy at a time")
                    y = c[0] + c[1] * en + c[2] * x + c[3] * en * x + c[4] * x**3
                    return y * args[0] if args else y
                args = () if o["scale"] == "1" else (fval(o["scale"]),)
                pos = (np.array([fval(x) for x in o["cmes"]]), [fval(x) for x in o["probs"]])
                kw = dict(method=o["method"], vectorized=o["vec"] == "1", args=args)
                fn = convolve.make_marginal_fn(dnde, *pos, **kw) if o["via"] == "make" else lambda es: convolve.marginalize(dnde, es, *pos, **kw)
                return "set"
            if o["op"] == "average":
                return vec(np.ravel(fn(shaped(o["es"], o["form"]))))
            if o["op"] == "bad":
                return repr(refused(o["what"]))
            if o["op"] == "ap":
                x = shaped(o["xs"], o["form"])
                e["xs"] = vec(np.atleast_1d(x))
                s, m, q = fval(o["s"]), fval(o["m"]), fval(o["q"])
                e["s"], e["m"], e["q"] = num(s), num(m), num(q)
                f = getattr(ap, f"dnd{o['of']}_photon_ap_{o['kind']}")
                return vec(np.atleast_1d(f(x, s, m) if q == 1 else f(x, s, m, charge=q)))
            ms, cme = [fval(x) for x in p["masses"]], fval(p["cme"])
            rad, non = matrix_elements(p)
            if o["op"] == "pulls":
                en = fval(o["e"])
                e["e"] = num(en)
                rs = [spectra.dnde_photon_fsr(en, cme, ms, rad, non, method="rambo", npts=o["npts"], seed=1000 * o["seed"] + i) for i in range(o["times"])]
                return {"dnde": vec([r.dnde for r in rs]), "error": vec([r.error for r in rs]), "distinct": num(len({r.dnde for r in rs}))}
            q = shaped(o["es"], o["form"])
            e["es"] = vec(np.atleast_1d(q))
            kw = dict(method=o["method"], npts=o["npts"], seed=o["seed"])
            r = spectra.dnde_photon_fsr(q, cme, ms, rad, non, **kw)
            again = spectra.dnde_photon_fsr(q, cme, ms, rad, non, **kw)
            f2, n2 = matrix_elements(p, fval(o["scale"]))
            other = spectra.dnde_photon_fsr(q, cme, ms, f2, n2, **kw)
            return {"dnde": vec(np.atleast_1d(r.dnde)), "error": vec(np.atleast_1d(r.error)), "scalar": "1" if np.ndim(r.dnde) == 0 and np.ndim(r.error) == 0 else "0",
                    "again": num(float(np.array_equal(again.dnde, r.dnde) and np.array_equal(again.error, r.error))),
                    "cancels": num(float(np.allclose(other.dnde, r.dnde, rtol=1e-6, atol=0)))}
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out


def finals(behaviour):
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")
    return nbody_driver.perform(behaviour)


def singles(behaviour):
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")
    return single_driver.perform(behaviour)


def neutrinos(behaviour):
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")
    return neutrino_driver.perform(behaviour)


def mediators(behaviour):
    core_shim.install(pathlib.Path(CORE) / "libhazma_core.so")
    return mediator_driver.perform(behaviour)


def run(check):
    core()
    if check.prop == "C23":
        laws(check, "MediatorGen", "Positive Rates Ratios Angles Massless SoftLimit SelfPositive Shared Named")
        check.validate("MediatorTrace", pmap(mediators, walks(check, "MediatorGen", 100, 24)), timeout=850)
    if check.prop == "C19":
        laws(check, "BoostGen", "Photons OrderFree Widest TwiceConserves RestLimit Unphysical RulesConverge TableOfLine")
        check.validate("BoostTrace", pmap(boosts, walks(check, "BoostGen", 160, 20)), timeout=850)
    if check.prop == "C22":
        laws(check, "RadiationGen", "Symmetric Averages Edges Scaling SoftPhoton Rules")
        check.validate("RadiationTrace", pmap(radiation, walks(check, "RadiationGen", 120, 16)), timeout=850)
    if check.prop == "C18":
        laws(check, "NbodyGen", "Normalised EnergyShared Relabelled TwoBodyEnergies")
        check.validate("NbodyTrace", pmap(finals, walks(check, "NbodyGen", 80, 16)), timeout=850)
    if check.prop == "C25":
        laws(check, "SingleGen", "Shares Closed Lines Strength")
        check.validate("SingleTrace", pmap(singles, walks(check, "SingleGen", 100, 24)), timeout=850)
    if check.prop == "C24":
        laws(check, "RhNeutrinoGen", "Distinct Positive Integrals Mixing Massless Lines")
        check.validate("RhNeutrinoTrace", pmap(neutrinos, walks(check, "RhNeutrinoGen", 80, 20)), timeout=850)
