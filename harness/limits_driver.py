"""Performs Limits behaviours on hazma.theory's limit methods with the synthetic model."""
import numpy as np

from common import attempt, fval, mat, num, vec
from theory_driver import make_model, snapshot


def resolution(r, form):
    r = fval(r)
    if form == "constant":
        return lambda e: r
    if form == "array":
        return lambda e: np.full_like(np.asarray(e, dtype=float), r)
    return lambda e: r if e > 0 else 2 * r     # refuses arrays


def target(t):
    from hazma.target_params import TargetParams
    return TargetParams(J=fval(t["J"]), D=fval(t["D"]), dOmega=fval(t["dOmega"]), vx=fval(t["vx"]))


def arrays(m):
    return [np.array([fval(x) for x in m[k]]) for k in ("lows", "highs", "data", "upper", "lower")]


def measurement(m, t, res, arrs):
    from hazma.flux_measurement import FluxMeasurement
    return FluxMeasurement(*arrs, res, target(t), m["power"])


def area(o, lo, hi):
    from scipy.interpolate import interp1d
    return interp1d([lo, hi], [fval(o["area"])] * 2)


def poly(p):
    from numpy.polynomial import Polynomial
    return Polynomial([fval(x) for x in p])


def observed(m, o):
    """The model with the given polynomial as its detector-convolved spectrum."""
    import copy
    from scipy.interpolate import InterpolatedUnivariateSpline, interp1d
    es = np.linspace(0.5, 12.0, 2301)
    c = copy.copy(m)
    c.total_conv_spectrum_fn = lambda lo, hi, *a, **k: InterpolatedUnivariateSpline(
        np.linspace(lo, hi, 1801), poly(o["sig"])(np.linspace(lo, hi, 1801)), k=1, ext="raise")
    return c, es, interp1d


def query(m, o, arrs):
    ann = m.kind == "ann"
    if o["op"] == "window":
        from hazma.background_model import BackgroundModel
        c, _, interp1d = observed(m, o)
        ends = [fval(o["grid"][0]), fval(o["grid"][-1])]
        aeff = interp1d(ends, poly(o["area"])(np.array(ends)))
        bg = BackgroundModel([0.1, 100.0], poly(o["bg"]))
        kw = {"n_grid": o["ngrid"]} if o["ngrid"] else {"e_grid": np.array([fval(x) for x in o["grid"]])}
        return num(c.unbinned_limit(aeff, lambda e: 0.1, fval(o["tobs"]), target(o["t"]), bg, n_sigma=fval(o["ns"]), **kw))
    if o["op"] == "forecast":
        from hazma.background_model import ParametricBackgroundModel
        c, _, interp1d = observed(m, o)

        class Background(ParametricBackgroundModel):
            params = {f"p{i}": 1.0 for i in range(len(o["d"]))}

            def dPhi_dEdOmega(self, energy):
                return poly(o["bg"])(np.asarray(energy, dtype=float))

            def derivatives(self, energy):
                return {f"p{i}": poly(d)(np.asarray(energy, dtype=float)) for i, d in enumerate(o["d"])}
        aeff = interp1d([1.0, 10.0], poly(o["area"])(np.array([1.0, 10.0])))
        lims = c.fisher_limit(aeff, lambda e: 0.1, target(o["t"]), Background(), fval(o["tobs"]), sigma_levels=[1.5, fval(o["ns"])])
        return num(lims[1])
    res = (lambda e: fval(o["r0"]) + fval(o["r1"]) / e) if o["op"] == "convvar" else resolution(o["r"], o["form"])
    if o["op"] == "convvar" and o["form"] == "scalaronly":
        res = lambda e, f=res: f(e) if e > 0 else 1.0
    if o["op"] in ("conv", "convvar"):
        lo, hi = fval(o["lo"]), fval(o["hi"])
        fn = m.total_conv_spectrum_fn if o["particle"] == "g" else m.total_conv_positron_spectrum_fn
        f = fn(lo, hi, fval(o["ecm"]), res) if ann else fn(lo, hi, res)
        return vec(f(np.array([fval(x) for x in o["at"]])))
    if o["op"] == "binned":
        return num(m.binned_limit(measurement(o["m"], o["t"], res, arrs), fval(o["ns"]), o["method"]))
    if o["op"] == "slack":
        meas = measurement(o["m"], o["t"], res, arrs)
        img = m.constrain_binned_gamma("mx", [m.mx], "extra", [0.0], meas, fval(o["ns"]))
        return num(img[0, 0])
    if o["op"] == "slackgrid":
        meas = measurement(o["m"], o["t"], res, arrs)
        return mat(m.constrain_binned_gamma("mx", np.array([fval(x) for x in o["v1"]]), "rate1",
                                            np.array([fval(x) for x in o["v2"]]), meas, fval(o["ns"])))
    t = target(o["t"])
    if o["op"] == "unbinned":
        from hazma.background_model import BackgroundModel
        bg = BackgroundModel([0.1, 100.0], lambda e: np.asarray(e) * 0.0 + fval(o["bg"]))
        grid = np.array([fval(x) for x in o["grid"]])
        return num(m.unbinned_limit(area(o, grid[0], grid[-1]), res, fval(o["tobs"]), t, bg, e_grid=grid, n_sigma=fval(o["ns"])))
    from hazma.background_model import ParametricBackgroundModel

    class Flat(ParametricBackgroundModel):
        params = {"norm": fval(o["bg"])}

        def dPhi_dEdOmega(self, energy):
            return np.asarray(energy) * 0.0 + fval(o["bg"])

        def derivatives(self, energy):
            return {"norm": np.asarray(energy) * 0.0 + 1.0}
    lim = m.fisher_limit(area(o, 1.0, 10.0), res, t, Flat(), fval(o["tobs"]), vx=fval(o["t"]["vx"]),
                         sigma_levels=[fval(o["ns"])])
    return num(lim[0])


def perform(behaviour):
    out, m = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            m = make_model(o["st"])
        elif o["op"] == "set":
            getattr(m, o["f"])[o["i"] - 1] = fval(o["x"])
        elif o["op"] == "setmx":
            m.mx = fval(o["x"])
        else:
            if o["op"] in ("conv", "convvar"):
                e["at"] = ["1", "3/2", "2", "4", "5", "27/5", "10"] if o["op"] == "conv" else ["1", "5/2", "4", "10"]
            if o["op"] in ("slack", "slackgrid") and m.kind == "dec":
                continue                    # documented as annihilation only
            arrs = arrays(o["m"]) if "m" in o else []
            before = [a.copy() for a in arrs]
            snap = snapshot(m)
            e["out"], r = attempt(lambda: query(m, e, arrs))
            e["res"] = r if e["out"] == "ok" else {"error": r}
            e["kept"] = num(all(np.array_equal(a, b) for a, b in zip(arrs, before)))
            e["same"] = num(snap == snapshot(m))
        out.append(e)
    return out
