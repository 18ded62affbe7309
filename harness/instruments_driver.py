"""Performs Instruments behaviours on hazma.gamma_ray_parameters and its containers."""
import tempfile
import warnings

import numpy as np

from common import attempt, fval, num, vec


def shaped(o, fn):
    """fn at the energies, as an array or one by one; (values, does the answer have the asked-for shape)."""
    es = [fval(x) for x in o["es"]]
    if o["form"] == "array":
        r = np.asarray(fn(np.array(es)))
        return r, r.shape == (len(es),)
    r = [fn(e) for e in es]
    return np.array([np.asarray(x).item() for x in r]), all(np.asarray(x).ndim == 0 for x in r)


def query(m, o, e):
    import hazma.gamma_ray_parameters as grp
    if o["op"] == "aeff":
        fn = getattr(grp, ("A_eff_" if o["alias"] == "1" else "effective_area_") + o["n"])
        r, e["shape"] = shaped(o, fn)
        return vec(r)
    if o["op"] == "res":
        r, e["shape"] = shaped(o, getattr(grp, "energy_res_" + o["n"]))
        return vec(r)
    if o["op"] == "survey":
        s = getattr(grp, o["n"] + "_diffuse")
        es = np.sqrt(s.e_lows * s.e_highs)
        e["es"] = vec(es)
        return {"lows": vec(s.e_lows), "highs": vec(s.e_highs), "fluxes": vec(s.fluxes), "upper": vec(s.upper_errors),
                "lower": vec(s.lower_errors), "t": {k: num(getattr(s.target, k)) for k in ("J", "D", "dOmega")},
                "eres": vec(s.energy_res(es))}
    if o["op"] == "flux":
        r, e["shape"] = shaped(o, m.dPhi_dEdOmega)
        return vec(r)
    if o["op"] == "slopes":
        names = list(m.derivatives(1.5))
        return {k: vec(shaped(o, lambda x, k=k: m.derivatives(x)[k])[0]) for k in names}
    if o["op"] == "params":
        b = m.energy_bounds
        return {"params": {k: num(v) for k, v in m.params.items()}, "bounds": vec(b() if callable(b) else b),
                "attrs": {k: num(getattr(m, k)) for k in m.params if hasattr(m, k)}}
    if o["op"] == "range":
        from numpy.polynomial import Polynomial
        from hazma.background_model import BackgroundModel
        b = BackgroundModel([fval(o["lo"]), fval(o["hi"])], Polynomial([fval(x) for x in o["c"]]))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r, _ = shaped(o, b.dPhi_dEdOmega)
        e["warned"] = num(len(w) > 0)
        return vec(r)
    if o["op"] == "shipped":
        b = {"gecco": grp.gecco_bg_model, "default": grp.default_bg_model, "gc": grp.gc_bg_model}[o["n"]]
        e["range"] = vec(b.e_range)
        return vec(shaped(o, b.dPhi_dEdOmega)[0])
    if o["op"] == "units":
        from hazma.parameters import convert_sigmav
        return num(convert_sigmav(fval(o["x"]), o["to"]))
    if o["op"] == "cone":
        return num(grp.solid_angle_cone(fval(o["r"])))
    if o["op"] == "file":
        from hazma.flux_measurement import FluxMeasurement
        t = grp.egret_diffuse_target
        with tempfile.NamedTemporaryFile("w", suffix=".dat") as f:
            f.write("\n".join(",".join(repr(fval(x)) for x in r) for r in o["rows"]) + "\n")
            f.flush()
            s = FluxMeasurement.from_file(f.name, lambda e: 0.25, t, **({} if o["default"] == "1" else {"power": int(o["power"])}))
        return {"lows": vec(s.e_lows), "highs": vec(s.e_highs), "fluxes": vec(s.fluxes), "upper": vec(s.upper_errors),
                "lower": vec(s.lower_errors), "res": num(s.energy_res(1.0)), "target": num(s.target is t)}
    if o["op"] == "halo":
        t = getattr(grp, o["n"][0])
        for k in o["n"][1:]:
            t = t[k]
        return {k: num(getattr(t, k)) for k in ("J", "D", "dOmega")}
    from hazma.target_params import TargetParams
    t = TargetParams(**{k: 1.5 for k in o["have"]})
    return {**{k: "None" if getattr(t, k) is None else "3/2" if getattr(t, k) == 1.5 else "?" for k in ("J", "D", "dOmega")},
            "vx": num(t.vx), "printed": num(repr(t).startswith("TargetParams("))}


def outside(how):
    from hazma.background_model import BackgroundModel
    import hazma.gamma_ray_parameters as grp
    b = BackgroundModel([1.0, 2.0], lambda e: 3.0 / e) if how == "function" else grp.gc_bg_model
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            v = float(b.dPhi_dEdOmega(6.0 if how == "function" else 1e5))
        except Exception as err:  # noqa: BLE001
            return type(err).__name__
    return "nan" if np.isnan(v) else "extrapolated" if v == 0.5 else "other"


def perform(behaviour):
    import hazma.gamma_ray_parameters as grp
    out, m = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            cls = grp.GalacticCenterBackgroundModel if o["bg"]["kind"] == "gc" else grp.GeccoBackgroundModel
            m = cls(*[fval(x) for x in o["bg"]["p"]])
        elif o["op"] == "outside":
            e["got"] = outside(o["how"])
        else:
            if "es" in o:
                e["es"] = vec([fval(x) for x in o["es"]])
            e["out"], r = attempt(lambda: query(m, o, e))
            e["res"] = r if e["out"] == "ok" else {"error": r}
            if "shape" in e:
                e["shape"] = num(e["shape"])
        out.append(e)
    return out
