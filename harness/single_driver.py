"""Performs the single-channel operations of spec/SingleGen.tla on hazma.single_channel."""
import warnings

import numpy as np

from common import attempt, fval, num, vec


def query(o, m, ann):
    import hazma.cmb
    from hazma import spectra
    if o["op"] == "info":
        states = m.list_annihilation_final_states() if ann else m.list_decay_final_states()
        return {"fs": m.fs, "states": list(states), "words": m.fs.split(), "threshold": num(m.fs_mass), "mx": num(m.mx)}
    if o["op"] == "feff":
        kind = "ep" if m.fs == "e e" else "g"
        return {"eff": num(getattr(m, f"f_eff_{kind}")()), "base": num(float(getattr(hazma.cmb, f"f_eff_{kind}")(m.mx)))}
    ecm = fval(o["ecm"])
    at = (ecm,) if ann else ()
    top = ecm if ann else m.mx
    if o["op"] == "rates":
        rates = m.annihilation_cross_sections(ecm) if ann else m.decay_widths()
        bfs = m.annihilation_branching_fractions(ecm) if ann else m.decay_branching_fractions()
        assert set(bfs) - {"total"} == {m.fs}, bfs
        return {"fs": m.fs, "names": sorted(rates, key=lambda k: k == "total"), "rate": num(rates[m.fs]), "total": num(rates["total"]), "bf": num(bfs[m.fs])}
    if o["op"] == "lines":
        lines = (m.gamma_ray_lines if o["kind"] == "photon" else m.positron_lines)(*at)
        one = next(iter(lines.values()), {"energy": 0.0, "bf": 0.0})
        return {"fs": m.fs, "names": list(lines), "energy": num(one["energy"]), "bf": num(one["bf"])}
    if o["op"] == "conv":
        line = m.gamma_ray_lines(*at)[m.fs]["energy"]
        w = fval(o["width"])
        fn = m.total_conv_spectrum_fn(line * (1 - 10 * w), line * (1 + 10 * w), *at, lambda e: w + 0.0 * e, 801)
        return {"peak": num(float(fn(line)))}
    es = [fval(x) for x in o["es"]]
    q = {"scalar": lambda: es[0], "numpy": lambda: np.float64(es[0]), "array": lambda: np.array(es), "list": lambda: list(es)}[o["form"]]()
    photon = o["kind"] == "photon"
    total = None
    if o["via"] == "total":
        r = (m.total_spectrum if photon else m.total_positron_spectrum)(q, *at)
    elif o["via"] == "parts":
        d = (m.spectra if photon else m.positron_spectra)(q, *at)
        assert set(d) == {m.fs, "total"}, list(d)
        r, total = d[m.fs], d["total"]
    else:
        fns = m.spectrum_funcs() if photon else m.positron_spectrum_funcs()
        assert set(fns) == {m.fs}, list(fns)
        r = fns[m.fs](q, *at)
    try:
        comp = (spectra.dnde_photon if photon else spectra.dnde_positron)(np.array(es), top, m.fs.split())
    except ValueError:                               # closed
        comp = np.zeros(len(es))
    r = np.atleast_1d(np.asarray(r, dtype=float))
    return {"rows": vec(r), "component": vec(comp), "total": vec(np.atleast_1d(np.asarray(r if total is None else total, dtype=float)))}


def perform(behaviour):
    warnings.simplefilter("ignore")
    from hazma.single_channel import SingleChannelAnn, SingleChannelDec
    out, m, ann = [], None, True
    for o in behaviour:
        e = dict(o)

        def act():
            nonlocal m, ann
            if o["op"] == "new":
                ann = o["cls"] == "ann"
                m = (SingleChannelAnn if ann else SingleChannelDec)(fval(o["mx"]), " ".join(o["fs"]), fval(o["g"]))
            elif o["op"] == "mx":
                m.mx = fval(o["mx"])
            elif o["op"] == "fs":
                m.fs = " ".join(o["fs"])
            elif o["op"] == "g":
                setattr(m, "sigma" if ann else "width", fval(o["g"]))
            else:
                return query(o, m, ann)
            return "set"
        e["out"], r = attempt(act)
        e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out
