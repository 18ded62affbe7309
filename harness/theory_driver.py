"""Performs Theory behaviours on hazma.theory: a synthetic model with exact numbers."""
import numpy as np

from common import attempt, fval, num, vec


def make_model(st):
    from hazma.theory import TheoryAnn, TheoryDec

    base = TheoryAnn if st["kind"] == "ann" else TheoryDec

    class Model(base):
        def __init__(self):
            self.ch = list(st["ch"])
            self.mx = fval(st["mx"])
            for k in ("a", "thr", "p", "q", "u", "v"):
                setattr(self, k, [fval(x) for x in st[k]])

        @property
        def rate1(self):
            return self.a[0]

        @rate1.setter
        def rate1(self, v):
            self.a[0] = v

        def rate(self, i, ecm):
            if base is TheoryDec:
                return self.a[i]
            return self.a[i] * ecm if ecm > self.thr[i] else 0.0

        def dnde(self, particle, i, e, ecm):
            if not self.rate(i, ecm) > 0:   # a closed channel has no meaningful spectrum
                return np.asarray(e) * np.nan
            a, b, d = (self.p, self.q, 8.0) if particle == "g" else (self.u, self.v, 4.0)
            return a[i] + b[i] * e + (ecm / d if base is TheoryAnn else 0.0)

        def line(self, particle, ecm):
            div = {"g g": 2.0, "pi0 g": 4.0} if particle == "g" else {"e e": 2.0}
            return {c: ecm / div[c] for c in self.ch if c in div}

        def partial_widths(self):
            return {}

        def constraints(self):
            return {}

        # annihilating
        def list_annihilation_final_states(self):
            return list(self.ch)

        def annihilation_cross_section_funcs(self):
            return {c: (lambda ecm, i=i: self.rate(i, ecm)) for i, c in enumerate(self.ch)}

        # decaying
        def list_decay_final_states(self):
            return list(self.ch)

        def _decay_widths(self):
            return {c: self.rate(i, None) for i, c in enumerate(self.ch)}

        def _funcs(self, particle):
            if base is TheoryAnn:
                return {c: (lambda e, ecm, i=i: self.dnde(particle, i, e, ecm)) for i, c in enumerate(self.ch)}
            return {c: (lambda e, i=i: self.dnde(particle, i, e, None)) for i, c in enumerate(self.ch)}

        def _spectrum_funcs(self):
            return self._funcs("g")

        def _positron_spectrum_funcs(self):
            return self._funcs("p")

        if base is TheoryAnn:
            def _gamma_ray_line_energies(self, ecm):
                return self.line("g", ecm)

            def _positron_line_energies(self, ecm):
                return self.line("p", ecm)
        else:
            def _gamma_ray_line_energies(self):
                return self.line("g", self.mx)

            def _positron_line_energies(self):
                return self.line("p", self.mx)
    return Model()


def snapshot(m):
    return repr((m.ch, float(m.mx), [float(x) for x in m.a], m.thr, m.p, m.q, m.u, m.v))


def flat(x):
    return vec(np.atleast_1d(np.asarray(x, dtype=float)))


def query(m, o):
    ann = m.kind == "ann"
    ecm = fval(o["ecm"])
    if o["op"] == "rates":
        r = m.annihilation_cross_sections(ecm) if ann else m.decay_widths()
        return {k: num(v) for k, v in r.items()}
    if o["op"] == "bfs":
        r = m.annihilation_branching_fractions(ecm) if ann else m.decay_branching_fractions()
        return {k: num(v) for k, v in r.items()}
    g = o["particle"] == "g"
    args = (ecm,) if ann else ()
    if o["op"] == "lines":
        r = (m.gamma_ray_lines if g else m.positron_lines)(*args)
        return {c: {"energy": num(d["energy"]), "bf": num(d["bf"])} for c, d in r.items()}
    es = o["_es"]
    if o["op"] == "spectra":
        r = (m.spectra if g else m.positron_spectra)(es, *args)
        return {c: flat(v) for c, v in r.items()}
    if o["op"] == "funcs":
        r = (m.spectrum_funcs if g else m.positron_spectrum_funcs)()
        return {c: flat(f(es, *args)) for c, f in r.items()}
    return flat((m.total_spectrum if g else m.total_positron_spectrum)(es, *args))


def perform(behaviour):
    """The recorded trace of one behaviour."""
    out, m = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            m = make_model(o["st"])
        elif o["op"] == "set":
            getattr(m, o["f"])[o["i"] - 1] = fval(o["x"])
        elif o["op"] == "setmx":
            m.mx = fval(o["x"])
        else:
            q = dict(o)
            if "es" in o:
                q["_es"] = fval(o["es"][0]) if o["form"] == "scalar" else np.array([fval(x) for x in o["es"]])
                before = np.array(q["_es"], copy=True)
            snap = snapshot(m)
            e["out"], r = attempt(lambda: query(m, q))
            e["res"] = r if e["out"] == "ok" else {"error": r}
            e["kept"] = num("es" not in o or bool(np.array_equal(before, q["_es"])))
            e["same"] = num(snap == snapshot(m))
        out.append(e)
    return out
