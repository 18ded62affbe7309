"""Performs PhaseSpace behaviours on hazma.phase_space."""
import numpy as np

from common import attempt, fval, num, vec


def dot2(p, i, j):
    q = p[:, i] + p[:, j]
    return q[0]**2 - q[1]**2 - q[2]**2 - q[3]**2


def element(st):
    a, b, c = map(fval, st["me"])
    n = len(st["masses"])
    if st["sig"] == "none":
        return None
    if st["cls"] == "two":
        if st["sig"] == "native":
            return lambda z: a + b * z + c * z * z

        def two(p):
            z = p[3, 0] / np.sqrt(p[1, 0]**2 + p[2, 0]**2 + p[3, 0]**2)
            return a + b * z + c * z * z
        return two
    if st["cls"] == "three" and st["sig"] == "native":
        return lambda s, t: a + b * s + c * t
    if n == 3:
        return lambda p: a + b * dot2(p, 1, 2) + c * dot2(p, 0, 2)
    return lambda p: a + b * dot2(p, 0, 1)


def make(st):
    from hazma import phase_space as ps
    q, m, me = fval(st["cme"]), [fval(x) for x in st["masses"]], element(st)
    if st["cls"] == "rambo":
        return ps.Rambo(q, m if st["cme"] == "10" else np.array(m), me)
    sig = None if st["sig"] == "none" else "momenta" if st["sig"] == "momenta" else ("z" if st["cls"] == "two" else "st")
    if st["cls"] == "two":
        from hazma.phase_space._two_body import TwoBody
        return TwoBody(q, m, me, sig)
    return ps.ThreeBody(q, m, me, sig)


def pts(p):
    return [[vec(p[:, j, i]) for j in range(p.shape[1])] for i in range(p.shape[2])]


def dists(ds):
    return [{"bins": vec(d.bins), "probs": vec(d.probabilities)} for d in ds]


def query(o, e, st):
    op = e["op"]
    if op == "points":
        p, w = o.generate(e["n"], seed=e["seed"])
        p, w = p.copy(), w.copy()
        p2, w2 = o.generate(e["n"], seed=e["seed"])
        p3, _ = o.generate(e["n"], seed=e["seed"] + 100)
        return {"ps": pts(p), "ws": vec(w), "again": bool(np.array_equal(p, p2) and np.array_equal(w, w2)),
                "other": not np.array_equal(p, p3)}
    if op == "batches":
        got = [(p.copy(), w.copy()) for p, w in o.generator(e["n"], e["b"], seed=e["seed"])]
        more = list(o.generator(e["n"], e["b"], seed=e["seed"]))
        return {"ps": [pts(p) for p, _ in got], "ws": [vec(w) for _, w in got],
                "again": len(got) == len(more) and all(np.array_equal(a[0], b[0]) for a, b in zip(got, more))}
    if op == "mc":
        n, b, s = e["n"], e["b"], e["seed"]
        ws = [vec(o.generate(n, seed=s)[1])] if b in (0, n) else [vec(w) for _, w in o.generator(n, b, seed=s)]
        kw = dict(batch_size=b or None, seed=s)
        v, err = {"integral": lambda: o.integrate(n, **kw), "width": lambda: o.decay_width(n, **kw),
                  "xs": lambda: o.cross_section(fval(e["m1"]), fval(e["m2"]), n, **kw)}[e["what"]]()
        return {"value": num(v), "error": num(err), "ws": ws}
    if op == "volume":
        if st["cls"] == "rambo":
            v, err = o.integrate(20000, seed=7)
        elif st["cls"] == "two":
            v, err = o.integrate()
        else:
            v, err = o.integrate(method=e["method"], npts=20000)
        return {"value": num(v), "error": num(err)}
    if op in ("edist", "idist"):
        res = {}
        if e["method"] == "quad":
            d = o.energy_distributions(e["nbins"]) if op == "edist" else o.invariant_mass_distributions(e["nbins"])
        else:
            n, b, s = e["n"], e["b"], e["seed"]
            got = [o.generate(n, seed=s)] if b in (0, n) else list(o.generator(n, b, seed=s))
            res["ps"] = [q for p, _ in got for q in pts(p)]
            res["ws"] = [x for _, w in got for x in vec(w)]
            f = o.energy_distributions if op == "edist" else o.invariant_mass_distributions
            d = f(n, e["nbins"], batch_size=b or None, seed=s)
        if op == "edist":
            res["d"] = dists(d)
        else:
            res["d"] = [dict(x, pair=[int(a) for a in k]) for k, x in zip(d.keys(), dists(d.values()))]
        return res
    from hazma.phase_space import PhaseSpaceDistribution1D
    x, y, c = (np.array([fval(v) for v in vs]) for vs in (e["d"]["xs"], e["d"]["ys"], e["f"]))
    x0, y0 = x.copy(), y.copy()
    d = PhaseSpaceDistribution1D(x, y)

    def f(v, scale=1.0):
        return scale * sum(a * v**k for k, a in enumerate(c))
    at = np.linspace(x[0] - 0.25, x[-1] + 0.25, 9)
    lim = d.limits()
    bad = attempt(lambda: d.expect(f, method="other"))
    return {"bins": vec(d.bins), "probs": vec(d.probabilities), "centres": vec(d.bin_centers), "limits": vec(lim), "len": len(d),
            "xs": vec(at), "at": vec(d(at)), "trapz": num(d.expect(f)), "args": num(d.expect(f, args=(3.0,))),
            "vector": vec(d.expect(lambda v: np.array([f(v), 2 * f(v)]))), "simps": num(d.expect(f, method="simps")),
            "quad": num(d.expect(f, method="quad")), "bad": bad == ("raise", "ValueError"),
            "kept": bool(np.array_equal(x, x0) and np.array_equal(y, y0))}


def perform(behaviour):
    out, o, st = [], None, None
    for op in behaviour:
        e = dict(op)
        if op["op"] == "new":
            st = dict(op["st"])
            e["out"], o = attempt(lambda: make(st))
        elif op["op"] in ("cme", "masses", "me"):
            st[op["op"]] = op["x"]
            if op["op"] == "cme":
                v = fval(op["x"])
            elif op["op"] == "masses":
                v = np.array([fval(x) for x in op["x"]])
            else:
                v = element(st)
            if op["op"] == "masses" and st["cls"] != "two" and st["sig"] != "none" and st["cls"] == "rambo" and \
                    (len(op["x"]) == 3) != (o.masses.size == 3):
                # the squared matrix element follows the number of particles: a new integrator
                e = {"op": "new", "st": dict(st)}
                e["out"], o = attempt(lambda: make(st))
            else:
                e["out"], _ = attempt(lambda: setattr(o, "msqrd" if op["op"] == "me" else op["op"], v))
        else:
            e["out"], r = attempt(lambda: query(o, e, st))
            e["res"] = r if e["out"] == "ok" else {"error": r}
        out.append(e)
    return out
