"""C07: scans of parameter planes."""
import numpy as np

from common import SEED, TIER, attempt, fval, mat, num, pmap
import limits_checks
import limits_driver


def make(st):
    from hazma.theory import TheoryAnn

    class Model(TheoryAnn):
        def __init__(self):
            self._x, self._y, self.z = (fval(st[k]) for k in "xyz")
            self.link = st["link"]

        @property
        def y(self):
            return self._y

        @y.setter
        def y(self, v):
            self._y = v
            if self.link:
                self._x = self._x + v

        @property
        def x(self):
            return self._x

        @x.setter
        def x(self, v):
            self._x, self.z = v, v + 1

        def constraints(self):
            return {"k1": lambda: 3 * self.x - self.y, "k2": lambda: self.z * self.y - 5}
    return Model()


def perform(behaviour):
    out, m = [], None
    for o in behaviour:
        e = dict(o)
        if o["op"] == "new":
            m = make(o["st"])
        elif o["op"] == "constrain":
            v1, v2 = ([fval(x) for x in o[k]] for k in ("v1", "v2"))
            if o["form"] == "array":
                v1, v2 = np.array(v1), np.array(v2)
            before = [list(v1), list(v2)]
            e["out"], r = attempt(lambda: {k: mat(v) for k, v in m.constrain(o["p1"], v1, o["p2"], v2).items()})
            e["res"] = r if e["out"] == "ok" else {"error": r}
            e["kept"] = num([list(v1), list(v2)] == before)
        else:
            g = np.array([[make(c) for c in row] for row in o["grid"]])
            e["out"], r = attempt(lambda: {k: mat(v) for k, v in m.custom_constrain(g).items()})
            e["res"] = r if e["out"] == "ok" else {"error": r}
            e["kept"] = num(all((float(c.x), float(c.y), float(c.z)) == tuple(fval(w[k]) for k in "xyz")
                                for row, wr in zip(g, o["grid"]) for c, w in zip(row, wr)))
        out.append(e)
    return out


def run(check):
    r = check.explore("GridGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Transpose\n")
    check.validate("GridTrace", [perform(b) for b in r.lines("T")])
    walks = 12 if TIER == "quick" else 300
    r = check.explore("LimitsGen", limits_checks.GEN.format(walk="TRUE", depth=8, ops='"slackgrid"', inv=""),
                      args=["-simulate", f"num={walks}", "-depth", 12, "-seed", SEED], timeout=800)
    check.validate("LimitsTrace", pmap(limits_driver.perform, r.lines("B")), timeout=850)
