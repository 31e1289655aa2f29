"""C02: pdf is the density."""
from mpmath import mp
from .. import cdist
from ..cont import ContSubject, bad_number, tol_of, sens
from ..core import mpf, show, hp, INF, Inconclusive
from ..engine import Exc

RULE = ("one fact = one value of pdf compared with the independent density (>= 0, exactly 0 outside the support, "
        "value to working precision relative to the density); distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference models in mon/cdist.py state the documented distributions",
               "at an end point of the support either the one-sided limit or 0 is accepted; end points where the "
               "density diverges are not judged"]


# densities that the documented formula leaves with cancellation next to a zero of the density
FLOOR = {"benktander1": lambda p: 1 + p[0]}


class S(ContSubject):
    fns = ("pdf",)
    what = "pdf"
    quick = 600
    thorough = 12000
    tshards = 2

    def __init__(self, name):
        super().__init__(name)
        if self.d.slow:
            self.quick, self.thorough = 150, 1500

    def gen(self, rng):
        for _ in range(20):
            c = super().gen(rng)
            if abs(c["x"]) != float("inf"):
                return c

    def valid(self, case):
        return abs(case["x"]) != float("inf") and super().valid(case)

    def observe(self, case, call):
        return {self.what: call(getattr(self.m, self.what), case["x"], *self.params(case))}

    def judge(self, case, obs):
        d, p, x, dps = self.d, self.params(case), case["x"], case["dps"]
        got = obs[self.what]
        with mp.workdps(dps + 15):
            a, b = d.support(*p)
            atend = mpf(x) == a or mpf(x) == b
            out = mpf(x) < a or mpf(x) > b
            if d.name == "cosine" and abs(abs(mpf(x)) - mp.pi) < mpf(10) ** (-dps):
                raise Inconclusive("x is a float next to pi")
        ref = hp(lambda: getattr(d, self.what)(mpf(x), *p), dps + 5)
        log = self.what == "logpdf"
        if atend and ref == INF:
            return 0, []
        if d.name == "genexpon" and out and isinstance(got, Exc) and got.type == "ValueError":
            return 1, []
        ctx = f"{self.what}({x!r}, *{p!r}) at dps={dps}"
        bad = bad_number(got)
        if bad:
            return 1, [(self.what, f"{ctx}: {bad}" + (" (end point)" if atend else ""))]
        with mp.workdps(dps + 15):
            tol = tol_of(dps)
            if got == ref:
                return 1, []
            if atend and got == (mp.ninf if log else 0):
                return 1, []
            if log:
                if mp.isinf(ref) or mp.isinf(got):
                    return 1, [(self.what, f"{ctx} = {show(got)}, log density is {show(ref)}")]
                lim = tol * (1 + abs(ref))
                if d.name in FLOOR:
                    lim += tol / 100 * FLOOR[d.name](p) / mp.exp(ref)
                err = abs(got - ref)
            else:
                if ref == 0 or mp.isinf(got):
                    return 1, [(self.what, f"{ctx} = {show(got)}, density is {show(ref)}")]
                lim = tol * ref * (1 + abs(mp.log(ref)))
                if d.name in FLOOR:
                    lim += tol / 100 * FLOOR[d.name](p)
                err = abs(got - ref)
            if err <= lim:
                return 1, []
            if not atend:
                lim += 100 * sens(d, getattr(d, self.what), x, p, dps)
        if err <= lim:
            return 1, []
        return 1, [(self.what, f"{ctx} = {show(got)}, density model says {show(ref)}")]


def subjects(tier):
    return [s for s in (S(n) for n in cdist.D) if s.have]
