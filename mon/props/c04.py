"""C04: invcdf / invsf invert cdf / sf."""
import math
from mpmath import mp
from .. import cdist
from ..cont import ContSubject, bad_number, tol_of, lib, DPS
from ..core import mpf, show, hp, INF, short, logu, unif
from ..engine import Subject, Exc

RULE = ("one fact = one quantile x = invcdf(p) or invsf(p) whose true probability (independent model) was compared "
        "with p, or the exact support end at p = 0 or 1; distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference models in mon/cdist.py state the documented distributions",
               "x is accepted when its exact probability differs from p by no more than rounding x itself explains"]

# solvers that work on the probability with an absolute tolerance: accuracy is absolute in p
ABS = set()
SLOW = {"chi2", "gamma", "loggamma", "argus", "maxwell", "nakagami", "f", "invgamma", "invgauss", "betaprime", "beta",
        "studentt", "rel_breitwigner", "slash", "cosine", "chi", "invchi2"}
VSLOW = {"chi2", "argus"}


def gen_p(rng):
    r = rng.random()
    if r < 0.35:
        return unif(rng, 0.001, 0.999)
    if r < 0.45:
        return rng.choice([0.5, 0.25, 0.75, 0.125, 0.9, 0.1, 0.01, 0.99, 0.95])
    if r < 0.65:
        return logu(rng, 1e-25, 1e-2)
    if r < 0.8:
        return 1.0 - 2.0 ** -rng.choice([4, 8, 12, 20, 30, 40, 52])
    if r < 0.9:
        return rng.choice([0, 1, 0.0, 1.0])
    return unif(rng, 0.4, 0.6)


class S(ContSubject):
    fns = ("invcdf", "invsf")
    quick = 500
    thorough = 8000
    tshards = 4
    cost = 2.0

    def __init__(self, name, tier):
        super().__init__(name)
        if name in SLOW:
            self.quick, self.thorough = 60, 1200
            self.cost = 9.0
            self.gbudget = 50 if tier == "quick" else 600
            if name in VSLOW:
                self.quick, self.thorough = 30, 400
                self.gbudget = 25 if tier == "quick" else 300
        else:
            self.gbudget = 500 if tier == "quick" else 4000

    def fill(self, rng, case, p):
        q = gen_p(rng)
        case["p"] = q
        case["_s"] = "end" if q in (0, 1) else ("lower" if q < 1e-3 else "upper" if q > 0.999 else "bulk")
        return case

    def valid(self, case):
        q = case["p"]
        if not (0 <= q <= 1) or (0 < q < 1e-30):
            return False
        return super().valid(case)

    def observe(self, case, call):
        prm = self.params(case)
        return {f: call(getattr(self.m, f), case["p"], *prm) for f in self.have}

    def judge(self, case, obs):
        d, prm, q, dps = self.d, self.params(case), case["p"], case["dps"]
        out = []
        facts = 0
        for f in self.have:
            x = obs[f]
            facts += 1
            ctx = f"{f}({q!r}, *{prm!r}) at dps={dps}"
            bad = bad_number(x)
            if bad:
                out.append((f + ("-end" if q in (0, 1) else ""), f"{ctx}: {bad}"))
                continue
            which = f[3:]
            with mp.workdps(dps + 20):
                a, b = d.support(*prm)
                if q in (0, 1):
                    want = a if (q == 0) == (which == "cdf") else b
                    if x != want and not (mp.isfinite(want) and
                                          abs(x - want) <= tol_of(dps, 3) * (abs(want) + abs(b - a if mp.isfinite(b - a) else 0))):
                        out.append((f + "-end", f"{ctx} = {show(x)}, support end is {show(want)}"))
                    continue
                slack = tol_of(dps, 2) * max(abs(t) if mp.isfinite(t) else mp.zero for t in (a, b))
                if mp.isinf(x) or x < a - slack or x > b + slack:
                    out.append((f, f"{ctx} = {show(x)} is outside the support [{show(a)}, {show(b)}]"))
                    continue
                loc, scale, shape = d.std(*prm)
            F = hp(lambda: getattr(d, which)(mpf(x), *prm), dps + 8)
            dens = hp(lambda: d.pdf(mpf(x), *prm), 8) if a < x < b else mp.zero
            if not mp.isfinite(dens):
                dens = mp.zero
            with mp.workdps(dps + 20):
                qq = mpf(q)
                err = abs(F - qq)
                xerr = mpf(10) ** (-dps) * (abs(x) + abs(loc) + (abs(scale) if d.name in ABSX else 0))
                lim = tol_of(dps) * qq * (1 + abs(mp.log(qq)))
                if f"{self.name}.{f}" in ABS:
                    lim = tol_of(dps, 5)
                lim += 100 * dens * xerr
                if err > lim:
                    # rounding of x right next to a singular end point can move F a lot
                    lo = getattr(d, which)(max(mpf(x) - 10 * xerr, a), *prm)
                    hi = getattr(d, which)(min(mpf(x) + 10 * xerr, b), *prm)
                    if not (min(lo, hi) - lim <= qq <= max(lo, hi) + lim):
                        out.append((f, f"{ctx} = {show(x)} but {which} there is {show(F)}"))
        return facts, out


ABSX = set()


class InvK(Subject):
    """chi2.invcdf_k / invsf_k: solve for the degrees of freedom."""
    name = "chi2.k"
    quick = 25
    thorough = 300
    tshards = 2
    cost = 9.0
    only = ("distributions/chi2.py", "_common")

    def __init__(self, tier):
        self.m = lib("chi2")
        self.d = cdist.D["chi2"]
        self.gbudget = 15 if tier == "quick" else 150

    def gen(self, rng):
        return dict(dps=rng.choice([15, 20, 30, 50]), x=logu(rng, 0.05, 80), p=unif(rng, 0.001, 0.999), _s="bulk")

    def valid(self, c):
        return 0.01 <= c["x"] <= 200 and 1e-6 <= c["p"] <= 1 - 1e-6

    def observe(self, case, call):
        return {f: call(getattr(self.m, f), case["x"], case["p"]) for f in ("invcdf_k", "invsf_k")}

    def judge(self, case, obs):
        out = []
        for f, which in (("invcdf_k", "cdf"), ("invsf_k", "sf")):
            k = obs[f]
            ctx = f"{f}({case['x']!r}, {case['p']!r}) at dps={case['dps']}"
            bad = bad_number(k)
            if bad:
                out.append((f, f"{ctx}: {bad}"))
                continue
            if k <= 0:
                out.append((f, f"{ctx} = {show(k)} is not positive"))
                continue
            F = hp(lambda: getattr(self.d, which)(mpf(case["x"]), k), case["dps"] + 5)
            with mp.workdps(case["dps"] + 10):
                if abs(F - mpf(case["p"])) > tol_of(case["dps"], 4):
                    out.append((f, f"{ctx} = {show(k)} but {which}(x, k) = {show(F)}"))
        return 2, out


def subjects(tier):
    return [s for s in (S(n, tier) for n in cdist.D) if s.have] + [InvK(tier)]
