"""C01: cdf and sf of continuous distributions are the tail probabilities."""
from mpmath import mp
from .. import cdist
from ..cont import ContSubject, ref_tail, bad_number, tol_of
from ..engine import Exc
from ..core import mpf, show, relerr

RULE = ("one fact = one value of cdf or sf of a continuous distribution compared with the independent model "
        "(range, exact 0/1 outside the support, value to working precision) or cdf+sf=1; "
        "distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference models in mon/cdist.py state the documented distributions"]

# functions that the library computes as a complement or by a formula keeping only
# absolute accuracy in (one of) the tails
ABS = {"argus.cdf", "benktander1.cdf", "beta.sf", "cosine.cdf", "cosine.sf", "exponweib.sf",
       "folded_normal.cdf", "gamma_gompertz.cdf", "kumaraswamy.cdf", "pareto.cdf", "genpareto.cdf", "power_normal.cdf",
       "rice.cdf", "rice.sf", "ncx2.cdf", "ncx2.sf", "ncf.cdf", "invgauss.sf",
       "genhyperbolic.cdf", "genhyperbolic.sf", "geninvgauss.cdf", "geninvgauss.sf"}
# computed by mpmath.quad: the attainable accuracy is that of the quadrature rule
QUAD = {"rice", "ncx2", "genhyperbolic", "geninvgauss"}


class S(ContSubject):
    fns = ("cdf", "sf")
    quick = 600
    thorough = 12000
    tshards = 2

    def __init__(self, name, tier="quick"):
        super().__init__(name)
        if self.d.slow:
            self.quick, self.thorough = 40, 400
            self.tshards = 4
        if not self.d.has_cdf:
            self.quick, self.thorough = (3, 50) if name == "genhyperbolic" else (12, 100)
            self.shards = 6 if name == "genhyperbolic" else 1
            self.tshards = 6
            self.gbudget = 4 if tier == "quick" else 60
            self.cost = 20.0

    def gen(self, rng):
        case = super().gen(rng)
        if not self.d.has_cdf:
            case["dps"] = 15
        return case

    def valid(self, case):
        return super().valid(case) and (self.d.has_cdf or case["dps"] <= 18)

    def observe(self, case, call):
        p = self.params(case)
        return {f: call(getattr(self.m, f), case["x"], *p) for f in self.have}

    def judge(self, case, obs):
        p = self.params(case)
        x = case["x"]
        dps = case["dps"]
        out = []
        facts = 0
        vals = {}
        with mp.workdps(dps + 15):      # sensitivity of the probabilities to rounding of z
            loc, scale, shape = self.d.std(*p)
            cond = mp.zero
            if not mp.isinf(x):
                cond = abs(mpf(x) - loc) * self.d.pdf(mpf(x), *p)
                if not mp.isfinite(cond):
                    cond = mp.zero
        for f in self.have:
            got = obs[f]
            if self.name == "genexpon" and x < p[3] and isinstance(got, Exc) and got.type == "ValueError":
                facts += 1        # documented: x below loc is rejected
                continue
            facts += 1
            bad = bad_number(got)
            if bad:
                out.append((f, f"{f}({x!r}, *{p!r}) at dps={dps}: {bad}"))
                continue
            vals[f] = got
            ref = ref_tail(self.d, f, x, p, dps + 5 if self.d.has_cdf else dps - 2)
            mode = "abs" if f"{self.name}.{f}" in ABS else "rel"
            with mp.workdps(dps + 15):
                tol = tol_of(dps) if self.name not in QUAD else tol_of(dps, 7)
                if got < 0 or got > 1:
                    # tolerate rounding noise only where the function keeps absolute accuracy
                    if got < (0 if mode == "rel" else -tol) or got > 1 + tol / 100:
                        out.append((f, f"{f}({x!r}, *{p!r}) at dps={dps} = {show(got)} is outside [0,1]"))
                        continue
                if ref == 0 or ref == 1:
                    ok = (got == ref or (mode == "abs" and not mp.isinf(x) and abs(got - ref) < mpf(10)**(-dps))
                          or (self.name in QUAD and abs(got - ref) < tol))
                elif mode == "abs":
                    ok = abs(got - ref) <= tol
                else:
                    ok = abs(got - ref) <= tol * ref * (1 + abs(mp.log(ref))) + tol / 100 * cond
                if not ok:
                    out.append((f, f"{f}({x!r}, *{p!r}) at dps={dps} = {show(got)}, distribution says {show(ref)}"))
        if len(vals) == 2:
            facts += 1
            with mp.workdps(dps + 15):
                s = vals["cdf"] + vals["sf"]
                if abs(s - 1) > tol_of(dps, 4 if self.name not in QUAD else 7):
                    out.append(("sum", f"cdf+sf at x={x!r}, params {p!r}, dps={dps} is {show(s)}"))
        return facts, out


def subjects(tier):
    return [s for s in (S(n, tier) for n in cdist.D) if s.have]
