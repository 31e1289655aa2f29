"""C05: mean, var, skewness, kurtosis and noncentral moments match the density."""
from mpmath import mp
from .. import cdist, moments
from ..cont import ContSubject, bad_number, tol_of
from ..core import mpf, show, INF, Inconclusive
from ..engine import Exc

RULE = ("one fact = one value of mean/var/skewness/kurtosis/noncentral_moment compared with the integral of the model "
        "density (adaptive double-exponential quadrature), or found non-finite where the moment does not exist; "
        "distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference densities in mon/cdist.py state the documented distributions",
               "moment values are compared to at most 22 digits; C16 covers higher precisions",
               "where the closed form is a difference of terms, cancellation of those terms is allowed for"]

ORDER = {"mean": 1, "var": 2, "skewness": 3, "kurtosis": 4}
SLOW = {"genhyperbolic", "ncf", "nct", "ncx2", "rice", "geninvgauss"}
# size of the terms a closed form subtracts, relative to E|z|^n (removable singularities)
AMP = {
    "genextreme": lambda n, xi: (1 / abs(xi)) ** n if xi != 0 else 1,
    "tukeylambda": lambda n, lam: (1 / abs(lam)) ** n if lam != 0 else 1,
    "genpareto": lambda n, xi: 1,
    "truncnorm": lambda n, a, b: 1 + _tn(a, b) ** n,
    "argus": lambda n, chi: (1 + 1 / chi ** (3 * n)) if chi != 0 else 1,
    "gamma_gompertz": lambda n, c, b: 1 + b,
    "benktander1": lambda n, a, b: 1 + mp.exp(((a - 1) / (2 * mp.sqrt(b))) ** 2),
    "geninvgauss": lambda n, p, b: 1 + abs(p) / b,
}


def _tn(a, b):
    fin = [abs(t) for t in (a, b) if mp.isfinite(t)]
    m = max(fin) if fin else 0
    return m + (1 / (b - a) if mp.isfinite(b - a) else 0)


class S(ContSubject):
    fns = ("mean", "var", "skewness", "kurtosis", "noncentral_moment")
    quick = 30
    thorough = 500
    tshards = 2
    jsec = 12
    cost = 2.0

    def __init__(self, name, tier):
        super().__init__(name)
        self.gbudget = 100 if tier == "quick" else 1500
        self.gtime = 8 if tier == "quick" else 120
        if name in SLOW:
            self.quick, self.thorough = 5, 80
            self.shards, self.cost = 2, 8.0
            self.gbudget = 10 if tier == "quick" else 150
        if name == "genhyperbolic":
            self.quick, self.thorough = 4, 24
        if name == "exponweib":
            self.quick, self.thorough, self.gbudget, self.shards, self.cost = 10, 100, 10, 2, 9.0

    def fill(self, rng, case, p):
        case["dps"] = rng.choice([15, 15, 20, 25, 30, 50])
        if self.name == "exponweib":
            case["dps"] = 15
        case["n"] = rng.choice([0, 1, 2, 2, 3, 4, 5])
        case["_s"] = "random"
        return case

    intgenes = ("n",)

    def valid(self, case):
        return 0 <= case["n"] <= 8 and super().valid(case) and (self.name != "exponweib" or case["dps"] <= 20)

    def observe(self, case, call):
        p = self.params(case)
        o = {}
        for f in self.have:
            o[f] = call(self.m.noncentral_moment, case["n"], *p) if f == "noncentral_moment" else call(getattr(self.m, f), *p)
        return o

    def judge(self, case, obs):
        d, p, dps = self.d, self.params(case), case["dps"]
        rd = min(dps, 22 if self.name not in SLOW else 16)
        out, facts = [], 0
        with mp.workdps(rd + 15):
            loc, scale, shape = d.std(*p)
            mm = d.maxmom(shape)
            need = [case["n"] if f == "noncentral_moment" else ORDER[f] for f in self.have]
            kmax = max([n for n in need if mm - n >= mpf("0.02")], default=0)
            D = rd + 5
            while kmax:
                R, AA = moments.table(d, shape, kmax, D)
                if kmax == 1:
                    break
                v2 = R[2] - R[1] ** 2
                loss = int(mp.log10(AA[2] / max(v2, AA[2] * mpf(10) ** -60)) * kmax / 2) + 2
                if D - loss >= rd + 2:
                    break
                D = rd + 4 + loss
            A = lambda n: AA[n] if n else mp.one
            memo = {}

            def C(n):
                if n == 1:
                    return R[1]
                if n not in memo:
                    with mp.workdps(D + 10):
                        memo[n] = mp.fsum(mp.binomial(n, k) * (R[k] if k else 1) * (-R[1]) ** (n - k) for k in range(n + 1))
                return memo[n]

            amp = AMP.get(self.name, lambda n, *s: 1)
            for f in self.have:
                v = obs[f]
                n = case["n"] if f == "noncentral_moment" else ORDER[f]
                args = (case["n"],) + p if f == "noncentral_moment" else p
                ctx = f"{f}{args!r} at dps={dps}"
                if n >= mm and n > 0:
                    facts += 1
                    if isinstance(v, Exc) or isinstance(v, (mp.mpc, complex)):
                        out.append((f, f"{ctx}: moment does not exist; got {v!r}"))
                    elif mp.isfinite(v):
                        out.append((f, f"{ctx} = {show(v)} but the moment does not exist (order {n} >= {show(mm)})"))
                    continue
                bad = bad_number(v)
                if bad:
                    facts += 1
                    out.append((f, f"{ctx}: {bad}"))
                    continue
                if mm - n < mpf("0.02"):
                    continue
                eps0, eps1 = mpf(10) ** (2 - rd), mpf(10) ** (-2 - dps)
                try:
                    if f == "mean":
                        want = loc + scale * C(1)
                        lim = eps0 * (abs(want) + 0) + (eps1 * amp(1, *shape) + mpf(10) ** (-rd)) * (abs(loc) + scale * A(1))
                    elif f == "var":
                        want = scale ** 2 * C(2)
                        lim = eps0 * want + eps1 * amp(2, *shape) * scale ** 2 * A(2)
                    elif f in ("skewness", "kurtosis"):
                        want = C(n) / C(2) ** (mpf(n) / 2)
                        r = (A(2) / C(2))
                        lim = eps0 * (1 + abs(want)) + eps1 * amp(n, *shape) * (A(n) / C(2) ** (mpf(n) / 2) + (1 + abs(want)) * r)
                        if f == "kurtosis":
                            want -= 3
                    else:
                        want = sum(mp.binomial(n, k) * loc ** (n - k) * scale ** k * (R[k] if k else 1) for k in range(n + 1))
                        sz = sum(mp.binomial(n, k) * abs(loc) ** (n - k) * scale ** k * A(k) for k in range(n + 1))
                        lim = eps0 * abs(want) + (eps1 * amp(n, *shape) + mpf(10) ** (-rd)) * sz
                except ZeroDivisionError:
                    raise Inconclusive("reference degenerate")
                if lim > mpf(10) ** -4 * max(abs(want), mpf(10) ** -2 if f in ("skewness", "kurtosis") else 0) and f != "mean":
                    continue
                facts += 1
                if not abs(v - want) <= lim:
                    out.append((f, f"{ctx} = {show(v)}, integral of the density gives {show(want)}"))
        return facts, out


def subjects(tier):
    return [s for s in (S(n, tier) for n in cdist.D) if s.have]
