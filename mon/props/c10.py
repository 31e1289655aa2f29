"""C10: discrete mean, var, skewness, kurtosis, mode, median and entropy match the mass function."""
from mpmath import mp
from .. import ddist
from ..cont import bad_number, lib
from ..core import mpf, show, Inconclusive
from ..engine import Subject, Exc

RULE = ("one fact = one mean/var/skewness/kurtosis/entropy compared with the sum over the independent mass function, or one "
        "mode shown to maximise it (documented tie rule included); distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["reference mass functions in mon/ddist.py state the documented distributions",
               "infinite sums are truncated when the remaining terms are below the working precision"]
TIE = {"binomial": min, "betabinomial": min, "hypergeometric": min, "poisson": min,
       "fishers_noncentral_hypergeometric": max}


class S(Subject):
    quick = 1000
    thorough = 6000
    tshards = 2
    jsec = 20

    def __init__(self, name, tier):
        self.name, self.d, self.m = name, ddist.D[name], lib(name)
        self.only = (f"distributions/{name}.py", "_common")
        self.intgenes = tuple("p_" + n for n in self.d.params if n in ("n", "ntotal", "ngood", "nsample", "untilnbad"))
        self.gbudget = 300 if tier == "quick" else 3000
        self.gtime = 10 if tier == "quick" else 120
        self.fns = [f for f in ("mean", "var", "skewness", "kurtosis", "entropy", "mode") if hasattr(self.m, f)]
        if self.d.inf:
            self.cost, self.quick, self.thorough, self.shards = 5.0, 50, 1500, 2
        if name == "gauss_kuzmin":
            self.quick, self.thorough, self.shards = 2, 2, 1

    def params(self, case):
        return tuple(case["p_" + n] for n in self.d.params)

    def gen(self, rng):
        p = self.d.gen(rng)
        case = {"p_" + n: v for n, v in zip(self.d.params, p)}
        case["dps"] = rng.choice([15, 15, 20, 25, 30, 50])
        case["_s"] = "random"
        return case

    def valid(self, case):
        return self.d.ok(*self.params(case))

    def observe(self, case, call):
        p = self.params(case)
        return {f: call(getattr(self.m, f), *p) for f in self.fns}

    def masses(self, p):
        d = self.d
        lo, hi = d.supp(*p)
        if hi is not None:
            return [(k, d.pmf(k, *p)) for k in range(lo, hi + 1)]
        out, k = [], lo
        eps = mpf(10) ** (-mp.dps - 5)
        # ratio recursion
        t = d.pmf(lo, *p)
        while True:
            out.append((k, t))
            k += 1
            if self.name == "poisson":
                t = t * mpf(p[0]) / k
                r = mpf(p[0]) / (k + 1)
            elif self.name == "negative_binomial":
                t = t * mpf(p[1]) * (mpf(p[0]) + k - 1) / k
                r = mpf(p[1]) * (mpf(p[0]) + k) / (k + 1)
            else:
                t = t * mpf(p[0]) * (k - 1) / k
                r = mpf(p[0]) * k / (k + 1)
            if r < mpf("0.99") and t * mpf(k + 1) ** 4 / (1 - r) ** 5 < eps:
                return out

    def judge(self, case, obs):
        p, dps = self.params(case), case["dps"]
        out, facts = [], 0
        if self.name == "gauss_kuzmin":
            for f, want in (("mean", mp.inf), ("var", mp.inf), ("mode", 1)):
                facts += 1
                if obs[f] != want:
                    out.append((f, f"{f}() = {obs[f]!r}, should be {want}"))
            return facts, out
        with mp.workdps(2 * dps + 40):
            ms = self.masses(p)
            mean = mp.fsum(k * q for k, q in ms)
            c = {n: mp.fsum((k - mean) ** n * q for k, q in ms) for n in (2, 3, 4)}
            m2 = mp.fsum(k * k * q for k, q in ms)
            m4 = mp.fsum(mpf(k) ** 4 * q for k, q in ms)
            tol = mpf(10) ** (3 - dps)
            for f in self.fns:
                v = obs[f]
                ctx = f"{f}{p!r} at dps={dps}"
                if f in ("skewness", "kurtosis") and c[2] < mpf(10) ** -30:
                    continue          # point mass: not defined
                facts += 1
                bad = bad_number(v)
                if bad:
                    out.append((f, f"{ctx}: {bad}"))
                    continue
                if f == "mode":
                    top = max(q for k, q in ms)
                    best = [k for k, q in ms if q >= top * (1 - mpf(10) ** (-2 * dps - 20))]
                    near = [k for k, q in ms if q >= top * (1 - mpf(10) ** (2 - dps))]
                    if v != int(v) or int(v) not in near:
                        pv = dict(ms).get(int(v), 0)
                        out.append((f, f"{ctx} = {v!r} has mass {show(pv)}, but k = {best[0]} has {show(top)}"))
                    elif len(best) > 1 and len(near) == len(best) and self.name in TIE and int(v) != TIE[self.name](best):
                        out.append((f, f"{ctx} = {v!r}: of the tied maxima {best} the documented choice is {TIE[self.name](best)}"))
                    continue
                if f == "mean":
                    want, lim = mean, tol * abs(mean) + self.amp(p, 1) * mpf(10) ** (-dps)
                elif f == "var":
                    want, lim = c[2], tol * c[2] + (m2 + self.amp(p, 2)) * mpf(10) ** (-2 - dps)
                elif f == "skewness":
                    want = c[3] / c[2] ** mpf(1.5)
                    lim = tol * (1 + abs(want)) + mpf(10) ** (-3 - dps) * (m4 / c[2] ** 2) * self.amp(p, 3)
                elif f == "kurtosis":
                    want = c[4] / c[2] ** 2 - 3
                    lim = tol * (3 + abs(want)) + mpf(10) ** (-3 - dps) * (m4 / c[2] ** 2) * self.amp(p, 4)
                else:
                    want = -mp.fsum(q * mp.log(q) for k, q in ms if q > 0)
                    lim = tol * (1 + abs(want))
                if not abs(v - want) <= lim:
                    out.append((f, f"{ctx} = {show(v)}, sum over the mass function gives {show(want)}"))
        return facts, out

    def amp(self, p, n):
        """size of the terms the closed forms subtract"""
        if self.name == "logseries":
            return (1 / (1 - mpf(p[0]))) ** n
        if self.name == "betabinomial":
            return 1 + mpf(p[1] + p[2]) ** 2
        return mpf(1)


def subjects(tier):
    return [S(n, tier) for n in ddist.D]
