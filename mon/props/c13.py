"""C13: the distribution with the parameters returned by mom has the mean and variance of the sample."""
import math
from mpmath import mp
from ..cont import bad_number, lib
from ..core import mpf, show, unif, logu, rng_for
from ..engine import Subject, Exc

RULE = ("one fact = the mean or the variance of the fitted distribution (closed form written in this file) compared with the "
        "sample's, or a permuted sample leading to the same parameters; distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["population moments of the eight distributions as written in mon/props/c13.py",
               "the variance uses the divisor n, as documented by the moment equations"]
MV = {
    "beta": lambda a, b: (a / (a + b), a * b / ((a + b) ** 2 * (a + b + 1))),
    "gamma": lambda k, s: (k * s, k * s * s),
    "gumbel_max": lambda l, s: (l + s * mp.euler, (mp.pi * s) ** 2 / 6),
    "gumbel_min": lambda l, s: (l - s * mp.euler, (mp.pi * s) ** 2 / 6),
    "laplace": lambda l, s: (l, 2 * s * s),
    "logistic": lambda l, s: (l, (mp.pi * s) ** 2 / 3),
    "lognormal": lambda m, s: (mp.exp(m + s * s / 2), mp.expm1(s * s) * mp.exp(2 * m + s * s)),
    "uniform": lambda a, b: ((a + b) / 2, (b - a) ** 2 / 12),
}
SHAPEPOS = {"beta": (0, 1), "gamma": (0, 1), "gumbel_max": (1,), "gumbel_min": (1,), "laplace": (1,), "logistic": (1,),
            "lognormal": (1,), "uniform": ()}


class S(Subject):
    quick = 1200
    thorough = 20000

    def __init__(self, name, tier):
        self.name, self.m = name, lib(name)
        self.only = (f"distributions/{name}.py", "_common", "stats/_basic")
        self.gbudget = 300 if tier == "quick" else 2000
        self.gtime = 8

    def gen(self, rng):
        n = rng.choice([2, 2, 3, 4, 5, 6, 8, 10, 20, 40])
        c, w = unif(rng, -100, 100), logu(rng, 1e-3, 100)
        kind = rng.choice(["uniform", "normal", "int", "outlier", "tight"])
        xs = []
        for _ in range(n):
            if self.name == "beta":
                x = rng.choice([rng.random(), rng.betavariate(.3, .3), 2.0 ** -rng.randint(1, 20), rng.betavariate(20, 3), round(rng.random(), 2)])
            elif self.name in ("gamma", "lognormal"):
                x = rng.choice([rng.lognormvariate(0, w % 3), abs(c) + w * rng.random(), rng.randint(1, 20), logu(rng, 1e-5, 1e5)])
            elif kind == "uniform":
                x = c + w * rng.random()
            elif kind == "normal":
                x = rng.gauss(c, w)
            elif kind == "int":
                x = rng.randint(-20, 20)
            elif kind == "outlier":
                x = rng.gauss(0, 1) * rng.choice([1, 1, 1, 1000])
            else:
                x = c + rng.randint(0, 3) * 2.0 ** -30
            xs.append(x)
            if len(xs) < n and rng.random() < 0.1:
                xs.append(x)
        return dict(dps=rng.choice([15, 15, 20, 30, 50, 80]), x=xs[:max(n, 2)], _s=kind)

    def valid(self, case):
        xs = case["x"]
        if len(xs) < 2 or len(set(xs)) < 2:
            return False
        if not all(isinstance(t, (int, float)) and math.isfinite(t) and abs(t) < 1e9 for t in xs):
            return False
        if self.name == "beta":
            return all(0 < t < 1 for t in xs)
        if self.name in ("gamma", "lognormal"):
            return all(1e-9 < t for t in xs)
        return True

    def observe(self, case, call):
        ys = list(case["x"])
        rng_for(len(ys), ys[0]).shuffle(ys)
        return {"mom": call(self.m.mom, list(case["x"])), "perm": call(self.m.mom, ys),
                "tuple": call(self.m.mom, tuple(mpf(t) for t in case["x"]))}

    def judge(self, case, obs):
        xs, dps = case["x"], case["dps"]
        out, facts = [], 0
        with mp.workdps(4 * dps + 60):
            n = len(xs)
            m = mp.fsum(xs) / n
            v = mp.fsum([(mpf(t) - m) ** 2 for t in xs]) / n
            m2 = mp.fsum([mpf(t) ** 2 for t in xs]) / n
            cond = m2 / v
            tol = mpf(10) ** (2 - dps)
            if cond > mpf(10) ** (dps - 4):
                cond = mp.inf
            for which, r in obs.items():
                ctx = f"mom({xs!r}) [{which}] at dps={dps}"
                facts += 2
                if isinstance(r, Exc):
                    if mp.isinf(cond):
                        continue          # the sample is constant to working precision
                    out.append((which, f"{ctx}: {r!r}"))
                    continue
                if mp.isinf(cond):
                    continue
                try:
                    th = [t for t in r]
                except TypeError:
                    th = []
                if len(th) != 2 or any(bad_number(t) for t in th):
                    out.append((which, f"{ctx} returned {r!r:.100}"))
                    continue
                th = [mpf(t) for t in th]
                if any(not th[i] > 0 for i in SHAPEPOS[self.name]) or self.name == "uniform" and not th[0] < th[1]:
                    out.append((which, f"{ctx} = {[show(t) for t in th]}: invalid parameters"))
                    continue
                M, V = MV[self.name](*th)
                amp = cond * (1 + abs(mp.log(cond)))
                if self.name == "beta":
                    amp *= 1 + th[0] + th[1] + 1 / (1 - m)
                if self.name == "lognormal":
                    amp *= 1 + abs(th[0]) + th[1] ** 2
                if not abs(M - m) <= tol * (abs(m) + mp.sqrt(m2)) * (amp if self.name in ("lognormal", "beta") else 1):
                    out.append((which, f"{ctx} = {[show(t) for t in th]} has mean {show(M)}, the sample mean is {show(m)}"))
                if not abs(V - v) <= tol * v * amp:
                    out.append((which, f"{ctx} = {[show(t) for t in th]} has variance {show(V)}, the sample variance is {show(v)}"))
        return facts, out


def subjects(tier):
    return [S(n, tier) for n in MV]
