"""C12: mle returns a maximiser of the likelihood and keeps fixed parameters."""
import math
from mpmath import mp
from .. import cdist, ddist
from ..cont import bad_number, lib
from ..core import mpf, show, hp, unif, logu, rng_for, Inconclusive
from ..engine import Subject, Exc

RULE = ("one fact = one mle call judged: parameters valid, fixed ones unchanged, no tested neighbouring parameter vector "
        "(coordinate, random, Newton and curvature directions at several step sizes) with a larger reference likelihood; or one "
        "permuted / counts= call leading to the same likelihood; distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["reference densities in mon/cdist.py and mon/ddist.py state the documented distributions",
               "a data set on which mle raises has no answer to judge (the docstrings say the solvers may fail to converge), "
               "except for the estimators listed in ALWAYS, which return for every ordinary sample"]


def _u(r):
    return r.random() * 0.9998 + 0.0001


def _lg(r, k):
    """log of a gamma(k) variate (small k does not underflow)"""
    return math.log(r.gammavariate(k + 1, 1)) + math.log(_u(r)) / k


SAMPLE = {
    "benktander1": lambda r, a, b: 1 + r.expovariate(a) * (1 + r.random()),
    "beta": lambda r, a, b: r.betavariate(a, b),
    "betaprime": lambda r, a, b, s: s * math.exp(_lg(r, a) - _lg(r, b)),
    "burr12": lambda r, c, d, s: s * ((1 - _u(r)) ** (-1 / d) - 1) ** (1 / c),
    "gamma": lambda r, k, s: s * math.exp(_lg(r, k)),
    "gompertz": lambda r, c, s: s * math.log(1 - math.log(_u(r)) / c),
    "gumbel_max": lambda r, l, s: l - s * math.log(-math.log(_u(r))),
    "gumbel_min": lambda r, l, s: l + s * math.log(-math.log(_u(r))),
    "hypsecant": lambda r, l, s: l + s * math.log(math.tan(math.pi * _u(r) / 2)),
    "kumaraswamy": lambda r, a, b: (1 - (1 - _u(r)) ** (1 / b)) ** (1 / a),
    "laplace": lambda r, l, s: l + s * r.expovariate(1) * r.choice([1, -1]),
    "loggamma": lambda r, k, t: t * _lg(r, k),
    "logistic": lambda r, l, s: l + s * math.log(1 / _u(r) - 1),
    "lognormal": lambda r, m, s: math.exp(r.gauss(m, s)),
    "nakagami": lambda r, nu, l, s: l + s * math.exp(_lg(r, nu) / 2) / math.sqrt(nu),
    "normal": lambda r, m, s: r.gauss(m, s),
    "pareto": lambda r, b, l, s: l + s * _u(r) ** (-1 / b),
    "uniform": lambda r, a, b: r.uniform(a, b),
    "weibull_max": lambda r, k, l, s: l - s * (-math.log(_u(r))) ** (1 / k),
    "weibull_min": lambda r, k, l, s: l + s * (-math.log(_u(r))) ** (1 / k),
}
# moderate true parameters for the samples
TRUE = {
    "benktander1": lambda r: (unif(r, 0.5, 4), unif(r, 0.1, 0.3)),
    "beta": lambda r: (logu(r, 0.3, 12), logu(r, 0.3, 12)),
    "betaprime": lambda r: (logu(r, 0.5, 8), logu(r, 0.5, 8), logu(r, 0.2, 5)),
    "burr12": lambda r: (logu(r, 0.4, 6), logu(r, 0.3, 6), logu(r, 0.2, 5)),
    "gamma": lambda r: (logu(r, 0.2, 30), logu(r, 0.01, 100)),
    "gompertz": lambda r: (logu(r, 0.05, 4), logu(r, 0.3, 4)),
    "hypsecant": lambda r: (unif(r, -20, 20), logu(r, 0.1, 10)),
    "kumaraswamy": lambda r: (logu(r, 0.3, 8), logu(r, 0.3, 8)),
    "loggamma": lambda r: (logu(r, 0.3, 12), logu(r, 0.3, 4)),
    "lognormal": lambda r: (unif(r, -3, 3), logu(r, 0.05, 2)),
    "nakagami": lambda r: (logu(r, 0.2, 12), unif(r, -20, 20), logu(r, 0.1, 30)),
    "pareto": lambda r: (logu(r, 0.5, 8), unif(r, -20, 20), logu(r, 0.1, 20)),
    "uniform": lambda r: (unif(r, -30, -5), unif(r, -2, 50)),
    "weibull_max": lambda r: (logu(r, 0.4, 12), unif(r, -20, 20), logu(r, 0.1, 30)),
    "weibull_min": lambda r: (logu(r, 0.4, 12), unif(r, -20, 20), logu(r, 0.1, 30)),
}
LS = lambda r: (unif(r, -50, 50), logu(r, 0.05, 50))
# modes offered per parameter: f(ree) x (fixed) i(nitial guess)
MODES = {
    "benktander1": ["ff", "ii"], "beta": ["ff", "fx", "xf", "ii", "ix", "xi", "xx", "fi"],
    "betaprime": ["fff", "iii", "xff", "fxf", "ffx", "xxf", "xfx", "fxx", "xix", "ixx", "iix", "xxx"],
    "burr12": ["iii", "fff", "xff", "fxf", "ffx", "xxf", "xfx", "fxx", "xxx", "xii", "ixi"],
    "gamma": ["ff", "fx", "xf", "xx"], "gompertz": ["ff", "fx", "xf", "xx", "fi", "xi"],
    "gumbel_max": ["ff", "fx", "xf", "xx"], "gumbel_min": ["ff", "fx", "xf", "xx"],
    "hypsecant": ["ff", "fx", "xf", "xx", "ii", "ix", "xi"], "kumaraswamy": ["ff", "if", "fx", "ix", "xf", "xx"],
    "laplace": ["ff", "fx", "xf", "xx"], "loggamma": ["ff", "ii", "fx", "xf", "xi", "xx"],
    "logistic": ["ff"], "lognormal": ["ff"], "normal": ["ff"], "uniform": ["ff"],
    "nakagami": ["fxf", "fxx", "xxf", "xxx"], "pareto": ["fff", "ifi", "fxf", "ffx", "xff", "xfi", "xxf", "xfx", "fxx", "xxx"],
    "weibull_max": ["fxf", "fxx", "xxf", "xxx"], "weibull_min": ["fxf", "fxx", "xxf", "xxx"],
}
POS = {"a", "b", "c", "d", "k", "theta", "scale", "sigma", "nu", "r", "beta", "alpha", "lam"}
# closed forms, or one-dimensional equations the code solves safely: an exception there is a failure
ALWAYS = {
    "gamma": {"ff", "fx", "xf", "xx"}, "gompertz": {"fx", "xx"}, "gumbel_max": {"ff", "fx", "xx"}, "gumbel_min": {"ff", "fx", "xx"},
    "kumaraswamy": {"xf", "xx"}, "laplace": {"ff", "fx", "xf", "xx"}, "loggamma": {"fx", "xx"}, "lognormal": {"ff"},
    "normal": {"ff"}, "uniform": {"ff"}, "nakagami": {"fxf", "xxf", "xxx"}, "pareto": {"fxf", "ffx", "xxf", "xfx", "fxx", "xxx"},
    "weibull_max": {"xxf", "xxx"}, "weibull_min": {"xxf", "xxx"}, "beta": {"xx"}, "betaprime": {"xxx"}, "burr12": {"xxx", "xfx"},
    "hypsecant": {"xx"},
}
SMOOTH = set(MODES) - {"pareto", "laplace", "uniform"}


def spread(xs):
    return len(set(xs)) >= 3


class S(Subject):
    quick = 120
    thorough = 1500
    tshards = 2
    jsec = 25

    def __init__(self, name, tier):
        self.name, self.d, self.m = name, cdist.D[name], lib(name)
        self.only = (f"distributions/{name}.py", "_common", "_weibull_common", "_digammainv")
        self.gbudget = 120 if tier == "quick" else 1500
        self.gtime = 8 if tier == "quick" else 120
        self.groups = (tuple("p_" + n for n in self.d.params) + ("x",),)
        self.params = self.d.params
        if name in ("betaprime", "burr12"):
            self.shards, self.cost = 2, 5.0

    # ---- workload
    def gen(self, rng):
        p = TRUE.get(self.name, LS)(rng)
        n = rng.choice([3, 4, 5, 5, 6, 7, 8, 10, 12, 16, 25])
        xs = []
        for _ in range(1000):
            x = SAMPLE[self.name](rng, *p)
            if rng.random() < 0.15 and xs:
                x = rng.choice(xs)
            elif rng.random() < 0.3:
                x = float(f"{x:.3g}")
            if self.inside(x, p):
                xs.append(x)
            if len(xs) == n:
                break
        case = dict(dps=rng.choice([15, 15, 20, 30, 50]), x=xs, modes=rng.choice(MODES[self.name]), seed=rng.randint(0, 10 ** 6),
                    _s="sample")
        if self.name in ("gumbel_max", "gumbel_min", "hypsecant", "laplace", "normal", "logistic") and rng.random() < 0.2:
            case["x"] = [int(round(t)) for t in xs]
        for nm, v in zip(self.params, p):
            case["p_" + nm] = v
        if rng.random() < 0.1:
            case["x"] = sorted(case["x"])
        return case

    frozen = ("seed",)

    def inside(self, x, p):
        if not math.isfinite(x):
            return False
        with mp.workdps(30):
            a, b = self.d.support(*p)
            return a < x < b

    def valid(self, case):
        p = tuple(case["p_" + n] for n in self.params)
        for n, v in zip(self.params, p):
            if n in POS and self.name != "uniform" and not 1e-3 < v < 1e3:
                return False
            if not abs(v) < 1e3:
                return False
        xs = case["x"]
        if not 3 <= len(xs) <= 40 or not spread(xs):
            return False
        if case["modes"] not in MODES[self.name]:
            return False
        if self.name == "benktander1" and not p[1] < p[0] * (p[0] + 1) / 2:
            return False
        if self.name == "uniform" and not p[0] < p[1]:
            return False
        return all(isinstance(x, (int, float)) and abs(x) < 1e6 and self.inside(x, p) for x in xs)

    def kwargs(self, case):
        from mpsci.distributions import Initial
        kw = {}
        r = rng_for(case["seed"])
        for n, m in zip(self.params, case["modes"]):
            if m == "x":
                kw[n] = case["p_" + n]
            elif m == "i":
                v = case["p_" + n]
                kw[n] = Initial(v * r.uniform(0.8, 1.25) if n in POS else v)
        return kw

    def observe(self, case, call):
        o = {"mle": call(self.m.mle, list(case["x"]), **self.kwargs(case))}
        if case["seed"] % 3 == 0:
            ys = list(case["x"])
            rng_for(case["seed"], "perm").shuffle(ys)
            o["perm"] = call(self.m.mle, ys, **self.kwargs(case))
        return o

    # ---- oracle
    def F(self, xs, th):
        """reference negative log-likelihood; inf outside the parameter space or the support"""
        d = self.d
        if not self.dom(th):
            return mp.inf
        try:
            loc, scale, shape = d.std(*th)
            a, b = d.supp_z(shape)
            s = mp.zero
            for x in xs:
                z = (mpf(x) - loc) / scale
                if self.name == 'pareto' and 0 < 1 - z < self.slack:
                    z = mp.one          # loc + scale is the smallest observation, up to rounding
                if not a <= z <= b:
                    return mp.inf
                s += d.logpdf_z(z, *shape) - mp.log(scale)
            return -s
        except (ZeroDivisionError, ValueError):
            return mp.inf

    def dom(self, th):
        for n, t in zip(self.params, th):
            if n in POS and self.name != "uniform" and not t > 0:
                return False
        if self.name == "benktander1" and not th[1] <= th[0] * (th[0] + 1) / 2:
            return False
        if self.name == "uniform" and not th[0] < th[1]:
            return False
        return True

    def edge(self, th):
        """shape parameters so extreme that the likelihood is flat: it has no maximum, only a limit"""
        return any(not mpf(10) ** -4 < t < mpf(10) ** 4 for n, t in zip(self.params, th)
                   if n in POS and n not in ("scale", "theta", "sigma") and self.name != "uniform")

    def unit(self, th, xs):
        """scale on which each coordinate is perturbed"""
        sd = max(xs) - min(xs)
        out = []
        for n, t in zip(self.params, th):
            if n in ("loc", "mu") or self.name == "uniform":
                out.append(mpf(sd) if self.name != "lognormal" else th[1])
            else:
                out.append(abs(t))
        return out

    def judge(self, case, obs):
        xs, dps, modes = case["x"], case["dps"], case["modes"]
        out, facts = [], 0
        kw = self.kwargs(case)
        ctx = f"mle({xs!r}{''.join(', %s=%s' % (k, v if not hasattr(v, 'initial') else 'Initial(%r)' % v.initial) for k, v in kw.items())}) at dps={dps}"
        v = obs["mle"]
        if isinstance(v, Exc):
            if modes in ALWAYS.get(self.name, ()) and len(xs) >= 4:
                return 1, [("raise", f"{ctx}: {v!r}")]
            raise Inconclusive("mle raised " + v.type)
        th = self.unpack(v)
        if th is None or len(th) != len(self.params) or any(bad_number(t) for t in th):
            return 1, [("type", f"{ctx} returned {v!r:.120}")]
        facts += 1
        with mp.workdps(2 * dps + 30):
            for n, m, t in zip(self.params, modes, th):
                if m == "x" and not t == mpf(case["p_" + n]):
                    out.append(("fixed", f"{ctx}: fixed {n} came back as {show(t)}"))
            th = [mpf(t) for t in th]
            if out:
                return facts, out
            if not self.dom(th):
                out.append(("invalid", f"{ctx} = {[show(t) for t in th]}: not valid parameters"))
                return facts, out
            if all(m == "x" for m in modes):
                return facts, out
            self.slack = mpf(10) ** (3 - dps)
            if self.edge(th):
                raise Inconclusive("estimate at the edge of the parameter space")
            if mp.isinf(self.F(xs, th)):
                out.append(("invalid", f"{ctx} = {[show(t) for t in th]}: the data have density 0"))
                return facts, out
            w = self.improve(xs, th, modes, dps, case["seed"])
            if w:
                out.append(("saddle" if self._stat else "notmax",
                            f"{ctx} = {[show(t) for t in th]}{' (a stationary point that is not a maximum)' if self._stat else ''}: "
                            f"likelihood is larger at {[show(t) for t in w[0]]} by {show(w[1])}"))
            p = obs.get("perm")
            if p is not None and not isinstance(p, Exc) and not out:
                facts += 1
                f0, f1 = self.F(xs, th), self.F(xs, [mpf(t) for t in self.unpack(p)])
                if not abs(f0 - f1) <= mpf(10) ** (-dps * 0.5) * (1 + abs(f0)):
                    out.append(("order", f"{ctx} = {[show(t) for t in th]} but permuted data give {[show(t) for t in self.unpack(p)]}"))
        return facts, out

    def unpack(self, v):
        try:
            return list(v)
        except TypeError:
            return [v]

    def improve(self, xs, th, modes, dps, seed):
        free = [i for i, m in enumerate(modes) if m != "x"]
        self._stat = False
        u = self.unit(th, xs)
        f0 = self.F(xs, th)
        r = rng_for(seed, "dir")
        eps = mpf(10) ** (-mpf(dps) * 2 / 5)
        noise = mpf(10) ** (-dps * 1.2) * (1 + abs(f0))
        dirs = []
        for i in free:
            dirs.append({i: mpf(1)})
        for _ in range(3):
            dirs.append({i: mpf(r.uniform(-1, 1)) for i in free})
        if self.name == "pareto" and 1 in free and 2 in free:
            dirs += [{1: mpf(-1), 2: u[1] / u[2]}]
        if self.name in SMOOTH:
            dirs += self.newton(xs, th, free, u, dps)
        for dvec in dirs:
            for step in (mpf("0.1"), mpf("0.001"), eps * 3):
                for sg in (1, -1):
                    t = list(th)
                    for i, c in dvec.items():
                        t[i] = th[i] + sg * step * c * u[i]
                    f = self.F(xs, t)
                    if f < f0 - noise:
                        return t, f0 - f
        return None

    def newton(self, xs, th, free, u, dps):
        """unit vectors (in scaled coordinates) along the gradient, the Newton step and the lowest curvature"""
        m = len(free)
        h = mpf(10) ** (-dps // 2)
        with mp.workdps(4 * dps + 30):
            def at(**k):
                t = list(th)
                for i, c in k.items():
                    j = free[int(i[1:])]
                    t[j] = t[j] + c * u[j]
                return self.F(xs, t)
            f0 = at()
            g = mp.matrix(m, 1)
            H = mp.matrix(m, m)
            for i in range(m):
                a, b = at(**{f"_{i}": h}), at(**{f"_{i}": -h})
                if mp.isinf(a) or mp.isinf(b):
                    return []
                g[i] = (a - b) / (2 * h)
                H[i, i] = (a + b - 2 * f0) / h ** 2
            for i in range(m):
                for j in range(i):
                    q = [at(**{f"_{i}": s * h, f"_{j}": t * h}) for s in (1, -1) for t in (1, -1)]
                    if any(mp.isinf(z) for z in q):
                        return []
                    H[i, j] = H[j, i] = (q[0] - q[1] - q[2] + q[3]) / (4 * h * h)
            self._stat = mp.norm(g) <= mpf(10) ** (-mpf(dps) * 35 / 100) * (1 + abs(f0)) and mp.eigsy(H, eigvals_only=True)[0] < 0
            vecs = []
            if mp.norm(g) > 0:
                vecs.append(g)
            if m > 1:
                try:
                    vecs.append(mp.lu_solve(H, g))
                except (ZeroDivisionError, ValueError):
                    pass
                E, Q = mp.eigsy(H)
                vecs.append(Q[:, 0])
            out = []
            for v in vecs:
                n = mp.norm(v)
                if n > 0 and mp.isfinite(n):
                    out.append({free[i]: v[i] / n for i in range(m)})
            return out


# ---------------------------------------------------------------- discrete
def _pois(r, lam):
    L, k, p = math.exp(-lam), 0, 1.0
    while True:
        p *= r.random()
        if p <= L:
            return k
        k += 1


def _binom(r, n, p):
    return sum(r.random() < p for _ in range(n))


def _logser(r, p):
    u, k, t = r.random(), 1, -p / math.log1p(-p)
    while u > t and k < 200:
        u -= t
        k += 1
        t *= p * (k - 1) / k
    return k


DSAMPLE = {
    "binomial": lambda r, n, p: _binom(r, n, p),
    "betabinomial": lambda r, n, a, b: _binom(r, n, r.betavariate(a, b)),
    "logseries": _logser,
    "negative_binomial": lambda r, q, p: _pois(r, r.gammavariate(q, p / (1 - p))),
    "poisson": _pois,
}
DTRUE = {
    "binomial": lambda r: (r.randint(1, 40), unif(r, 0.02, 0.98)),
    "betabinomial": lambda r: (r.randint(2, 25), logu(r, 0.4, 8), logu(r, 0.4, 8)),
    "logseries": lambda r: (r.choice([unif(r, 0.05, 0.99), unif(r, 0.7, 0.95)]),),
    "negative_binomial": lambda r: (logu(r, 0.3, 12), unif(r, 0.15, 0.95)),
    "poisson": lambda r: (logu(r, 0.1, 40),),
}
DMODES = {"binomial": ["xf", "xx", "fx", "ff", "ix", "if"], "betabinomial": ["xff", "xii", "xxf", "xfx", "xxi", "xxx"],
          "logseries": ["f"], "negative_binomial": ["ff", "xf", "fx", "xx", "if", "ix"], "poisson": ["f"]}
DALWAYS = {"binomial": {"xf", "xx"}, "betabinomial": {"xxx"}, "logseries": {"f"}, "negative_binomial": {"xf", "xx"}, "poisson": {"f"}}


class DS(S):
    samelen = {"x": ("c",), "c": ("x",)}
    quick = 250

    def __init__(self, name, tier):
        self.name, self.d, self.m = name, ddist.D[name], lib(name)
        self.params = self.d.params
        self.only = (f"distributions/{name}.py", "_common", "stats/_basic")
        self.intgenes = ("x", "c") + tuple("p_" + n for n in self.params if n == "n")
        self.gbudget = 120 if tier == "quick" else 1500
        self.gtime = 8 if tier == "quick" else 120
        self.groups = (tuple("p_" + n for n in self.params) + ("x", "c"),)
        self.shards = 2 if name != "poisson" else 1

    def gen(self, rng):
        p = DTRUE[self.name](rng)
        n = rng.choice([3, 4, 5, 6, 8, 10, 15, 25])
        xs = [DSAMPLE[self.name](rng, *p) for _ in range(n)]
        case = dict(dps=rng.choice([15, 15, 20, 30, 50]), x=xs, c=[rng.choice([0, 1, 1, 2, 3, 5]) for _ in xs],
                    modes=rng.choice(DMODES[self.name]), seed=rng.randint(0, 10 ** 6), integer_r=int(rng.random() < 0.3), _s="sample")
        for nm, v in zip(self.params, p):
            case["p_" + nm] = v
        if self.name == "negative_binomial" and case["integer_r"]:
            case["p_r"] = max(1, round(p[0]))
        return case

    frozen = ("seed", "integer_r")

    def valid(self, case):
        p = tuple(case["p_" + n] for n in self.params)
        xs, c = case["x"], case["c"]
        if not self.d.ok(*p) or len(xs) != len(c) or not 3 <= len(xs) <= 40:
            return False
        if not all(isinstance(t, int) and 0 <= t <= 200 for t in xs) or not all(isinstance(t, int) and 0 <= t < 100 for t in c):
            return False
        if self.name in ("binomial", "betabinomial") and not (1 <= p[0] <= 60 and max(xs) <= p[0]):
            return False
        if self.name == "betabinomial" and not all(0.1 < t < 30 for t in p[1:]):
            return False
        if self.name == "logseries" and min(xs) < 1:
            return False
        if self.name in ("binomial", "negative_binomial", "logseries") and not 0.01 < p[-1] < 0.999:
            return False
        if self.name == "negative_binomial" and not 0.1 < p[0] < 50:
            return False
        used = [x for x, w in zip(xs, c) if w]
        return len(set(used)) >= 3 and case["modes"] in DMODES[self.name]

    def kwargs(self, case):
        kw = super().kwargs(case)
        if "n" in kw and hasattr(kw["n"], "initial"):
            kw["n"] = type(kw["n"])(case["p_n"])
        if self.name == "negative_binomial" and case["integer_r"]:
            kw["allow_noninteger_r"] = False
        return kw

    def observe(self, case, call):
        kw = self.kwargs(case)
        if case["seed"] % 2:
            o = {"mle": call(self.m.mle, list(case["x"]), **kw)}
            ys = list(case["x"])
            rng_for(case["seed"], "perm").shuffle(ys)
            o["perm"] = call(self.m.mle, ys, **kw)
        else:
            o = {"mle": call(self.m.mle, list(case["x"]), counts=list(case["c"]), **kw)}
            rep = [x for x, w in zip(case["x"], case["c"]) for _ in range(w)]
            o["perm"] = call(self.m.mle, rep, **kw)
        return o

    def judge(self, case, obs):
        xs, dps, modes = case["x"], case["dps"], case["modes"]
        w = [1] * len(xs) if case["seed"] % 2 else case["c"]
        xw = {}
        for x, c in zip(xs, w):
            if c:
                xw[x] = xw.get(x, 0) + c
        self.xw = xw
        out, facts = [], 0
        kw = self.kwargs(case)
        ctx = (f"mle({xs!r}" + ("" if case["seed"] % 2 else f", counts={case['c']!r}")
               + f"{''.join(', %s=%s' % (k, v if not hasattr(v, 'initial') else 'Initial(%r)' % v.initial) for k, v in kw.items())}) at dps={dps}")
        v = obs["mle"]
        if isinstance(v, Exc):
            if modes in DALWAYS.get(self.name, ()):
                return 1, [("raise", f"{ctx}: {v!r}")]
            raise Inconclusive("mle raised " + v.type)
        th = self.unpack(v)
        if len(th) != len(self.params) or any(bad_number(t) for t in th):
            return 1, [("type", f"{ctx} returned {v!r:.120}")]
        facts += 1
        with mp.workdps(2 * dps + 30):
            for n, m, t in zip(self.params, modes, th):
                if m == "x" and not t == mpf(case["p_" + n]):
                    out.append(("fixed", f"{ctx}: fixed {n} came back as {show(t)}"))
            th = [mpf(t) for t in th]
            if out:
                return facts, out
            if not self.dom(th):
                return facts, [("invalid", f"{ctx} = {[show(t) for t in th]}: not valid parameters")]
            if all(m == "x" for m in modes):
                return facts, out
            if self.name == "binomial" and th[0] > 1000 * max(xs):
                raise Inconclusive("estimate at the edge of the parameter space")
            wit = self.improve(xs, th, modes, dps, case["seed"])
            if self.name == "binomial" and modes[0] != "x" and not wit:
                wit = self.int_neigh(th, modes, 0)
            if self.name == "negative_binomial" and case["integer_r"] and modes[0] != "x":
                if th[0] != int(th[0]):
                    out.append(("invalid", f"{ctx} = {[show(t) for t in th]}: r is not an integer"))
                wit = self.int_neigh(th, modes, 0)
            if wit:
                out.append(("notmax", f"{ctx} = {[show(t) for t in th]}: likelihood is larger at {[show(t) for t in wit[0]]} by {show(wit[1])}"))
            p = obs.get("perm")
            if not out and p is not None:
                facts += 1
                if isinstance(p, Exc):
                    if modes in DALWAYS.get(self.name, ()):
                        out.append(("counts", f"{ctx}: the equivalent expanded data set raised {p!r}"))
                else:
                    f0, f1 = self.F(xs, th), self.F(xs, [mpf(t) for t in self.unpack(p)])
                    if not abs(f0 - f1) <= mpf(10) ** (-dps * 0.5) * (1 + abs(f0)):
                        out.append(("order", f"{ctx} = {[show(t) for t in th]} but the reordered/expanded data give {[show(t) for t in self.unpack(p)]}"))
        return facts, out

    def dom(self, th):
        n = self.name
        if n == "binomial":
            return th[0] == int(th[0]) and th[0] >= 1 and 0 <= th[1] <= 1
        if n == "betabinomial":
            return th[1] > 0 and th[2] > 0
        if n == "logseries":
            return 0 <= th[0] < 1
        if n == "negative_binomial":
            return th[0] > 0 and 0 <= th[1] < 1
        return th[0] >= 0

    def unit(self, th, xs):
        out = []
        for n, t in zip(self.params, th):
            out.append(t * (1 - t) if n == "p" else abs(t))
        return out

    def F(self, xs, th):
        n = self.name
        s = mp.zero
        if not self.dom(th):
            return mp.inf
        if n in ("binomial", "betabinomial"):
            th = [int(th[0])] + list(th[1:])
        for x, c in self.xw.items():
            p = self.d.pmf(x, *th) if not self.d.pmf_zero(x, th) else 0
            if not p > 0:
                return mp.inf
            s += c * mp.log(p)
        return -s

    def improve(self, xs, th, modes, dps, seed):
        md = list(modes)
        if self.name == "binomial":
            md[0] = "x"
        if self.name == "negative_binomial" and False:
            md[0] = "x"
        self._int = self.name == "negative_binomial"
        return super().improve(xs, th, "".join(md), dps, seed)

    def int_neigh(self, th, modes, i):
        f0 = self.F(None, th)
        tot = sum(self.xw.values())
        m = mp.fsum(x * c for x, c in self.xw.items()) / tot
        for dn in (-3, -2, -1, 1, 2, 3):
            t = list(th)
            t[i] = th[i] + dn
            if t[i] < 1:
                continue
            if modes[1] != "x":
                t[1] = m / t[0] if self.name == "binomial" else m / (t[0] + m)
            if not self.dom(t):
                continue
            f = self.F(None, t)
            if f < f0 - mpf(10) ** -12:
                return t, f0 - f
        return None

    def newton(self, xs, th, free, u, dps):
        return super().newton(xs, th, free, u, dps)


def subjects(tier):
    from . import c09          # noqa: F401  (installs pmf_zero)
    return [S(n, tier) for n in MODES] + [DS(n, tier) for n in DMODES]
