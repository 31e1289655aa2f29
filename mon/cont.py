"""Shared parts of the monitors for continuous univariate distributions."""
import importlib
import math

import mpmath
from mpmath import mp

from . import cdist
from .core import (Inconclusive, hp, mpf, relerr, rng_for, show, INF, NINF, integrate, short, logu)
from .engine import Subject, Exc

DPS = [15, 15, 20, 30, 30, 40, 50, 80]


def lib(name):
    return importlib.import_module("mpsci.distributions." + name)


# admissible region for guided mutation of parameters (the generators stay inside it too)
_LS = {"loc": (-2e3, 2e3), "scale": (5e-4, 2e3), "mu": (-2e3, 2e3), "sigma": (5e-4, 2e3), "theta": (5e-4, 2e3)}
RANGES = {
    "argus": dict(chi=(0, 12)), "benini": dict(alpha=(0.02, 20), beta=(0.01, 20)),
    "benktander1": dict(a=(0.1, 20), b=(1e-3, 210)), "benktander2": dict(a=(0.05, 20), b=(0.03, 1)),
    "beta": dict(a=(0.05, 80), b=(0.05, 80)), "betaprime": dict(a=(0.05, 60), b=(0.05, 60)),
    "burr12": dict(c=(0.1, 25), d=(0.05, 25)), "cauchy": {}, "chi": dict(k=(0.1, 120)),
    "chi2": dict(k=(0.1, 160)), "cosine": {}, "exponweib": dict(a=(0.1, 25), c=(0.1, 16)),
    "f": dict(dfn=(0.2, 120), dfd=(0.2, 120)), "folded_normal": {},
    "gamma": dict(k=(0.05, 120)), "gamma_gompertz": dict(c=(0.05, 24), beta=(0.02, 60)),
    "genexpon": dict(a=(0.05, 20), b=(0.05, 20), c=(0.05, 20)),
    "genextreme": dict(xi=(-3, 3)), "genhyperbolic": dict(p=(-3, 3), a=(0.2, 8), b=(-8, 8)),
    "geninvgauss": dict(p=(-8, 8), b=(0.1, 25)), "genpareto": dict(xi=(-3, 3)),
    "gompertz": dict(c=(0.01, 20)), "gumbel_max": {}, "gumbel_min": {}, "half_logistic": {}, "hypsecant": {},
    "invchi2": dict(nu=(0.2, 80)), "invgamma": dict(a=(0.1, 60)), "invgauss": dict(m=(0.05, 25)),
    "kumaraswamy": dict(a=(0.1, 40), b=(0.1, 40)), "laplace": {}, "levy": {}, "loggamma": dict(k=(0.05, 60)),
    "logistic": {}, "loglogistic": dict(beta=(0.15, 25)), "lognormal": dict(mu=(-8, 8), sigma=(0.03, 4)),
    "maxwell": {}, "nakagami": dict(nu=(0.05, 60)), "ncf": dict(dfn=(0.4, 30), dfd=(0.4, 30), nc=(0.02, 25)),
    "nct": dict(df=(0.4, 30), nc=(-8, 8)), "ncx2": dict(k=(1, 40), lam=(0.02, 60)), "normal": {},
    "pareto": dict(b=(0.1, 30)), "power_normal": dict(c=(0.1, 30)), "rel_breitwigner": dict(rho=(0.05, 80)),
    "rice": dict(nu=(0, 1e4)), "slash": {}, "studentt": dict(df=(0.2, 120)), "truncnorm": {},
    "tukeylambda": dict(lam=(-1.5, 4)), "uniform": dict(a=(-2e3, 2e3), b=(-4e3, 4e3)),
    "weibull_max": dict(k=(0.2, 25)), "weibull_min": dict(k=(0.2, 25)),
}


def params_ok(d, p):
    rg = RANGES[d.name]
    for n, v in zip(d.params, p):
        if isinstance(v, float) and v != v:
            return False
        lo, hi = rg.get(n) or _LS.get(n) or (-math.inf, math.inf)
        if not (lo <= v <= hi):
            return False
    n = d.name
    if n == "benktander1":
        a, b = p
        with mp.workdps(60):
            top = mpf(a) * (mpf(a) + 1) / 2
            return 0 < b and (b == top or b < top * (1 - mpf(10) ** -6))
    if n == "truncnorm":
        a, b = p
        if not a < b:
            return False
        if math.isinf(a) and a > 0 or math.isinf(b) and b < 0:
            return False
        if math.isfinite(a) and abs(a) > 12 or math.isfinite(b) and abs(b) > 24:
            return False
        return b - a > 1e-3
    if n == "uniform":
        return p[1] - p[0] > 5e-4
    if n == "genhyperbolic":
        return abs(p[2]) <= 0.97 * p[1]
    if n in ("rice", "folded_normal"):
        return abs(p[0]) <= 15 * p[1]
    if n == "exponweib":
        return p[0] * p[1] > 0.03
    if n in ("burr12",):
        return p[0] * p[1] > 0.03
    if n in ("genextreme", "genpareto", "tukeylambda"):
        return p[0] == 0 or abs(p[0]) > 1e-7
    return True


def cap_ok(d, p, x, limit=-3e4):
    """x is not so far out that log-density underflows beyond any sensible size."""
    if math.isinf(x):
        return True
    with mp.workdps(30):
        try:
            loc, scale, shape = d.std(*p)
            z = (mpf(x) - loc) / scale
            a, b = d.supp_z(shape)
            if z <= a or z >= b:
                return True
            if d.name in ("gumbel_max", "genextreme") and (z < -40 and d.name == "gumbel_max"):
                return False
            if d.name in ("gumbel_min", "loggamma", "gompertz") and z > 40:
                return False
            if d.name == "genextreme":
                xi = shape[0]
                t = -z if xi == 0 else (-mp.log1p(xi * z) / xi)
                return t < 11
            if d.slow:
                c, w = d.typ(shape)
                if abs(z - c) > 60 * w + 60:
                    return False
                limit = -2000
            return d.logpdf_z(z, *shape) > limit
        except (ZeroDivisionError, ValueError, OverflowError, mpmath.libmp.NoConvergence):
            return True


def gen_point(rng, d, p):
    for _ in range(60):
        x, lab = cdist.gen_x(rng, d, p)
        if cap_ok(d, p, x):
            return x, lab
    with mp.workdps(15):
        loc, scale, shape = d.std(*p)
        c, w = d.typ(shape)
        return float(loc + scale * c), "bulk"


def tail_quad(d, z, shape, which, dps):
    """P(Z<=z) or P(Z>z) of a model without closed cdf, by quadrature of its density."""
    a, b = d.supp_z(shape)
    c, w = d.typ(shape)

    def f(base, off):
        t = base + off
        if t <= a or t >= b:
            return mp.zero
        return mp.exp(d.logpdf_z(t, *shape))
    if which == "cdf":
        pts = [a] + [t for t in (c - 10 * w, c - 3 * w, c, c + 3 * w, c + 10 * w) if a < t < z] + [z]
    else:
        pts = [z] + [t for t in (c - 10 * w, c - 3 * w, c, c + 3 * w, c + 10 * w) if z < t < b] + [b]
    return integrate(f, pts, dps, scale=w)


def ref_tail(d, which, x, p, dps):
    if d.has_cdf:
        return hp(lambda: getattr(d, which)(mpf(x), *p), dps)
    with mp.workdps(dps + 10):
        loc, scale, shape = d.std(*p)
        a, b = d.supp_z(shape)
        z = mpf(x) if mp.isinf(x) else (mpf(x) - loc) / scale
        if z <= a:
            return mp.zero if which == "cdf" else mp.one
        if z >= b:
            return mp.one if which == "cdf" else mp.zero
        return tail_quad(d, z, shape, which, dps)


def sens(d, f, x, p, dps):
    """Change of the reference function f when x-loc is perturbed by one unit in the last place."""
    with mp.workdps(dps + 25):
        loc, scale, shape = d.std(*p)
        h = mpf(10) ** (-dps)
        u = mpf(x) - loc
        v0 = f(mpf(x), *p)
        s = mp.zero
        for sg in (1, -1):
            v = f(loc + u * (1 + sg * h), *p)
            if not mp.isfinite(v):
                return INF
            s = max(s, abs(v - v0))
        return s


def bad_number(v):
    """Message if v is not an ordinary real number (nan, complex, None...)."""
    if isinstance(v, Exc):
        return f"raised {v.type}: {v.msg} ({v.where})"
    if isinstance(v, (mpmath.mpc, complex)):
        return f"complex value {v}"
    if not isinstance(v, (mpmath.mpf, int, float, mpmath.ctx_mp_python.mpnumeric)):
        return f"not a number: {type(v).__name__} {v!r:.60}"
    if mp.isnan(v):
        return "nan"
    return None


def tol_of(dps, lost=4):
    return mpf(10) ** (lost - dps)


class ContSubject(Subject):
    """One continuous distribution; genes dps, x and the parameters by name."""
    fns = ()

    def __init__(self, name):
        self.name = name
        self.d = cdist.D[name]
        self.m = lib(name)
        self.only = (f"distributions/{name}.py", "_common", "_weibull_common")
        self.have = [f for f in self.fns if hasattr(self.m, f)]
        if self.d.slow:
            self.cost = 6.0

    def params(self, case):
        return tuple(case["p_" + n] for n in self.d.params)

    def gen(self, rng):
        d = self.d
        p = d.gen(rng)
        case = dict(dps=rng.choice(DPS if not d.slow else [15, 20, 30]))
        for n, v in zip(d.params, p):
            case["p_" + n] = v
        return self.fill(rng, case, p)

    def fill(self, rng, case, p):
        x, lab = gen_point(rng, self.d, p)
        case["x"] = x
        case["_s"] = lab
        return case

    def valid(self, case):
        p = self.params(case)
        if not params_ok(self.d, p):
            return False
        if self.d.slow and case["dps"] > 50:
            return False
        if "x" in case:
            return isinstance(case["x"], (int, float)) and case["x"] == case["x"] and cap_ok(self.d, p, case["x"])
        return True
