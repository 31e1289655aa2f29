"""C20: distributions that are special cases or images of each other agree."""
import math
import random
from mpmath import mp
import mpmath
from .. import cdist
from ..cont import lib, params_ok, gen_point, cap_ok, tol_of
from ..core import mpf, show, logu, unif, short
from ..engine import Subject, Exc
from .c01 import ABS, QUAD

RULE = ("one fact = one value of one function of one module, at the working precision, compared with the value that an identity "
        "derives from another module (called with exact arguments at 20 more digits); distinct = distinct sets of (comparison "
        "site, outcome) executed inside mpsci")
ASSUMPTIONS = ["the identities used are the classical ones, written out in mon/props/c20.py",
               "the second module keeps enough of its 20 extra digits (its absolute accuracy is the subject of C01-C10)"]
LOWTOL = {"rice", "ncx2", "genhyperbolic", "geninvgauss", "ncf", "nct", "fishers_noncentral_hypergeometric"}
DPS = [15, 15, 15, 20, 30, 50]
TAIL = ("pdf", "logpdf", "cdf", "sf")
HALF = mpf(1) / 2


class I:
    """X_A = image of X_B: to(x, p) maps x_A to x_B, logjac is log |dx_B/dx_A|, sign the direction; aff(p) = (t, s) if x_A = t + s x_B.
    factor c: the tail (sf) and density of A are c times those of B for x_A > 0 (folded distributions)"""

    def __init__(self, name, a, b, fix, bargs, to=None, back=None, logjac=None, sign=1, aff=None, factor=None, fns=None, skip=None, pos=False):
        self.name, self.a, self.b, self.fix, self.bargs = name, a, b, fix, bargs
        if aff is not None:
            to = to or (lambda x, p: (x - aff(p)[0]) / aff(p)[1])
            back = back or (lambda x, p: aff(p)[0] + aff(p)[1] * x)
            logjac = logjac or (lambda x, p: -mp.log(abs(aff(p)[1])))
        self.to, self.back, self.logjac, self.sign, self.aff = to, back, logjac, sign, aff
        self.factor, self.fns, self.skip, self.pos = factor, fns, skip, pos or factor is not None


ident = dict(aff=lambda p: (mp.zero, mp.one))
keep = lambda *p: p


def setp(**kw):
    return kw


def L():
    f = lambda v: mpf(v)
    out = []

    def add(*a, **k):
        out.append(I(*a, **k))

    sc = lambda g: dict(aff=lambda p: (mp.zero, g(*p)))
    add("chi2=gamma", "chi2", "gamma", {}, lambda k: (f(k) / 2, 2), **ident)
    add("chi2(2)=weibull", "chi2", "weibull_min", {"k": 2.0}, lambda k: (1, 0, 2), **ident)
    add("chi(3)=maxwell", "chi", "maxwell", {"k": 3.0}, lambda k: (0, 1), **ident)
    add("maxwell=chi(3)", "maxwell", "chi", {}, lambda l, s: (3,), aff=lambda p: (f(p[0]), f(p[1])))
    add("chi(1)=folded_normal", "chi", "folded_normal", {"k": 1.0}, lambda k: (0, 1), **ident)
    add("folded_normal(0)=chi(1)", "folded_normal", "chi", {"mu": 0.0}, lambda m, s: (1,), **sc(lambda m, s: f(s)))
    add("rice(0)=chi(2)", "rice", "chi", {"nu": 0.0}, lambda n, s: (2,), **sc(lambda n, s: f(s)))
    add("chi(2)=rice(0)", "chi", "rice", {"k": 2.0}, lambda k: (0, 1), fns=("pdf", "logpdf", "mean", "var", "mode"), **ident)
    add("chi(2)=weibull", "chi", "weibull_min", {"k": 2.0}, lambda k: (2, 0, mp.sqrt(2)), **ident)
    add("chi^2=chi2", "chi", "chi2", {}, lambda k: (k,), to=lambda x, p: x * x, back=lambda y, p: mp.sqrt(y), logjac=lambda x, p: mp.log(2 * x))
    add("nakagami=chi", "nakagami", "chi", {}, lambda nu, l, s: (2 * f(nu),), aff=lambda p: (f(p[1]), f(p[2]) / mp.sqrt(2 * f(p[0]))))
    add("nakagami^2=gamma", "nakagami", "gamma", {"loc": 0.0}, lambda nu, l, s: (nu, f(s) ** 2 / nu), to=lambda x, p: x * x,
        back=lambda y, p: mp.sqrt(y), logjac=lambda x, p: mp.log(2 * x))
    add("levy=invgamma", "levy", "invgamma", {}, lambda m, s: (HALF, m, f(s) / 2), **ident)
    add("invchi2=invgamma", "invchi2", "invgamma", {}, lambda nu: (f(nu) / 2, 0, HALF), **ident)
    add("1/invgamma=gamma", "invgamma", "gamma", {"loc": 0.0}, lambda a, l, s: (a, 1), to=lambda x, p: f(p[2]) / x, back=lambda y, p: f(p[2]) / y,
        logjac=lambda x, p: mp.log(f(p[2]) / x ** 2), sign=-1)
    add("1/invchi2=chi2", "invchi2", "chi2", {}, lambda nu: (nu,), to=lambda x, p: 1 / x, back=lambda y, p: 1 / y,
        logjac=lambda x, p: -2 * mp.log(x), sign=-1)
    add("exponweib(a=1)=weibull", "exponweib", "weibull_min", {"a": 1.0}, lambda a, c, s: (c, 0, s), **ident)
    add("weibull=exponweib(1)", "weibull_min", "exponweib", {"loc": 0.0}, lambda k, l, s: (1, k, s), **ident)
    add("genpareto=pareto", "genpareto", "pareto", {"xi": (0.05, 3)}, lambda xi, m, s: (1 / f(xi), f(m) - f(s) / f(xi), f(s) / f(xi)), **ident)
    add("genpareto(0)=weibull", "genpareto", "weibull_min", {"xi": 0.0}, lambda xi, m, s: (1, m, s), **ident)
    add("genpareto(-1)=uniform", "genpareto", "uniform", {"xi": -1.0}, lambda xi, m, s: (m, f(m) + f(s)), **ident)
    add("pareto=genpareto", "pareto", "genpareto", {}, lambda b, l, s: (1 / f(b), f(l) + f(s), f(s) / f(b)), **ident)
    add("log pareto", "pareto", "weibull_min", {"loc": 0.0}, lambda b, l, s: (1, 0, 1 / f(b)), to=lambda x, p: mp.log(x / f(p[2])),
        back=lambda y, p: f(p[2]) * mp.exp(y), logjac=lambda x, p: -mp.log(x))
    add("genextreme(0)=gumbel_max", "genextreme", "gumbel_max", {"xi": 0.0}, lambda xi, m, s: (m, s), **ident)
    add("gumbel_max=genextreme(0)", "gumbel_max", "genextreme", {}, lambda m, s: (0, m, s), **ident)
    add("genextreme=weibull_max", "genextreme", "weibull_max", {"xi": (-3, -0.05)},
        lambda xi, m, s: (-1 / f(xi), f(m) - f(s) / f(xi), -f(s) / f(xi)), **ident)
    add("weibull_max=genextreme", "weibull_max", "genextreme", {},
        lambda k, l, s: (-1 / f(k), f(l) - f(s), f(s) / f(k)), **ident)
    add("genextreme(xi>0)=exp", "genextreme", "weibull_min", {"xi": (0.05, 3)}, lambda xi, m, s: (1, 0, 1),
        to=lambda x, p: (1 + f(p[0]) * (x - f(p[1])) / f(p[2])) ** (-1 / f(p[0])),
        back=lambda y, p: f(p[1]) + f(p[2]) * (y ** -f(p[0]) - 1) / f(p[0]),
        logjac=lambda x, p: (-1 / f(p[0]) - 1) * mp.log(1 + f(p[0]) * (x - f(p[1])) / f(p[2])) - mp.log(f(p[2])), sign=-1)
    add("weibull_max=-weibull_min", "weibull_max", "weibull_min", {}, lambda k, l, s: (k, 0, s), aff=lambda p: (f(p[1]), -mp.one), sign=-1)
    add("gumbel_min=-gumbel_max", "gumbel_min", "gumbel_max", {}, lambda l, s: (-f(l), s), aff=lambda p: (mp.zero, -mp.one), sign=-1)
    add("gumbel_min=log weibull", "gumbel_min", "weibull_min", {"loc": (-30, 30)}, lambda l, s: (1 / f(s), 0, mp.exp(l)), to=lambda x, p: mp.exp(x),
        back=lambda y, p: mp.log(y), logjac=lambda x, p: x)
    add("loglogistic=burr12", "loglogistic", "burr12", {}, lambda b, s: (b, 1, s), **ident)
    add("burr12(d=1)=loglogistic", "burr12", "loglogistic", {"d": 1.0}, lambda c, d, s: (c, s), **ident)
    add("log loglogistic", "loglogistic", "logistic", {}, lambda b, s: (mp.log(s), 1 / f(b)), to=lambda x, p: mp.log(x), back=lambda y, p: mp.exp(y),
        logjac=lambda x, p: -mp.log(x))
    add("burr12(c=1)=genpareto", "burr12", "genpareto", {"c": 1.0}, lambda c, d, s: (1 / f(d), 0, f(s) / f(d)), **ident)
    add("betaprime(1,b)=genpareto", "betaprime", "genpareto", {"a": 1.0}, lambda a, b, s: (1 / f(b), 0, f(s) / f(b)), **ident)
    add("f=betaprime", "f", "betaprime", {}, lambda n, d: (f(n) / 2, f(d) / 2, f(d) / f(n)), **ident)
    add("f=1/f", "f", "f", {}, lambda n, d: (d, n), to=lambda x, p: 1 / x, back=lambda y, p: 1 / y, logjac=lambda x, p: -2 * mp.log(x), sign=-1)
    add("betaprime=beta", "betaprime", "beta", {}, lambda a, b, s: (a, b), to=lambda x, p: x / (x + f(p[2])), back=lambda y, p: f(p[2]) * y / (1 - y),
        logjac=lambda x, p: mp.log(f(p[2])) - 2 * mp.log(x + f(p[2])))
    add("t^2=F", "studentt", "f", {}, lambda d: (1, d), to=lambda x, p: x * x, back=lambda y, p: mp.sqrt(y), logjac=lambda x, p: mp.log(2 * x), factor=HALF)
    add("t(1)=cauchy", "studentt", "cauchy", {"df": 1.0}, lambda d: (0, 1), fns=TAIL + ("invcdf", "invsf", "mode", "entropy", "support"), **ident)
    add("truncnorm(-inf,inf)=normal", "truncnorm", "normal", {"a": -math.inf, "b": math.inf}, lambda a, b: (0, 1), **ident)
    add("truncnorm(0,inf)=folded", "truncnorm", "folded_normal", {"a": 0.0, "b": math.inf}, lambda a, b: (0, 1), **ident)
    add("truncnorm reflection", "truncnorm", "truncnorm", {}, lambda a, b: (-f(b), -f(a)), fns=TAIL + ("invcdf", "invsf", "mean", "median", "mode", "support", "entropy"), aff=lambda p: (mp.zero, -mp.one), sign=-1)
    add("tukeylambda(0)=logistic", "tukeylambda", "logistic", {"lam": 0.0}, lambda l, m, s: (m, s), **ident)
    add("tukeylambda(1)=uniform", "tukeylambda", "uniform", {"lam": 1.0}, lambda l, m, s: (f(m) - f(s), f(m) + f(s)), **ident)
    add("tukeylambda(2)=uniform", "tukeylambda", "uniform", {"lam": 2.0}, lambda l, m, s: (f(m) - f(s) / 2, f(m) + f(s) / 2), **ident)
    add("invgauss=geninvgauss", "invgauss", "geninvgauss", {}, lambda m, l, s: (-HALF, 1 / f(m), l, f(s) * f(m)),
        fns=("pdf", "logpdf", "mean", "mode", "var", "support"), **ident)
    add("geninvgauss(-1/2)=invgauss", "geninvgauss", "invgauss", {"p": -0.5}, lambda p, b, l, s: (1 / f(b), l, f(s) * f(b)),
        fns=("pdf", "logpdf", "mean", "mode", "var", "support", "sf"), **ident)
    add("1/geninvgauss", "geninvgauss", "geninvgauss", {"loc": 0.0}, lambda p, b, l, s: (-f(p), b, 0, 1 / f(s)), to=lambda x, p: 1 / x, back=lambda y, p: 1 / y,
        logjac=lambda x, p: -2 * mp.log(x), sign=-1, fns=("pdf", "logpdf"))
    add("power_normal(1)=normal", "power_normal", "normal", {"c": 1.0}, lambda c, l, s: (l, s), **ident)
    add("kumaraswamy(a,1)=beta", "kumaraswamy", "beta", {"b": 1.0}, lambda a, b: (a, 1), **ident)
    add("kumaraswamy(1,b)=beta", "kumaraswamy", "beta", {"a": 1.0}, lambda a, b: (1, b), **ident)
    add("kumaraswamy^a=beta", "kumaraswamy", "beta", {}, lambda a, b: (1, b), to=lambda x, p: x ** f(p[0]), back=lambda y, p: y ** (1 / f(p[0])),
        logjac=lambda x, p: mp.log(f(p[0])) + (f(p[0]) - 1) * mp.log(x))
    add("beta(1,1)=uniform", "beta", "uniform", {"a": 1.0, "b": 1.0}, lambda a, b: (0, 1), **ident)
    add("beta reflection", "beta", "beta", {}, lambda a, b: (b, a), skip=lambda f, p: f == "mode" and max(p) <= 1, aff=lambda p: (mp.one, -mp.one), sign=-1)
    add("lognormal", "lognormal", "normal", {}, lambda m, s: (m, s), to=lambda x, p: mp.log(x), back=lambda y, p: mp.exp(y), logjac=lambda x, p: -mp.log(x))
    add("normal=log lognormal", "normal", "lognormal", {"mu": (-20, 20), "sigma": (0.01, 10)}, lambda m, s: (m, s), to=lambda x, p: mp.exp(x),
        back=lambda y, p: mp.log(y), logjac=lambda x, p: x)
    add("loggamma", "loggamma", "gamma", {}, lambda k, t: (k, 1), to=lambda x, p: mp.exp(x / f(p[1])), back=lambda y, p: f(p[1]) * mp.log(y),
        logjac=lambda x, p: x / f(p[1]) - mp.log(f(p[1])))
    add("gamma=exp loggamma", "gamma", "loggamma", {}, lambda k, s: (k, 1), to=lambda x, p: mp.log(x / f(p[1])), back=lambda y, p: f(p[1]) * mp.exp(y),
        logjac=lambda x, p: -mp.log(x))
    add("gamma(1)=weibull", "gamma", "weibull_min", {"k": 1.0}, lambda k, s: (1, 0, s), **ident)
    add("half_logistic=|logistic|", "half_logistic", "logistic", {"loc": 0.0}, lambda l, s: (0, s), to=lambda x, p: x, logjac=lambda x, p: mp.zero, factor=2 * mp.one)
    add("folded_normal(0)=|normal|", "folded_normal", "normal", {"mu": 0.0}, lambda l, s: (0, s), to=lambda x, p: x, logjac=lambda x, p: mp.zero, factor=2 * mp.one)
    add("laplace=exp/2", "laplace", "weibull_min", {"loc": 0.0}, lambda l, s: (1, 0, s), to=lambda x, p: x, logjac=lambda x, p: mp.zero, factor=HALF)
    add("hypsecant=log|cauchy|", "hypsecant", "cauchy", {"loc": 0.0}, lambda l, s: (0, 1), to=lambda x, p: mp.exp(x / f(p[1])),
        logjac=lambda x, p: x / f(p[1]) - mp.log(f(p[1])), factor=2 * mp.one)
    add("gamma_gompertz(beta=1)=exp", "gamma_gompertz", "weibull_min", {"beta": 1.0}, lambda c, b, s: (1, 0, f(s) / f(c)), **ident)
    add("gompertz=exp", "gompertz", "weibull_min", {}, lambda c, s: (1, 0, 1 / f(c)), to=lambda x, p: mp.expm1(x / f(p[1])), back=lambda y, p: f(p[1]) * mp.log1p(y),
        logjac=lambda x, p: x / f(p[1]) - mp.log(f(p[1])))
    add("benktander2(a,1)=exp", "benktander2", "weibull_min", {"b": 1.0}, lambda a, b: (1, 1, 1 / f(a)), **ident)
    add("rice^2=ncx2", "rice", "ncx2", {"nu": (0.05, 10)}, lambda n, s: (2, (f(n) / f(s)) ** 2), to=lambda x, p: (x / f(p[1])) ** 2, back=None,
        logjac=lambda x, p: mp.log(2 * x) - 2 * mp.log(f(p[1])), fns=("pdf", "logpdf"))
    add("folded_normal^2=ncx2", "folded_normal", "ncx2", {"mu": (0.05, 10)}, lambda n, s: (1, (f(n) / f(s)) ** 2), to=lambda x, p: (x / f(p[1])) ** 2,
        logjac=lambda x, p: mp.log(2 * x) - 2 * mp.log(f(p[1])), fns=("pdf", "logpdf"))
    add("ncx2(0)=chi2", "ncx2", "chi2", {"lam": 0.0}, lambda k, l: (k,), **ident)
    add("ncf(0)=f", "ncf", "f", {"nc": 0.0}, lambda a, b, c: (a, b), **ident)
    add("nct(0)=t", "nct", "studentt", {"nc": 0.0}, lambda d, c: (d,), fns=("pdf", "logpdf", "mean", "var", "support"), **ident)
    add("nct reflection", "nct", "nct", {}, lambda d, c: (d, -f(c)), aff=lambda p: (mp.zero, -mp.one), sign=-1)
    add("genhyperbolic reflection", "genhyperbolic", "genhyperbolic", {}, lambda p, a, b, l, s: (p, a, -f(b), -f(l), s), aff=lambda p: (mp.zero, -mp.one), sign=-1,
        fns=("pdf", "logpdf", "mean", "var"))
    add("uniform=beta", "uniform", "beta", {}, lambda a, b: (1, 1), aff=lambda p: (f(p[0]), f(p[1]) - f(p[0])))
    add("cauchy=t(1)", "cauchy", "studentt", {}, lambda l, s: (1,), fns=TAIL + ("invcdf", "invsf", "mode", "entropy", "support"), aff=lambda p: (f(p[0]), f(p[1])))
    add("logistic=tukeylambda(0)", "logistic", "tukeylambda", {}, lambda l, s: (0, l, s), **ident)
    return out


AFF = ("mean", "median", "mode", "var", "skewness", "kurtosis", "entropy", "support", "noncentral_moment")
NOMOM = {"levy", "cauchy", "slash"}


class Cont(Subject):
    quick = 130
    thorough = 4000
    jsec = 20

    def __init__(self, it, tier):
        self.i, self.name = it, it.name
        self.d = cdist.D[it.a]
        self.A, self.B = lib(it.a), lib(it.b)
        self.have = True
        self.only = (f"distributions/{it.a}.py", f"distributions/{it.b}.py", "_common", "_weibull_common", "_powm1")
        self.gbudget = 60 if tier == "quick" else 1000
        self.gtime = 2 if tier == "quick" else 30
        both = lambda f: callable(getattr(self.A, f, None)) and callable(getattr(self.B, f, None))
        fns = it.fns or TAIL + ("invcdf", "invsf") + AFF
        self.tail = [f for f in fns if f in TAIL and hasattr(self.A, f)]
        swap = {"cdf": "sf", "sf": "cdf", "invcdf": "invsf", "invsf": "invcdf"}
        self.other = {f: (swap.get(f, f) if it.sign < 0 else f) for f in TAIL + ("invcdf", "invsf")}
        nol = {"logpdf": "pdf"}
        self.tail = [f for f in self.tail if hasattr(self.B, self.other[f]) or f == "logpdf" and hasattr(self.B, "pdf")]
        self.inv = [f for f in ("invcdf", "invsf") if f in fns and it.back and hasattr(self.A, f) and hasattr(self.B, self.other[f])]
        if it.factor is not None:
            self.tail = [f for f in self.tail if f != "cdf"]
            self.inv = []
        self.mom = [f for f in fns if f in AFF and it.aff and both(f)] if it.factor is None else []
        if "tukeylambda" in (it.a, it.b):
            self.mom = [f for f in self.mom if f != "noncentral_moment"]
        low = {it.a, it.b} & LOWTOL
        if low:
            self.cost, self.quick, self.thorough = 5.0, 25, 400
        if it.a in SLOWINV and self.inv or it.b in SLOWINV and self.inv:
            self.cost, self.quick, self.thorough, self.tshards = 3.0, 60, 1500, 2
        if it.a == "geninvgauss":
            self.quick, self.thorough = 10, 100

    def params(self, c):
        return tuple(c["p_" + n] for n in self.d.params)

    def gen(self, rng):
        p = list(self.d.gen(rng))
        for k, (n, v) in enumerate(zip(self.d.params, p)):
            w = self.i.fix.get(n)
            if isinstance(w, tuple):
                if not w[0] <= p[k] <= w[1]:
                    p[k] = short(rng, unif(rng, *w))
            elif w is not None:
                p[k] = w
        c = {"p_" + n: v for n, v in zip(self.d.params, p)}
        c["dps"] = rng.choice(DPS if not self.cost > 2 else [15, 15, 20])
        p = tuple(p)
        q = self.model_p(p)
        for _ in range(40):
            x, lab = gen_point(rng, self.d, q)
            if math.isfinite(x) and lab != "end" and self.inside(c, x):
                break
        c["x"] = x
        c["prob"] = rng.choice([unif(rng, 0.01, 0.99), logu(rng, 1e-8, 0.5), 1 - logu(rng, 1e-5, 0.5), rng.randrange(1, 64) / 64])
        c["n"] = rng.randrange(0, 5)
        c["q"] = self.cost < 2 or rng.random() < 0.3 and c["dps"] <= 20
        return c

    def model_p(self, p):
        """parameters acceptable to the model (only used to choose x)"""
        if self.i.a in ("ncx2", "ncf", "nct") and p[-1] == 0:
            return p[:-1] + (1.0,)
        return p

    def inside(self, c, x):
        p = self.params(c)
        if self.i.pos and x <= 0:
            return False
        try:
            with mp.workdps(40):
                q = self.model_p(p)
                loc, scale, shape = self.d.std(*q)
                z = (mpf(x) - loc) / scale
                a, b = self.d.supp_z(shape)
                if not a < z < b:
                    return False
                lp = self.d.logpdf_z(z, *shape)
                return mp.isfinite(lp) and lp > -400
        except (ZeroDivisionError, ValueError, OverflowError, mpmath.libmp.NoConvergence):
            return False

    def valid(self, c):
        p = self.params(c)
        if not all(isinstance(v, (int, float)) for v in p) or not isinstance(c["x"], (int, float)) or not math.isfinite(c["x"]):
            return False
        for n, v in zip(self.d.params, p):
            w = self.i.fix.get(n)
            if isinstance(w, tuple) and not w[0] <= v <= w[1] or w is not None and not isinstance(w, tuple) and v != w:
                return False
        return (params_ok(self.d, self.model_p(p)) and 10 <= c["dps"] <= (25 if self.cost > 2 else 60) and 0 < c["prob"] < 1
                and isinstance(c["n"], int) and 0 <= c["n"] <= 5 and self.inside(c, c["x"]))

    def observe(self, c, call):
        p, A = self.params(c), self.A
        o = {f: call(getattr(A, f), c["x"], *p) for f in self.tail}
        o.update({f: call(getattr(A, f), c["prob"], *p) for f in self.inv if c.get("q")})
        for f in self.mom:
            o[f] = call(A.noncentral_moment, c["n"], *p) if f == "noncentral_moment" else call(getattr(A, f), *p)
        return o

    def judge(self, c, obs):
        it, p, dps = self.i, self.params(c), c["dps"]
        vio, n = [], 0
        what = lambda f, a=None: f"{it.a}.{f}({'' if a is None else repr(a) + ', '}*{p!r}) at dps={dps}"
        low = 7 if {it.a, it.b} & (QUAD | LOWTOL) else 4
        with mp.workdps(dps + 20):
            bp = it.bargs(*p)
            x = mpf(c["x"])
            tol = tol_of(dps, low)
            y = it.to(x, p)
            lj = it.logjac(x, p)
            lf = mp.log(it.factor) if it.factor is not None else mp.zero
            db = self.B.pdf(y, *bp) if hasattr(self.B, "pdf") else mp.exp(self.B.logpdf(y, *bp))
            dens = db * mp.exp(lj + lf)
            loc, scale, _ = self.d.std(*self.model_p(p))
            # all functions see x - loc rounded
            eps = mpf(10) ** (1 - dps)
            cond = (abs(x) + abs(loc) + abs(scale)) * dens
            steep = None
            for f in self.tail:
                g = obs[f]
                n += 1
                if isinstance(g, Exc) or not isinstance(g, mpmath.mpf) or mp.isnan(g):
                    vio.append((f, f"{what(f, c['x'])}: {g!r}"))
                    continue
                if f in ("pdf", "logpdf"):
                    if not (mp.isfinite(dens) and dens > 0):
                        n -= 1
                        continue
                    ld = mp.log(dens)
                    if steep is None:
                        # slope of the log-density, for the rounding of x
                        h = mpf(10) ** (-dps - 3) * (abs(x) or 1)
                        try:
                            y2 = it.to(x + h, p)
                            d2 = self.B.pdf(y2, *bp) * mp.exp(it.logjac(x + h, p) + lf)
                            steep = abs(mp.log(d2) - ld) / h * (abs(x) + abs(loc)) if d2 > 0 else mp.zero
                        except (ValueError, ZeroDivisionError):
                            steep = mp.zero
                        if not mp.isfinite(steep):
                            steep = mp.zero
                    t = tol * (1 + abs(ld)) + steep * eps
                    ok = abs(g - ld) <= t if f == "logpdf" else g > 0 and abs(mp.log(g) - ld) <= t
                    want = ld if f == "logpdf" else dens
                else:
                    v = getattr(self.B, self.other[f])(y, *bp)
                    if it.factor is not None:
                        v *= it.factor
                    mode = {f"{it.a}.{f}", f"{it.b}.{self.other[f]}"} & ABS
                    t = tol if mode else tol * abs(v) * (1 + abs(mp.log(abs(v) if v else 1)))
                    ok = abs(g - v) <= t + eps * cond * (1 if not mode else 1)
                    want = v
                if not ok:
                    vio.append((f, f"{what(f, c['x'])} = {show(g)}, but {it.b} {tuple(show(mpf(t)) for t in bp)} at {show(y)} gives {show(want)}"))
            for f in self.inv if c.get("q") else ():
                g = obs[f]
                q = mpf(c["prob"])
                w = it.back(getattr(self.B, self.other[f])(q, *bp), p)
                n += 1
                if isinstance(g, Exc) or not isinstance(g, mpmath.mpf) or mp.isnan(g):
                    vio.append((f, f"{what(f, c['prob'])}: {g!r}"))
                    continue
                try:
                    dd = self.B.pdf(it.to(w, p), *bp) * mp.exp(it.logjac(w, p))
                except (ValueError, ZeroDivisionError):
                    dd = mp.zero
                if not dd > 0 or mp.isinf(w) or not mp.isfinite(dd):
                    n -= 1
                    continue
                t = tol * 10 * (abs(w) + abs(loc) + (abs(scale) if it.a in ABSX else 0) + min(q, 1 - q) / dd) + tol_of(dps, 1) / dd * 10
                if not abs(g - w) <= t:
                    vio.append((f, f"{what(f, c['prob'])} = {show(g)}, but {it.b} {tuple(show(mpf(t)) for t in bp)} gives {show(w)}"))
            if it.aff:
                sh, s = it.aff(p)
            for f in self.mom:
                g = obs[f]
                if it.skip and it.skip(f, p):
                    continue
                if f == "noncentral_moment":
                    if sh != 0:
                        continue
                    w = s ** c["n"] * self.B.noncentral_moment(c["n"], *bp)
                elif f == "support":
                    a, b = self.B.support(*bp)
                    w = tuple(sorted((sh + s * mpf(a), sh + s * mpf(b))))
                else:
                    w = getattr(self.B, f)(*bp)
                    if f in ("mean", "median", "mode"):
                        w = sh + s * w
                    elif f == "var":
                        w = s * s * w
                    elif f == "skewness":
                        w = w if s > 0 else -w
                    elif f == "entropy":
                        w = w + mp.log(abs(s))
                n += 1
                if isinstance(g, Exc):
                    vio.append((f, f"{what(f)}: {g!r}"))
                    continue
                unit = abs(loc) + abs(scale)
                gs, ws = (g, w) if f == "support" else ((g,), (w,))
                for a, b in zip(gs, ws):
                    a, b = mpf(a), mpf(b)
                    if mp.isnan(b) or mp.isinf(b) or mp.isnan(a) or mp.isinf(a):
                        # a moment that does not exist: infinite or nan by convention
                        ok = a == b or not mp.isfinite(a) and not mp.isfinite(b)
                    else:
                        t = tol * 10 * abs(b)
                        if f in ("mean", "median", "mode", "support"):
                            t += tol * unit
                        elif f == "var":
                            t += 0
                        elif f != "noncentral_moment":
                            t += tol
                        ok = abs(a - b) <= t
                    if not ok:
                        arg = c["n"] if f == "noncentral_moment" else None
                        vio.append((f, f"{what(f, arg)} = {show(a)}, but {it.b} {tuple(show(mpf(t)) for t in bp)} gives {show(b)}"))
        return n, vio


ABSX = set(cdist.D)
SLOWINV = {"gamma", "chi2", "beta", "betaprime", "f", "loggamma", "exponweib", "invgamma", "nakagami"}


# -- discrete identities: name, generator of (case params), A call, B call; the values must agree

def nb(rng, a, b):
    return rng.randrange(a, b + 1)


def dy(rng):
    return rng.randrange(1, 64) / 64


def hyp(rng):
    N = nb(rng, 1, 60)
    return N, nb(rng, 0, N), nb(rng, 0, N)


def DL():
    def d(m, f):
        return getattr(lib(m), f)
    PM = ("pmf", "logpmf", "cdf", "sf")
    out = []

    def add(name, names, gen, ok, pts, a, b, fns, moms=(), refl=None):
        out.append((name, names, gen, ok, pts, a, b, fns, moms, refl))
    hok = lambda N, K, n: 0 <= K <= N <= 120 and 0 <= n <= N and N > 0
    add("fnch(1)=hypergeometric", "NKn", hyp, hok, lambda N, K, n: (max(0, n - N + K), min(K, n)),
        ("fishers_noncentral_hypergeometric", lambda N, K, n: (1, N, K, n)), ("hypergeometric", lambda N, K, n: (N, K, n)), ("pmf", "cdf", "sf"), ("mean", "support"))
    add("fnch reflection", "NKnc", lambda r: hyp(r) + (short(r, logu(r, 0.05, 20)),), lambda N, K, n, c: hok(N, K, n) and 0.01 <= c <= 100,
        lambda N, K, n, c: (max(0, n - N + K), min(K, n)),
        ("fishers_noncentral_hypergeometric", lambda N, K, n, c: (c, N, K, n)),
        ("fishers_noncentral_hypergeometric", lambda N, K, n, c: (1 / mpf(c), N, N - K, n)), ("pmf", "cdf", "sf"), ("mean",), lambda N, K, n, c: n)
    add("hypergeometric exchange", "NKn", hyp, hok, lambda N, K, n: (max(0, n - N + K), min(K, n)), ("hypergeometric", lambda N, K, n: (N, K, n)),
        ("hypergeometric", lambda N, K, n: (N, n, K)), PM, ("mean", "var", "support"))
    add("hypergeometric reflection", "NKn", hyp, hok, lambda N, K, n: (max(0, n - N + K), min(K, n)), ("hypergeometric", lambda N, K, n: (N, K, n)),
        ("hypergeometric", lambda N, K, n: (N, N - K, n)), PM, ("mean", "var"), lambda N, K, n: n)
    add("binomial reflection", "np", lambda r: (nb(r, 1, 60), dy(r)), lambda n, p: 1 <= n <= 200 and 0 < p < 1, lambda n, p: (0, n),
        ("binomial", lambda n, p: (n, p)), ("binomial", lambda n, p: (n, 1 - mpf(p))), PM, ("mean", "var"), lambda n, p: n)
    add("betabinomial reflection", "nab", lambda r: (nb(r, 1, 40), short(r, logu(r, 0.1, 20)), short(r, logu(r, 0.1, 20))),
        lambda n, a, b: 1 <= n <= 60 and 0.05 <= a <= 50 and 0.05 <= b <= 50, lambda n, a, b: (0, n), ("betabinomial", lambda n, a, b: (n, a, b)),
        ("betabinomial", lambda n, a, b: (n, b, a)), PM, ("mean", "var", "skewness", "kurtosis"), lambda n, a, b: n)
    add("negative_hypergeometric=betabinomial", "NKr", lambda r: (lambda N: (lambda K: (N, K, nb(r, 1, N - K)))(nb(r, 1, N - 1)))(nb(r, 2, 40)),
        lambda N, K, r: 1 <= K < N <= 80 and 1 <= r <= N - K, lambda N, K, r: (0, K), ("negative_hypergeometric", lambda N, K, r: (N, K, r)),
        ("betabinomial", lambda N, K, r: (K, r, N - K - r + 1)), PM, ("mean", "var", "support"))
    add("betabinomial(1,1)=uniform", "n", lambda r: (nb(r, 1, 60),), lambda n: 1 <= n <= 200, lambda n: (0, n), ("betabinomial", lambda n: (n, 1, 1)),
        ("trunc_discrete_exp", lambda n: (0, n + 1)), PM, ("mean", "var", "support"))
    add("binomial(1)=betabinomial(1)", "p", lambda r: (dy(r),), lambda p: 0 < p < 1, lambda p: (0, 1), ("binomial", lambda p: (1, p)),
        ("betabinomial", lambda p: (1, p, 1 - mpf(p))), PM, ("mean", "var", "support"))
    add("negative_binomial(1)~trunc", "np", lambda r: (nb(r, 1, 30), dy(r)), lambda n, p: 1 <= n <= 100 and 0 < p < 1, lambda n, p: (0, n - 1),
        ("negative_binomial", lambda n, p: (1, p)), ("trunc_discrete_exp", lambda n, p: (-mp.log(mpf(p)), n)), ("trunc",))
    add("binomial cdf=beta sf", "np", lambda r: (nb(r, 1, 60), dy(r)), lambda n, p: 1 <= n <= 200 and 0 < p < 1, lambda n, p: (0, n - 1),
        ("binomial", lambda n, p: (n, p)), ("beta", None), ("beta",))
    add("poisson cdf=gamma sf", "l", lambda r: (short(r, logu(r, 0.05, 80)),), lambda l: 0.01 <= l <= 200, lambda l: (0, int(l * 2 + 8)),
        ("poisson", lambda l: (l,)), ("gamma", None), ("gamma",))
    add("negative_binomial cdf=beta", "rp", lambda r: (nb(r, 1, 20), dy(r)), lambda r, p: 0 < r <= 60 and 0 < p < 1, lambda r, p: (0, 40),
        ("negative_binomial", lambda r, p: (r, p)), ("beta", None), ("nbeta",))
    return out


class Disc(Subject):
    quick = 100
    thorough = 4000

    def __init__(self, spec, tier):
        self.name, self.names, self.g, self.ok, self.pts, self.a, self.b, self.fns, self.moms, self.refl = spec
        self.A, self.B = lib(self.a[0]), lib(self.b[0])
        self.have = True
        self.only = (f"distributions/{self.a[0]}.py", f"distributions/{self.b[0]}.py", "_common")
        self.gbudget = 60 if tier == "quick" else 1000
        self.gtime = 2 if tier == "quick" else 30
        self.intgenes = tuple(n for n in self.names if n in "nNKk")

    def gen(self, rng):
        v = self.g(rng)
        c = dict(zip(self.names, v))
        lo, hi = self.pts(*v)
        c["k"] = nb(rng, lo, hi) if hi >= lo else lo
        c["dps"] = rng.choice(DPS)
        return c

    def v(self, c):
        return tuple(c[n] for n in self.names)

    def valid(self, c):
        v = self.v(c)
        for n, t in zip(self.names, v):
            if n in "NKn" and not isinstance(t, int):
                return False
        try:
            if not self.ok(*v):
                return False
        except TypeError:
            return False
        lo, hi = self.pts(*v)
        return isinstance(c["k"], int) and lo <= c["k"] <= hi and 10 <= c["dps"] <= 60

    def observe(self, c, call):
        v = self.a[1](*self.v(c))
        k = c["k"]
        special = self.fns[0] in ("trunc", "beta", "gamma", "nbeta")
        fn = ("pmf", "cdf") if self.fns == ("trunc",) else ("cdf", "sf") if special else self.fns
        o = {f: call(getattr(self.A, f), k, *v) for f in fn}
        if self.name == "binomial cdf=beta sf":
            for f in ("cdf", "sf"):
                for m in ("incbeta", "sumpmf"):
                    o[f + ":" + m] = call(getattr(self.A, f), k, *v, method=m)
        for f in self.moms:
            o[f] = call((lambda *a: list(self.A.support(*a))) if f == "support" else getattr(self.A, f), *v)
        return o

    def judge(self, c, obs):
        dps, k, v = c["dps"], c["k"], self.v(c)
        av = self.a[1](*v)
        vio, n = [], 0
        swap = {"cdf": "sf", "sf": "cdf"}
        with mp.workdps(dps + 20):
            e = mpf(10) ** (4 - dps)
            for f, g in obs.items():
                base, _, meth = f.partition(":")
                what = f"{self.a[0]}.{f}({'' if f in self.moms else str(k) + ', '}*{av!r}) at dps={dps}"
                if isinstance(g, Exc):
                    if meth and g.type in ("ValueError", "TypeError") and "method" in str(g):
                        continue
                    n += 1
                    vio.append((base, f"{what}: {g!r}"))
                    continue
                n += 1
                extra = mp.zero
                if self.fns[0] == "beta":
                    b = lib("beta")
                    w = b.cdf(1 - mpf(v[1]), v[0] - k, k + 1) if base == "cdf" else b.cdf(mpf(v[1]), k + 1, v[0] - k)
                elif self.fns[0] == "nbeta":
                    b = lib("beta")
                    w = b.cdf(1 - mpf(v[1]), v[0], k + 1) if base == "cdf" else b.cdf(mpf(v[1]), k + 1, v[0])
                elif self.fns[0] == "gamma":
                    b = lib("gamma")
                    w = (b.sf if base == "cdf" else b.cdf)(mpf(v[0]), k + 1, 1)
                elif self.fns == ("trunc",):
                    bv = self.b[1](*v)
                    p = mpf(v[1])
                    # geometric restricted to {0, ..., n-1} (p**n is the rest)
                    w = getattr(self.B, f)(k, *bv) * (1 - p ** v[0])
                else:
                    bv = self.b[1](*v)
                    m = self.refl(*v) if self.refl else None
                    if f == "support":
                        s = list(self.B.support(*bv))
                        if list(g) != s:
                            vio.append((f, f"{what} = {g!r}, but {self.b[0]} gives {s!r}"))
                        continue
                    if f in self.moms:
                        w = getattr(self.B, f)(*bv)
                        if m is not None:
                            w = m - w if f == "mean" else -w if f == "skewness" else w
                        if f in ("skewness", "kurtosis", "mean"):
                            extra = e * (m or 1)
                    elif m is None:
                        w = getattr(self.B, f)(k, *bv)
                    elif f in swap:
                        # P(n - Y <= k) = P(Y >= n - k) = sf(n - k - 1)
                        w = self.B.sf(m - k - 1, *bv) if f == "cdf" else self.B.cdf(m - k - 1, *bv)
                    else:
                        w = getattr(self.B, f)(m - k, *bv)
                if not isinstance(g, mpmath.mpf):
                    g = mpf(g) if isinstance(g, (int, float)) else mp.nan
                if mp.isinf(w) or mp.isnan(w):
                    ok = w == g or mp.isnan(w) and mp.isnan(g)
                else:
                    ok = abs(g - w) <= e * abs(w) * (1 + abs(mp.log(abs(w)) if w else 0)) + extra + (e if f == "logpmf" else 0) * 10
                if not ok:
                    vio.append((base, f"{what} = {show(g)}, but the identity with {self.b[0]} gives {show(w)}"))
        return n, vio


def subjects(tier):
    return [Cont(i, tier) for i in L()] + [Disc(s, tier) for s in DL()]
