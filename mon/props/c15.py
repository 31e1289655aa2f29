"""C15: invalid parameters and arguments are rejected with ValueError."""
import inspect
import math
from mpmath import mp
from .. import cdist, ddist
from ..cont import lib, params_ok, gen_point, DPS
from ..core import mpf, show
from ..engine import Subject, Exc

RULE = ("one fact = one call of one function with one invalid parameter vector or argument, judged by whether it raised ValueError, or "
        "one call with valid (possibly extreme or boundary) parameters judged by whether it was accepted; distinct = distinct sets "
        "of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["the domains written in this file are the documented ones; nan and infinite parameters are not judged"]

TINY = 2.0 ** -60


def pos(rng):
    return rng.choice([0, 0.0, -TINY, -1e-300, -0.5, -1, -rng.random() * 10, -1e6])


def neg(rng):
    return rng.choice([-TINY, -1e-300, -0.5, -1, -rng.random() * 10, -1e6])


def prob(rng):
    return rng.choice([-TINY, -0.25, -1, 1 + 2.0 ** -52, 1.5, 2, 1 + rng.random(), -rng.random() * 5, 100])


def nonint(rng):
    return rng.choice([-1, -2, -7, 2.5, 0.5, -0.5, 1 + 2.0 ** -30])


# kinds of every non-scale, non-location parameter: p positive, n nonnegative, u free (any real), d handled in special()
KIND = {
    "argus": {"chi": "n"}, "genextreme": {"xi": "u"}, "genhyperbolic": {"p": "u", "b": "d"}, "geninvgauss": {"p": "u"},
    "genpareto": {"xi": "u"}, "rice": {"nu": "n"}, "folded_normal": {"mu": "u"}, "truncnorm": {"a": "d", "b": "d"},
    "uniform": {"a": "d", "b": "d"}, "tukeylambda": {"lam": "u"}, "lognormal": {"mu": "u"},
    "ncx2": {"lam": "n"}, "ncf": {"nc": "n"}, "nct": {"nc": "u"},
}
# modules that document no parameter checks at all (their functions return mathematical continuations or nan)
UNCHECKED = ("ncx2", "ncf", "nct")


def bad_continuous(d, p, rng):
    """one invalid parameter vector near the valid one; (label, vector) or None"""
    name = d.name
    q = list(p)
    idx = {n: i for i, n in enumerate(d.params)}
    opts = []
    for n in d.params:
        if n == d.locname and n != d.scalename:
            continue
        k = KIND.get(name, {}).get(n, "p")
        if k == "p":
            opts.append((n, pos))
        elif k == "n":
            opts.append((n, neg))
    if name == "benktander1":
        opts.append(("b", lambda r: p[0] * (p[0] + 1) / 2 * r.choice([1 + 2.0 ** -40, 1.5, 10])))
    if name == "benktander2":
        opts.append(("b", lambda r: r.choice([1 + 2.0 ** -52, 1.5, 3, 100])))
    if name in ("truncnorm", "uniform"):
        if rng.random() < .5:
            q[idx["a"]], q[idx["b"]] = q[idx["b"]], q[idx["a"]]
        else:
            q[idx["b"]] = q[idx["a"]]
        if not q[idx["a"]] >= q[idx["b"]]:
            return None
        if not (name == "truncnorm" and rng.random() < .4 and opts):
            return "order", tuple(q)
        q = list(p)
    if name == "genhyperbolic" and rng.random() < .4:
        q[2] = p[1] * rng.choice([1 + 2.0 ** -40, -1.5, 2, -1 - 2.0 ** -40])
        return "b>a", tuple(q)
    if not opts:
        return None
    n, g = rng.choice(opts)
    v = g(rng)
    if name == "genhyperbolic" and n == "a":
        q[2] = 0
    if name == "benktander1" and n == "b" and v > 0 and not v > p[0] * (p[0] + 1) / 2:
        return None
    q[idx[n]] = v
    return n, tuple(q)


def bad_discrete(name, p, rng):
    q = list(p)
    if name == "binomial":
        i = rng.choice([0, 1])
        q[i] = nonint(rng) if i == 0 else prob(rng)
    elif name == "betabinomial":
        i = rng.choice([0, 1, 2])
        q[i] = nonint(rng) if i == 0 else pos(rng)
    elif name in ("hypergeometric", "fishers_noncentral_hypergeometric"):
        o = len(q) - 3
        i = rng.choice([0, 1, 2, 3, 4])
        if i < 3:
            q[o + i] = rng.choice([-1, -2, -10])
        elif i == 3:
            q[o + 1] = q[o] + rng.choice([1, 2, 50])
        elif i == 4:
            q[o + 2] = q[o] + rng.choice([1, 2, 50])
    elif name == "negative_hypergeometric":
        i = rng.choice([0, 1, 2, 3, 4])
        if i < 3:
            q[i] = rng.choice([-1, -2, -10])
        elif i == 3:
            q[1] = q[0] + rng.choice([1, 2, 50])
        else:
            q[2] = q[0] - q[1] + rng.choice([1, 2, 50])
    elif name == "negative_binomial":
        i = rng.choice([0, 1])
        q[i] = pos(rng) if i == 0 else prob(rng)
    elif name == "poisson":
        q[0] = pos(rng)
    elif name == "logseries":
        q[0] = prob(rng)
    elif name == "trunc_discrete_exp":
        i = rng.choice([0, 1])
        q[i] = neg(rng) if i == 0 else nonint(rng)
    else:
        return None
    return "params", tuple(q)


XF = ("pdf", "logpdf", "cdf", "sf", "logcdf", "logsf", "pmf", "logpmf")
QF = ("invcdf", "invsf")
NLL = ("nll", "nll_grad", "nll_hess", "nll_invhess")
NULLARY = ("support", "mean", "mode", "median", "var", "skewness", "kurtosis", "entropy", "support_pmf", "pmf_dict")


def lead(f, case, data):
    if f in XF:
        return [data[0]]
    if f in QF:
        return [case["p"]]
    if f in NLL:
        return [list(data)]
    if f == "noncentral_moment":
        return [case["n"]]
    if f == "interval_prob":
        return [min(data), max(data)]
    if f in NULLARY:
        return []
    return None


def public(m):
    out = []
    for f in XF + QF + NLL + NULLARY + ("noncentral_moment", "interval_prob"):
        if inspect.isfunction(getattr(m, f, None)):
            out.append(f)
    return out


class S(Subject):
    """invalid parameter vectors, every function of the module"""
    quick = 60
    thorough = 1500
    frozen = ("bad", "n")

    def __init__(self, name, tier):
        self.name, self.m = name, lib(name)
        self.cont = name in cdist.D
        self.d = cdist.D[name] if self.cont else ddist.D[name]
        self.guided = False
        self.fns = public(self.m)

    def gen(self, rng):
        d = self.d
        for _ in range(60):
            p = d.gen(rng)
            if self.cont and not params_ok(d, p):
                continue
            b = bad_continuous(d, p, rng) if self.cont else bad_discrete(self.name, p, rng)
            if b is None or list(b[1]) == list(p):
                continue
            if self.cont:
                xs = [gen_point(rng, d, p)[0] for _ in range(2)]
                xs = [x if math.isfinite(x) else 0.5 for x in xs]
            else:
                xs = [rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 5])]
                if self.name == "logseries":
                    xs = [x + 1 for x in xs]
            return dict(dps=rng.choice([15, 15, 30, 60]), good=list(p), bad=list(b[1]), x=xs, p=rng.choice([0, 1, 0.5, rng.random()]),
                        n=rng.choice([0, 1, 2, 3]), lab=b[0], _s=b[0])
        return dict(dps=15, good=[], bad=[], x=[0, 1], p=.5, n=1, lab="none", _s="none")

    def valid(self, case):
        return bool(case["bad"])

    def observe(self, case, call):
        o = {}
        for f in self.fns:
            a = lead(f, case, case["x"])
            o[f] = call(getattr(self.m, f), *a, *case["bad"])
        # the order of validation must not matter: also with an argument that has a trivial answer
        if "cdf" in o and self.cont and self.name != "genexpon":
            for z in (-1e9, 1e9, mp.inf, mp.ninf):
                o["cdf", z] = call(self.m.cdf, z, *case["bad"])
                if "pdf" in o:
                    o["pdf", z] = call(self.m.pdf, z, *case["bad"])
        if "pmf" in o and not self.cont:
            for z in (-3, 10 ** 6):
                o["pmf", z] = call(self.m.pmf, z, *case["bad"])
        return o

    def judge(self, case, obs):
        out = []
        for f, v in obs.items():
            if isinstance(v, Exc) and v.type == "ValueError":
                continue
            out.append((f if isinstance(f, str) else f[0], f"{f} accepts the invalid parameters {case['bad']!r} ({case['lab']}): {v!r:.90}"))
        return len(obs), out


class Good(Subject):
    """boundary and extreme valid parameters are accepted"""
    quick = 25
    thorough = 300
    guided = False

    def __init__(self, name, tier):
        self.name, self.m, self.base = name + ".valid", lib(name), name
        self.d = cdist.D[name]

    def gen(self, rng):
        d = self.d
        for _ in range(50):
            p = d.gen(rng)
            if params_ok(d, p):
                break
        p = list(p)
        for i, n in enumerate(d.params):
            k = KIND.get(d.name, {}).get(n, "p")
            if n == d.locname and n != d.scalename:
                if rng.random() < .3:
                    p[i] = rng.choice([0, -1e300, 1e300, 1e-300])
                continue
            if rng.random() < .5 and k in "pn" and d.name not in ("benktander1", "benktander2", "genhyperbolic"):
                p[i] = rng.choice([1e-300, TINY, 1e300, 1, 0 if k == "n" else 2])
        if d.name == "benktander2":
            p[1] = rng.choice([1, 1.0, TINY, 1 - 2.0 ** -53])
        if d.name == "benktander1":
            p = [2, rng.choice([3, 3.0, TINY])]
        if d.name == "genhyperbolic" and rng.random() < .5:
            p[0], p[2] = -1.5, rng.choice([-p[1], p[1]])
        return dict(dps=15, good=p, _s="extreme")

    def observe(self, case, call):
        return {"support": call(self.m.support, *case["good"])} if hasattr(self.m, "support") else {}

    def judge(self, case, obs):
        out = []
        for f, v in obs.items():
            if isinstance(v, Exc):
                out.append((f, f"{f}(*{case['good']!r}) of valid parameters raised {v!r:.90}"))
        return len(obs), out


class Args(Subject):
    """invalid probabilities, moment orders, intervals, counts and data"""
    quick = 40
    thorough = 600
    guided = False
    frozen = ("n",)

    def __init__(self, name, tier):
        self.name, self.m, self.base = name + ".args", lib(name), name
        self.cont = name in cdist.D
        self.d = cdist.D[name] if self.cont else ddist.D[name]

    def gen(self, rng):
        d = self.d
        for _ in range(50):
            p = d.gen(rng)
            if not self.cont or params_ok(d, p):
                break
        if self.cont:
            xs = []
            for _ in range(60):
                x = gen_point(rng, d, p)[0]
                with mp.workdps(30):
                    a, b = d.support(*p)
                    if math.isfinite(x) and a < x < b:
                        xs.append(x)
                if len(xs) == 2:
                    break
        else:
            a = d.supp(*p)[0]
            xs = [a]
        return dict(dps=rng.choice([15, 30]), good=list(p), p=prob(rng), n=rng.choice([-1, -2, -5]), x=xs,
                    counts=rng.choice(["short", "long", "neg", "frac"]), off=rng.choice([1, 0.5, 1e-3, 1e6]), strict=rng.random() < .5,
                    _s="args")

    def valid(self, case):
        return True

    def observe(self, case, call):
        o, m, p = {}, self.m, case["good"]
        for f in QF:
            if hasattr(m, f):
                o[f] = call(getattr(m, f), case["p"], *p)
        if hasattr(m, "noncentral_moment") and self.base not in ("exponweib", "benini"):      # real orders are meaningful there
            o["noncentral_moment"] = call(m.noncentral_moment, case["n"], *p)
        if hasattr(m, "interval_prob") and len(case["x"]) == 2 and case["x"][0] != case["x"][1]:
            o["interval_prob"] = call(m.interval_prob, max(case["x"]), min(case["x"]), *p)
        xs = case["x"] or [0.5]
        bad = {"short": [1] * (len(xs) - 1), "long": [1] * (len(xs) + 1), "neg": [-1] * len(xs), "frac": [1.5] * len(xs)}[case["counts"]]
        for f in ("nll", "mle"):
            fn = getattr(m, f, None)
            if fn is None or "counts" not in inspect.signature(fn).parameters:
                continue
            a = p if f == "nll" else []
            if f == "mle" and self.base == "binomial":
                o[f, "counts"] = call(fn, xs, counts=bad, n=p[0])
            elif f == "mle" and self.base == "betabinomial":
                o[f, "counts"] = call(fn, xs, counts=bad, n=p[0])
            else:
                o[f, "counts"] = call(fn, xs, *a, counts=bad)
        for f, bound in DATA.get(self.base, {}).items():
            v = bound(case)
            if v is None:
                continue
            data, a, k = v
            o[f, "data"] = call(getattr(m, f), data, *a, **k)
        for prm, names in FIXED.get(self.base, {}).items():
            v = -case["off"] if not case["strict"] else 0
            o["mle", "fixed " + prm] = call(m.mle, POSDATA.get(self.base, [0.25, 0.5, 0.625]), **{prm: v}, **names)
        return o

    def judge(self, case, obs):
        out = []
        for f, v in obs.items():
            if isinstance(v, Exc) and v.type == "ValueError":
                continue
            tag = f if isinstance(f, str) else f[0]
            out.append((tag, f"{f} with params {case['good']!r}, p={case['p']!r}, n={case['n']}, x={case['x']!r}, counts={case['counts']}, "
                             f"off={case['off']}: invalid argument accepted: {v!r:.90}"))
        return len(obs), out


POSDATA = {}


def below(lo, strict):
    """data sets with one value below the bound (or on it, when the bound itself is excluded)"""
    def g(case):
        b = lo(case["good"])
        v = b if (strict and case["strict"]) else b - case["off"]
        return [b + 1.5, v, b + 0.25]
    return g


def _nll(mk):
    return lambda case: (mk(case), case["good"], {})


def _mle(mk, **k):
    return lambda case: (mk(case), (), k)


def unit(case):
    v = 0 if case["strict"] else -case["off"]
    if int(case["off"] * 8) % 2:
        v = 1 - v
    return [0.25, v, 0.5]


ZERO, ONE = (lambda p: 0), (lambda p: 1)
DATA = {
    "benini": {"nll": _nll(below(lambda p: p[2], False))},
    "benktander1": {"nll": _nll(below(ONE, False)), "mle": _mle(below(ONE, False))},
    "benktander2": {"nll": _nll(below(ONE, False))},
    "beta": {"nll": _nll(unit), "mle": _mle(unit)},
    "betaprime": {"nll": _nll(below(ZERO, False)), "mle": _mle(below(ZERO, False))},
    "burr12": {"nll": _nll(below(ZERO, True)), "mle": _mle(below(ZERO, True))},
    "gompertz": {"nll": _nll(below(ZERO, False)), "mle": _mle(below(ZERO, False))},
    "kumaraswamy": {"nll": _nll(unit), "mle": _mle(unit)},
    "lognormal": {"mle": _mle(below(ZERO, True)), "mom": _mle(below(ZERO, True))},
    "nakagami": {"nll": _nll(below(lambda p: p[1], True)), "mle": lambda c: (below(lambda p: p[1], True)(c), (), dict(loc=c["good"][1]))},
    "weibull_min": {"nll": _nll(below(lambda p: p[1], True)), "mle": lambda c: (below(lambda p: p[1], True)(c), (), dict(loc=c["good"][1]))},
    "poisson": {"nll": _nll(lambda c: [1, -1 if c["strict"] else 0.5, 2]), "mle": _mle(lambda c: [1, -1, 2])},
    "logseries": {"nll": _nll(lambda c: [1, 0 if c["strict"] else 1.5, 2]), "mle": _mle(lambda c: [1, 0 if c["strict"] else -2, 7])},
    "binomial": {"nll": _nll(lambda c: [0, -1 if c["strict"] else 0.5]), "mle": _mle(lambda c: [0, -1 if c["strict"] else 0.5, 3], n=5)},
    "betabinomial": {"nll": _nll(lambda c: [0, -1 if c["strict"] else c["good"][0] + 1]), "mle": _mle(lambda c: [0, -1 if c["strict"] else 0.5, 3], n=5)},
    "negative_binomial": {"nll": _nll(lambda c: [0, -1 if c["strict"] else 0.5])},
}
FIXED = {"beta": {"a": {}, "b": {}}, "laplace": {"scale": {}}, "weibull_min": {"k": dict(loc=0), "scale": dict(loc=0)},
         "weibull_max": {"k": dict(loc=2), "scale": dict(loc=2)}}


# ------------------------------------------------------------------ the other packages
def _table(rng):
    return [[rng.randint(0, 9), rng.randint(1, 9)], [rng.randint(1, 9), rng.randint(0, 9)]]


def _data(rng, n=None):
    return [rng.randint(1, 40) / 8 for _ in range(n or rng.randint(3, 6))]


WRONG = ["two_sided", "two-Sided", "lesser", "", None, 1, "Greater"]


def others():
    from mpsci import stats, fun
    from mpsci import distributions as ds
    W = lambda r: r.choice(WRONG)
    G = {}
    G["stats.fisher_exact"] = lambda r: (stats.fisher_exact, (_table(r),), dict(alternative=W(r)))
    G["stats.odds_ratio.kind"] = lambda r: (stats.odds_ratio, (_table(r),), dict(kind=r.choice(["Sample", "", "cond", None])))
    G["stats.odds_ratio.alternative"] = lambda r: (stats.odds_ratio, (_table(r),), dict(alternative=W(r), kind=r.choice(["sample", "conditional"])))
    G["stats.odds_ratio.shape"] = lambda r: (stats.odds_ratio, (r.choice([[[1, 2]], [[1, 2, 3], [4, 5, 6]], [[1, 2], [3]], [[1, 2], [3, 4], [5, 6]], [[1], [2]]]),),
                                             dict(kind=r.choice(["sample", "conditional"])))

    def negtab(r):
        t = _table(r)
        t[r.randint(0, 1)][r.randint(0, 1)] = r.choice([-1, -2, -30])
        return stats.odds_ratio, (t,), dict(kind=r.choice(["sample", "conditional"]))
    G["stats.odds_ratio.negative"] = negtab

    def ci(r):
        t = [[r.randint(1, 9), r.randint(1, 9)], [r.randint(1, 9), r.randint(1, 9)]]
        res = stats.odds_ratio(t, kind="conditional")
        return res.odds_ratio_ci, (), dict(confidence_level=r.choice([-TINY, -0.5, 1 + 2.0 ** -40, 2, 95]))
    G["stats.odds_ratio_ci.level"] = ci
    G["stats.pearsonr.alternative"] = lambda r: (stats.pearsonr, (_data(r, 4), _data(r, 4)), dict(alternative=W(r)))
    G["stats.pearsonr.length"] = lambda r: (stats.pearsonr, (_data(r, 4), _data(r, r.choice([3, 5, 8]))), dict(alternative=r.choice(["two-sided", "less"])))
    G["stats.pearsonr_ci.alternative"] = lambda r: (stats.pearsonr_ci, (r.random() - .5, r.randint(4, 20), 0.1), dict(alternative=W(r)))
    G["stats.mean.weights"] = lambda r: (stats.mean, (_data(r, 4),), dict(weights=_data(r, r.choice([3, 5]))))
    G["stats.gmean.negative"] = lambda r: (stats.gmean, (_data(r, 3) + [-r.choice([1, TINY, 3])],), {})
    G["stats.gmean.zero weights"] = lambda r: (stats.gmean, (_data(r, 3),), dict(weights=r.choice([[0, 0, 0], [1, -1, 0], [0.5, 0.5, -1]])))
    G["stats.yeojohnson_mle.empty"] = lambda r: (stats.yeojohnson_mle, ([],), {})
    G["fun.debye.n"] = lambda r: (fun.debye, (r.random() * 4,), dict(n=r.choice([0, -1, 1.5, 2.0, "2", -7]), method=r.choice(["quad", "nsum"])))
    G["fun.debye.method"] = lambda r: (fun.debye, (r.random(),), dict(n=r.randint(1, 4), method=r.choice(["", "Quad", "sum", None])))
    G["fun.roots_legendre"] = lambda r: (fun.roots_legendre, (r.choice([0, -1, -5]),), {})
    G["fun.logbinomial"] = lambda r: (fun.logbinomial, r.choice([(-1, 0), (3, -1), (3, 4), (-2, -3), (0, 1), (2.5, 2.75)]), {})
    G["fun.wright_bessel.rho"] = lambda r: (fun.wright_bessel, (r.random() * 3, r.choice([-1, -1.5, -1 - 2.0 ** -40, -3]), r.random()), {})
    G["fun.betaincinv.method"] = lambda r: (fun.betaincinv, (1.5, 2, 0.25), dict(method=r.choice(["newton", "", "Bisect"])))
    G["fun.inv_pow1pm1"] = lambda r: (fun.inv_pow1pm1, r.choice([(-1.5, 2), (-1, 3), (0.5, 0), (-2, 0.5), (-1, -1)]), {})
    G["fun.inv_powm1"] = lambda r: (fun.inv_powm1, r.choice([(-1.5, 2), (-1, 3), (0.5, 0), (-2, 0.5), (-1, -1)]), {})
    G["dirichlet.alpha"] = lambda r: (r.choice([ds.dirichlet.mean, ds.dirichlet.cov, ds.dirichlet.entropy, ds.dirichlet.mode]) if hasattr(ds.dirichlet, "mode")
                                      else ds.dirichlet.mean, ([1, 2.5, r.choice([0, -1, -TINY])],), {})
    G["dirichlet.pdf alpha"] = lambda r: (r.choice([ds.dirichlet.pdf, ds.dirichlet.logpdf]), ([0.5, 0.25, 0.25], [1, 2.5, r.choice([0, -1, -TINY])]), {})
    G["dirichlet.x"] = lambda r: (r.choice([ds.dirichlet.pdf, ds.dirichlet.logpdf]),
                                  (r.choice([[0.5, 0.25, 0.125], [0.5, 0.75, -0.25], [0.5, 0.25, 0.25 + 2.0 ** -20], [0.5, 0.25, 0.25, 0.25]]), [1, 2.5, 2]), {})
    G["dirichlet.length"] = lambda r: (r.choice([ds.dirichlet.pdf, ds.dirichlet.logpdf]),
                                       (r.choice([[0.5, 0.5], [0.25, 0.25, 0.25, 0.25]]), [1, 2.5, 2]), {})
    mh = ds.multivariate_hypergeometric
    G["multivariate_hypergeometric.colors"] = lambda r: (r.choice([mh.mean, mh.cov]), (r.choice([[3, -1, 4], [-1], [-2, 5]]), r.choice([0, 1, 2])), {})
    G["multivariate_hypergeometric.nsample"] = lambda r: (r.choice([mh.mean, mh.cov]), (r.choice([[3, 1, 4], [8], [5, 3]]), r.choice([9, 10, 100])), {})
    G["multivariate_hypergeometric.pmf"] = lambda r: (r.choice([mh.pmf, mh.logpmf] if hasattr(mh, "logpmf") else [mh.pmf]),
                                                      ([1, 0, 1],) + r.choice([([3, -1, 4], 2), ([1, 0, 1], 3), ([1, 1, 2], 7)]), {})
    return G


class O(Subject):
    quick = 40
    thorough = 400
    guided = False

    def __init__(self, name, g):
        self.name, self.g = name, g

    def gen(self, rng):
        return dict(dps=rng.choice([15, 30]), seed=rng.getrandbits(40), _s="other")

    def observe(self, case, call):
        import random
        fn, a, k = self.g(random.Random(case["seed"]))
        return {"call": (call(fn, *a, **k), f"{fn.__name__}(*{a!r}, **{k!r})")}

    def judge(self, case, obs):
        v, s = obs["call"]
        if isinstance(v, Exc) and v.type == "ValueError":
            return 1, []
        return 1, [("accepts", f"{s}: invalid argument accepted: {v!r:.90}")]


def _has_args(n):
    m = lib(n)
    return (any(hasattr(m, f) for f in QF + ("interval_prob",)) or n in DATA or n in FIXED
            or (hasattr(m, "noncentral_moment") and n not in ("exponweib", "benini"))
            or any("counts" in inspect.signature(getattr(m, f)).parameters for f in ("nll", "mle") if hasattr(m, f)))


def subjects(tier):
    names = list(cdist.D) + [n for n in ddist.D if ddist.D[n].params]
    return ([S(n, tier) for n in names if n not in UNCHECKED and (n in ddist.D or cdist.D[n].params)] + [Good(n, tier) for n in cdist.D if cdist.D[n].params and hasattr(lib(n), "support")]
            + [Args(n, tier) for n in names if _has_args(n)] + [O(n, g) for n, g in others().items()])
