"""Catalogue of the public functions with generators of valid, well-conditioned calls.

An entry describes how to draw (args, kwargs) for one public function.  Arguments are python ints/floats (exactly
representable), lists of them, or options; `num` marks the positions that may be respelled as int/float/mpf."""
import inspect
import math
from mpmath import mp
from . import cdist, ddist
from .cont import lib, params_ok, gen_point
from .core import logu, unif

XF = ("pdf", "logpdf", "cdf", "sf", "logcdf", "logsf")
NULL = ("support", "mean", "mode", "median", "var", "skewness", "kurtosis", "entropy")
NLL = ("nll", "nll_grad", "nll_hess", "nll_invhess")


class Entry:
    def __init__(self, group, name, fn, gen, slow=False, ints=(), tags=(), prep=None):
        self.prep = prep      # turns JSON-able arguments into the real ones
        self.group, self.name, self.fn, self.gen, self.slow, self.ints, self.tags = group, name, fn, gen, slow, ints, tags


E = []


def reg(group, name, fn, gen, **k):
    E.append(Entry(group, name, fn, gen, **k))


def rnd(rng, v, bits=12):
    """short dyadic near v (an int when it happens to be one, sometimes on purpose)"""
    if isinstance(v, int) or not math.isfinite(v) or v == 0:
        return v
    if abs(v) > 1.5 and rng.random() < 0.35:
        return int(round(v))
    m, e = math.frexp(v)
    return math.ldexp(round(m * 2 ** bits), e - bits)


def cparams(rng, d):
    for _ in range(200):
        p = d.gen(rng)
        if not params_ok(d, p):
            continue
        q = tuple(rnd(rng, v) for v in p)
        if not params_ok(d, q):
            continue
        with mp.workdps(20):
            try:
                loc, scale, shape = d.std(*q)
            except Exception:
                continue
            sh = shape if isinstance(shape, (tuple, list)) else (() if shape is None else (shape,))
            if any(not (t == 0 or 0.05 < abs(t) < 40) for t in sh if mp.isfinite(t)):
                continue
            if not 0.02 < scale < 200 or abs(loc) > 200 * scale:
                continue
        return q
    return tuple(p)


def central(rng, d, p):
    """a point where the distribution has ordinary mass"""
    with mp.workdps(20):
        loc, scale, shape = d.std(*p)
        c, w = d.typ(shape)
        a, b = d.support(*p)
        for _ in range(60):
            x = rnd(rng, float(loc + scale * (c + w * unif(rng, -2, 3))), 14)
            if a < x < b:
                return x
        lo = a if mp.isfinite(a) else b - scale
        hi = b if mp.isfinite(b) else a + scale
        return float(lo + (hi - lo) * rng.random())


def _cont(name, d):
    m = lib(name)

    def g(kind):
        def gen(rng):
            p = cparams(rng, d)
            if kind == "x":
                return (central(rng, d, p),) + p, {}
            if kind == "p":
                return (rng.choice([0.5, 0.25, 0.125, 0.875, 2.0 ** -10, rnd(rng, rng.random()), rnd(rng, rng.random())]),) + p, {}
            if kind == "n":
                return (rng.choice([0, 1, 2, 3]),) + p, {}
            if kind == "i":
                return tuple(sorted([central(rng, d, p), central(rng, d, p)])) + p, {}
            if kind == "nll":
                return ([central(rng, d, p) for _ in range(rng.randint(1, 5))],) + p, {}
            if kind == "mle":
                xs = [central(rng, d, p) for _ in range(rng.randint(4, 9))]
                if name in ("weibull_min", "nakagami", "weibull_max"):
                    return (xs,), dict(loc=math.floor(min(xs)) - 0.5 if name != "weibull_max" else math.ceil(max(xs)) + 0.5)
                return (xs,), {}
            return p, {}
        return gen
    for f in XF + NULL + NLL + ("invcdf", "invsf", "noncentral_moment", "interval_prob"):
        fn = getattr(m, f, None)
        if not inspect.isfunction(fn):
            continue
        kind = ("x" if f in XF else "p" if f in ("invcdf", "invsf") else "n" if f == "noncentral_moment" else
                "i" if f == "interval_prob" else "nll" if f in NLL else "")
        if f == "interval_prob" and name == "loggamma":
            kind = "i"
        reg(name, f, fn, g(kind), slow=d.slow, ints=(0,) if kind == "n" else ())
    for f in ("mle", "mom"):
        fn = getattr(m, f, None)
        if inspect.isfunction(fn):
            reg(name, f, fn, g("mle"), slow=True)


def _disc(name, d):
    m = lib(name)

    def g(kind):
        def gen(rng):
            for _ in range(200):
                p = tuple(rnd(rng, v) if isinstance(v, float) else v for v in d.gen(rng))
                if d.ok(*p) if callable(d.ok) else True:
                    if name in ("binomial", "betabinomial", "trunc_discrete_exp") and any(isinstance(v, int) and v > 40 for v in p):
                        continue
                    if name == "negative_binomial" and not (0.05 <= p[1] <= 0.9 and p[0] < 40):
                        continue
                    if name == "logseries" and not 0.02 < p[0] < 0.95:
                        continue
                    break
            lo, hi = d.supp(*p)
            k = rng.randint(lo, lo + 8 if hi is None else hi)
            if kind == "k":
                return (k,) + p, {}
            if kind == "p":
                return (rnd(rng, rng.random()),) + p, {}
            if kind == "nll":
                return ([rng.randint(lo, lo + 8 if hi is None else hi) for _ in range(rng.randint(1, 5))],) + p, {}
            return p, {}
        return gen
    for f in ("pmf", "logpmf", "cdf", "sf", "invcdf", "invsf", "support", "support_pmf", "mean", "mode", "var", "skewness", "kurtosis", "entropy", "nll"):
        fn = getattr(m, f, None)
        if not inspect.isfunction(fn):
            continue
        if f == "support":
            continue
        kind = "k" if f in ("pmf", "logpmf", "cdf", "sf") else "p" if f in ("invcdf", "invsf") else "nll" if f == "nll" else ""
        reg(name, f, fn, g(kind), ints="all")


def pts(rng, n=None, lo=-8.0, hi=8.0):
    return [rnd(rng, unif(rng, lo, hi), 10) for _ in range(n or rng.randint(2, 7))]


def pospts(rng, n=None):
    return [rnd(rng, logu(rng, 0.05, 50), 10) for _ in range(n or rng.randint(2, 7))]


def table(rng, lo=0):
    return [[rng.randint(lo, 9), rng.randint(1, 9)], [rng.randint(1, 9), rng.randint(lo, 9)]]


def _others():
    from mpsci import stats as s, fun as f
    from mpsci import distributions as ds
    F, S = "fun", "stats"
    R = lambda r, a, b: rnd(r, unif(r, a, b))
    L = lambda r, a, b: rnd(r, logu(r, a, b))
    reg(F, "debye", f.debye, lambda r: ((L(r, 0.05, 5),), dict(n=r.randint(1, 6), method=r.choice(["quad", "nsum"]))))
    reg(F, "hermite_e", f.hermite_e, lambda r: ((r.randint(0, 9), R(r, -4, 4)), {}))
    reg(F, "betaincinv", f.betaincinv, lambda r: ((L(r, 0.5, 8), L(r, 0.5, 8), R(r, 0.05, 0.95)), dict(method="bisect", complement=r.choice([True, False]))), slow=True)
    reg(F, "marcumq", f.marcumq, lambda r: ((r.randint(1, 4), r.choice([0, R(r, 0.25, 3)]), R(r, 0.25, 4)), {}), slow=True)
    reg(F, "cmarcumq", f.cmarcumq, lambda r: ((r.randint(1, 4), r.choice([0, R(r, 0.25, 3)]), R(r, 0.25, 4)), {}), slow=True)
    reg(F, "digammainv", f.digammainv, lambda r: ((R(r, -6, 6),), {}))
    reg(F, "xlogy", f.xlogy, lambda r: ((R(r, -4, 4), L(r, 0.01, 50)), {}))
    reg(F, "xlog1py", f.xlog1py, lambda r: ((R(r, -4, 4), r.choice([L(r, 1e-6, 50), -L(r, 1e-6, 0.9)])), {}))
    reg(F, "logbeta", f.logbeta, lambda r: ((L(r, 0.05, 30), L(r, 0.05, 30)), {}))
    reg(F, "multivariate_logbeta", f.multivariate_logbeta, lambda r: ((pospts(r),), {}))
    reg(F, "logbinomial", f.logbinomial, lambda r: (tuple(sorted([L(r, 0.5, 60), L(r, 0.5, 60)], reverse=True)), {}))
    reg(F, "logsumexp", f.logsumexp, lambda r: ((pts(r, 3),), dict(weights=r.choice([None, pospts(r, 3)]))))
    reg(F, "roots_legendre", f.roots_legendre, lambda r: ((r.randint(1, 12),), {}), ints="all")
    reg(F, "inv_powm1", f.inv_powm1, lambda r: ((R(r, -0.75, 5), r.choice([1, -1]) * L(r, 0.1, 5)), {}))
    reg(F, "pow1pm1", f.pow1pm1, lambda r: ((R(r, -0.75, 5), r.choice([0, 1, -1]) * L(r, 0.1, 5)), {}))
    reg(F, "inv_pow1pm1", f.inv_pow1pm1, lambda r: ((R(r, -0.75, 5), r.choice([1, -1]) * L(r, 0.1, 5)), {}))
    for w in ("spherical_besselj", "spherical_bessely", "spherical_besseli", "spherical_besselk"):
        reg(F, w, getattr(f, w), lambda r: ((r.randint(0, 5), L(r, 0.1, 12)), {}))
    reg(F, "wright_bessel", f.wright_bessel, lambda r: ((L(r, 0.1, 3), r.choice([0, 1, 0.5, 1.5, 2]), L(r, 0.25, 4)), {}), slow=True)
    reg(F, "faddeevaw", f.faddeevaw, lambda r: ((R(r, -3, 3),), {}))
    wts = lambda r, n: r.choice([None, pospts(r, n), [r.randint(1, 4) for _ in range(n)]])
    reg(S, "mean", s.mean, lambda r: ((pts(r, 4),), dict(weights=wts(r, 4))))
    reg(S, "var", s.var, lambda r: ((pts(r),), dict(ddof=r.choice([0, 1]))))
    reg(S, "std", s.std, lambda r: ((pts(r),), dict(ddof=r.choice([0, 1]))))
    reg(S, "variation", s.variation, lambda r: ((pospts(r),), dict(ddof=r.choice([0, 1]))))
    reg(S, "gmean", s.gmean, lambda r: ((pospts(r, 4),), dict(weights=wts(r, 4))))
    reg(S, "hmean", s.hmean, lambda r: ((pospts(r, 4),), dict(weights=wts(r, 4))))
    reg(S, "pmean", s.pmean, lambda r: ((pospts(r, 4),), dict(p=r.choice([0, 1, -1, 2, -2, 0.5, 3.25, math.inf]), weights=wts(r, 4))))
    reg(S, "lehmer_mean", s.lehmer_mean, lambda r: ((pospts(r, 4),), dict(p=r.choice([0, 1, -1, 2, 3, 0.25, 2.5, math.inf]), weights=wts(r, 4))))
    reg(S, "unique_counts", s.unique_counts, lambda r: (([r.randint(0, 4) / 2 for _ in range(r.randint(1, 9))],), {}), ints="all")

    def gof(r):
        o = [r.randint(0, 12) for _ in range(r.randint(2, 6))]
        if sum(o) == 0:
            o[0] = 3
        e = [1] * len(o)
        for _ in range(sum(o) - len(o)):
            e[r.randrange(len(o))] += 1
        if sum(e) != sum(o):
            o[0] += sum(e) - sum(o)
        return (o, e), {}
    reg(S, "chisquare", s.chisquare, gof)
    reg(S, "gtest", s.gtest, gof)
    alt = lambda r: r.choice(["two-sided", "less", "greater"])
    reg(S, "pearsonr", s.pearsonr, lambda r: (lambda n: ((pts(r, n), pts(r, n)), dict(alternative=alt(r))))(r.randint(3, 8)))
    reg(S, "pearsonr_ci", s.pearsonr_ci, lambda r: ((R(r, -0.9, 0.9), r.randint(4, 40), R(r, 0.01, 0.5)), dict(alternative=alt(r))))
    reg(S, "anova_oneway", s.anova_oneway, lambda r: (tuple(pts(r) for _ in range(r.randint(2, 4))), {}))
    reg(S, "fisher_exact", s.fisher_exact, lambda r: ((table(r),), dict(alternative=alt(r))), ints="all")
    reg(S, "odds_ratio", lambda t, **k: s.odds_ratio(t, **k).odds_ratio, lambda r: ((table(r, 1),), dict(kind=r.choice(["sample", "conditional"]), alternative=alt(r))), ints="all")

    def ci(t, level, alternative):
        c = s.odds_ratio(t, alternative=alternative).odds_ratio_ci(level)
        return c.low, c.high
    reg(S, "odds_ratio_ci", ci, lambda r: ((table(r, 1), R(r, 0.5, 0.99), alt(r)), {}), ints="all", slow=True)

    def pv(t, **k):
        return s.odds_ratio(t, **k).pvalue
    reg(S, "odds_ratio.pvalue", pv, lambda r: ((table(r, 1),), dict(kind=r.choice(["sample", "conditional"]), alternative=alt(r))), ints="all")
    reg(S, "boxcox", s.boxcox, lambda r: ((L(r, 0.05, 20), r.choice([0, R(r, -3, 3)])), {}))
    reg(S, "boxcox1p", s.boxcox1p, lambda r: ((L(r, 0.01, 20), r.choice([0, R(r, -3, 3)])), {}))
    reg(S, "inv_boxcox", s.inv_boxcox, lambda r: ((R(r, 0.1, 2), r.choice([0, L(r, 0.1, 3), -0.25])), {}))
    reg(S, "inv_boxcox1p", s.inv_boxcox1p, lambda r: ((R(r, 0.1, 2), r.choice([0, L(r, 0.1, 3), -0.25])), {}))
    reg(S, "boxcox_llf", s.boxcox_llf, lambda r: ((r.choice([0, 1, R(r, -3, 3)]), pospts(r, 5)), {}))
    reg(S, "boxcox_mle", s.boxcox_mle, lambda r: ((pospts(r, 8),), {}), slow=True)
    reg(S, "yeojohnson", s.yeojohnson, lambda r: ((R(r, -6, 6), r.choice([0, 2, R(r, -3, 4)])), {}))
    reg(S, "inv_yeojohnson", s.inv_yeojohnson, lambda r: ((r.choice([1, -1]) * R(r, 0.05, 1), r.choice([0, 2, 1, R(r, 0.25, 1.75)])), {}))
    reg(S, "yeojohnson_llf", s.yeojohnson_llf, lambda r: ((r.choice([0, 2, 1, R(r, -2, 3)]), pts(r, 5)), {}))
    reg(S, "yeojohnson_mle", s.yeojohnson_mle, lambda r: ((pts(r, 8),), {}), slow=True)
    # multivariate and circular
    dr, mt, mh, vm = ds.dirichlet, ds.multivariate_t, ds.multivariate_hypergeometric, ds.vonmises

    def simplex(r, n):
        c = sorted(r.sample(range(1, 64), n - 1))
        return [(b - a) / 64 for a, b in zip([0] + c, c + [64])]
    for w in ("pdf", "logpdf"):
        reg("dirichlet", w, getattr(dr, w), lambda r: (lambda n: ((simplex(r, n), pospts(r, n)), {}))(r.randint(2, 4)))
    for w in ("mean", "cov", "entropy", "mode", "var"):
        if hasattr(dr, w):
            reg("dirichlet", w, getattr(dr, w), lambda r: ((pospts(r),), {}))

    def mtargs(r):
        n = r.randint(1, 3)
        a = [[0] * n for _ in range(n)]
        for i in range(n):
            a[i][i] = r.randint(3, 6)
            for j in range(i):
                a[i][j] = a[j][i] = r.choice([-1, 0, 1, 0.5])
        return (pts(r, n), L(r, 0.5, 20), pts(r, n), a), {}
    for w in ("pdf", "logpdf"):
        if hasattr(mt, w):
            reg("multivariate_t", w, (lambda f: lambda x, nu, loc, scale: f(x, nu, loc, mp.matrix(scale)))(getattr(mt, w)), mtargs)
            reg("multivariate_t", w + ".matrix", getattr(mt, w), mtargs, prep=lambda a: list(a[:3]) + [mp.matrix(a[3])], tags=("raw",))
    if hasattr(mt, "entropy"):
        reg("multivariate_t", "entropy", lambda nu, loc, scale: mt.entropy(nu, loc, mp.matrix(scale)), lambda r: (mtargs(r)[0][1:], {}))

    def mhargs(r):
        col = [r.randint(0, 6) for _ in range(r.randint(2, 4))]
        col[0] += 1
        bag = [i for i, c in enumerate(col) for _ in range(c)]
        ns = r.randint(1, len(bag))
        x = [0] * len(col)
        for i in r.sample(bag, ns):
            x[i] += 1
        return x, col, ns
    for w in ("pmf", "logpmf"):
        if hasattr(mh, w):
            reg("multivariate_hypergeometric", w, getattr(mh, w), lambda r: (mhargs(r), {}), ints="all")
    for w in ("mean", "cov", "entropy"):
        if hasattr(mh, w):
            reg("multivariate_hypergeometric", w, getattr(mh, w), lambda r: (mhargs(r)[1:], {}), ints="all")
    for w in ("pdf", "logpdf", "cdf", "sf"):
        if hasattr(vm, w):
            reg("vonmises", w, getattr(vm, w), lambda r: ((R(r, -3, 3), L(r, 0.1, 20), R(r, -3, 3)), {}))
    for w in ("mean", "var", "circmean", "circvar", "entropy", "mode"):
        if hasattr(vm, w):
            reg("vonmises", w, getattr(vm, w), lambda r: ((L(r, 0.1, 20), R(r, -3, 3)), {}))


def build():
    if not E:
        for n, d in cdist.D.items():
            _cont(n, d)
        for n, d in ddist.D.items():
            _disc(n, d)
        _others()
    return E
