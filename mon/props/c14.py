"""C14: location/scale act affinely; defaults and keywords mean what they say."""
import inspect
import math
from fractions import Fraction
from mpmath import mp
from .. import cdist
from ..cont import lib, params_ok, gen_point, sens, DPS, cap_ok
from ..core import mpf, show, INF, Inconclusive
from ..engine import Subject, Exc
from .c01 import ABS, QUAD

RULE = ("one fact = one pair of library values (X, and loc + scale*X with exactly representable loc, scale and points) related by "
        "the affine law, or one call with defaults omitted / arguments by keyword equal to the explicit positional call; "
        "distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["the conditioning of a value with respect to (x - loc)/scale is taken from the reference model"]

HEAVY = ("argus", "chi2", "loggamma", "rice", "tukeylambda", "exponweib", "geninvgauss", "nakagami", "genhyperbolic", "gamma", "invgamma",
         "ncx2", "nct", "ncf", "chi")
LOCN = {"loc": 1, "mu": 1}
XF = ("pdf", "logpdf", "cdf", "sf", "logcdf", "logsf")
SAME = ("cdf", "sf", "logcdf", "logsf", "skewness", "kurtosis")
AFF = ("mean", "mode", "median", "invcdf", "invsf")
DENS = {"logpdf": "pdf", "logcdf": "cdf", "logsf": "sf"}


def exact(v):
    f = float(v)
    return f if Fraction(f) == v else None


def roles(d):
    """role of each parameter under X -> m + s X: l(ocation), s(cale), n(one)"""
    if d.name == "uniform":
        return "ll"
    if d.name in ("rice", "folded_normal"):
        return "ss"
    out = ""
    for n in d.params:
        out += "l" if n == d.locname else ("s" if n == d.scalename else "n")
    return out


def trim(x, bits=22):
    if not math.isfinite(x) or x == 0:
        return x
    m, e = math.frexp(x)
    return math.ldexp(round(m * 2 ** bits), e - bits)


class S(Subject):
    quick = 260
    thorough = 3000
    tshards = 2
    frozen = ("n", "sel")
    thin = 1

    def __init__(self, name, tier):
        self.name, self.d, self.m = name, cdist.D[name], lib(name)
        self.roles = roles(self.d)
        self.only = (f"distributions/{name}.py", "_common", "_weibull_common")
        self.gbudget = 150 if tier == "quick" else 2000
        self.gtime = 6 if tier == "quick" else 60
        if self.d.slow:
            self.cost, self.quick = 6.0, 40
        if name in ("genhyperbolic",):
            self.quick, self.shards, self.thin, self.cost = 5, 2, 5, 9.0
            self.guided = False
        elif name in HEAVY:
            self.cost, self.thin = 8.0, 4
            self.quick = 60 if name != 'loggamma' else 25
        elif name in ('invgauss', 'maxwell', 'betaprime', 'rel_breitwigner', 'genextreme'):
            self.cost, self.quick = 5.0, 160
        self.fns = [f for f in XF + ("invcdf", "invsf", "support", "mean", "mode", "median", "var", "skewness", "kurtosis", "entropy",
                                     "noncentral_moment", "interval_prob", "nll", "mom") if hasattr(self.m, f)]

    def params(self, case):
        return tuple(case["p_" + n] for n in self.d.params)

    def gen(self, rng):
        d = self.d
        for _ in range(50):
            p = d.gen(rng)
            p = tuple(trim(v) if r != "n" and isinstance(v, float) else v for v, r in zip(p, self.roles))
            if params_ok(d, p):
                break
        case = dict(dps=rng.choice(DPS if not d.slow else [15, 20, 30]))
        for n, v in zip(d.params, p):
            case["p_" + n] = v
        x, lab = gen_point(rng, d, p)
        y, _ = gen_point(rng, d, p)
        case["x"], case["y"] = trim(x), trim(y)
        case["p"] = rng.choice([0, 1, 0.5, rng.random(), rng.random(), 2.0 ** -rng.randint(2, 60), 1 - 2.0 ** -rng.randint(2, 40)])
        case["s"] = rng.choice([1, 2, 0.5, 0.125, 8, 64, 3, 5, 1.5, 10, 100, 0.75, 2.0 ** -10, 1000])
        case["m"] = rng.choice([0, 0, 1, -1, 2, 0.5, -0.25, 7, 100, -1000, 3.125]) if "l" in self.roles else 0
        case["n"] = rng.choice([0, 1, 2, 3, 4])
        case["sel"] = rng.randint(0, 20)
        case["_s"] = lab
        return case

    def valid(self, case):
        p = self.params(case)
        d = self.d
        if not params_ok(d, p) or not 0 <= case["p"] <= 1:
            return False
        if d.slow and case["dps"] > 30:
            return False
        if not (1e-4 <= case["s"] <= 1e4 and abs(case["m"]) <= 1e4):
            return False
        if "l" not in self.roles and case["m"]:
            return False
        for k in ("x", "y"):
            if not isinstance(case[k], (int, float)) or case[k] != case[k] or not cap_ok(d, p, case[k]):
                return False
        return self.mapped(case) is not None

    def mapped(self, case):
        s, m = Fraction(case["s"]), Fraction(case["m"])

        def aff(v):
            if isinstance(v, float) and math.isinf(v):
                return v
            return exact(m + s * Fraction(v))
        q = []
        for v, r in zip(self.params(case), self.roles):
            w = v if r == "n" else (aff(v) if r == "l" else exact(s * Fraction(v)))
            if w is None:
                return None
            q.append(w)
        x, y = aff(case["x"]), aff(case["y"])
        if x is None or y is None:
            return None
        return tuple(q), x, y

    def one(self, call, f, p, x, y, case):
        fn = getattr(self.m, f)
        if f in XF:
            return call(fn, x, *p)
        if f in ("invcdf", "invsf"):
            return call(fn, case["p"], *p)
        if f == "noncentral_moment":
            return [call(fn, j, *p) for j in range(case["n"] + 1)]
        if f == "interval_prob":
            return call(fn, min(x, y), max(x, y), *p)
        if f == "nll":
            return call(fn, [x, y, x], *p)
        if f == "mom":
            return call(fn, [x, y, x])
        return call(fn, *p)

    def observe(self, case, call):
        p = self.params(case)
        q, x2, y2 = self.mapped(case)
        o = {}
        for i, f in enumerate(self.fns):
            if self.thin > 1 and (i + case["n"] + case["sel"]) % self.thin:
                continue
            if f == "mom" and (math.isinf(case["x"]) or math.isinf(case["y"]) or case["x"] == case["y"]):
                continue
            if f == "nll" and not (self.inside(case["x"], p) and self.inside(case["y"], p)):
                continue
            o[f] = (self.one(call, f, p, case["x"], case["y"], case), self.one(call, f, q, x2, y2, case))
        return o

    def inside(self, x, p):
        with mp.workdps(40):
            a, b = self.d.support(*p)
            return math.isfinite(x) and a < x < b

    def judge(self, case, obs):
        d, p, dps = self.d, self.params(case), case["dps"]
        q, x2, y2 = self.mapped(case)
        x, y = case["x"], case["y"]
        out, facts = [], 0
        with mp.workdps(dps + 30):
            s, m = mpf(case["s"]), mpf(case["m"])
            loc0, sc0, shape = d.std(*p)
            tol = mpf(10) ** (4 - dps)
            size = abs(m) + s * (abs(loc0) + sc0)
            sh = 1 + sum(abs(mpf(t)) for t in shape)
            for f, (u, v) in obs.items():
                facts += 1
                ctx = f"{f}: params {p!r} -> {q!r}, x {x!r} -> {x2!r}, p={case['p']!r}, dps={dps}"
                if isinstance(u, Exc) or isinstance(v, Exc):
                    if not (isinstance(u, Exc) and isinstance(v, Exc) and u.type == v.type):
                        out.append((f, f"{ctx}: base {u!r:.90}, transformed {v!r:.90}"))
                    continue
                if f in ("support", "mom"):
                    pairs = list(zip(u, v)) if len(u) == len(v) else None
                    if pairs is None:
                        out.append((f, f"{ctx}: {u!r} / {v!r}"))
                        continue
                    if f == "mom":
                        got = list(v)
                        want = [(m + s * mpf(t)) if r == "l" else (s * t if r == "s" else t) for t, r in zip(u, self.roles)]
                        z = abs(x - y)
                        amp = ((size + abs(x2) + abs(y2)) / (s * z)) ** 2
                        if amp > mpf(10) ** (dps - 4):
                            continue
                        lims = [tol * amp * (abs(w) + (size + abs(x2) + abs(y2) if r == "l" else 0)) for w, r in zip(want, self.roles)]
                        if d.name == "gamma":
                            lims = [tol * amp * abs(w) for w in want]
                    else:
                        got = list(v)
                        want = [m + s * mpf(t) for t in u]
                        lims = [tol * (size + abs(w)) if mp.isfinite(w) else mp.zero for w in want]
                elif f == "noncentral_moment":
                    if any(isinstance(t, Exc) for t in u + v):
                        if str(u) != str(v):
                            out.append((f, f"{ctx}: {u!r:.90} / {v!r:.90}"))
                        continue
                    n = case["n"]
                    if any(not mp.isfinite(t) for t in u):
                        if not mp.isfinite(v[n]) and not mp.isfinite(u[n]):
                            continue
                        if mp.isfinite(u[n]) == mp.isfinite(v[n]) and not mp.isfinite(u[n]):
                            continue
                        if all(mp.isfinite(t) for t in u[:n + 1]) != mp.isfinite(v[n]):
                            out.append((f, f"{ctx}: {u!r:.90} / {v!r:.90}"))
                        continue
                    terms = [mp.binomial(n, j) * m ** (n - j) * s ** j * u[j] for j in range(n + 1)]
                    got, want = [v[n]], [mp.fsum(terms)]
                    lims = [tol * mp.fsum([mp.binomial(n, j) * abs(m) ** (n - j) * s ** j * (abs(u[j]) + abs(loc0) ** j + sc0 ** j * sh ** j)
                                           for j in range(n + 1)])]
                else:
                    got = [v]
                    if mp.isnan(u) or mp.isnan(v):
                        if not (mp.isnan(u) and mp.isnan(v)):
                            out.append((f, f"{ctx}: {show(u)} / {show(v)}"))
                        continue
                    w, l = self.law(f, mpf(u), case, s, m, tol, size, sh, p)
                    want, lims = [w], [l]
                for g, w, l in zip(got, want, lims):
                    if g == w:
                        continue
                    if mp.isinf(g) or mp.isinf(w) or not abs(g - w) <= l:
                        out.append((f, f"{ctx}: got {show(g)}, affine law gives {show(w)}"))
                        break
        return facts, out

    def law(self, f, u, case, s, m, tol, size, sh, p):
        d, dps = self.d, case["dps"]
        x = case["x"]

        def sx(name):
            if math.isinf(x):
                return mp.zero
            c = DENS.get(name, name)
            h = 0
            for t in (x,) if name not in ("interval_prob",) else (case["x"], case["y"]):
                if math.isinf(t):
                    continue
                if name in DENS and c != "pdf":
                    # log tail: d log F = f/F dz, bounded through the log itself
                    h += mpf(10) ** -dps * (1 + abs(u)) * sh * 30
                    with mp.workdps(dps + 30):
                        loc, scale, shape = d.std(*p)
                        z = (mpf(t) - loc) / scale
                        h += mpf(10) ** -dps * (abs(z) ** 2) if abs(z) < 10 ** 6 and not mp.isinf(u) else 0
                else:
                    ff = getattr(d, c) if (c == "pdf" or d.has_cdf) else None
                    if ff is None:
                        h += mpf(10) ** -dps * abs(u) * 1000
                        continue
                    g = (lambda *a: mp.log(ff(*a)) if ff(*a) > 0 else mp.zero) if name == "logpdf" else ff
                    h += sens(d, g, t, p, dps)
            return h
        if f in SAME and f in XF:
            if f in ("cdf", "sf") and d.name in QUAD:
                return u, mpf(10) ** (8 - dps)
            if f in ("logcdf", "logsf") and d.name in QUAD:
                return u, mpf(10) ** (8 - dps) / mp.exp(u) if not mp.isinf(u) else mp.zero
            lim = tol * (abs(u) * (1 + abs(mp.log(abs(u)))) if u else 0) + 300 * sx(f)
            if f in ("cdf", "sf") and u in (0, 1):
                lim += tol
            if f"{d.name}.{f}" in ABS:
                lim += tol
            return u, lim + tol * abs(u) * 10
        if f in ("skewness", "kurtosis"):
            return u, tol * (1 + abs(u)) * 100 * sh ** 2
        if f == "pdf":
            return u / s, (tol * abs(u) * (1 + abs(mp.log(u) if u and not mp.isinf(u) else 0)) + 300 * sx(f)) / s if not mp.isinf(u) else mp.zero
        if f == "logpdf":
            return u - mp.log(s), (tol * (1 + abs(u) + sh) + 300 * sx(f)) if not mp.isinf(u) else mp.zero
        if f == "nll":
            l = sum(300 * sens(d, lambda *a: mp.log(d.pdf(*a)), t, p, dps) for t in (case["x"], case["y"]))
            return u + 3 * mp.log(s), tol * (1 + abs(u) + sh * 10 + 3 * abs(mp.log(s))) + 3 * l
        if f == "entropy":
            return u + mp.log(s), tol * (1 + abs(u) + abs(mp.log(s)) + sh)
        if f == "var":
            return u * s * s, tol * abs(u) * s * s * 100 * sh ** 2
        if f == "interval_prob":
            h = sum(sens(d, d.cdf, t, p, dps) for t in (case["x"], case["y"]) if not math.isinf(t))
            return u, tol * abs(u) * (1 + abs(mp.log(u) if u > 0 else 0)) + 300 * h + (tol if u in (0, 1) else 0)
        if f in AFF:
            return m + s * u, tol * (size + s * abs(u))
        raise KeyError(f)


class Spell(Subject):
    """defaults omitted, keyword passing"""
    quick = 60
    thorough = 600

    def __init__(self, name, tier):
        self.name, self.d, self.m = name + ".defaults", cdist.D[name], lib(name)
        self.guided = False
        self.base = name
        self.thin = 1
        if self.d.slow or name in HEAVY:
            self.quick, self.thin, self.cost = (10, 5, 5.0) if name != 'genhyperbolic' else (3, 5, 9.0)
        self.fns = [f for f in XF + ("invcdf", "invsf", "support", "mean", "mode", "median", "var", "skewness", "kurtosis", "entropy",
                                     "noncentral_moment", "interval_prob", "nll") if hasattr(self.m, f)]

    def gen(self, rng):
        d = self.d
        p = d.gen(rng)
        case = dict(dps=rng.choice([15, 20, 30]), sel=rng.randint(0, 20), n=rng.choice([0, 1, 2, 3]), p=rng.choice([0.5, 0.25, rng.random()]))
        for n, v in zip(d.params, p):
            case["p_" + n] = v
        # with the defaults in force
        dflt = list(p)
        for i, n in enumerate(d.params):
            if n in (d.locname,):
                dflt[i] = 0
            if n in (d.scalename,):
                dflt[i] = 1
        if d.name == "uniform":
            dflt = [0, 1]
        if d.name == "lognormal":
            dflt = [0, 1]
        case["dflt"] = dflt
        case["x"], lab = gen_point(rng, d, p)
        case["xd"], _ = gen_point(rng, d, tuple(dflt))
        case["_s"] = "spelling"
        return case

    frozen = ("dflt", "n", "dps", "sel")

    def args(self, f, case, x):
        if f in XF:
            return [x]
        if f in ("invcdf", "invsf"):
            return [case["p"]]
        if f == "noncentral_moment":
            return [case["n"]]
        if f == "interval_prob":
            return [x, x + 1 if math.isfinite(x) else x]
        if f == "nll":
            return [[x]]
        return []

    def observe(self, case, call):
        d = self.d
        p = [case["p_" + n] for n in d.params]
        o = {}
        for i, f in enumerate(self.fns):
            if (i + case["sel"]) % self.thin:
                continue
            fn = getattr(self.m, f)
            sig = inspect.signature(fn)
            names = [q.name for q in sig.parameters.values() if q.kind in (q.POSITIONAL_OR_KEYWORD,)]
            a = self.args(f, case, case["x"])
            pos = call(fn, *a, *p)
            kw = dict(zip(names, a + p))
            o[f, "kw"] = (pos, call(fn, **kw))
            # documented names must be the accepted ones
            k = len(a)
            o[f, "named"] = (pos, call(fn, *a, **dict(zip(d.params, p))))
            nd = [q for q in names[k:k + len(d.params)] if sig.parameters[q].default is not inspect.Parameter.empty]
            if nd:
                b = self.args(f, case, case["xd"])
                full = call(fn, *b, *case["dflt"])
                part = [v for n, v in zip(names[k:], case["dflt"]) if n not in nd]
                o[f, "omitted"] = (full, call(fn, *b, *part))
                # the location given, the scale left out
                if len(nd) == 2:
                    one = list(case["dflt"])
                    i = len(one) - 2
                    o[f, "scale omitted"] = (call(fn, *b, *one), call(fn, *b, *one[:i + 1]))
        return o

    def judge(self, case, obs):
        out, facts = [], 0
        for (f, how), (u, v) in obs.items():
            facts += 1
            if isinstance(u, Exc) and isinstance(v, Exc) and u.type == v.type:
                continue
            same = not isinstance(u, Exc) and not isinstance(v, Exc) and (u == v or _nan(u) and _nan(v))
            if isinstance(u, (tuple, list)) and not isinstance(v, Exc):
                same = list(u) == list(v)
            if not same:
                out.append((f, f"{self.base}.{f} [{how}] params {[case['p_' + n] for n in self.d.params]} x={case['x']!r}/{case['xd']!r}: "
                               f"explicit {u!r:.60}, {how} {v!r:.90}"))
        return facts, out


def _nan(v):
    try:
        return v != v
    except Exception:
        return False


def subjects(tier):
    names = [n for n in cdist.D if set(roles(cdist.D[n])) - {"n"}]
    return [S(n, tier) for n in names] + [Spell(n, tier) for n in cdist.D if cdist.D[n].params]
