"""C22: special functions in mpsci.fun equal their defining formulas."""
import math
import fractions
from mpmath import mp
import mpmath
from ..core import mpf, show, hp, logu, unif, short, integrate, INF
from ..engine import Subject, Exc
from ..fbase import Fn, DPS, fun, expslack

RULE = ("one fact = one function value compared with an independent evaluation of its definition (integral, series, recurrence, exact "
        "rational arithmetic) at adaptive precision, or one symmetry / rule (permutation, shift, weights, exactness of the quadrature "
        "rule, complementarity) checked; distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's elementary functions, loggamma, incomplete gamma, Bessel and error functions are correct to their working precision",
               "values obtained with mp.quad or mp.nsum (marcumq, cmarcumq, debye, wright_bessel) are judged at the accuracy those "
               "routines deliver for smooth, moderate arguments"]
QUADTOL = 4


class Debye(Fn):
    path = "fun.debye"
    names = ("x",)
    quick = 90
    cost = 2

    def __init__(self, tier, method):
        super().__init__(tier)
        self.method = method
        self.name = "debye:" + method

    def args(self, rng):
        top = 30 if self.method == "quad" else 5
        x = rng.choice([unif(rng, -top, top), logu(rng, 1e-6, 1) * rng.choice([1, -1]), unif(rng, 0, 5), unif(rng, 0, top)])
        if rng.random() < 0.05:
            x = 0.0
        n = rng.choice([1, 1, 2, 3, 4, 5, 7, 10])
        c = {"x": short(rng, x), "n": n}
        if rng.random() < 0.06:
            c["n"] = rng.choice([0, -1, 2.5, 1.0, -3])
        return c

    def dom(self, c):
        return abs(c["x"]) <= (30 if self.method == "quad" else 5.2) and (abs(c["x"]) > 1e-8 or c["x"] == 0) \
            and isinstance(c.get("n"), (int, float)) and -5 <= c["n"] <= 12

    def kw(self, c):
        return {"n": c["n"], "method": self.method} if c["n"] % 2 or self.method == "nsum" else {"n": c["n"]}

    def bad(self, c):
        return not isinstance(c["n"], int) or c["n"] < 1

    def judge(self, c, obs):
        if self.bad(c):
            v = obs["v"]
            return 1, [] if isinstance(v, Exc) and v.type == "ValueError" else [("domain", f"{self.show_call(c)}: {v!r}")]
        return super().judge(c, obs)

    def ref(self, c):
        x, n = mpf(c["x"]), c["n"]
        if x == 0:
            return mp.one
        if abs(x) <= 3:
            s, k, t = 1 - n * x / (2 * (n + 1)), 1, x * x / 2
            while True:
                term = n * mp.bernoulli(2 * k) / (2 * k + n) * t
                s += term
                if abs(term) < mp.eps * abs(s) / 100:
                    return s
                k += 1
                t *= x * x / ((2 * k - 1) * (2 * k))
        if x < 0:
            d = dict(c)
            d["x"] = -c["x"]
            return self.ref(d) - n * x / (n + 1)      # D_n(-y) = D_n(y) + n y/(n+1)
        # integral_0^inf - integral_x^inf, the latter by expanding 1/(exp(t)-1)
        tail, k = mp.zero, 1
        while True:
            e = mp.exp(-k * x)
            poly = mp.fsum(mp.factorial(n) / mp.factorial(n - j) * x ** (n - j) / mpf(k) ** (j + 1) for j in range(n + 1))
            tail += e * poly
            if e * poly < mp.eps * tail / 1000:
                break
            k += 1
        full = mp.factorial(n) * mp.zeta(n + 1)
        return n * (full - tail) / x ** n


class HermiteE(Fn):
    name, path = "hermite_e", "fun.hermite_e"
    names = ("n", "x")
    quick = 200

    def args(self, rng):
        n = rng.choice([rng.randrange(0, 6), rng.randrange(0, 30), rng.randrange(0, 80)])
        return {"n": n, "x": short(rng, rng.choice([unif(rng, -3, 3), unif(rng, -15, 15), logu(rng, 1e-8, 1e4), 0.0, 1.0, -2.0]))}

    def dom(self, c):
        return isinstance(c["n"], int) and 0 <= c["n"] <= 100 and abs(c["x"]) <= 1e6

    def exact(self, c):
        x = fractions.Fraction(c["x"])
        a, b = fractions.Fraction(1), x
        if c["n"] == 0:
            return a, 0 * x
        for k in range(1, c["n"]):
            a, b = b, x * b - k * a
        return b, a                      # He_n, He_{n-1}

    def ref(self, c):
        f = self.exact(c)[0]
        return mpf(f.numerator) / f.denominator

    def slack(self, c, want):
        g = self.exact(c)[1]            # He_n' = n He_{n-1}
        return mpf(10) ** (-c["dps"] - 2) * abs(c["n"] * (mpf(g.numerator) / g.denominator) * c["x"])


def pois_mix(m, a, b, lower):
    """sum_k exp(-a^2/2) (a^2/2)^k/k! * Q or P(m + k, b^2/2)"""
    a2, b2 = a * a / 2, b * b / 2
    if a2 == 0:
        return mp.gammainc(m, 0, b2, regularized=True) if lower else mp.gammainc(m, b2, regularized=True)
    if b2 == 0:
        return mp.zero if lower else mp.one
    # P(s+1, y) = P(s, y) - y^s e^-y / gamma(s+1)
    g = mp.gammainc(m, 0, b2, regularized=True) if lower else mp.gammainc(m, b2, regularized=True)
    w = mp.exp(-a2)
    t = mp.exp(m * mp.log(b2) - b2 - mp.loggamma(m + 1))
    s, k = mp.zero, 0
    while True:
        s += w * g
        k += 1
        w *= a2 / k
        g = g - t if lower else g + t
        t *= b2 / (m + k)
        if k > a2 and (w < mp.eps * s * mpf(10) ** -3 if not lower else w * max(g, 0) < mp.eps * s * mpf(10) ** -3):
            if not lower or w < mp.eps or g <= 0:
                return s
        if k > 5000:
            raise ZeroDivisionError


class Marcum(Fn):
    names = ("m", "a", "b")
    quick = 30
    thorough = 500
    tshards = 4
    cost = 4
    dpslist = [15, 15, 15, 20, 30]
    kind = "integral"

    def __init__(self, tier, name):
        self.name, self.path = name, "fun." + name
        super().__init__(tier)
        self.gbudget = 60
        self.g = fun("fun." + ("cmarcumq" if name == "marcumq" else "marcumq"))

    def args(self, rng):
        m = rng.choice([1, 1, 2, 3, rng.randrange(1, 8), 0.5, 1.5, 2.5, short(rng, unif(rng, 0.6, 6))])
        a = rng.choice([0, 0.0, unif(rng, 0.05, 6), unif(rng, 0.1, 3), 1.0, 2])
        b = rng.choice([0, 0.0, unif(rng, 0.05, 8), unif(rng, 0.1, 3), 1.0, 2])
        return {"m": m, "a": short(rng, a) if a else a, "b": short(rng, b) if b else b}

    def dom(self, c):
        return (0.5 <= c["m"] <= 10 and (c["a"] == 0 or 0.01 <= c["a"] <= 8) and (c["b"] == 0 or 0.01 <= c["b"] <= 10))

    def extra(self, c, call):
        return {"w": call(self.g, *self.pos(c))}

    def ref(self, c):
        return pois_mix(mpf(c["m"]), mpf(c["a"]), mpf(c["b"]), self.name == "cmarcumq")

    def slack(self, c, want):
        if c["a"] == 0 or c["b"] == 0:
            return 0
        # mp.quad over one panel; the integrand of cmarcumq behaves like x**(2m-1) at 0
        t = mpf(10) ** (-c["dps"] + QUADTOL)
        if self.name == "marcumq":
            return max(t, mpf(10) ** -9)
        return t if float(2 * c["m"]).is_integer() else max(t, mpf(10) ** -9)

    def more(self, c, obs, want):
        v, w = obs["v"], obs["w"]
        if isinstance(v, Exc) or isinstance(w, Exc):
            return 0, []
        with mp.workdps(c["dps"] + 15):
            ok = abs(v + w - 1) <= mpf(10) ** (3 - c["dps"]) + 2 * self.slack(c, want) + (0 if c["a"] == 0 else mpf(10) ** -9)
        return 1, [] if ok else [("complement", f"{self.show_call(c)}: marcumq + cmarcumq = {show(v + w)}")]


class Xlogy(Fn):
    names = ("x", "y")
    quick = 200

    def __init__(self, tier, name):
        self.name, self.path = name, "fun." + name
        super().__init__(tier)

    def args(self, rng):
        y = rng.choice([logu(rng, 1e-300, 1e300), logu(rng, 1e-20, 1), 1 + logu(rng, 1e-15, 1), 1.0])
        if self.name == "xlog1py":
            y = rng.choice([y, -logu(rng, 1e-30, 0.99), -1 + logu(rng, 1e-15, 0.5), 0.0])
        x = rng.choice([0, 0.0, unif(rng, -10, 10), logu(rng, 1e-300, 1e300), -logu(rng, 1e-20, 1e20), 1, -3])
        if x == 0 and rng.random() < 0.5:
            y = 0.0 if self.name == "xlogy" else -1.0
        return {"x": x, "y": y, "nan": rng.choice([0] * 12 + [1, 2, 3]), "mp": rng.random() < 0.5}

    def dom(self, c):
        lo = 0 if self.name == "xlogy" else -1
        return (c["y"] > lo or c["x"] == 0 and c["y"] == lo) and c.get("nan") in (0, 1, 2, 3)

    def pos(self, c):
        x, y = c["x"], c["y"]
        if c["nan"] & 1:
            x = math.nan
        if c["nan"] & 2:
            y = math.nan
        return [mp.mpf(x), mp.mpf(y)] if c["mp"] else [x, y]

    def ref(self, c):
        if c["nan"]:
            return mp.nan
        if c["x"] == 0:
            return mp.zero
        return mpf(c["x"]) * (mp.log(mpf(c["y"])) if self.name == "xlogy" else mp.log(1 + mpf(c["y"])))

    def judge(self, c, obs):
        with mp.workdps(700):
            want = self.ref(c)
        return 1, self.compare(c, obs["v"], want)


def posreal(rng):
    return rng.choice([unif(rng, 0.01, 10), logu(rng, 1e-12, 1), logu(rng, 1, 1e6), float(rng.randrange(1, 40)), 0.5, 1.0, 2.0,
                       logu(rng, 1, 1e12)])


class Logbeta(Fn):
    name, path = "logbeta", "fun.logbeta"
    names = ("x", "y")

    def args(self, rng):
        return {"x": short(rng, posreal(rng)), "y": short(rng, posreal(rng))}

    def dom(self, c):
        return 1e-15 < c["x"] < 1e14 and 1e-15 < c["y"] < 1e14

    def ref(self, c):
        x, y = mpf(c["x"]), mpf(c["y"])
        return mp.loggamma(x) + mp.loggamma(y) - mp.loggamma(x + y)

    def slack(self, c, want):
        return mpf(10) ** (-c["dps"] - 1) * (1 + min(abs(want), 1))

    def extra(self, c, call):
        return {"s": call(self.f, c["y"], c["x"])}

    def more(self, c, obs, want):
        return 1, self.compare(c, obs["s"], want, self.show_call(c) + " with swapped arguments")


class MLogbeta(Fn):
    name, path = "multivariate_logbeta", "fun.multivariate_logbeta"
    names = ("a",)

    def args(self, rng):
        return {"a": [short(rng, posreal(rng)) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]}

    def dom(self, c):
        return isinstance(c["a"], list) and 1 <= len(c["a"]) <= 8 and all(1e-15 < t < 1e14 for t in c["a"])

    def ref(self, c):
        a = [mpf(t) for t in c["a"]]
        return mp.fsum(mp.loggamma(t) for t in a) - mp.loggamma(mp.fsum(a))

    def judge(self, c, obs):
        if len(c["a"]) == 1:
            v = obs["v"]
            return 1, [] if not isinstance(v, Exc) and abs(v) < mpf(10) ** -c["dps"] * (1 + abs(mp.loggamma(c["a"][0]))) else \
                [("value", f"{self.show_call(c)} = {v!r}, one component gives 0")]
        return super().judge(c, obs)

    def slack(self, c, want):
        return mpf(10) ** (-c["dps"] - 1) * (1 + min(abs(want), 1))

    def extra(self, c, call):
        return {"p": call(self.f, tuple(c["a"][1:] + c["a"][:1]))}

    def more(self, c, obs, want):
        return 1, self.compare(c, obs["p"], want, self.show_call(c) + " rotated")


class Logbinomial(Fn):
    name, path = "logbinomial", "fun.logbinomial"
    names = ("n", "k")
    quick = 200

    def args(self, rng):
        n = rng.choice([rng.randrange(0, 12), rng.randrange(0, 3000), 10 ** rng.randrange(3, 18)])
        k = rng.choice([0, n, min(1, n), max(n - 1, 0), rng.randrange(0, n + 1), rng.randrange(0, min(n, 30) + 1)])
        r = rng.random()
        if r < 0.06:
            n, k = rng.choice([(-1, 0), (3, -1), (3, 4), (0, 1), (5, 6), (-3, -4), (2.5, 3)])
        elif r < 0.2:
            n = short(rng, logu(rng, 1e-3, 1e4))
            k = short(rng, n * rng.random())
        elif r < 0.3:
            n, k = float(n), float(k)
        return {"n": n, "k": k}

    def dom(self, c):
        return abs(c["n"]) <= 1e18 and abs(c["k"]) <= 1e18

    def judge(self, c, obs):
        if c["n"] < 0 or c["k"] < 0 or c["k"] > c["n"]:
            v = obs["v"]
            return 1, [] if isinstance(v, Exc) and v.type == "ValueError" else [("domain", f"{self.show_call(c)}: {v!r}")]
        return super().judge(c, obs)

    def ref(self, c):
        n, k = c["n"], c["k"]
        if isinstance(n, int) and isinstance(k, int) and n <= 3000:
            return mp.log(math.comb(n, k))
        n, k = mpf(n), mpf(k)
        if k in (0, n):
            return mp.zero
        with mp.extradps(40):
            return mp.loggamma(n + 1) - mp.loggamma(k + 1) - mp.loggamma(n - k + 1)


class Logsumexp(Fn):
    name, path = "logsumexp", "fun.logsumexp"
    names = ("logs",)
    quick = 250

    def args(self, rng):
        n = rng.choice([1, 2, 2, 3, 5, 9])
        s = rng.choice([1, 10, 1000, 1e5, 1e-3])
        o = rng.choice([0, 0, 1e3, -1e4, 1e8])
        logs = [short(rng, o + unif(rng, -s, s), rng.choice([8, 20, 53])) for _ in range(n)]
        if rng.random() < 0.1:
            logs = [rng.choice([float(round(t)), int(t)]) for t in logs]
        if rng.random() < 0.1:
            logs[rng.randrange(n)] = -math.inf
        c = {"logs": logs, "w": None}
        if rng.random() < 0.5:
            c["w"] = [rng.choice([0, 1, 2, 3, 0.5, 0.25, short(rng, logu(rng, 1e-6, 1e3))]) for _ in range(n)]
        return c

    def numbers(self, c):
        return isinstance(c["logs"], list) and all(isinstance(t, (int, float)) and t == t and t != math.inf for t in c["logs"])

    def dom(self, c):
        w = c.get("w")
        if not (1 <= len(c["logs"]) <= 12 and all(t == -math.inf or abs(t) < 1e10 for t in c["logs"])):
            return False
        return w is None or isinstance(w, list) and len(w) == len(c["logs"]) and all(isinstance(t, (int, float)) and 0 <= t < 1e6 for t in w) \
            and any(t > 0 and l != -math.inf for t, l in zip(w, c["logs"]))

    def kw(self, c):
        return {} if c["w"] is None else {"weights": c["w"]}

    def ref(self, c):
        w = c["w"] or [1] * len(c["logs"])
        s = mp.fsum(mpf(a) * mp.exp(mpf(l)) for a, l in zip(w, c["logs"]) if l != -math.inf and a)
        return mp.log(s) if s else mp.ninf

    def slack(self, c, want):
        m = max([abs(t) for t in c["logs"] if t != -math.inf] or [0])
        return mpf(10) ** (-c["dps"] - 2) * (1 + min(m, 1e3 + 10 * abs(float(want)) if mp.isfinite(want) else m))

    def extra(self, c, call):
        o = {}
        n = len(c["logs"])
        idx = list(range(n))[::-1]
        logs = [c["logs"][i] for i in idx]
        o["p"] = call(self.f, tuple(logs), **({} if c["w"] is None else {"weights": [c["w"][i] for i in idx]}))
        if c["w"] is not None and all(isinstance(t, int) and t <= 4 for t in c["w"]):
            o["m"] = call(self.f, [t for t, k in zip(c["logs"], c["w"]) for _ in range(k)])
        if all(t == -math.inf or abs(t) < 1e6 and float(t * 16).is_integer() for t in c["logs"]):
            o["s"] = call(self.f, [mp.mpf(t) + 1024 for t in c["logs"]], **self.kw(c))
        return o

    def more(self, c, obs, want):
        n, vio = 0, []
        for k, lab, sh in (("p", "reversed", 0), ("m", "weights as multiplicities", 0), ("s", "shifted by 1024", 1024)):
            if k in obs:
                n += 1
                d = dict(c)
                if sh:
                    d["logs"] = [t + 1024 for t in c["logs"]]
                with mp.workdps(c["dps"] + 15):
                    t = want + sh
                vio += self.compare(d, obs[k], t, self.show_call(c) + " " + lab)
        return n, vio


class Legendre(Subject):
    name = "roots_legendre"
    quick = 25
    thorough = 200
    cost = 6
    jsec = 60
    guided = False

    def __init__(self, tier):
        self.f = fun("fun.roots_legendre")
        self.have = True

    def gen(self, rng):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, rng.randrange(11, 25), rng.randrange(11, 40), 64 if rng.random() < 0.3 else 20])
        if rng.random() < 0.06:
            n = rng.choice([0, -1, -5])
        return {"n": n, "dps": rng.choice([15, 15, 25, 40])}

    def valid(self, c):
        return isinstance(c["n"], int) and -9 <= c["n"] <= 70 and 10 <= c["dps"] <= 60

    def observe(self, c, call):
        return {"v": call(self.f, c["n"])}

    def judge(self, c, obs):
        n, dps, v = c["n"], c["dps"], obs["v"]
        what = f"roots_legendre({n}) at dps={dps}"
        if n < 1:
            return 1, [] if isinstance(v, Exc) and v.type == "ValueError" else [("domain", f"{what}: {v!r}")]
        if isinstance(v, Exc):
            return 1, [("value", f"{what}: {v!r}")]
        x, w = list(v[0]), list(v[1])
        vio = []
        facts = 0
        if len(x) != n or len(w) != n:
            return 1, [("shape", f"{what}: {len(x)} roots and {len(w)} weights")]
        with mp.workdps(dps + 25):
            tol = mpf(10) ** (3 - dps)
            for i in range(n - 1):
                if not x[i] < x[i + 1]:
                    vio.append(("order", f"{what}: roots are not increasing and distinct at {i}: {show(x[i])}, {show(x[i + 1])}"))
                    break
            for i in range(n):
                # p_n, p_{n-1} by recurrence
                t = mpf(x[i])
                a, b = mp.one, t
                for k in range(1, n):
                    a, b = b, ((2 * k + 1) * t * b - k * a) / (k + 1)
                dp = n * (a - t * b) / (1 - t * t)
                step = b / dp
                facts += 2
                if not abs(step) <= tol * max(abs(t), mpf(10) ** -2):
                    vio.append(("root", f"{what}: root {i} = {show(x[i])} is off by {mp.nstr(step, 4)}"))
                else:
                    r = t - step
                    a, b = mp.one, r
                    for k in range(1, n):
                        a, b = b, ((2 * k + 1) * r * b - k * a) / (k + 1)
                    dp = n * (a - r * b) / (1 - r * r)
                    ww = 2 / ((1 - r * r) * dp * dp)
                    if not abs(w[i] - ww) <= tol * ww:
                        vio.append(("weight", f"{what}: weight {i} = {show(w[i])}, should be {show(ww)}"))
            # exactness up to degree 2n-1
            for d in sorted({0, 1, 2, n, 2 * n - 2, 2 * n - 1}):
                if d > 2 * n - 1:
                    continue
                facts += 1
                s = mp.fsum(mpf(wi) * mpf(xi) ** d for xi, wi in zip(x, w))
                want = mpf(2) / (d + 1) if d % 2 == 0 else mp.zero
                if not abs(s - want) <= tol:
                    vio.append(("exactness", f"{what}: sum w*x**{d} = {show(s)}, integral is {show(want)}"))
        return facts, vio[:4]


class Pow1pm1(Fn):
    name, path = "pow1pm1", "fun.pow1pm1"
    names = ("x", "y")
    quick = 200

    def args(self, rng):
        x = rng.choice([unif(rng, -1, 3), logu(rng, 1e-80, 1), -logu(rng, 1e-30, 1), logu(rng, 1, 1e12), -1 + logu(rng, 1e-12, 1), 0.0])
        y = rng.choice([0.0, unif(rng, -5, 5), logu(rng, 1e-80, 1), -logu(rng, 1e-30, 1), logu(rng, 1, 1e3), float(rng.randrange(-4, 5))])
        return {"x": short(rng, x), "y": short(rng, y)}

    def dom(self, c):
        return c["x"] > -1 and abs(c["y"]) < 1e4 and c["x"] < 1e20

    def E(self, c):
        return mpf(c["y"]) * mp.log1p(mpf(c["x"]))

    def judge(self, c, obs):
        with mp.workdps(c["dps"] + 300):
            want = mp.expm1(mpf(c["y"]) * mp.log(1 + mpf(c["x"])))
        return 1, self.compare(c, obs["v"], want)

    def slack(self, c, want):
        return expslack(c, self.E(c), want) if want > 1 else 0


class Sph(Fn):
    """spherical Bessel functions against the elementary closed forms and their recurrences"""
    names = ("n", "z")
    quick = 150
    kind = "value"

    def __init__(self, tier, kind):
        self.k = kind
        self.name, self.path = "spherical_bessel" + kind, "fun.spherical_bessel" + kind
        super().__init__(tier)

    def args(self, rng):
        n = rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(0, 10), rng.randrange(0, 25)])
        re = rng.choice([unif(rng, 0.05, 30), unif(rng, 0.05, 5), logu(rng, 1e-6, 1), unif(rng, 30, 300)])
        im = 0.0
        r = rng.random()
        if r < 0.12:
            im = rng.choice([-1, 1]) * unif(rng, 0.1, 10)
        elif r < 0.24:
            re = -re
        elif r < 0.28:
            re = 0.0
        return {"n": n, "z": short(rng, re), "im": short(rng, im)}

    def dom(self, c):
        return isinstance(c["n"], int) and 0 <= c["n"] <= 30 and abs(c["z"]) <= 500 and (abs(c["z"]) > 1e-8 or c["z"] == 0) \
            and isinstance(c["im"], (int, float)) and (c["im"] == 0 or 0.01 <= abs(c["im"]) <= 20)

    def pos(self, c):
        return [c["n"], c["z"] if c["im"] == 0 else mp.mpc(c["z"], c["im"])]

    def ref(self, c):
        n = c["n"]
        z = mpf(c["z"]) if c["im"] == 0 else mp.mpc(c["z"], c["im"])
        k = self.k
        if z == 0:
            if k in "ji":
                return mp.one if n == 0 else mp.zero
            return mp.ninf if k == "y" else mp.inf
        with mp.extradps(20 + int(abs(n * (3 + max(0, -math.log10(abs(complex(c["z"], c["im"]))))))) * (1 if k in "ji" else 0)):
            # f0 and f_{-1}-like start values, then upward recurrence (precision raised to absorb the cancellation)
            if k == "j":
                f0, f1, s = mp.sin(z) / z, mp.sin(z) / z ** 2 - mp.cos(z) / z, 1
            elif k == "y":
                f0, f1, s = -mp.cos(z) / z, -mp.cos(z) / z ** 2 - mp.sin(z) / z, 1
            elif k == "i":
                f0, f1, s = mp.sinh(z) / z, mp.cosh(z) / z - mp.sinh(z) / z ** 2, -1
            else:
                e = mp.pi / 2 * mp.exp(-z)
                f0, f1, s = e / z, e * (1 / z + 1 / z ** 2), 2
            if n == 0:
                return f0
            for m in range(1, n):
                f = (2 * m + 1) / z * f1
                f0, f1 = f1, (f - f0 if s == 1 else f0 - f if s == -1 else f0 + f)
            return f1

    def slack(self, c, want):
        # near the real zeros of j_n, y_n the value is limited by the rounding inside mpmath's Bessel functions
        if self.k in "jy" and abs(c["z"]) > 1:
            return mpf(10) ** (-c["dps"]) / abs(c["z"])
        return 0


class Wright(Fn):
    name, path = "wright_bessel", "fun.wright_bessel"
    names = ("z", "rho", "beta")
    quick = 60
    thorough = 800
    cost = 3
    dpslist = [15, 15, 20, 30]

    def args(self, rng):
        z = rng.choice([unif(rng, -4, 4), unif(rng, 0, 3), logu(rng, 1e-6, 1), 0.0, 1.0])
        rho = rng.choice([0.0, 1.0, 0, 1, unif(rng, 0.3, 3), 0.5, 2.0, 1.5])
        beta = rng.choice([unif(rng, 0.2, 5), 1.0, 2, 0.5, 0, -1, -2.0, unif(rng, -3, 0)])
        if rng.random() < 0.05:
            rho = rng.choice([-1, -1.0, -1.5, -3])
        return {"z": short(rng, z), "rho": short(rng, rho) if rho else rho, "beta": short(rng, beta) if beta else beta, "im": 0.0 if rng.random() < 0.8 else short(rng, unif(rng, -2, 2))}

    def dom(self, c):
        return abs(c["z"]) <= 5 and (c["rho"] <= -1 and c["rho"] >= -5 or c["rho"] == 0 or 0 < c["rho"] <= 5 and abs(c["rho"]) > 0.05) \
            and abs(c["beta"]) <= 6 and isinstance(c["im"], float) and abs(c["im"]) <= 3

    def pos(self, c):
        return [c["z"] if c["im"] == 0 else mp.mpc(c["z"], c["im"]), c["rho"], c["beta"]]

    def judge(self, c, obs):
        if c["rho"] <= -1:
            v = obs["v"]
            return 1, [] if isinstance(v, Exc) and v.type == "ValueError" else [("domain", f"{self.show_call(c)}: {v!r}")]
        return super().judge(c, obs)

    def ref(self, c):
        z = mp.mpc(c["z"], c["im"]) if c["im"] else mpf(c["z"])
        rho, beta = mpf(c["rho"]), mpf(c["beta"])
        s, zk, small, biggest = mp.zero, mp.one, 0, mp.zero
        for k in range(3000):
            t = zk * mp.rgamma(rho * k + beta)
            s += t
            biggest = max(biggest, abs(t))
            zk *= z / (k + 1)
            small = small + 1 if abs(t) <= mp.eps * biggest * mpf(10) ** -2 else 0
            if small > 8 and k > 10:
                return s
        raise ZeroDivisionError

    def slack(self, c, want):
        if c["rho"] in (0, 1):
            return 0
        # documented: mp.nsum is used, which may need more precision (alternating or vanishing terms); -1 < rho < 0 is not judged for that reason
        return mpf(10) ** (2 - c["dps"]) * min(1, abs(want) * 100 + mpf(10) ** -3)


class Faddeeva(Fn):
    name, path = "faddeevaw", "fun.faddeevaw"
    names = ("re", "im")
    quick = 200

    def args(self, rng):
        s = rng.choice([1, 5, 20, 60, 0.01])
        re, im = unif(rng, -s, s), unif(rng, -s, s)
        r = rng.random()
        if r < 0.12:
            im = 0.0
        elif r < 0.24:
            re = 0.0
        return {"re": short(rng, re), "im": short(rng, im)}

    def dom(self, c):
        return abs(c["re"]) <= 100 and abs(c["im"]) <= 100

    def pos(self, c):
        return [mp.mpc(c["re"], c["im"])]

    def ref(self, c):
        z = mp.mpc(c["re"], c["im"])
        if abs(z) ** 2 > 2.31 * (mp.dps + 15):
            # asymptotic series in the upper half plane; w(z) = 2 exp(-z^2) - w(-z)
            u = z if z.imag >= 0 else -z
            s, t, k = mp.mpc(0), 1 / u, 0
            while abs(t) > mp.eps * abs(s) / 1000:
                s += t
                k += 1
                t *= (2 * k - 1) / (2 * u * u)
                if k > abs(z) ** 2:
                    raise ZeroDivisionError
            w = 1j / mp.sqrt(mp.pi) * s
            if u is z:
                return w
            with mp.extradps(10):
                return 2 * mp.exp(-z * z) - w
        # w(z) = exp(-z^2) (1 + 2i/sqrt(pi) int_0^z exp(t^2) dt), the integral by its Taylor series
        with mp.extradps(int(0.9 * abs(z) ** 2) + 15):
            z2 = z * z
            t, s, k = z, mp.mpc(0), 0
            while True:
                d = t / (2 * k + 1)
                s += d
                if abs(d) < mp.eps * abs(s) * mpf(10) ** -3 and k > abs(z2) or z == 0:
                    break
                k += 1
                t *= z2 / k
            return mp.exp(-z2) * (1 + 2j / mp.sqrt(mp.pi) * s)

    def slack(self, c, want):
        return 0


def subjects(tier):
    out = [Debye(tier, "quad"), Debye(tier, "nsum"), HermiteE(tier), Marcum(tier, "marcumq"), Marcum(tier, "cmarcumq"),
           Xlogy(tier, "xlogy"), Xlogy(tier, "xlog1py"), Logbeta(tier), MLogbeta(tier), Logbinomial(tier), Logsumexp(tier),
           Legendre(tier), Pow1pm1(tier), Wright(tier), Faddeeva(tier)]
    return out + [Sph(tier, k) for k in "jyik"]
