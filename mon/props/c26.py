"""C26: Box-Cox and Yeo-Johnson transforms, likelihoods and estimates."""
import math
from mpmath import mp
import mpmath
from ..core import mpf, show, hp, logu, unif, short
from ..engine import Subject, Exc
from ..fbase import Fn, fun, DPS, expslack

RULE = ("one fact = one transformed value or log-likelihood compared with its definition at adaptive precision, one ordered pair "
        "transformed in order, or one estimate of lambda whose neighbourhood was scanned with the reference likelihood; distinct = "
        "distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's log, exp, log1p and expm1 are correct to their working precision",
               "an estimator that stops with an exception makes no claim (documented: the numerical procedure may fail)"]


def bc(logx, lam):
    """(x**lam - 1)/lam from log x"""
    return logx if lam == 0 else mp.expm1(lam * logx) / lam


def lambdas(rng):
    return rng.choice([0, 0.0, 1, 2, 2.0, -1, 0.5, unif(rng, -4, 5), unif(rng, -4, 5), logu(rng, 1e-30, 1), -logu(rng, 1e-30, 1),
                       2 + logu(rng, 1e-12, 1), 2 - logu(rng, 1e-12, 1), unif(rng, -30, 30)])


class Tr(Fn):
    names = ("x", "lam")
    quick = 1200
    thorough = 10000
    thorough = 8000

    def __init__(self, tier, name):
        self.name, self.path = name, "stats." + name
        super().__init__(tier)

    def args(self, rng):
        if self.name == "boxcox":
            x = rng.choice([logu(rng, 1e-6, 1e6), 1 + logu(rng, 1e-14, 1), 1 - logu(rng, 1e-14, 0.9), 1.0, 1, logu(rng, 1e-100, 1e100), unif(rng, 0, 20)])
        elif self.name == "boxcox1p":
            x = rng.choice([logu(rng, 1e-80, 1e6), -logu(rng, 1e-30, 0.9), -1 + logu(rng, 1e-14, 1), 0.0, 0, unif(rng, -1, 20)])
        else:
            x = rng.choice([-1, 1]) * rng.choice([logu(rng, 1e-80, 1e6), logu(rng, 1e-3, 1e3), 0.0, unif(rng, 0, 20)])
        lam = lambdas(rng)
        r = rng.random()
        return {"x": short(rng, x) if isinstance(x, float) else x, "lam": short(rng, lam) if isinstance(lam, float) and r < 0.7 else lam,
                "step": logu(rng, 1e-12, 1)}

    def dom(self, c):
        lo = {"boxcox": 0, "boxcox1p": -1, "yeojohnson": -1e120}[self.name]
        return lo < c["x"] < 1e120 and abs(c["lam"]) <= 40 and isinstance(c["step"], float) and 0 < c["step"] <= 2

    def L(self, c, x=None):
        x, lam = mpf(c["x"]), mpf(c["lam"])
        if self.name == "boxcox":
            return mp.log(x), lam, 1
        if self.name == "boxcox1p" or x >= 0:
            return mp.log1p(x), lam, 1
        return mp.log1p(-x), 2 - lam, -1

    def ref(self, c):
        with mp.extradps(45):
            l, lam, s = self.L(c)
            return s * bc(l, lam)

    def slack(self, c, want):
        l, lam, s = self.L(c)
        e = lam * l
        return expslack(c, e, want) if e > 1 else 0

    def extra(self, c, call):
        x = c["x"]
        y = x + abs(x) * c["step"] if x else c["step"]
        return {"y": y, "w": call(self.f, y, c["lam"])}

    def more(self, c, obs, want):
        v, w = obs["v"], obs["w"]
        if isinstance(v, Exc) or isinstance(w, Exc) or not obs["y"] > c["x"]:
            return 0, []
        with mp.workdps(c["dps"] + 10):
            if not w >= v - mpf(10) ** (3 - c["dps"]) * abs(v) * (1 + abs(mp.log(abs(v) + 1))):
                return 1, [("increasing", f"{self.show_call(c)} = {show(v)} but at the larger x={obs['y']!r} it is {show(w)}")]
        return 1, []


def transformed(kind, lam, x):
    if kind == "boxcox":
        return [bc(mp.log(t), lam) for t in x]
    return [bc(mp.log1p(t), lam) if t >= 0 else -bc(mp.log1p(-t), 2 - lam) for t in x]


def llf(kind, lam, x):
    y = transformed(kind, lam, x)
    n = len(x)
    m = mp.fsum(y) / n
    v = mp.fsum((t - m) ** 2 for t in y) / n
    j = mp.fsum(mp.log(t) for t in x) if kind == "boxcox" else mp.fsum(mp.sign(t) * mp.log1p(abs(t)) for t in x)
    return (lam - 1) * j - mpf(n) / 2 * mp.log(v), abs(lam - 1) * abs(j) + mpf(n) / 2 * abs(mp.log(v))


def dllf(kind, lam, x):
    """exact derivative of the profile log-likelihood"""
    n = len(x)
    y, dy = [], []
    for t in x:
        if kind == "boxcox":
            l, a, s = mp.log(t), lam, 1
        elif t >= 0:
            l, a, s = mp.log1p(t), lam, 1
        else:
            l, a, s = mp.log1p(-t), 2 - lam, -1
        if a == 0:
            y.append(s * l)
            dy.append(l * l / 2)
        else:
            e = mp.exp(a * l)
            y.append(s * (e - 1) / a)
            dy.append((a * l * e - (e - 1)) / (a * a))
    m, dm = mp.fsum(y) / n, mp.fsum(dy) / n
    v = mp.fsum((t - m) ** 2 for t in y)
    c = mp.fsum((t - m) * (u - dm) for t, u in zip(y, dy))
    j = mp.fsum(mp.log(t) for t in x) if kind == "boxcox" else mp.fsum(mp.sign(t) * mp.log1p(abs(t)) for t in x)
    return j - n * c / v


def sample(rng, kind):
    n = rng.choice([3, 4, 5, 6, 8, 12])
    k = rng.random()
    if kind == "boxcox":
        s = rng.choice([1, 1, 10, 0.1, 1000])
        if k < 0.4:
            x = [s * math.exp(rng.gauss(0, rng.choice([0.2, 0.7, 1.5]))) for _ in range(n)]
        elif k < 0.8:
            x = [s * (rng.random() + rng.choice([0.05, 1])) for _ in range(n)]
        else:
            x = [float(rng.randrange(1, 40)) for _ in range(n)]
    else:
        s = rng.choice([1, 1, 5, 0.2])
        o = rng.choice([0, 0, 1, -1, 3])
        x = [s * (rng.gauss(0, 1) + o) if k < 0.6 else s * (rng.expovariate(1) * (1 if o >= 0 else -1) + o) for _ in range(n)]
    return [short(rng, t, 12) for t in x]


class LLF(Fn):
    names = ("lam", "x")
    quick = 600
    thorough = 5000
    kind = "llf"

    def __init__(self, tier, kind):
        self.k = kind
        self.name, self.path = kind + "_llf", "stats." + kind + "_llf"
        super().__init__(tier)

    def args(self, rng):
        lam = lambdas(rng)
        return {"x": sample(rng, self.k), "lam": short(rng, lam) if isinstance(lam, float) else lam}

    def dom(self, c):
        x = c["x"]
        if not (isinstance(x, list) and 2 <= len(x) <= 20 and abs(c["lam"]) <= 40):
            return False
        if self.k == "boxcox" and min(x) <= 0:
            return False
        s = sorted(x)
        return all(t == 0 or 1e-6 < abs(t) < 1e6 for t in x) and s[-1] - s[0] > 1e-6 * max(abs(s[0]), abs(s[-1]))

    def ref(self, c):
        with mp.extradps(60):
            return llf(self.k, mpf(c["lam"]), [mpf(t) for t in c["x"]])[0]

    def slack(self, c, want):
        with mp.extradps(60):
            return mpf(10) ** (1 - c["dps"]) * (llf(self.k, mpf(c["lam"]), [mpf(t) for t in c["x"]])[1] + len(c["x"]))

    def extra(self, c, call):
        return {"rev": call(self.f, c["lam"], tuple(c["x"][::-1]))}

    def more(self, c, obs, want):
        return 1, self.compare(c, obs["rev"], want, self.show_call(c) + " reversed")


class MLE(Subject):
    quick = 120
    thorough = 600
    cost = 8
    guided = False
    jsec = 60

    def __init__(self, tier, kind):
        self.k = kind
        self.name = kind + "_mle"
        self.f = fun("stats." + self.name)
        self.have = True

    def gen(self, rng):
        c = {"x": sample(rng, self.k), "dps": rng.choice([15, 15, 20, 30]), "lam0": None}
        if rng.random() < 0.5:
            c["lam0"] = rng.choice([0, 1, -1, 0.5, 2, short(rng, unif(rng, -2, 3))])
        return c

    def valid(self, c):
        x = c["x"]
        return (isinstance(x, list) and 3 <= len(x) <= 20 and len(set(x)) >= 3 and all(math.isfinite(t) for t in x)
                and (self.k != "boxcox" or min(x) > 0) and 10 <= c["dps"] <= 60)

    def observe(self, c, call):
        return {"v": call(self.f, c["x"], **({} if c["lam0"] is None else {"lam0": c["lam0"]}))}

    def judge(self, c, obs):
        v = obs["v"]
        what = f"{self.name}({c['x']}" + ("" if c["lam0"] is None else f", lam0={c['lam0']}") + f") at dps={c['dps']}"
        if isinstance(v, Exc):
            return (0, []) if v.type in ("ValueError", "ZeroDivisionError") else (1, [("raised", f"{what}: {v!r}")])
        if not isinstance(v, mpmath.mpf) or not mp.isfinite(v):
            return 1, [("value", f"{what} returned {v!r}")]
        x = [mpf(t) for t in c["x"]]
        dps = c["dps"]
        with mp.workdps(3 * dps + 40 + int(abs(v) * 3)):
            if abs(v) > 60:
                return 0, []
            best = llf(self.k, v, x)[0]
            for s in (1, -1):
                for h in ("1e-4", "1e-3", "0.01"):
                    w = llf(self.k, v + s * mpf(h), x)[0]
                    if w > best + mpf(10) ** (5 - dps) * (1 + abs(best)):
                        return 1, [("maximum", f"{what} = {show(v)} with log-likelihood {show(best)}, but at lambda {s * float(h):+g} "
                                    f"it is larger: {show(w)}")]
            # accuracy: the derivative changes sign within the working precision
            d = mpf(10) ** (-(dps * 2) // 3) * max(1, abs(v))
            a, b = dllf(self.k, v - d, x), dllf(self.k, v + d, x)
            if not (a >= 0 >= b):
                return 1, [("stationary", f"{what} = {show(v)}: slope of the log-likelihood is {show(a)} just below and {show(b)} just above")]
        return 1, []


def subjects(tier):
    return [Tr(tier, n) for n in ("boxcox", "boxcox1p", "yeojohnson")] + \
        [LLF(tier, "boxcox"), LLF(tier, "yeojohnson"), MLE(tier, "boxcox"), MLE(tier, "yeojohnson")]
