"""C23: sample means, variances and counts match their definitions."""
import fractions
import math
from collections import Counter
from mpmath import mp
import mpmath
from ..core import mpf, show, hp, logu, unif, short
from ..engine import Subject, Exc
from ..fbase import fun, DPS

RULE = ("one fact = one value compared with its definition (exact rational arithmetic where the definition is rational, adaptive "
        "precision otherwise), one reordering or replication of the data that must not change the result, one bound or monotonicity "
        "relation, or one invalid argument rejected; distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's exp, log and power are correct to their working precision"]
F = fractions.Fraction


def qm(q):
    return mpf(q.numerator) / q.denominator


def num(rng, kind):
    if kind == "int":
        return rng.randrange(1, 30)
    if kind == "wide":
        return short(rng, logu(rng, 1e-30, 1e30))
    if kind == "tight":
        return 1.0 + short(rng, rng.random() * 1e-6, 10)
    return short(rng, unif(rng, 0.1, 20))


def data(rng, sign=False):
    n = rng.choice([1, 2, 2, 3, 4, 5, 8, 13])
    kind = rng.choice(["int", "mid", "mid", "wide", "tight"])
    x = [num(rng, kind) for _ in range(n)]
    if sign:
        x = [t if rng.random() < 0.6 else -t for t in x]
    if n > 1 and rng.random() < 0.3:
        x[0] = x[-1]
    if rng.random() < 0.12:
        x[rng.randrange(n)] = rng.choice([0, 0.0])
    if rng.random() < 0.1:
        x = [x[0]] * n
    return x


class St(Subject):
    quick = 1500
    thorough = 20000
    signed = False

    def __init__(self, tier, name):
        self.name = name
        self.f = fun("stats." + name)
        self.have = True
        self.gbudget = 150 if tier == "quick" else 3000

    def more(self, rng, c):
        return c

    def gen(self, rng):
        x = data(rng, self.signed)
        c = {"x": x, "w": None, "dps": rng.choice(DPS), "form": rng.choice(["list", "tuple", "mpf"])}
        if self.weighted and rng.random() < 0.5:
            c["w"] = [rng.choice([0, 1, 2, 3, 0.5, 1.25, short(rng, logu(rng, 1e-3, 1e3))]) for _ in x]
            if rng.random() < 0.4:
                c["w"] = [rng.randrange(0, 5) for _ in x]
            if self.name == "mean" and rng.random() < 0.3:
                c["w"] = [t if rng.random() < 0.7 else -t for t in c["w"]]
            if rng.random() < 0.05:
                c["w"] = [0 for _ in x] if rng.random() < 0.5 else c["w"] + [1]
        return self.more(rng, c)

    weighted = True

    def valid(self, c):
        x, w = c["x"], c["w"]
        def ok(t):
            return isinstance(t, (int, float)) and not isinstance(t, bool) and math.isfinite(t) and (t == 0 or 1e-40 < abs(t) < 1e40)
        if not (isinstance(x, list) and 1 <= len(x) <= 20 and all(ok(t) for t in x) and 10 <= c["dps"] <= 120):
            return False
        if w is not None and not (isinstance(w, list) and all(ok(t) for t in w)):
            return False
        return self.dom(c)

    def dom(self, c):
        return True

    def kw(self, c):
        return {}

    def arg(self, c, x):
        return tuple(x) if c["form"] == "tuple" else [mp.mpf(t) for t in x] if c["form"] == "mpf" else list(x)

    def observe(self, c, call):
        k = self.kw(c)
        w = {} if c["w"] is None else {"weights": c["w"]}
        o = {"v": call(self.f, self.arg(c, c["x"]), **k, **w)}
        if c["w"] is None:
            o["rev"] = call(self.f, c["x"][::-1], **k)
        elif len(c["w"]) == len(c["x"]):
            o["rev"] = call(self.f, c["x"][::-1], weights=c["w"][::-1], **k)
            if all(isinstance(t, int) and 0 <= t < 6 for t in c["w"]) and sum(c["w"]) and all(t > 0 for t in c["x"]) | (self.name == "mean"):
                rep = [t for t, m in zip(c["x"], c["w"]) for _ in range(m)]
                if not (self.name in ("pmean",) and 0 in c["x"]):
                    o["rep"] = call(self.f, rep, **k)
        return o

    def what(self, c):
        return f"{self.name}({c['x']}" + ("" if c["w"] is None else f", weights={c['w']}") + \
            "".join(f", {k}={v!r}" for k, v in self.kw(c).items()) + f") at dps={c['dps']}"

    def ref(self, c):
        """F, mpf, or a string naming an exception type (or a tuple of them)"""
        raise NotImplementedError

    def rel(self, c, want):
        return mpf(10) ** (2 - c["dps"])

    def judge(self, c, obs):
        want = self.reference(c)
        vio = []
        if want is None:
            return 0, []
        n = 0
        with mp.workdps(c["dps"] + 25):
            for k, v in obs.items():
                n += 1
                lab = {"v": "", "rev": " with the data reversed", "rep": " with weights written as repetitions"}[k]
                if isinstance(want, (str, tuple)):
                    names = (want,) if isinstance(want, str) else want
                    if not (isinstance(v, Exc) and v.type in names):
                        vio.append(("domain", f"{self.what(c)}{lab} must raise {want}, got {v!r}"))
                    continue
                if isinstance(v, Exc):
                    vio.append(("raised", f"{self.what(c)}{lab}: {v!r}"))
                    continue
                if not isinstance(v, mpmath.mpf):
                    vio.append(("type", f"{self.what(c)}{lab} returned {v!r}"))
                    continue
                if mp.isnan(want) or mp.isinf(want):
                    ok = mp.isnan(v) if mp.isnan(want) else v == want
                else:
                    ok = abs(v - want) <= self.rel(c, want) * abs(want)
                if not ok:
                    vio.append(("value", f"{self.what(c)}{lab} = {show(v)}, the definition gives {show(want)}"))
            m, more = self.relations(c, obs, want)
        return n + m, vio + more

    def relations(self, c, obs, want):
        return 0, []

    def reference(self, c):
        def f():
            r = self.ref(c)
            return qm(r) if isinstance(r, F) else r
        r = self.ref(c)
        if r is None or isinstance(r, (str, tuple)):
            return r
        if isinstance(r, F):
            with mp.workdps(c["dps"] + 30):
                return qm(r)
        return hp(f, c["dps"] + 8)


def ws(c):
    return c["w"] if c["w"] is not None else [1] * len(c["x"])


class Mean(St):
    signed = True

    def ref(self, c):
        w = ws(c)
        if len(w) != len(c["x"]):
            return "ValueError"
        fw = [F(t) for t in w]
        if sum(fw) == 0:
            return ("ZeroDivisionError", "ValueError")
        return sum(F(x) * t for x, t in zip(c["x"], fw)) / sum(fw)


class Var(St):
    signed = True
    weighted = False

    def more(self, rng, c):
        c["ddof"] = rng.choice([None, None, 0, 1, 1, 2, 0.5])
        if rng.random() < 0.2:
            off = rng.choice([1e3, 1e6, -1e8])
            c["x"] = [short(rng, off + t, 53) for t in c["x"]]
        if self.name == "variation" and rng.random() < 0.5:
            c["x"] = [abs(t) for t in c["x"]]
        return c

    def dom(self, c):
        d = c["ddof"]
        return d is None or isinstance(d, (int, float)) and 0 <= d < len(c["x"])

    def kw(self, c):
        return {} if c["ddof"] is None else {"ddof": c["ddof"]}

    def base(self, c):
        x = [F(t) for t in c["x"]]
        n = len(x)
        d = c["ddof"] if c["ddof"] is not None else (1 if self.name == "variation" else 0)
        if n - d <= 0:
            return None, None
        m = sum(x) / n
        return sum((t - m) ** 2 for t in x) / (n - F(d)), m

    def ref(self, c):
        v, m = self.base(c)
        if v is None:
            return None
        if self.name == "var":
            return v
        if self.name == "std":
            return mp.sqrt(qm(v))
        if m == 0:
            return None
        return mp.sqrt(qm(v)) / qm(m)

    def rel(self, c, want):
        v, m = self.base(c)
        if not v:
            return mpf(10) ** (2 - c["dps"])
        # the mean is rounded 16 bits below the working precision
        e = (mpf(2) ** -16 * mpf(10) ** (-c["dps"])) ** 2 * qm(m * m) / qm(v) * 10
        return mpf(10) ** (2 - c["dps"]) + e

    def relations(self, c, obs, want):
        if self.name == "variation":
            return 0, []
        v = obs["v"]
        bad = [] if isinstance(v, Exc) or v >= 0 else [("sign", f"{self.what(c)} = {show(v)} is negative")]
        if want == 0 and not isinstance(v, Exc) and v == 0:
            return 1, []
        return 1, bad

    def judge(self, c, obs):
        v, m = self.base(c)
        if v is not None and v == 0 and (self.name != "variation" or m):
            # equal values: the variance is the squared rounding error of the mean
            vio = []
            with mp.workdps(c["dps"] + 20):
                tol = abs(qm(m)) * mpf(2) ** -14 * mpf(10) ** (-c["dps"])
                for k, g in obs.items():
                    lim = tol ** 2 if self.name == "var" else tol if self.name == "std" else tol / abs(qm(m))
                    if isinstance(g, Exc) or not abs(g) <= lim * len(c["x"]):
                        vio.append(("value", f"{self.what(c)} = {g!r}, should be 0"))
            return len(obs), vio
        return super().judge(c, obs)


def cond_log(c):
    return max([abs(math.log(abs(t))) for t in c["x"] if t] or [0])


class GMean(St):
    def more(self, rng, c):
        if rng.random() < 0.06:
            c["x"][0] = rng.choice([-1, -2.5, -1e-30])
        return c

    def ref(self, c):
        if any(t < 0 for t in c["x"]) or len(ws(c)) != len(c["x"]):
            return "ValueError"
        w = [F(t) for t in ws(c)]
        if any(t < 0 for t in w):
            return None
        if sum(w) == 0:
            return "ValueError"
        if any(t == 0 and k for t, k in zip(c["x"], w)):
            return F(0)
        return mp.exp(mp.fsum(qm(k) * mp.log(mpf(t)) for t, k in zip(c["x"], w) if k) / qm(sum(w)))

    def rel(self, c, want):
        return mpf(10) ** (2 - c["dps"]) * (1 + mpf(cond_log(c)) * mpf(10) ** -3)

    def relations(self, c, obs, want):
        return bounds(self, c, obs)


def bounds(s, c, obs):
    v = obs["v"]
    if isinstance(v, Exc) or any(t < 0 for t in c["x"]) or not isinstance(v, mpmath.mpf):
        return 0, []
    use = [mpf(t) for t, k in zip(c["x"], ws(c)) if k]
    if not use or any(k < 0 for k in ws(c)) or 0 in c["x"]:
        return 0, []
    e = mpf(10) ** (2 - c["dps"])
    if not min(use) * (1 - e) <= v <= max(use) * (1 + e):
        return 1, [("bounds", f"{s.what(c)} = {show(v)} is not between the smallest and the largest value")]
    return 1, []


class HMean(St):
    def more(self, rng, c):
        r = rng.random()
        if r < 0.2:
            c["x"] = [t if rng.random() < 0.6 else -t for t in c["x"]]
        elif r < 0.26:
            c["x"] = [c["x"][0], -c["x"][0]]
            c["w"] = None
        return c

    def sum(self, c):
        w = [F(t) for t in ws(c)]
        return sum(k / F(t) for t, k in zip(c["x"], w)), sum(k / abs(F(t)) for t, k in zip(c["x"], w)), sum(w)

    def ref(self, c):
        if 0 in c["x"]:
            return F(0)
        w = ws(c)
        if len(w) != len(c["x"]):
            return "ValueError"
        if any(k < 0 for k in w):
            return None
        s, a, t = self.sum(c)
        if t == 0:
            return ("ZeroDivisionError", "ValueError")
        if s == 0:
            return mp.nan if len(c["x"]) == 2 else None
        if a / abs(s) > 10 ** 6:
            return None
        return t / s

    def rel(self, c, want):
        if 0 in c["x"]:
            return 0
        s, a, t = self.sum(c)
        return mpf(10) ** (2 - c["dps"]) + mpf(10) ** (-c["dps"] - 3) * qm(a) / abs(qm(s))

    def relations(self, c, obs, want):
        return bounds(self, c, obs)


def powers(rng):
    return rng.choice([0, 1, -1, 2, 3, -2, 0.5, 0.0, 1.0, -1.0, math.inf, -math.inf, unif(rng, -5, 5), unif(rng, -40, 40),
                       logu(rng, 1e-14, 1), -logu(rng, 1e-14, 1), 1 + logu(rng, 1e-8, 1e-2)])


class PMean(St):
    def more(self, rng, c):
        c["p"] = powers(rng)
        c["q"] = powers(rng)
        if c["p"] == 2 and rng.random() < 0.3:
            c["x"] = [-t if rng.random() < 0.5 else t for t in c["x"]]
        return c

    def valid(self, c):
        def okp(p):
            return isinstance(p, (int, float)) and p == p and (math.isinf(p) or p == 0 or 1e-15 < abs(p) < 60)
        return okp(c["p"]) and okp(c["q"]) and super().valid(c)

    def dom(self, c):
        return c["p"] == 2 or all(t >= 0 for t in c["x"])

    def kw(self, c):
        return {"p": c["p"]}

    def observe(self, c, call):
        o = super().observe(c, call)
        w = {} if c["w"] is None else {"weights": c["w"]}
        if all(t >= 0 for t in c["x"]):
            o["q"] = call(self.f, self.arg(c, c["x"]), p=c["q"], **w)
        return o

    def judge(self, c, obs):
        o = dict(obs)
        q = o.pop("q", None)
        n, vio = super().judge(c, o)
        v = obs["v"]
        p, r = c["p"], c["q"]
        if isinstance(v, mpmath.mpf) and isinstance(q, mpmath.mpf) and all(k >= 0 for k in ws(c)) and mp.isfinite(v) and mp.isfinite(q):
            if not (math.isinf(p) or math.isinf(r)) or any(k > 0 for k in ws(c)):
                if not (0 in c["x"] and 0 in ws(c)):
                    n += 1
                    with mp.workdps(c["dps"] + 10):
                        e = mpf(10) ** (3 - c["dps"])
                        if (p < r and v > q * (1 + e)) or (p > r and v * (1 + e) < q):
                            vio = vio + [("monotone", f"{self.what(c)} = {show(v)} but the power mean with p={r!r} is {show(q)}")]
        return n, vio

    def ref(self, c):
        x, w, p = c["x"], ws(c), c["p"]
        if p == 0:
            return GMean.ref(self, c)
        if p == 1:
            return Mean.ref(self, c)
        if p == -1:
            return HMean.ref(self, c)
        if math.isinf(p):
            if len(w) != len(x) or sum(w) == 0:
                return None
            x = [t for t, k in zip(x, w) if k]
            return F(max(x)) if p > 0 else F(min(x))
        if p < 0 and 0 in x:
            return F(0) if len(w) == len(x) else None
        if len(w) != len(x):
            return "ValueError"
        if any(k < 0 for k in w):
            return None
        t = sum(F(k) for k in w)
        if t == 0:
            return ("ZeroDivisionError", "ValueError")
        m = mp.fsum(qm(F(k)) * abs(mpf(a)) ** mpf(p) for a, k in zip(x, w) if k and a) / qm(t)
        if m == 0:
            return F(0)
        return mp.exp(mp.log(m) / mpf(p))

    sum = HMean.sum

    def rel(self, c, want):
        p = c["p"]
        if p == -1 and 0 not in c["x"]:
            return HMean.rel(self, c, want)
        return mpf(10) ** (2 - c["dps"]) * (1 + mpf(cond_log(c)) * mpf(10) ** -3)

    def relations(self, c, obs, want):
        if any(t < 0 for t in c["x"]):
            return 0, []
        return bounds(self, c, obs)


class Lehmer(St):
    def more(self, rng, c):
        c["p"] = powers(rng)
        if rng.random() < 0.06:
            c["x"][0] = rng.choice([0, -1.5, 0.0, -3])
        return c

    def valid(self, c):
        p = c["p"]
        return isinstance(p, (int, float)) and p == p and (math.isinf(p) or abs(p) < 60) and super().valid(c)

    def kw(self, c):
        return {"p": c["p"]}

    def ref(self, c):
        x, w, p = c["x"], ws(c), c["p"]
        if any(t <= 0 for t in x):
            return "ValueError"
        if math.isinf(p):
            if len(w) != len(x) or sum(w) == 0:
                return None
            x = [t for t, k in zip(x, w) if k]
            return F(max(x)) if p > 0 else F(min(x))
        if len(w) != len(x):
            return "ValueError"
        if any(k < 0 for k in w):
            return None
        if sum(F(k) for k in w) == 0:
            return ("ZeroDivisionError", "ValueError")
        a = mp.fsum(mpf(k) * mpf(t) ** mpf(p) for t, k in zip(x, w))
        b = mp.fsum(mpf(k) * mpf(t) ** (mpf(p) - 1) for t, k in zip(x, w))
        return a / b

    def rel(self, c, want):
        return mpf(10) ** (2 - c["dps"]) * (1 + mpf(cond_log(c)) * mpf(10) ** -3)

    def judge(self, c, obs):
        n, vio = super().judge(c, obs)
        if c["p"] == 0.5 and vio and all(t == "value" for t, m in vio):
            # documented as the geometric mean; keep watching that it is that
            g = GMean.ref(self, c)
            if isinstance(g, mpmath.mpf):
                g = hp(lambda: GMean.ref(self, c), c["dps"] + 8)
                with mp.workdps(c["dps"] + 20):
                    if all(abs(v - g) <= self.rel(c, g) * g for v in obs.values()):
                        vio = [("half", m) for t, m in vio]
        return n, vio

    def relations(self, c, obs, want):
        return bounds(self, c, obs)


class Unique(Subject):
    name = "unique_counts"
    quick = 300
    thorough = 5000

    def __init__(self, tier):
        self.f = fun("stats.unique_counts")
        self.have = True
        self.gbudget = 100

    def gen(self, rng):
        n = rng.choice([0, 1, 2, 5, 9, 20])
        return {"x": [rng.choice([rng.randrange(-3, 4), float(rng.randrange(0, 3)), 0.5, short(rng, unif(rng, -1, 1), 3)]) for _ in range(n)], "dps": 15}

    def valid(self, c):
        return isinstance(c["x"], list) and len(c["x"]) < 40 and all(isinstance(t, (int, float)) and t == t for t in c["x"]) and c["dps"] == 15

    def observe(self, c, call):
        return {"v": call(self.f, list(c["x"])), "r": call(self.f, tuple(c["x"][::-1]))}

    def judge(self, c, obs):
        cnt = Counter(c["x"])
        want = sorted(cnt.items())
        vio = []
        for k, v in obs.items():
            if isinstance(v, Exc):
                vio.append(("value", f"unique_counts({c['x']}): {v!r}"))
                continue
            a, b = list(v[0]), list(v[1])
            if list(zip(a, b)) != want or len(a) != len(b):
                vio.append(("counts", f"unique_counts({c['x']}) [{k}] = {v!r}"))
        return 2, vio


def subjects(tier):
    return [Mean(tier, "mean"), Var(tier, "var"), Var(tier, "std"), Var(tier, "variation"), GMean(tier, "gmean"), HMean(tier, "hmean"),
            PMean(tier, "pmean"), Lehmer(tier, "lehmer_mean"), Unique(tier)]
