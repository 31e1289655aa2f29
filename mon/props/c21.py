"""C21: inverse special functions invert their forward functions."""
import math
from mpmath import mp
import mpmath
from ..core import mpf, show, hp, logu, unif, short
from ..engine import Subject, Exc
from ..fbase import Fn, DPS, fun, expslack

RULE = ("one fact = one inverse value whose two neighbours at the working precision were mapped forward (at adaptive higher precision) "
        "and found to enclose the argument, or one call outside the domain judged by the documented outcome; distinct = distinct sets "
        "of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's digamma, log1p, expm1, hyp2f1 and gamma are correct to their working precision"]


def enclose(F, v, y, dps, lost, ylost, incr):
    """F at v(1-d) and v(1+d) on either side of y (allowing y to move by 10**(ylost-dps) of itself)"""
    with mp.workdps(dps + 20):
        d = mpf(10) ** (lost - dps)
        ys = mpf(10) ** (ylost - dps) * abs(y)
        lo, hi = (v - d * abs(v), v + d * abs(v))
        flo, fhi = F(lo), F(hi)
        if not incr:
            flo, fhi = fhi, flo
        return flo - ys <= y <= fhi + ys, flo, fhi


class DigammaInv(Fn):
    name = "digammainv"
    path = "fun.digammainv"
    names = ("y",)
    quick = 250

    def args(self, rng):
        r = rng.random()
        if r < 0.4:
            y = unif(rng, -12, 12)
        elif r < 0.6:
            y = -logu(rng, 1e-3, 1e8)
        elif r < 0.8:
            y = logu(rng, 1e-3, 1e4)
        elif r < 0.9:
            y = rng.choice([-0.125, -3.0, 0.0, 1.0, -0.5772156649015329]) + rng.choice([0, 1e-9, -1e-9, 1e-3, -1e-3])
        else:
            y = float(mp.digamma(logu(rng, 1e-6, 1e6)))
        return {"y": short(rng, y)}

    def dom(self, c):
        return -1e10 <= c["y"] <= 1e5

    def judge(self, c, obs):
        v, what = obs["v"], self.show_call(c)
        if not isinstance(v, mpmath.mpf):
            return 1, [("value", f"{what} returned {v!r}")]
        if not (v > 0 and mp.isfinite(v)):
            return 1, [("branch", f"{what} = {show(v)} is not a positive number")]
        y = mpf(c["y"])

        def F(x):
            with mp.extradps(40):
                return mp.digamma(x)
        # exp(y) inherits the rounding of y
        ok, lo, hi = enclose(F, v, y, c["dps"], 3, 1, True)
        if not ok:
            return 1, [("inverse", f"{what} = {show(v)}, but digamma maps its neighbours to [{show(lo)}, {show(hi)}]")]
        return 1, []


class BetaIncInv(Fn):
    path = "fun.betaincinv"
    names = ("a", "b", "y")
    quick = 45
    thorough = 800
    shards = 2
    tshards = 6
    cost = 3.0
    dpslist = [15, 15, 15, 20, 30]

    def __init__(self, tier, method):
        super().__init__(tier)
        self.method = method
        self.name = "betaincinv:" + method

    def args(self, rng):
        r = rng.random()
        sh = lambda: rng.choice([logu(rng, 0.2, 50), logu(rng, 0.5, 5), float(rng.randrange(1, 12)), rng.randrange(1, 20) / 2])
        a, b = short(rng, sh()), short(rng, sh())
        y = rng.choice([unif(rng, 0, 1), logu(rng, 1e-12, 1), 1 - logu(rng, 1e-9, 1)])
        if r < 0.06:
            y = rng.choice([0, 1, 0.0, 1.0])
        elif r < 0.1:
            y = rng.choice([-0.25, 1.5, -1e-30, 2, 1 + 2.0 ** -52])
        c = {"a": a, "b": b, "y": short(rng, y), "comp": rng.random() < 0.5}
        q = rng.random()
        if q < 0.25:
            c["given"] = unif(rng, 0.05, 0.95)
        return c

    def dom(self, c):
        if not (0.2 <= c["a"] <= 60 and 0.2 <= c["b"] <= 60 and isinstance(c.get("comp"), bool)):
            return False
        y = c["y"]
        if 0 < y < 1 and not (1e-14 <= y):
            return False
        g = c.get("given")
        return g is None or (isinstance(g, float) and 0 < g < 1)

    def kw(self, c):
        k = {"method": self.method, "complement": c["comp"]}
        g = c.get("given")
        if g is not None:
            k["method"] = ("findroot", g) if self.method == "findroot" else ("bisect", [0, 1] if g < 0.5 else [0.0, 1.0])
        return k

    def judge(self, c, obs):
        v, what, y = obs["v"], self.show_call(c), c["y"]
        if y < 0 or y > 1:
            ok = isinstance(v, Exc) and v.type == "ValueError" or not isinstance(v, Exc) and mp.isnan(v)
            return 1, [] if ok else [("domain", f"{what}: y outside [0, 1] gave {v!r}")]
        if y in (0, 1):
            want = 1 - y if c["comp"] else y
            return 1, [] if not isinstance(v, Exc) and v == want else [("limit", f"{what} = {v!r}, should be {want}")]
        if isinstance(v, Exc):
            if v.type == "RuntimeError" and self.method == "findroot":
                return 0, []            # documented: the solver may fail
            return 1, [("value", f"{what}: {v!r}")]
        if not isinstance(v, mpmath.mpf) or not 0 <= v <= 1:
            if self.method == "findroot" and isinstance(v, mpmath.mpf):
                return 0, []
            return 1, [("value", f"{what} = {v!r} is not in [0, 1]")]
        a, b = mpf(c["a"]), mpf(c["b"])

        def F(x):
            if x <= 0:
                return mp.one if c["comp"] else mp.zero
            if x >= 1:
                return mp.zero if c["comp"] else mp.one
            with mp.extradps(25):
                if c["comp"]:
                    return (1 - x) ** b * x ** a / (b * mp.beta(a, b)) * mp.hyp2f1(a + b, 1, b + 1, 1 - x)
                return x ** a * (1 - x) ** b / (a * mp.beta(a, b)) * mp.hyp2f1(a + b, 1, a + 1, x)
        if self.method == "bisect":
            ok, lo, hi = enclose(F, v, mpf(y), c["dps"], 2, 3, not c["comp"])
        else:
            with mp.workdps(c["dps"] + 20):
                lo = hi = F(v)
                ok = abs(lo - y) <= mpf(10) ** (-1 - c["dps"] / 2)      # mp.findroot squares its tolerance
                if not ok:
                    ok, lo, hi = enclose(F, v, mpf(y), c["dps"], 3, 3, not c["comp"])
        if not ok:
            return 1, [("inverse", f"{what} = {show(v)}, but the forward function maps it into [{show(lo)}, {show(hi)}]")]
        return 1, []


class Inv2(Fn):
    """inverse with respect to x of forward(x, q); value at y is a closed formula"""
    names = ("y", "q")
    forward = None
    quick = 200

    def extra(self, c, call):
        v = None
        return {}

    def ok_arg(self, c):
        raise NotImplementedError

    def judge(self, c, obs):
        v, what = obs["v"], self.show_call(c)
        st = self.ok_arg(c)
        if st == "bad":
            ok = isinstance(v, Exc) and v.type == "ValueError"
            return 1, [] if ok else [("domain", f"{what}: argument outside the domain must raise ValueError, got {v!r}")]
        if st == "edge":
            return 0, []
        return super().judge(c, obs)

    def slack(self, c, want):
        return expslack(c, self.E(c), want)

    def E(self, c):
        return 0


def exponents(rng):
    return rng.choice([unif(rng, -4, 4), logu(rng, 1e-12, 1), -logu(rng, 1e-12, 1), logu(rng, 1, 50), -logu(rng, 1, 50),
                       float(rng.choice([1, -1, 2, -2, 0.5, -0.5, 3]))])


def above_minus1(rng):
    return rng.choice([unif(rng, -1, 3), logu(rng, 1e-20, 1), -logu(rng, 1e-20, 1), logu(rng, 1, 1e10), -1 + logu(rng, 1e-12, 1)])


class InvPowm1(Inv2):
    name, path = "inv_powm1", "fun.inv_powm1"
    names = ("t", "y")
    shift = 0

    def args(self, rng):
        t, y = short(rng, above_minus1(rng)), short(rng, exponents(rng))
        r = rng.random()
        if r < 0.04:
            y = rng.choice([0, 0.0])
        elif r < 0.1:
            t = rng.choice([-1, -1.0, -1 - 2.0 ** -52, -2, -1e5])
        return {"t": t, "y": y}

    def ok_arg(self, c):
        return "bad" if c["y"] == 0 or c["t"] <= -1 else "in"

    def E(self, c):
        return mp.log1p(mpf(c["t"])) / mpf(c["y"])

    def dom(self, c):
        return abs(c["y"]) >= 1e-13 or c["y"] == 0

    def ref(self, c):
        return mp.exp(mp.log1p(mpf(c["t"])) / mpf(c["y"]))


class InvPow1pm1(InvPowm1):
    name, path = "inv_pow1pm1", "fun.inv_pow1pm1"

    def ref(self, c):
        return mp.expm1(mp.log1p(mpf(c["t"])) / mpf(c["y"]))

    def slack(self, c, want):
        return expslack(c, self.E(c), want) if want > 1 else 0


class InvBoxcox(Inv2):
    name, path = "inv_boxcox", "stats.inv_boxcox"
    names = ("y", "lam")
    one = 0

    def args(self, rng):
        lam = short(rng, rng.choice([0.0, exponents(rng), exponents(rng), exponents(rng)]))
        # y from a typical x, or arbitrary in the range
        r = rng.random()
        if lam == 0:
            y = rng.choice([unif(rng, -10, 10), logu(rng, 1e-20, 1), -logu(rng, 1e-20, 1), unif(rng, -100, 100)])
        elif r < 0.08:
            y = (-1 - logu(rng, 1e-10, 10)) / lam
        else:
            t = above_minus1(rng)
            y = t / lam
        return {"y": short(rng, y) if rng.random() < 0.5 else y, "lam": lam}

    def dom(self, c):
        return (c["lam"] == 0 or 1e-13 <= abs(c["lam"]) <= 100) and abs(c["y"]) <= 1e25 and (c["lam"] or abs(c["y"]) < 1e3)

    def prod(self, c):
        with mp.workdps(60):
            return mpf(c["lam"]) * mpf(c["y"])

    def ok_arg(self, c):
        if c["lam"] == 0:
            return "in"
        p = self.prod(c)
        return "bad" if p < -1 else "edge" if p == -1 else "in"

    def E(self, c):
        if c["lam"] == 0:
            return mpf(c["y"])
        return mp.log1p(self.prod(c)) / mpf(c["lam"])

    def ref(self, c):
        return mp.expm1(self.E(c)) if self.one else mp.exp(self.E(c))

    def slack(self, c, want):
        if self.one and want <= 1:
            return 0
        return expslack(c, self.E(c), want)


class InvBoxcox1p(InvBoxcox):
    name, path = "inv_boxcox1p", "stats.inv_boxcox1p"
    one = 1


class InvYeo(InvBoxcox):
    name, path = "inv_yeojohnson", "stats.inv_yeojohnson"
    one = 1

    def args(self, rng):
        c = super().args(rng)
        lam, y = c["lam"], c["y"]
        if rng.random() < 0.5:                   # lower branch: mirrored
            return {"y": -y, "lam": rng.choice([2.0 - lam, 2.0 - short(rng, lam, 8)])}
        return c

    def m(self, c):
        with mp.workdps(60):
            y, lam = mpf(c["y"]), mpf(c["lam"])
            return (1, y, lam) if y >= 0 else (-1, -y, 2 - lam)

    def dom(self, c):
        s, y, lam = self.m(c)
        return (lam == 0 or 1e-13 <= abs(lam) <= 100) and abs(y) <= 1e25 and (lam or abs(y) < 1e3)

    def prod(self, c):
        s, y, lam = self.m(c)
        with mp.workdps(80):
            return lam * y

    def ok_arg(self, c):
        s, y, lam = self.m(c)
        if lam == 0:
            return "in"
        p = self.prod(c)
        return "bad" if p < -1 else "edge" if p == -1 else "in"

    def E(self, c):
        s, y, lam = self.m(c)
        return y if lam == 0 else mp.log1p(self.prod(c)) / lam

    def ref(self, c):
        s, y, lam = self.m(c)
        return s * mp.expm1(self.E(c))

    def slack(self, c, want):
        return expslack(c, self.E(c), want) if abs(want) > 1 else 0


class Round(Fn):
    """inverse(forward(x)) through the library's own pair"""
    quick = 120

    def __init__(self, tier, name, fwd, inv):
        self.name, self.path = name, fwd
        super().__init__(tier)
        self.g = fun(inv)
    names = ("x", "q")

    def args(self, rng):
        lo = {"powm1": 0, "boxcox": 0, "yeojohnson": None}.get(self.name.split(":")[1], -1)
        if lo is None:
            x = rng.choice([-1, 1]) * logu(rng, 1e-6, 1e3)
        else:
            x = lo + logu(rng, 1e-6, 1e3)
        q = unif(rng, -3, 4) if rng.random() < 0.7 else float(rng.choice([0, 1, 2, -1, 0.5]))
        return {"x": short(rng, x), "q": short(rng, q)}

    def dom(self, c):
        lo = {"powm1": 0, "boxcox": 0, "yeojohnson": -1e4}.get(self.name.split(":")[1], -1)
        return lo < c["x"] < 1e4 and abs(c["q"]) <= 5 and (c["q"] != 0 or "pow" not in self.name)

    def observe(self, c, call):
        f = call(self.f, c["x"], c["q"])
        return {"f": f, "v": call(self.g, f, c["q"]) if not isinstance(f, Exc) else f}

    def judge(self, c, obs):
        v, f = obs["v"], obs["f"]
        what = f"{self.name}: x={c['x']!r}, parameter {c['q']!r}, dps={c['dps']}"
        x, q = mpf(c["x"]), mpf(c["q"])
        kind = self.name.split(":")[1]
        with mp.workdps(c["dps"] + 20):
            # relative rounding of the forward value moves the inverse by f / F'(x)
            if kind in ("powm1",):
                base, e = x, q
            elif kind == "boxcox":
                base, e = x, q
            elif kind in ("pow1pm1", "boxcox1p"):
                base, e = 1 + x, q
            else:
                base, e = (1 + x, q) if x >= 0 else (1 - x, 2 - q)
            fe = mp.log(base) if e == 0 else mp.powm1(base, e) / e
            move = abs(fe) * base ** (1 - e)
            if move > mpf(10) ** (c["dps"] - 6) * abs(x) or e != 0 and abs(base ** e) < mpf(10) ** (3 - c["dps"]):
                return 0, []             # the forward value has saturated
            if isinstance(v, Exc):
                return 1, [("round", f"{what}: {v!r}")]
            tol = mpf(10) ** (3 - c["dps"]) * abs(x) + mpf(10) ** (2 - c["dps"]) * move
            if not abs(v - x) <= tol:
                return 1, [("round", f"{what}: inverse(forward(x)) = {show(v)}")]
        return 1, []


def subjects(tier):
    return [DigammaInv(tier), BetaIncInv(tier, "findroot"), BetaIncInv(tier, "bisect"), InvPowm1(tier), InvPow1pm1(tier),
            InvBoxcox(tier), InvBoxcox1p(tier), InvYeo(tier),
            Round(tier, "round:pow1pm1", "fun.pow1pm1", "fun.inv_pow1pm1"),
            Round(tier, "round:boxcox", "stats.boxcox", "stats.inv_boxcox"),
            Round(tier, "round:boxcox1p", "stats.boxcox1p", "stats.inv_boxcox1p"),
            Round(tier, "round:yeojohnson", "stats.yeojohnson", "stats.inv_yeojohnson")]
