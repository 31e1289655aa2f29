"""Subjects comparing a function of mpsci.fun / mpsci.stats with an independent reference."""
import importlib
import math
from mpmath import mp
import mpmath
from .core import mpf, show, hp
from .engine import Subject, Exc

DPS = [15, 15, 15, 15, 17, 25, 34, 50]


def fun(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("mpsci." + mod), name)


def mag(x):
    return abs(x) if isinstance(x, (mpmath.mpf, mpmath.mpc)) else mp.mpf(abs(x))


class Fn(Subject):
    """one public function; subclasses give args(rng), dom(args), ref(args) and may refine slack(args, want)"""
    path = None
    names = ()
    lost = 3
    quick = 150
    thorough = 3000
    kind = "value"
    dpslist = DPS

    def __init__(self, tier="quick"):
        self.f = fun(self.path)
        self.have = True
        self.gbudget = 200 if tier == "quick" else 4000

    # -- to be refined
    def args(self, rng):
        raise NotImplementedError

    def dom(self, c):
        return True

    def kw(self, c):
        return {}

    def pos(self, c):
        return [c[k] for k in self.names]

    def ref(self, c):
        raise NotImplementedError

    def slack(self, c, want):
        """absolute error allowed besides lost digits of the value (called at the case's precision + 15)"""
        return mp.zero

    def extra(self, c, call):
        return {}

    def more(self, c, obs, want):
        return 0, []

    # -- engine interface
    def gen(self, rng):
        c = dict(self.args(rng))
        c["dps"] = rng.choice(self.dpslist)
        return c

    def numbers(self, c):
        for k in self.names:
            v = c.get(k)
            for t in (v if isinstance(v, list) else [v]):
                if not isinstance(t, (int, float)) or isinstance(t, bool) or not math.isfinite(t):
                    return False
        return True

    def valid(self, c):
        return isinstance(c.get("dps"), int) and 10 <= c["dps"] <= 120 and self.numbers(c) and bool(self.dom(c))

    def observe(self, c, call):
        o = {"v": call(self.f, *self.pos(c), **self.kw(c))}
        o.update(self.extra(c, call))
        return o

    def show_call(self, c):
        a = ", ".join([repr(t) for t in self.pos(c)] + [f"{k}={v!r}" for k, v in self.kw(c).items()])
        return f"{self.name}({a}) at dps={c['dps']}"

    def compare(self, c, v, want, what=None):
        what = what or self.show_call(c)
        if isinstance(v, Exc):
            return [(self.kind, f"{what}: {v!r}")]
        if isinstance(v, (int, float)):
            return [("type", f"{what} returned a {type(v).__name__}, not an mpmath number")]
        if not isinstance(v, (mpmath.mpf, mpmath.mpc)):
            return [("type", f"{what} returned {v!r}")]
        if mp.isnan(want) or mp.isinf(want):
            ok = (mp.isnan(want) and mp.isnan(v)) or v == want
            return [] if ok else [(self.kind, f"{what} = {show(v)}, should be {show(want)}")]
        with mp.workdps(c["dps"] + 15):
            tol = mpf(10) ** (self.lost - c["dps"]) * abs(want) + self.slack(c, want)
            if not abs(v - want) <= tol:
                e = abs(v - want) / (abs(want) or mp.one)
                return [(self.kind, f"{what} = {show(v)}, definition gives {show(want)} (relative error {mp.nstr(e, 3)})")]
        return []

    def judge(self, c, obs):
        want = hp(lambda: self.ref(c), c["dps"] + 6)
        vio = self.compare(c, obs["v"], want)
        n, more = self.more(c, obs, want)
        return 1 + n, vio + more


def expslack(c, logv, want, lost=1):
    """a value exp(E) computed from E inherits the rounding of E"""
    return mpf(10) ** (lost - c["dps"]) * abs(logv) * abs(want)
