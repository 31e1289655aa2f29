"""C08: interval_prob is the probability of the interval, without cancellation."""
import math
from mpmath import mp
from .. import cdist
from ..cont import ContSubject, bad_number, tol_of, cap_ok, gen_point
from ..core import mpf, show, hp, logu, INF
from ..engine import Exc

RULE = ("one fact = one interval_prob value compared with the exact probability of the interval from the model (difference of "
        "cdf or sf values at adaptive precision), or x1 > x2 rejected; distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference models in mon/cdist.py state the documented distributions",
               "rounding of the standardised end points is allowed for"]


class S(ContSubject):
    fns = ("interval_prob",)
    quick = 600
    thorough = 8000
    tshards = 4
    shards = 2

    def __init__(self, name, tier):
        super().__init__(name)
        self.gbudget = 400 if tier == "quick" else 4000

    def fill(self, rng, case, p):
        x, lab = gen_point(rng, self.d, p)
        r = rng.random()
        if r < 0.45:
            y, lab2 = gen_point(rng, self.d, p)
        elif r < 0.55:
            y = x
        elif math.isfinite(x):
            s = max(abs(x), 1e-3) * logu(rng, 1e-14, 1)
            y = x + s
        else:
            y = x
        if r < 0.9 and y < x:
            x, y = y, x
        case["x1"], case["x2"] = x, y
        case["_s"] = "reversed" if x > y else "wide" if r < 0.45 else "equal" if x == y else "narrow"
        return case

    def valid(self, case):
        p = self.params(case)
        return super().valid(case) and all(isinstance(case[k], (int, float)) and case[k] == case[k] and cap_ok(self.d, p, case[k])
                                           for k in ("x1", "x2"))

    def observe(self, case, call):
        return {"ip": call(self.m.interval_prob, case["x1"], case["x2"], *self.params(case))}

    def judge(self, case, obs):
        d, p, dps, x1, x2 = self.d, self.params(case), case["dps"], case["x1"], case["x2"]
        v = obs["ip"]
        ctx = f"interval_prob({x1!r}, {x2!r}, *{p!r}) at dps={dps}"
        if x1 > x2:
            if isinstance(v, Exc) and v.type == "ValueError":
                return 1, []
            return 1, [("order", f"{ctx}: x1 > x2 must raise ValueError, got {v!r}")]
        bad = bad_number(v)
        if bad:
            return 1, [("value", f"{ctx}: {bad}")]
        if x1 == x2:
            return 1, [] if v == 0 else [("value", f"{ctx} = {show(v)}, should be 0")]

        def ref():
            c = d.cdf(mpf(x1), *p)
            if c < 0.5:
                return d.cdf(mpf(x2), *p) - c
            return d.sf(mpf(x1), *p) - d.sf(mpf(x2), *p)
        with mp.workdps(dps + 10):
            loc, scale, shape = d.std(*p)
            a, b = d.supp_z(shape)
            z1, z2 = [t if mp.isinf(t) else (mpf(t) - loc) / scale for t in (x1, x2)]
            if z2 <= a or z1 >= b:
                return 1, [] if v == 0 else [("value", f"{ctx} = {show(v)}, the interval is outside the support")]
        want = hp(ref, dps + 4)
        with mp.workdps(dps + 15):
            cond = mp.zero
            for x in (x1, x2):
                if math.isfinite(x):
                    f = d.pdf(mpf(x), *p)
                    if mp.isfinite(f):
                        cond += f * (abs(mpf(x)) + abs(loc))
            tol = tol_of(dps, 3)
            if not abs(v - want) <= tol * want + tol_of(dps, 0) * cond:
                return 1, [("value", f"{ctx} = {show(v)}, exact probability {show(want)}")]
        return 1, []


def subjects(tier):
    return [s for s in (S(n, tier) for n in cdist.D) if s.have]
