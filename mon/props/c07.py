"""C07: entropy equals minus the expected log density."""
from mpmath import mp
from .. import cdist
from ..cont import ContSubject, bad_number
from ..core import mpf, show, integrate, Inconclusive
from ..moments import _points, _tl_expect

RULE = ("one fact = one value of entropy compared with the quadrature of -f log f of the model density; "
        "distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference densities in mon/cdist.py state the documented distributions",
               "values are compared to at most 20 digits; C16 covers higher precisions"]


def entropy_z(d, shape, dps):
    with mp.workdps(dps + 10):
        pts, w = _points(d, shape)
        a, b = d.supp_z(shape)

        def val(t):
            if t <= a or t >= b:
                return mp.zero
            l = d.logpdf_z(t, *shape)
            if not isinstance(l, mp.mpf) or not mp.isfinite(l):
                return mp.zero
            return -mp.exp(l) * l

        def f(base, off):
            if base != 0 and (base == a or base == b) and off != 0 and mp.mag(off) < mp.mag(base) - mp.prec // 3:
                with mp.workprec(mp.prec + 64 + mp.mag(base) - mp.mag(off)):
                    return val(base + off)
            return val(base + off)
        # panels are combined with one absolute scale: the entropy itself may vanish
        tot = mp.zero
        from .. import core
        for lo, hi in zip(pts[:-1], pts[1:]):
            prev = None
            for n in (6, 12, 24, 48, 96):
                v = core._panel(f, lo, hi, dps, n, w)
                if prev is not None and abs(v - prev) <= mpf(10) ** (-dps) * (1 + abs(v)):
                    break
                prev = v
            else:
                raise Inconclusive("quadrature did not converge")
            tot += v
        if not mp.isfinite(tot):
            raise Inconclusive("quadrature not finite")
        return tot


class S(ContSubject):
    fns = ("entropy",)
    quick = 40
    thorough = 700
    tshards = 2
    jsec = 8

    def __init__(self, name, tier):
        super().__init__(name)
        self.gbudget = 60 if tier == "quick" else 1000
        self.gtime = 8 if tier == "quick" else 120

    def fill(self, rng, case, p):
        case["dps"] = rng.choice([15, 15, 20, 25, 30, 50])
        case["_s"] = "random"
        return case

    def observe(self, case, call):
        return {"entropy": call(self.m.entropy, *self.params(case))}

    def judge(self, case, obs):
        d, p, dps = self.d, self.params(case), case["dps"]
        v = obs["entropy"]
        bad = bad_number(v)
        ctx = f"entropy{p!r} at dps={dps}"
        if bad:
            return 1, [("entropy", f"{ctx}: {bad}")]
        rd = min(dps, 20)
        with mp.workdps(rd + 15):
            loc, scale, shape = d.std(*p)
            want = entropy_z(d, shape, rd + 2) + mp.log(scale)
            amp = 1 + sum(abs(t) * (1 + abs(mp.log(abs(t)))) for t in shape if t != 0 and mp.isfinite(t)) + abs(mp.log(scale))
            if not abs(v - want) <= mpf(10) ** (1 - rd) * (1 + abs(want)) + mpf(10) ** (-dps) * amp:
                return 1, [("entropy", f"{ctx} = {show(v)}, -E[log pdf] = {show(want)}")]
        return 1, []


def subjects(tier):
    return [s for s in (S(n, tier) for n in cdist.D) if s.have]
